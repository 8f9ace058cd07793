"""Peers are looked up."""
from .lib import *
from .store import *
from . import c11, c12, c14
from ..equiv import equiv
from .count import at_the_end

RULE = 'get_peers is compared path by path with its reference definition over arbitrary stores and requests; its loops are aligned iteration by iteration, for every outcome of the random choices'


def okval(I, st, v):
    if v.var != (0 if mir.ADTS[v.tag[1]]['name'] == 'Result' else 1):
        return Agg(('tuple',), 0, (False,))
    return v.f[0]


def lookup(c):
    r = equiv(c, D + 'get_peers', 'dht::store::get_peers', opaque=OPAQUE, proj=okval, allow=[at_the_end], opts=dict(merge=400, loop_states=60))
    terminates(c, r)


RULES = [lookup, c11.equality, c12.address, c14.ops]
