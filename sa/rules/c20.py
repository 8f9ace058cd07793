"""Saved DHT state."""
from .lib import *
from ..equiv import equiv

RULE = ('saving, reading and clearing the DHT state are compared path by path with reference definitions; '
        'the list loops are aligned iteration by iteration, so every entry, its bytes and its order are covered')
S = 'dht::state::'


def okval(I, st, v):
    if v.var != (0 if mir.ADTS[v.tag[1]]['name'] == 'Result' else 1):
        return Agg(('tuple',), 0, (False,))
    return v.f[0]


def clearing(c):
    equiv(c, S + 'DhtState::clear', 'dht::st::clear')


def saving(c):
    r = equiv(c, S + 'DhtState::save', 'dht::st::save')
    terminates(c, r)


def reading(c):
    r = equiv(c, S + 'extract_node_ids', 'dht::st::ids', proj=okval)
    terminates(c, r)
    r = equiv(c, S + 'DhtState::read', 'dht::st::read', proj=okval, opts=dict(loop_states=200, merge=400))
    terminates(c, r)


RULES = [clearing, saving, reading]
