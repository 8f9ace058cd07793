"""Mutable items are stored."""
from .lib import *
from .store import *
from ..equiv import equiv
from . import c11, c12, c14, c18

RULE = 'storing mutable items is compared path by path with its reference definition over arbitrary stores, settings and items; the eviction loop is aligned iteration by iteration'


def storing(c):
    r = equiv(c, D + 'put_mutable_item', 'dht::store::put_mutable', opaque=OPAQUE, setup=somewhere, opts=dict(merge=400))
    terminates(c, r)


# the importance of an item is decided by the distance of its key
RULES = [storing, c18.distances, c11.equality, c12.address, c14.ops]
