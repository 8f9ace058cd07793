"""Immutable items."""
from .lib import *
from .store import *
from ..equiv import equiv
from . import c11, c12, c14, c18

RULE = 'storing and reading immutable items is compared path by path with reference definitions over arbitrary stores, settings and items; the eviction loop is aligned iteration by iteration'


def storing(c):
    r = equiv(c, D + 'put_immutable_item', 'dht::store::put_immutable', opaque=OPAQUE, setup=somewhere, opts=dict(merge=400))
    terminates(c, r)


def reading(c):
    equiv(c, D + 'get_immutable_item', 'dht::store::get_immutable', opaque=OPAQUE, setup=into_dict, opts=dict(merge=400))


# the importance of an item is decided by the distance of its key
RULES = [storing, reading, c18.distances, c11.equality, c12.address, c14.ops]
