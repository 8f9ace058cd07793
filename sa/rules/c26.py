"""Mutable items are read."""
from .lib import *
from .store import *
from . import c11
from ..equiv import equiv

RULE = 'reading mutable items is compared path by path with reference definitions over arbitrary stores and requests'


def reading(c):
    equiv(c, D + 'get_mutable_item_seq', 'dht::store::get_seq', opts=dict(merge=400))
    equiv(c, D + 'get_mutable_item', 'dht::store::get_mutable', opaque=OPAQUE, setup=into_dict, opts=dict(merge=400))


RULES = [reading, c11.equality]
