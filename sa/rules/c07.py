"""Bencode decoding into borrowed values follows the same grammar."""
from .lib import *
from ..equiv import equiv

RULE = ('the borrowing decoder is compared path by path with the reference stack machine of the owned one, with slices of the input in place of copies; '
        'their loops are aligned iteration by iteration')


def limits(c):
    equiv(c, 'bencode::value_ref::ValueRef::decode_with_limits', 'bencode::decode::borrowed', opts=dict(merge=400))


def plain(c):
    equiv(c, 'bencode::value_ref::ValueRef::decode', 'bencode::entry::borrowed_decode', opts=dict(merge=400))


RULES = [limits, plain]
