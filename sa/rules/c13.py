"""Hexadecimal conversion."""
from .lib import *
from ..equiv import equiv
RULE = 'the function is compared path by path with its reference definition over arbitrary arguments; loops are aligned iteration by iteration'


def digits(c):
    equiv(c, 'common::hex::hex_to_int', 'common::hexref::hex_to_int')
    r = equiv(c, 'common::hex::is_hex', 'common::hexref::is_hex')
    terminates(c, r)


def room(I, st, vals):
    """a decoded byte for every two digits fits"""
    n, m = vals[0].n, vals[1].n
    st.facts.add_le(n - m * 2 - 1)


def decoding(c):
    r = equiv(c, 'common::hex::from_hex', 'common::hexref::from_hex', setup=room)
    terminates(c, r)


def encoding(c):
    r = equiv(c, 'common::hex::to_hex', 'common::hexref::to_hex')
    terminates(c, r)


RULES = [digits, decoding, encoding]
