"""Hash of an address."""
from .lib import *
from ..equiv import equiv
H = 'common::sha1::Sha1Hash'
RULE = 'the function is compared path by path with its reference definition over arbitrary arguments; loops are aligned iteration by iteration'
def address(c):
    equiv(c, '%s::from_address' % H, 'common::hash::from_address')
RULES = [address]
