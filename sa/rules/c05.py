"""Encoding writes exactly the canonical form."""
from .lib import *
from ..equiv import equiv

RULE = ('both encoders are compared path by path with a reference machine (what is written, in which order); their loops are aligned iteration by iteration; '
        'the list of things to write shrinks by a multiset measure; a failed write ends the encoding with its error')
V, R = 'bencode::value::Value::', 'bencode::value_ref::ValueRef::'


def writer(c, which):
    """the byte vector the reference writes to"""
    return c.P.specs['spec::bencode::encode::' + which].ltys[2][2]


def encoders(c):
    for t, which in ((V, 'owned'), (R, 'borrowed')):
        terminates(c, equiv(c, t + 'encode', 'bencode::encode::' + which, genv={'W': writer(c, which)}, opts=dict(merge=400)))
        terminates(c, equiv(c, t + 'to_vec', 'bencode::bytes::' + which, opts=dict(merge=400)))


def failures(c):
    for t in (V, R):
        write_failures(c, t + 'encode', 4, opts=dict(merge=400))


RULES = [encoders, failures]
