"""Bloom filters."""
from .lib import *
from ..equiv import equiv
from ..values import *

RULE = ('every operation of both filter sizes is compared path by path with its reference definition over arbitrary filters and keys: bit positions, '
        'the bytes written, the population count per byte (all 256 values of each byte) and the cardinality formula')
B = 'common::bloom_filter::BloomFilter%d'


def sized(n):
    """the bytes given are as many as the filter holds"""
    def f(I, st, vals):
        v = vals[0]
        if v.__class__ is Sym:
            v = I.expand(st, v)
        st.facts.add_eq(lin(v.n) - n)
    return f


def ops(c):
    for n in (128, 256):
        t, s = B % n, 'common::bloom%d::' % n
        for m in ('new', 'find', 'set', 'clear', 'as_bytes', 'size'):
            terminates(c, equiv(c, '%s::%s' % (t, m), s + m))
        equiv(c, '<%s as std::default::Default>::default' % t, s + 'new')
        for k, m, st in (('std::vec::Vec<u8>', 'from_vec', sized(n)), ('&[u8]', 'from_slice', sized(n)), ('[u8; %d]' % n, 'from_array', None), ('&str', 'from_str', sized(n)), ('std::string::String', 'from_string', sized(n))):
            p = '<%s as std::convert::From<%s>>::from' % (t, k)
            if not c.has(p):
                p = '<%s as std::convert::From<[u8; SIZE]>>::from' % t
            equiv(c, p, s + m, setup=st)


RULES = [ops]
