"""Construction and inspection of 160-bit hashes."""
from .lib import *
from ..equiv import equiv

RULE = 'each constructor, conversion, comparison and inspection of a hash is compared path by path with its reference definition over arbitrary bytes'
H = 'common::sha1::Sha1Hash'


def equality(c):
    """what tables keyed by hashes rely on"""
    equiv(c, '<%s as std::cmp::PartialEq>::eq' % H, 'common::hash::eq')


def basics(c):
    for m, s in (('new', 'zero'), ('min', 'zero'), ('max', 'ones'), ('from_bytes', 'from_bytes'), ('clear', 'clear'), ('all_zeroes', 'all_zeroes'),
                 ('leading_zeros', 'leading_zeros')):
        r = equiv(c, '%s::%s' % (H, m), 'common::hash::' + s)
        terminates(c, r)
    for t, m, s in (('std::default::Default', 'default', 'zero'), ('std::convert::From<&[u8; SIZE]>', 'from', 'from_array_ref'), ('std::convert::From<[u8; SIZE]>', 'from', 'from_array'),
                    ('std::ops::Deref', 'deref', 'deref'), ('std::ops::DerefMut', 'deref_mut', 'deref_mut'), ('std::cmp::PartialEq', 'eq', 'eq'),
                    ('std::cmp::Ord', 'cmp', 'cmp'), ('std::clone::Clone', 'clone', 'clone')):
        equiv(c, '<%s as %s>::%s' % (H, t, m), 'common::hash::' + s)


RULES = [basics]
