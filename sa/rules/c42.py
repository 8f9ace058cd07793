"""Values as plain data: equality, order, copies."""
from .lib import *
from ..equiv import equiv
RULE = 'each function is compared path by path with its reference definition over arbitrary pairs of values; the parts of a list or dictionary are compared, ordered and copied by the same functions'


def plain(c):
    for t, n in (('value::Value', ''), ('value_ref::ValueRef', '_ref')):
        equiv(c, '<bencode::%s as std::cmp::PartialEq>::eq' % t, 'bencode::plain::same' + n)
        equiv(c, '<bencode::%s as std::clone::Clone>::clone' % t, 'bencode::plain::copy' + n)
        equiv(c, '<bencode::%s as std::cmp::PartialOrd>::partial_cmp' % t, 'bencode::plain::order' + n)


RULES = [plain]
