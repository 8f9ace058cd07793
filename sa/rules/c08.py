"""Conversions between borrowed and owned values."""
from .lib import *
from ..equiv import equiv

RULE = 'one level of each conversion is compared with its reference; the recursive calls are the functions under test (induction over the finite tree)'


def conversions(c):
    for p, s in (('bencode::value_ref::ValueRef::to_owned', 'to_owned'), ('bencode::value::Value::as_ref', 'as_ref')):
        equiv(c, p, 'bencode::conv::' + s, opaque={p})


RULES = [conversions]
