"""Bencode decoding into owned values follows its grammar."""
from .lib import *
from ..equiv import equiv

RULE = ('the decoder is compared path by path with a reference stack machine; their loops are aligned iteration by iteration, '
        'and every accepted value, rejected input and error kind must agree')


def limits(c):
    equiv(c, 'bencode::value::Value::decode_with_limits', 'bencode::decode::owned', opts=dict(merge=400))


def plain(c):
    equiv(c, 'bencode::value::Value::decode', 'bencode::entry::owned_decode', opts=dict(merge=400))
    equiv(c, '<bencode::value::Value as std::str::FromStr>::from_str', 'bencode::entry::owned_text', opts=dict(merge=400))


RULES = [limits, plain]
