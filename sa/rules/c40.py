"""Printed forms."""
from .lib import *
from ..equiv import equiv
from . import c05, c13
from .c33 import out
RULE = 'what each function writes to the formatter is compared path by path with its reference definition'


def printed(c):
    equiv(c, '<common::sha1::Sha1Hash as std::fmt::Display>::fmt', 'common::print::hash', args={1: out}, opaque={'common::hex::to_hex'})
    equiv(c, '<bencode::value::Value as std::fmt::Display>::fmt', 'bencode::print::value', args={1: out}, opaque={'bencode::value::Value::to_vec'})
    equiv(c, '<bencode::value_ref::ValueRef as std::fmt::Display>::fmt', 'bencode::print::value_ref', args={1: out}, opaque={'bencode::value_ref::ValueRef::to_vec'})


def failing(c):
    write_failures(c, '<common::sha1::Sha1Hash as std::fmt::Display>::fmt', 2, opaque={'common::hex::to_hex'})
    write_failures(c, '<bencode::value::Value as std::fmt::Display>::fmt', 2, opaque={'bencode::value::Value::to_vec'})
    write_failures(c, '<bencode::value_ref::ValueRef as std::fmt::Display>::fmt', 2, opaque={'bencode::value_ref::ValueRef::to_vec'})
    write_failures(c, '<torrent_rs::params::TorrentParams as std::fmt::Display>::fmt', 3, opaque={'common::hex::to_hex'})


RULES = [printed, failing, c13.encoding] + c05.RULES
