"""Parsing torrent files."""
from .lib import *
from ..equiv import equiv
from . import c07

RULE = 'the parser is compared path by path with its reference; decoding is the same call on both sides, and the predicate on names, compared on its own, is too'
PLAIN = 'torrent_rs::torrent::is_plain_file_name'


def names(c):
    if any(f.path == PLAIN for f in c.P.fns.values()):
        r = equiv(c, PLAIN, 'torrent_rs::metainfo::plain')
        terminates(c, r)


def parse(c):
    r = equiv(c, 'torrent_rs::torrent::Torrent::parse', 'torrent_rs::metainfo::parse', opaque={'bencode::value_ref::ValueRef::decode_with_limits', PLAIN}, opts=dict(merge=400))
    terminates(c, r)


RULES = [names, parse] + c07.RULES
