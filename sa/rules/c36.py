"""Percent decoding."""
from .lib import *
from ..equiv import equiv
RULE = 'the decoder is compared path by path with its reference definition over arbitrary byte strings; its loop is aligned iteration by iteration'
T = 'torrent_rs::str_utl::'


def decoding(c):
    r = equiv(c, T + 'unescape_bytes', 'torrent_rs::text::unescape')
    terminates(c, r)
    r = equiv(c, T + 'unescape_string', 'torrent_rs::text::unescape_str')
    terminates(c, r)


RULES = [decoding]
