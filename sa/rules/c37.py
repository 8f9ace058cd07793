"""Text helpers."""
from .lib import *
from ..equiv import equiv
RULE = 'each helper is compared path by path with its reference definition over arbitrary byte strings; loops are aligned iteration by iteration'
T = 'torrent_rs::str_utl::'


def bytewise(c):
    equiv(c, T + 'to_upper', 'torrent_rs::text::upper')
    equiv(c, T + 'is_digit', 'torrent_rs::text::digit')
    equiv(c, T + 'is_whitespace', 'torrent_rs::text::white')


def strings(c):
    for m, s in (('parse_int', 'int'), ('trim', 'trimmed'), ('split_string', 'split')):
        r = equiv(c, T + m, 'torrent_rs::text::' + s)
        terminates(c, r)


RULES = [bytewise, strings]
