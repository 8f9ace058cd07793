"""Base32."""
from .lib import *
from ..equiv import equiv
RULE = 'the decoder is compared path by path with its reference definition over arbitrary byte strings; its loops are aligned iteration by iteration'
T = 'torrent_rs::str_utl::'


def decoding(c):
    r = equiv(c, T + 'base32_decode', 'torrent_rs::text::base32', opts=dict(sharp=True))
    terminates(c, r)


RULES = [decoding]
