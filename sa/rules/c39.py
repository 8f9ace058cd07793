"""Errors."""
from .lib import *
from ..equiv import equiv

RULE = 'every conversion of an error is compared, variant by variant, with its reference; an std::io error is known by its kind'


def encoding(c):
    equiv(c, 'bencode::error::<impl std::convert::From<bencode::error::Error> for std::io::Error>::from', 'bencode::failure::to_io')


def torrents(c):
    for t, s in (('url::ParseError', 'url'), ('std::net::AddrParseError', 'addr'), ('std::num::ParseIntError', 'number')):
        equiv(c, '<torrent_rs::error::Error as std::convert::From<%s>>::from' % t, 'torrent_rs::failure::%s' % s)


RULES = [encoding, torrents]
