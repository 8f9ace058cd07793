"""Magnet links."""
from .lib import *
from ..equiv import equiv
from . import c13, c35, c37

RULE = 'the parser is proved free of panics and endless loops with everything it calls in view; what it stores is then compared path by path with its reference, where the URL library and the helpers that have checks of their own are the same calls on both sides'
TR = 'torrent_rs::'
P = TR + 'magnet_uri::parse_magnet_uri'


def safe(c):
    r = c.run(P, opaque={TR + 'str_utl::base32_decode'}, opts=dict(merge=400))
    panic_free(c, r)
    terminates(c, r)


def parse(c):
    equiv(c, P, TR + 'magnet::parse', opaque={TR + 'str_utl::base32_decode', TR + 'str_utl::split_string', 'common::hex::from_hex'}, opts=dict(merge=400), panics=False)


def out(I, st):
    o = ('T', 'out')
    t = T('sym', 'written')
    n = atom(T('len', t, ty=LEN))
    st.objs[o] = Seq((('s', T('seq', t), ZERO, n),), n, U8)
    return Ref(o, (), True)


def link(c):
    equiv(c, '<torrent_rs::params::TorrentParams as std::str::FromStr>::from_str', TR + 'magnet::of', opaque={P})
    equiv(c, '<torrent_rs::params::TorrentParams as std::fmt::Display>::fmt', TR + 'magnet::link', args={1: out}, opaque={'common::hex::to_hex'})


RULES = [safe, parse, link] + c35.RULES + [c13.decoding, c13.encoding, c37.strings]
