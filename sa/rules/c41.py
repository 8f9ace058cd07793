"""Flag sets: every flag has a bit of its own."""
from .lib import *
from ..values import Agg
from ..terms import Lin, Term, atom
from .. import enumer
from .. import mir

RULE = 'every flag constant of every flag set is evaluated from its body; it must be a single bit that no other flag of the set has'
WANTED = ('torrent_rs::flags::TorrentFlags', 'dht::observer::ObserverFlags')


def sets(c):
    """types with an inherent function from_bits_truncate"""
    return sorted(p[:-len('::from_bits_truncate')] for p in c.byname if p.endswith('::from_bits_truncate'))


def bits(v):
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    return v.c if isinstance(v, Lin) and v.is_const() else None


def flags(c):
    ss = sets(c)
    for w in WANTED:
        c.floor('flag set %s' % w, int(w in ss), 1)
    for s in ss:
        got = {}
        for p, f in sorted(c.byname.items()):
            if not p.startswith(s + '::') or '::' in p[len(s) + 2:] or not p[len(s) + 2:].isupper():
                continue
            r = c.run(f)
            n = p[len(s) + 2:]
            v = bits(r.outs[0][1]) if r is not None and len(r.outs) == 1 else None
            c.ok('flag:%s' % p, v is not None and v > 0 and v & (v - 1) == 0, p, f.span, '%s is not a single bit (%s)' % (p, v))
            for m, w in got.items():
                c.ok('flag:%s' % p, v is not None and v & w == 0, p, f.span, '%s shares a bit with %s' % (n, m))
            if v is not None:
                got[n] = v
        c.floor('flags of %s' % s, len(got), 2)
        c.sample('%s: %s' % (s, got))


def timeout(c):
    p = 'dht::observer::Observer::has_short_timeout'
    r = c.run(p)
    if r is None:
        return
    panic_free(c, r)
    for st, x in r.outs:
        ls = enumer.leaves(x, set()) if isinstance(x, (Lin, Term)) else set()
        good = len(ls) == 1 and enumer.always(st.facts, [x, atom(next(iter(ls)))], lambda got, v: bool(got) == bool(v & 8)) is True
        c.ok('timeout', good, p, r.fn.span, '%s is not whether SHORT_TIMEOUT is among the flags' % (x,))
    c.floor('paths of has_short_timeout', len(r.outs), 1)


RULES = [flags, timeout]
