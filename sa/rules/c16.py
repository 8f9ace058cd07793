"""Fixed-size key material."""
from .lib import *
from ..equiv import equiv
from ..follow import trace_random

RULE = ('construction and access of the key types are compared path by path with reference definitions for all contents; '
        'a buffer filled with random bytes holds, byte by byte, what the generator gave for the whole of it')
T = 'common::types::'


def types(c):
    for t, s in (('PublicKey', 'key32'), ('SecretKey', 'key64'), ('Signature', 'sig64')):
        for tr, m in (('std::default::Default', 'default'), ('std::clone::Clone', 'clone'), ('std::ops::Deref', 'deref'), ('std::ops::DerefMut', 'deref_mut')):
            equiv(c, '<%s%s as %s>::%s' % (T, t, tr, m), 'common::misc::%s::%s' % (s, m))


def filled(c, r, n, get):
    """every byte is a byte the generator gave, each of them given for this call only"""
    if r is None:
        return
    panic_free(c, r)
    c.floor('paths of %s' % r.path, len(r.outs), 1)
    for s, v in r.outs:
        q = get(r.I, s, v)
        asked = {e[0]: e[2] for e in trace_random(s.trace) if e[1] is None}
        ok = q.__class__ is Seq and s.facts.decide(eq(q.n, n(s))) is True
        used = {}
        for g in q.segs if ok else ():
            b = g[1] if g[0] == 's' else None
            if b not in asked:
                ok = False
                break
            # parts of one request follow each other
            if g[2] != used.get(b, ZERO):
                ok = False
                break
            used[b] = g[2] + g[3]
        c.ok('random:%s' % r.path, ok, r.path, r.fn.span, '%s leaves bytes that are not from the random generator: %r' % (clean(r.path), q))


def seeds(c):
    r = c.run('common::ed25519::create_seed')
    filled(c, r, lambda s: const(32), lambda I, s, v: I.expand(s, v))
    r = c.run('common::random::fill_bytes')
    if r is None:
        return
    s0, vals = r.I.start(r.fn, None, None)
    b = vals[0]
    filled(c, r, lambda s: b.n, lambda I, s, v: I.slice_seq(s, b))


RULES = [types, seeds]
