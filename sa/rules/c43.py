"""The peer lists of a store over any history of operations."""
from .lib import *
from .store import *
from . import c11, c22, c27
from ..values import Seq, Agg, Sym, mkval, seglen
from ..terms import T as TERM
from ..interp import norm_segs

RULE = ('every operation that can write to a store leaves each peer list as it was, or replaces the entry that a binary search for the new peer found, or inserts the new peer '
        'at the place the search gave, while there is room, in the list of its address family, and then counts it; on every path, from every state')


def initial(I, st, m, k):
    """the value a table had for a key"""
    return I.expand(st, mkval(TERM('mval', m.base, k), m.vty))


def part(I, st, v, name):
    return field(I, st, v, name)


def had(st, m, k):
    """did the table hold the key at first?"""
    return st.facts.decide(TERM('mhas', m.base, k, ty=('bool',)))


def same(I, st, a, b):
    return a == b or I.vterm(st, a) is I.vterm(st, b)


def searched(I, st, q, p, i, kind):
    """i is what a binary search of q for p gave"""
    want = TERM(kind, I.seqterm(st, q), I.vterm(st, p), ty=USIZE)
    return i is atom(want) or st.facts.decide(eq(i, atom(want))) is True


def change(I, st, old, new):
    """-> ('none'|'replaced'|'inserted', peer) or None"""
    if same(I, st, old, new):
        return 'none', None
    if new.ov and len(new.ov) == 1 and not old.ov and Seq(new.segs, new.n, new.ety) == old:
        i, p = new.ov[0][0], new.ov[0][1]
        return ('replaced', p) if searched(I, st, old, p, i, 'bsfound') else None
    if new.ov or old.ov or st.facts.decide(eq(new.n, old.n + 1)) is not True:
        return None
    es = [g for g in new.segs if g[0] == 'e']
    if len(es) != 1:
        return None
    p = es[0][1]
    j = new.segs.index(es[0])
    i = ZERO
    for g in new.segs[:j]:
        i = i + seglen(g)
    rest = norm_segs(new.segs[:j] + new.segs[j + 1:])
    if st.facts.decide(eq(old.n, ZERO)) is True:
        return ('inserted', p) if not rest else None
    whole = I.seq_cat(st, I.seq_sub(st, old, ZERO, i), I.seq_sub(st, old, i, old.n - i))
    if not searched(I, st, old, p, i, 'bsins') or not same(I, st, Seq(rest, old.n, old.ety), whole) and not same(I, st, Seq(rest, old.n, old.ety), old):
        return None
    return 'inserted', p


def lists(c):
    seen = set()
    for p, given in c27.KEEP.items():
        first = []

        def setup(I, st, vals):
            if given:
                given(I, st, vals)
            first.append((st.copy(), vals[0]))
        r = c.run(p, opaque=OPAQUE, setup=setup, opts=dict(merge=400))
        if r is None:
            continue
        I = r.I
        kp = clean(p)
        c.floor('outcomes of %s' % p, len(r.outs), 1)
        for st, v in r.outs:
            s = r.args[0]
            m, lim, cnt = field(I, st, s, 'map'), field(I, st, field(I, st, s, 'settings'), 'max_peers'), field(I, st, field(I, st, s, 'counters'), 'peers')
            st0, s0 = first[0]
            m0, cnt0 = field(I, st0, s0, 'map'), field(I, st0, field(I, st0, s0, 'counters'), 'peers')
            if not c.ok('base:%s' % kp, m.base is m0.base and not m0.ent, p, r.fn.span, 'the table of torrents is another one afterwards'):
                continue
            added = 0
            for k, present, val in m.ent:
                h = had(st, m, k)
                if present is not True:
                    c.ok('kept:%s' % kp, h is False, p, r.fn.span, 'a torrent disappears with its peers, which stay counted')
                    continue
                for f, fam in (('peers4', 0), ('peers6', 1)):
                    new = part(I, st, val, f)
                    old = part(I, st, initial(I, st, m, k), f) if h is not False else Seq((), ZERO, new.ety)
                    if not c.ok('decided:%s:%s' % (kp, f), h is not None or same(I, st, old, new), p, r.fn.span, 'it is not known whether the torrent is new when its peers change'):
                        continue
                    d = change(I, st, old, new)
                    if not c.ok('order:%s:%s' % (kp, f), d is not None, p, r.fn.span, 'the list need not stay in order and free of duplicates: %s' % (str(new)[:200],)):
                        continue
                    if d[0] == 'none':
                        continue
                    seen.add((d[0], f))
                    a = field(I, st, d[1], 'addr')
                    x = a.var if a.__class__ is Agg else st.facts.disc.get(a.t) if a.__class__ is Sym else None
                    c.ok('family:%s:%s' % (kp, f), x == fam, p, r.fn.span, 'a peer of the other address family may get into the list')
                    if d[0] == 'inserted':
                        added += 1
                        c.ok('room:%s:%s' % (kp, f), st.facts.decide(leq(new.n, lim)) is True, p, r.fn.span, 'the list may grow beyond max_peers')
            c.ok('counted:%s' % kp, st.facts.decide(eq(cnt, cnt0 + added)) is True, p, r.fn.span, 'the counter of peers and the lists get out of step')
    c.floor('ways in which lists change', len(seen), 4)


def new(c):
    p = 'dht::storage::DefaultDhtStorage::new'
    r = c.run(p, opts=dict(merge=400))
    if r is None:
        return
    for st, v in r.outs:
        c.ok('new', st.facts.decide(eq(field(r.I, st, v, 'map').n, ZERO)) is True and st.facts.decide(eq(field(r.I, st, field(r.I, st, v, 'counters'), 'peers'), ZERO)) is True,
             p, r.fn.span, 'a new store has no peers and counts none')


RULES = [new, lists, c27.writers, c22.order, c11.equality]
