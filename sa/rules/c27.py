"""The store over any history of operations."""
from .lib import *
from .store import *
from . import c11
from ..values import Slice, Agg

RULE = ('the invariant (each table within its limit, each counter equal to the size of its table) holds of a new store and is kept by each operation that can write to a '
        'store, on every path, from every state that satisfies it; the operations that can write to a store are enumerated from the signatures')
T_ = 'dht::storage::DefaultDhtStorage'
TABLES = (('map', 'torrents', 'max_torrents'), ('immutable_table', 'immutable_data', 'max_dht_items'), ('mutable_table', 'mutable_data', 'max_dht_items'))
KEEP = {D + 'announce_peer': None, D + 'put_immutable_item': somewhere, D + 'put_mutable_item': somewhere, D + 'update_node_ids': None}
STUBS = {D + 'tick'}


def invariant(I, st, v):
    """-> [(name, condition)]"""
    s, k = field(I, st, v, 'settings'), field(I, st, v, 'counters')
    for t, n, m in TABLES:
        size = field(I, st, v, t).n
        yield t + ' within ' + m, leq(size, field(I, st, s, m))
        yield n + ' counts ' + t, eq(field(I, st, k, n), size)


def new(c):
    p = 'dht::storage::DefaultDhtStorage::new'
    r = c.run(p, opts=dict(merge=400))
    if r is None:
        return
    for st, v in r.outs:
        for n, x in invariant(r.I, st, v):
            c.ok('new:%s' % n, st.facts.decide(x) is True, p, r.fn.span, 'a new store does not satisfy: ' + n)


def kept(c):
    for p, given in KEEP.items():
        def setup(I, st, vals):
            if given:
                given(I, st, vals)
            for n, x in list(invariant(I, st, vals[0])):
                st.facts.assume(x)
        r = c.run(p, opaque=OPAQUE, setup=setup, opts=dict(merge=400))
        if r is None:
            continue
        c.floor('outcomes of %s' % p, len(r.outs), 1)
        for st, v in r.outs:
            for n, x in invariant(r.I, st, r.args[0]):
                c.ok('kept:%s:%s' % (clean(p), n), st.facts.decide(x) is True, p, r.fn.span, 'after this operation a store need not satisfy: ' + n)


def writes(t):
    """a parameter through which a store can be changed"""
    return t[0] == 'ref' and t[1] is True and t[2][0] == 'adt' and mir.ADTS[t[2][1]]['path'].split('<')[0] == T_


def writers(c):
    n = 0
    for f in c.P.fns.values():
        if f.crate != 'dht' or '{closure' in f.path or f.vis != 'pub' and not f.trait:
            continue    # private helpers are analysed within the operations that call them
        if any(writes(t) for t in f.ltys[1:1 + f.argc]):
            n += 1
            known = [k for k in (*KEEP, *STUBS) if clean(k) == clean(f.path)]
            c.ok('writer:%s' % clean(f.path), bool(known), f.path, f.span, 'this function can change a store and no invariant was established for it')
    c.floor('functions that can change a store', n, 4)
    for p in STUBS:
        if c.has(p):
            r = c.run(p)
            c.ok('stub:%s' % clean(p), r is not None and not r.outs, p, r.fn.span if r else None, 'this stub has become an operation and no invariant was established for it')


RULES = [new, kept, writers, c11.equality]
