"""The items of a store over any history of operations."""
from .lib import *
from .store import *
from . import c11, c12, c14, c27
from .c43 import initial, had, same

RULE = ('on every path of every operation that can write to a store, from every state: the value of a kept immutable item is the one it had; the sequence number of a kept mutable '
        'item is the one it had, with the same value and signature, or a greater one; its key and salt are the ones it had; the number of announcers is not smaller; at most one '
        'item leaves, another one than the item that is put, and only from a full table; the other tables are as they were')
I_, M_ = 'immutable_table', 'mutable_table'
WRITES = {D + 'put_immutable_item': I_, D + 'put_mutable_item': M_}


def item(I, st, t, v, f):
    if t == M_ and f in ('value', 'ips', 'num_announcers'):
        v = field(I, st, v, 'inner')
    return field(I, st, v, f)


def items(c):
    for p, given in c27.KEEP.items():
        first = []

        def setup(I, st, vals):
            if given:
                given(I, st, vals)
            first.append((st.copy(), vals[0]))
        r = c.run(p, opaque=OPAQUE, setup=setup, opts=dict(merge=400))
        if r is None:
            continue
        I = r.I
        kp = clean(p)
        c.floor('outcomes of %s' % p, len(r.outs), 1)
        for st, v in r.outs:
            s = r.args[0]
            st0, s0 = first[0]
            lim = field(I, st, field(I, st, s, 'settings'), 'max_dht_items')
            for t in (I_, M_, 'map'):
                m, m0 = field(I, st, s, t), field(I, st0, s0, t)
                if not c.ok('base:%s:%s' % (kp, t), m.base is m0.base and not m0.ent, p, r.fn.span, 'the table is another one afterwards'):
                    continue
                if t == 'map':
                    if p in WRITES:
                        c.ok('torrents:%s' % kp, not m.ent, p, r.fn.span, 'an operation on items changes torrents')
                    continue
                left = 0
                for k, present, val in m.ent:
                    h = had(st, m, k)
                    if present is not True:
                        if h is False:
                            continue
                        left += 1
                        c.ok('full:%s:%s' % (kp, t), WRITES.get(p) == t and st.facts.decide(leq(lim, m0.n)) is True, p, r.fn.span, 'an item may leave a table that has room')
                        continue
                    if h is False:
                        c.ok('new:%s:%s' % (kp, t), WRITES.get(p) == t, p, r.fn.span, 'this operation adds an item')
                        continue
                    old = initial(I, st, m, k)

                    def get(f):
                        return item(I, st, t, old, f), item(I, st, t, val, f)
                    a, b = get('num_announcers')
                    c.ok('announcers:%s:%s' % (kp, t), st.facts.decide(leq(a, b)) is True, p, r.fn.span, 'the number of announcers of an item may become smaller')
                    if t == I_:
                        c.ok('value:%s' % kp, same(I, st, *get('value')), p, r.fn.span, 'the value of an immutable item may change')
                        continue
                    a, b = get('seq')
                    stays = all(same(I, st, *get(f)) for f in ('value', 'sig', 'seq'))
                    c.ok('version:%s' % kp, stays or st.facts.decide(lt(a, b)) is True, p, r.fn.span, 'a mutable item may change without its sequence number becoming greater')
                    for f in ('key', 'salt'):
                        c.ok('%s:%s' % (f, kp), same(I, st, *get(f)), p, r.fn.span, 'the %s of a mutable item may change' % f)
                c.ok('one:%s:%s' % (kp, t), left <= 1, p, r.fn.span, 'more than one item leaves the table')


RULES = [items, c27.writers, c11.equality, c12.address, c14.ops]
