"""Exhaustive comparison of expressions over one or two bytes: every value the path allows is
tried in the defining operations (division, tables, bit operations, ...)."""
from .terms import *

OPS = {'div', 'rem', 'tbl', 'band', 'bor', 'bxor', 'shl', 'shr', 'wrap', 'mul', 'divv', 'remv', 'count_ones', 'count_zeros', 'lz', 'fn8'}


class No(Exception):
    pass


def subterms(F, x, acc):
    """operations of small range inside x"""
    if isinstance(x, Lin):
        for a, _ in x.t:
            subterms(F, a, acc)
    elif isinstance(x, Term) and x not in acc and (x.op in OPS or x.op in BOOLS):
        if x.op in OPS:
            lo, hi = F.bounds(x)
            if lo is not None and hi is not None and hi - lo < 256:
                acc.add(x)
        for y in x.args:
            if isinstance(y, (Lin, Term)):
                subterms(F, y, acc)
    return acc


BOOLS = ('le0', 'eq0', 'not', 'and', 'or')


def leaves(x, acc, stop=()):
    if isinstance(x, Lin):
        for a, _ in x.t:
            leaves(a, acc, stop)
    elif isinstance(x, Term):
        if x in stop:
            acc.add(x)
        elif x.op in OPS or x.op in ('le0', 'eq0', 'not', 'and', 'or'):
            for y in x.args:
                if isinstance(y, (Lin, Term)):
                    leaves(y, acc, stop)
        else:
            acc.add(x)
    return acc


def ev(x, env):
    if isinstance(x, (bool, int)):
        return x
    if isinstance(x, Lin):
        r = x.c
        for a, k in x.t:
            r += k * ev(a, env)
        return r
    v = env.get(x)
    if v is not None:
        return v
    o = x.op
    if o not in OPS and o not in ('le0', 'eq0', 'not', 'and', 'or'):
        raise No()
    a = [y if o in ('tbl', 'fn8') and i == 0 else ev(y, env) for i, y in enumerate(x.args)]
    if o in ('div', 'rem'):
        if a[0] < 0:
            raise No()
        v = a[0] // a[1] if o == 'div' else a[0] % a[1]
    elif o == 'tbl':
        if not 0 <= a[1] < len(a[0]):
            raise No()
        v = a[0][a[1]]
    elif o == 'fn8':
        v = a[0][a[1]]
    elif o == 'band':
        v = a[0] & a[1]
    elif o == 'bor':
        v = a[0] | a[1]
    elif o == 'bxor':
        v = a[0] ^ a[1]
    elif o in ('count_ones', 'count_zeros', 'lz'):
        n = a[0] & ((1 << a[1]) - 1)
        v = bin(n).count('1')
        v = v if o == 'count_ones' else a[1] - (v if o == 'count_zeros' else n.bit_length())
    elif o == 'mul':
        v = a[0] * a[1]
    elif o in ('divv', 'remv'):
        if a[0] < 0 or a[1] <= 0:
            raise No()
        v = a[0] // a[1] if o == 'divv' else a[0] % a[1]
    elif o in ('shl', 'shr'):
        if x.lo != 0 or not 0 <= a[1] < 128:
            raise No()
        v = (a[0] << a[1]) & x.hi if o == 'shl' else a[0] >> a[1]
    elif o == 'wrap':
        m = x.hi - x.lo + 1
        v = (a[0] - x.lo) % m + x.lo
    elif o == 'le0':
        v = a[0] <= 0
    elif o == 'eq0':
        v = a[0] == 0
    elif o == 'not':
        v = not a[0]
    elif o == 'and':
        v = a[0] and a[1]
    elif o == 'or':
        v = a[0] or a[1]
    env[x] = v
    return v


def values(F, t):
    lo, hi = F.bounds(t)
    if lo is None or hi is None or hi - lo > 300:
        return None
    m = F.mask.get(t)
    return [v for v in range(lo, hi + 1) if m is None or (0 <= v < 256 and (m >> v) & 1)]


def conds(F, ls):
    """what the path says about the leaves alone"""
    r = []
    for l in F.le:
        if leaves(l, set()) <= ls:
            r.append(T('le0', l) if l.t else True)
    for l in F.eq:
        if leaves(l, set()) <= ls:
            r.append(T('eq0', l) if l.t else True)
    for l in F.ne:
        if leaves(l, set()) <= ls:
            r.append(T('not', T('eq0', l)))
    for b, v in F.b.items():
        if isinstance(b, Term) and leaves(b, set()) <= ls:
            r.append(b if v else bnot(b))
    for t in list(F.iv) + list(F.mask):
        if t not in ls and t.op in OPS and leaves(t, set()) <= ls:
            r.append(t)
    return r


def feasible(F, cs, env):
    for c in cs:
        if c is True:
            continue
        v = ev(c, env)
        if isinstance(c, Term) and c.op in OPS:
            lo, hi = F.iv.get(c, (None, None))
            if lo is not None and v < lo or hi is not None and v > hi:
                return False
            m = F.mask.get(c)
            if m is not None and not (0 <= v < 256 and (m >> v) & 1):
                return False
        elif not v:
            return False
    return True


def always(F, xs, test):
    """test(values of xs) holds for every value the path allows (None: cannot tell)"""
    r = always1(F, xs, test, ())
    if r is None and len(xs) == 2:
        # subexpressions both sides share stand for themselves
        stop = subterms(F, xs[0], set()) & subterms(F, xs[1], set())
        if stop:
            r = always1(F, xs, test, stop)
            if r is False:
                r = None
    return r


def always1(F, xs, test, stop):
    ls = set()
    for x in xs:
        leaves(x, ls, stop)
    if not ls or len(ls) > 2:
        return None
    dom = []
    for t in ls:
        d = values(F, t)
        if d is None:
            return None
        dom.append(d)
    ls_ = list(ls)
    n = 1
    for d in dom:
        n *= len(d)
    if n > 70000:
        return None
    try:
        cs = conds(F, ls)
        if len(ls_) == 1:
            it = ((v,) for v in dom[0])
        else:
            it = ((v, w) for v in dom[0] for w in dom[1])
        for vs in it:
            env = dict(zip(ls_, vs))
            try:
                if not feasible(F, cs, env):
                    continue
            except No:
                return None
            if not test(*[ev(x, env) for x in xs]):
                return False
    except No:
        return None
    return True


def zero(F, d):
    """the sum d is zero whatever bytes it speaks of: its terms, grouped by the byte they read, are constants that cancel"""
    groups = {}
    for a, k in d.t:
        ls = frozenset(leaves(a, set()))
        if len(ls) != 1:
            return False
        groups.setdefault(ls, []).append((a, k))
    tot = d.c
    for ls, xs in groups.items():
        got = []

        def same(v):
            if not got:
                got.append(v)
            return got[0] == v
        l = mk(dict(xs), 0)
        if always(F, [l], same) is not True or not got:
            return False
        tot += got[0]
    return tot == 0


def byte_fn(e):
    """the table of an expression over a single byte: (values, byte) or None"""
    ls = leaves(e, set())
    if len(ls) != 1:
        return None
    x = next(iter(ls))
    if x.lo is None or x.lo < 0 or x.hi is None or x.hi > 255:
        return None
    vals = []
    for v in range(256):
        try:
            vals.append(ev(e, {x: v}))
        except No:
            vals.append(None)
    return vals, x


def has_ops(x):
    if isinstance(x, Lin):
        return any(has_ops(a) for a, _ in x.t)
    if isinstance(x, Term):
        return x.op in OPS or x.op in BOOLS and any(has_ops(y) for y in x.args)
    return False


def contradictory(F):
    """two conditions of the path that no byte satisfies together"""
    cs = []
    for l in F.le:
        cs.append(le0(l))
    for l in F.eq:
        cs.append(eq0(l))
    for l in F.ne:
        cs.append(bnot(eq0(l)))
    for b, v in F.b.items():
        if isinstance(b, Term):
            cs.append(b if v else bnot(b))
    for t in set(F.iv) | set(F.mask):
        if t.op in OPS:
            lo, hi = F.iv.get(t, (None, None))
            if lo is not None and (t.lo is None or lo > t.lo):
                cs.append(T('le0', const(lo) - atom(t)))
            if hi is not None and (t.hi is None or hi < t.hi):
                cs.append(T('le0', atom(t) - hi))
            m = F.mask.get(t)
            if m is not None and bin(m).count('1') == 1:
                cs.append(T('eq0', atom(t) - (m.bit_length() - 1)))
    cs = [x for x in cs if isinstance(x, Term) and has_ops(x)][-40:]
    for i, x in enumerate(cs):
        sx = subterms(F, x, set())
        lx = leaves(x, set())
        for y in cs[:i]:
            if not lx & leaves(y, set()) and not sx & subterms(F, y, set()):
                continue
            if always(F, [x, y], lambda p, q: not (p and q)):
                return True
    return False
