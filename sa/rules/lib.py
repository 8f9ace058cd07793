"""Rules shared by the properties."""
from ..terms import *
from ..values import *
from ..facts import FULL
from .. import mir
from ..mir import ADTS
from ..check import clean

UMAX = {(1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1}
SMIN = {-(1 << 31), -(1 << 63)}


def field(I, st, v, name):
    """a named field of a struct value, or of what a reference points to"""
    while v.__class__ is Ref:
        v = I.read(st, v.obj, v.path)
    v = I.expand(st, v)
    k = [f[0] for f in mir.ADTS[v.tag[1]]['variants'][v.var]['f']].index(name)
    return I.expand(st, v.f[k]) if v.f[k].__class__ is Sym else v.f[k]


def unit_step(o):
    """counter += 1 / -= 1 on an integer of 32 or more bits: overflow needs 2^31 or more
    single steps of the counter, out of reach of any execution"""
    if not o.kind.startswith('overflow-'):
        return False
    for d, cond, st in o.bad:
        if not isinstance(cond, Term):
            return False
        cs = [cond]
        while cs:
            x = cs.pop()
            if not isinstance(x, Term):
                continue
            if x.op == 'and':
                cs += list(x.args)
                continue
            if st.facts.decide(x) is True:
                continue
            if x.op != 'le0' or len(x.args[0].t) != 1:
                return False
            l = x.args[0]
            k = l.t[0][1]
            if k == 1 and -l.c + 1 in UMAX:
                continue
            if k == -1 and l.c - 1 in SMIN:
                continue
            return False
    return True


def why(o):
    d, cond, st = o.bad[0]
    return '%s is not proved%s: needs %s' % (o.kind, ' (always fails)' if d is False else '', show(cond) if isinstance(cond, (Term, Lin)) else cond)


def panic_free(c, r, allow=()):
    """every place where the analysed code can panic is proved unreachable"""
    if r is None:
        return
    for o in r.I.obls.values():
        good = all(b[2].facts.quant_clash() for b in o.bad) or unit_step(o) or any(a(r.I, o) for a in allow)
        c.ok('panic:%s:%s:%s' % (r.path, clean(o.fn), o.kind), good, o.fn, o.span, '' if good else why(o))


# ---------------------------------------------------------------- termination
def loop_atoms(L):
    return set(L.phis)


def invariant_of(L, l, inner):
    """no atom of l changes while the loop runs"""
    for a in atoms_in(l):
        if a in inner or a.op == 'fresh':
            return False
    return True


def progress(L):
    """a lexicographic ranking of the loop's iterations, or None"""
    backs = [i for i, s in enumerate(L.backs) if not s.facts.dead]
    if not backs:
        return ['no back edge']
    ints = [p for p in L.phis if L.kind.get(p) == 'int' and all(v.__class__ is Lin for v in L.phis[p][1])]
    own = set(L.phis)
    rank = []
    left = backs
    used = set()
    while left:
        best = None
        for p in ints:
            if p in used:
                continue
            vals = L.phis[p][1]
            for sign in (1, -1):
                # sign=1: grows towards an upper bound; -1: shrinks towards a lower bound
                okall, strict = True, []
                for i in left:
                    F = L.backs[i].facts
                    d = (vals[i] - atom(p)) * sign
                    if d.is_const():
                        g = d.c
                        if g < 0:
                            okall = False
                            break
                        if g > 0:
                            strict.append(i)
                    elif F.decide(leq(ONE, d)) is True:
                        strict.append(i)
                    elif F.decide(leq(ZERO, d)) is not True:
                        okall = False
                        break
                if not okall or not strict:
                    continue
                if not all(bounded(L, i, p, sign, own) for i in strict):
                    continue
                if best is None or len(strict) > len(best[2]):
                    best = (p, sign, strict)
        for p in L.phis:
            # a flag that is only ever set, or only ever cleared
            if best is None and L.kind.get(p) == 'bool' and p not in used:
                for to in (True, False):
                    strict = [i for i in left if L.phis[p][1][i] is to and L.backs[i].facts.decide(p) is (not to)]
                    if strict and all(i in strict or L.phis[p][1][i] == p or L.phis[p][1][i] is to for i in left):
                        best = (p, 1 if to else -1, strict)
        if best is None:
            return None
        used.add(best[0])
        rank.append('%s%s' % ('+' if best[1] > 0 else '-', show(atom(best[0]))))
        left = [i for i in left if i not in best[2]]
    return rank


def bounded(L, i, p, sign, own):
    if sign < 0:
        if p.lo is not None and p.lo >= 0:
            return True
    F = L.backs[i].facts
    lo, hi = F.bounds(p)
    if sign > 0 and hi is not None and hi < (1 << 31) - 1:
        return True
    if sign < 0 and lo is not None and lo > -(1 << 31):
        return True
    for l in F.le:
        k = l.coef(p)
        if k * sign > 0 and not any(a in own and a is not p for a in atoms_in(l)):
            return True
    for l in F.eq:
        k = l.coef(p)
        if k and not any(a in own and a is not p for a in atoms_in(l)):
            return True
    # a bound through another atom of the loop that never changes direction: f <= g, g invariant
    for l in F.le:
        k = l.coef(p)
        if k * sign > 0:
            good = True
            for a, ka in l.t:
                if a is p or a not in own:
                    continue
                v = L.phis[a][1]
                # the bound may only tighten:  ka*a must not shrink the right-hand side
                if not all(x.__class__ is Lin and L.backs[j].facts.decide(leq(ZERO, (x - atom(a)) * ka)) is True for j, x in enumerate(v)):
                    good = False
                    break
            if good:
                return True
    return False


def worklist(L, loops):
    """A loop that takes the last element off a list and puts back only strict parts of it: the multiset of the elements'
    sizes decreases (values are finite trees), however many parts there are."""
    own = {p: M for M in loops for p in M.phis}
    for p in L.phis:
        if L.kind.get(p) != 'seq':
            continue
        n = next((q for q in L.phis if L.kind.get(q) == 'int' and L.leaf[q] == L.leaf[p] + ('n',)), None)
        if n is None:
            continue
        src = T('seq', p)
        top = T('elem', p, atom(n) - ONE)
        alt = T('elem', src, atom(n) - ONE)
        if all(L.backs[i].facts.dead or taken(L.backs[i], v, p, atom(n) - ONE, (top, alt), own) for i, v in enumerate(L.phis[p][1])):
            return 'strict parts of the last element of %s' % show(p)
    return None


def taken(st, v, p, n, tops, own):
    if v.__class__ is not Seq:
        return False
    segs = list(v.segs)
    if segs and segs[0][0] == 's' and segs[0][1] in (p, T('seq', p)):
        g = segs.pop(0)
        if st.facts.decide(eq(g[2], ZERO)) is not True or st.facts.decide(leq(g[3], n)) is not True:
            return False
    if not segs:
        return True
    top = next((t for t in tops if t in st.facts.disc), None)
    if top is None:
        return False
    return all(part(g, top, st.facts.disc[top], own, 0) for g in segs)


def part(g, top, var, own, depth):
    if g[0] == 'e':
        x = g[1]
        if x.__class__ is not Agg or x.tag[0] != 'adt' or ADTS[x.tag[1]]['kind'] != 'enum':
            return False
        vs = ADTS[x.tag[1]]['variants']
        if x.var != var:
            # smaller than the one taken: it holds no value that could be taken apart
            big = set()
            for f in vs[var]['f']:
                adts_in(f[1], big)
            mine = set()
            for f in vs[x.var]['f']:
                adts_in(f[1], mine)
            return bool(big) and not mine
        return len(x.f) > 0 and all(f.__class__ is Ref and f.obj[0] == 'D' and inside(f.obj[1], f.path, top) for f in x.f)
    if g[0] == 's' and g[1].__class__ is Term and depth < 4:
        q = g[1].args[0] if g[1].op == 'seq' else g[1]
        M = own.get(q)
        if M is None:
            return False
        init, backs = M.phis[q]
        for i, v in enumerate([init] + list(backs)):
            if v.__class__ is not Seq:
                return False
            for h in v.segs:
                if i and h[0] == 's' and h[1] in (q, T('seq', q)):
                    continue
                if not part(h, top, var, own, depth + 1):
                    return False
        return True
    return False


def inside(t, path, top):
    """the place is within a container that `top` refers to"""
    if any(e[0] in ('i', 'mi', 'mk') for e in path) and t.__class__ is Term and t.op == 'fld' and t.args[0] is top:
        return True
    while t.__class__ is Term and t.args and t.args[0].__class__ is Term:
        if t.op in ('elem', 'mval', 'mvali') and t.args[0].__class__ is Term:
            q = t.args[0]
            while q.__class__ is Term and q.op in ('fld', 'seq', 'deref') and q.args[0].__class__ is Term:
                if q is top or q.args[0] is top:
                    return True
                q = q.args[0]
        t = t.args[0]
    return False


def adts_in(ty, acc):
    """the workspace types a type mentions"""
    if isinstance(ty, (tuple, list)):
        if len(ty) > 1 and ty[0] == 'adt' and isinstance(ty[1], str):
            if ADTS[ty[1]]['local']:
                acc.add(ty[1])
        for x in ty:
            adts_in(x, acc)


def terminates(c, r, skip=()):
    """every loop the analysed code can enter has a well-founded measure"""
    if r is None:
        return
    seen = set()
    for L in r.I.loops:
        if not L.backs:
            continue
        rk = progress(L) or worklist(L, r.I.loops)
        nm = '%s' % clean(L.fn.path)
        if rk is None and any(s(L) for s in skip):
            continue
        c.ok('termination:%s:%s' % (r.path, nm), rk is not None, L.fn.path, None,
             'no measure of this loop decreases on every iteration: %s' % '; '.join('%s -> %s' % (show(atom(p)), ', '.join(show(x) for x in L.phis[p][1][:3])) for p in L.phis if L.kind.get(p) == 'int')[:500])
        if rk and nm not in seen:
            seen.add(nm)
            c.sample('loop in %s decreases %s' % (nm, ' then '.join(rk)))


# ---------------------------------------------------------------- writers that fail
def write_failures(c, path, least, **kw):
    """with a writer that may fail: the first failure is the last write, and its error the result"""
    r = c.run(path, **kw)
    if r is None:
        return
    c.ok('writes:' + r.path, not r.I.havocs, r.path, r.fn.span, 'the writer is used in a way that is not known to write everything: %s' % (r.I.havocs and sorted(map(str, r.I.havocs))[:2]))
    n = 0
    for s, v in r.outs:
        if s.facts.dead:
            continue
        ev = []
        tr = s.trace
        while tr is not None:
            if tr[1][0] in ('write', 'writefail'):
                ev.append(tr[1][0])
            tr = tr[0]
        n += 1
        if 'writefail' in ev:
            good = ev.index('writefail') == 0 and ev.count('writefail') == 1 and v.__class__ is Agg and v.var == 1
        else:
            good = v.__class__ is Agg and v.var == 0
        c.ok('failure:' + r.path, good, r.path, r.fn.span, 'a failed write is not reported, or not the last one (%s)' % v)
    for L in r.I.loops:
        for b in L.backs:
            tr, bad = b.trace, False
            while tr is not None and not (tr[1][0] == 'loop' and tr[1][1] is L):
                bad = bad or tr[1][0] == 'writefail'
                tr = tr[0]
            c.ok('goes-on:' + r.path, b.facts.dead or not bad, L.fn.path, None, 'writing goes on after a failed write')
    c.floor('ways of writing to end (%s)' % r.path, n, least)
