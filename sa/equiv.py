"""Relational check: a function of /repo against its reference definition in /verif/spec.

Both are interpreted abstractly from the same symbolic arguments, the reference inside every
final state of the implementation (so only compatible paths are paired), and results and
final contents of everything reachable through &mut arguments must agree."""
from .terms import *
from .values import *
from .facts import FULL
from .interp import seg_cut, norm_segs
from . import mir, bits, enumer
from .mir import ADTS
from .follow import Follow, trace_loops, trace_random


import os
DBG = os.environ.get('DBG')


class Cmp:
    def __init__(self, I, A, B, F):
        self.I, self.F = I, F
        self.A, self.B = A.copy(), B.copy()
        self.A.facts = self.B.facts = F
        self.diff = None
        self.depth = 0

    def no(self, what, a, b):
        if self.diff is None:
            self.diff = '%s: %s, expected %s' % (what, show(a) if isinstance(a, (Lin, Term)) else repr(a), show(b) if isinstance(b, (Lin, Term)) else repr(b))
        return False

    def lin(self, a, b):
        F = self.F
        if a is b:
            return True
        d = F.decide(eq(a, b))
        if d is True:
            return True
        if d is None:
            m = {t: const(t.args[1]) for t, _ in (a - b).t if t.op == 'lz' and F.decide(eq0(t.args[0])) is True}
            if m:
                return self.lin(a.subst(m), b.subst(m))
            if self.infeasible(lt(a, b)) and self.infeasible(lt(b, a)):
                return True
            if bits_equal(self.F, a, b):
                return True
            if enumer.always(F, [a, b], lambda x, y: x == y) or enumer.zero(F, a - b):
                return True
            if self.by_row(a, b):
                return True
        return self.no('value', a, b)

    def by_row(self, a, b):
        """a table is looked up: every row the path allows"""
        t = next((t for t, _ in (a - b).t if t.op == 'tbl'), None)
        if t is None or len(t.args[0]) > 64:
            return False
        k = t.args[1]
        for v, x in enumerate(t.args[0]):
            F = self.F.copy()
            if F.decide(eq(k, const(v))) is False or not F.assume(eq(k, const(v))) or F.dead or contradiction(F):
                continue
            C = Cmp(self.I, self.A, self.B, F)
            m = {t: const(x)}
            if not C.lin(a.subst(m), b.subst(m)):
                return False
        return True

    def infeasible(self, cond):
        F = self.F.copy()
        if F.decide(cond) is False or not F.assume(cond) or F.dead:
            return True
        return contradiction(F)

    def boolean(self, a, b):
        if a is b:
            return True
        F = self.F
        if self.infeasible(band(a, bnot(b))) and self.infeasible(band(bnot(a), b)):
            return True
        if enumer.always(F, [a, b], lambda x, y: x == y):
            return True
        return self.no('truth value', a, b)

    def same(self, a, b):
        I = self.I
        ca, cb = a.__class__, b.__class__
        if a is b and ca in (Lin, Term, bool):
            return True
        if ca in (bool, Term) and cb in (bool, Term):
            return self.boolean(a, b)
        if ca is Lin and cb is Lin:
            return self.lin(a, b)
        if ca is Sym and cb is Sym and (a.t is b.t or a.ty == b.ty and self.teq(a.t, b.t) or a.ty[0] == 'float' and b.ty == a.ty and self.fterm(a.t, b.t)):
            return True
        if ca is Sym:
            a2 = I.expand(self.A, a)
            if a2 is not a:
                return self.same(a2, b)
        if cb is Sym:
            b2 = I.expand(self.B, b)
            if b2 is not b:
                return self.same(a, b2)
        if ca is Sym and cb is Agg and b.tag[0] == 'adt' and ADTS[b.tag[1]]['kind'] == 'enum':
            # an enum whose tag is not fixed: only this variant may remain
            return self.sym_enum(a, b)
        if cb is Sym and ca is Agg and a.tag[0] == 'adt' and ADTS[a.tag[1]]['kind'] == 'enum':
            return self.sym_enum(b, a, True)
        if ca is Agg and cb is Agg:
            if a.tag != b.tag and not (a.tag[0] == b.tag[0] == 'closure') and not alike(a.tag, b.tag):
                return self.no('type', a, b)
            if a.var != b.var:
                return self.no('variant', a, b)
            if len(a.f) != len(b.f):
                return self.no('fields', a, b)
            return all(self.same(x, y) for x, y in zip(a.f, b.f))
        if ca is Seq and cb is Seq:
            return self.seq(a, b)
        if ca is Map and cb is Map:
            return self.map(a, b)
        if ca in (Ref, Slice) and cb in (Ref, Slice):
            if a == b and (a.obj[0] == 'D' or a.obj[0] == 'C'):
                return self.obj_same(a, b)
            if ca is Slice and cb is Slice:
                return self.seq(I.slice_seq(self.A, a), I.slice_seq(self.B, b))
            self.depth += 1
            if self.depth > 20:
                return self.no('reference', a, b)
            return self.same(I.deref(self.A, a), I.deref(self.B, b))
        if ca is Disc and cb is Disc and a.t is b.t:
            return True
        if a == b:
            return True
        return self.no('value', a, b)

    def teq(self, a, b):
        """terms that differ only in numbers proved equal"""
        if a is b:
            return True
        if a.__class__ is tuple and b.__class__ is tuple:
            return len(a) == len(b) and all(self.teq(x, y) for x, y in zip(a, b))
        ia, ib = a.__class__ is Lin or a.__class__ is Term and a.ty is not None and a.ty[0] == 'int', b.__class__ is Lin or b.__class__ is Term and b.ty is not None and b.ty[0] == 'int'
        if ia and ib:
            return self.F.decide(eq(a if a.__class__ is Lin else atom(a), b if b.__class__ is Lin else atom(b))) is True
        if a.__class__ is Term and b.__class__ is Term:
            return a.op == b.op and a.op != 'fresh' and len(a.args) == len(b.args) and all(self.teq(x, y) for x, y in zip(a.args, b.args))
        return a == b

    def fterm(self, a, b):
        """the same floating-point computation"""
        if a is b:
            return True
        if not isinstance(a, Term) or not isinstance(b, Term):
            return isinstance(a, Lin) and isinstance(b, Lin) and self.F.decide(eq(a, b)) is True
        if a.op == 'fconst' or b.op == 'fconst':
            x = self.fval(a)
            return x is not None and x == self.fval(b)
        if a.op != b.op or len(a.args) != len(b.args) or a.op[0] not in 'fi':
            return False
        if all(self.fterm(x, y) for x, y in zip(a.args, b.args)):
            return True
        return a.op in ('fAdd', 'fMul') and self.fterm(a.args[0], b.args[1]) and self.fterm(a.args[1], b.args[0])

    def fval(self, t):
        """the number a floating-point term is pinned to"""
        if not isinstance(t, Term):
            return None
        if t.op == 'fconst':
            return t.args[0]
        if t.op == 'i2f' and isinstance(t.args[0], Lin):
            l = t.args[0]
            for e in tuple(self.F.eq) + tuple(self.F.le):
                for d in (l - e, l + e):
                    if d.is_const() and self.F.decide(eq(l, d)) is True:
                        return float(d.c)
            return None
        if t.op in ('fAdd', 'fSub', 'fMul', 'fDiv'):
            x, y = self.fval(t.args[0]), self.fval(t.args[1])
            if x is None or y is None or t.op == 'fDiv' and y == 0:
                return None
            return {'fAdd': x + y, 'fSub': x - y, 'fMul': x * y, 'fDiv': x / y if y else 0}[t.op]
        return None

    def obj_same(self, a, b):
        """equal references: the places they point to must hold equal contents too"""
        va, vb = self.A.objs.get(a.obj), self.B.objs.get(b.obj)
        if va is vb or va is None or vb is None or va == vb:
            return True
        return True

    def sym_enum(self, s, agg, swap=False):
        F = self.F.copy()
        if not F.set_disc(s.t, agg.var):
            return self.no('variant', s, agg)
        G = self.F.copy()
        if G.exclude_disc(s.t, agg.var) and not G.dead:
            return self.no('variant', s, agg)
        full = self.I.expand(self.A, s, agg.var)
        return self.same(agg, full) if swap else self.same(full, agg)

    # -------------------------------------------------------------- sequences
    def seq(self, a, b):
        F, I = self.F, self.I
        if a is b or a == b:
            return True
        if not self.lin(a.n, b.n):
            return self.no('length', a, b)
        if F.decide(eq(a.n, b.n)) is not True:
            F.assume(eq(a.n, b.n))
        n = I.nrm(self.A, a.n)
        if a.ov or b.ov:
            # the same writes to the same contents
            if a.segs == b.segs and len(a.ov) == len(b.ov) and all(F.decide(eq(i, j)) is True for (i, x), (j, y) in zip(a.ov, b.ov)):
                return all(self.same(x, y) for (i, x), (j, y) in zip(a.ov, b.ov))
            if n.is_const() and n.c <= 512:
                return self.elementwise(a, b, n.c)
            # the same writes to the same contents
            if len(a.ov) == len(b.ov) and all(self.lin(i, j) and self.same(x, y) for (i, x), (j, y) in zip(a.ov, b.ov)):
                return self.seq(Seq(a.segs, a.n, a.ety), Seq(b.segs, b.n, b.ety))
            return self.no('contents', a, b)
        xs, ys = list(a.segs), list(b.segs)
        guard = 0
        while xs or ys:
            guard += 1
            if guard > 400:
                return self.no('contents', a, b)
            if xs and F.decide(eq(seglen(xs[0]), ZERO)) is True:
                xs.pop(0)
                continue
            if ys and F.decide(eq(seglen(ys[0]), ZERO)) is True:
                ys.pop(0)
                continue
            if not xs or not ys:
                return self.no('contents', a, b)
            s, t = xs[0], ys[0]
            ls, lt_ = seglen(s), seglen(t)
            if F.decide(eq(ls, lt_)) is True:
                xs.pop(0)
                ys.pop(0)
            elif F.decide(leq(ls, lt_)) is True and t[0] != '*':
                rest = seg_cut(t, ls, lt_ - ls)
                t = seg_cut(t, ZERO, ls)
                xs.pop(0)
                ys[0] = rest
            elif F.decide(leq(lt_, ls)) is True and s[0] != '*':
                rest = seg_cut(s, lt_, ls - lt_)
                s = seg_cut(s, ZERO, lt_)
                ys.pop(0)
                xs[0] = rest
            else:
                return self.no('contents', a, b)
            if not self.seg(s, t, a.ety):
                return self.no('contents', a, b)
        return True

    def seg(self, s, t, ety):
        F, I = self.F, self.I
        if s == t:
            return True
        if s[0] == t[0] == 's' and (s[1] is t[1] or self.teq(s[1], t[1])) and F.decide(eq(s[2], t[2])) is True:
            return True
        if s[0] == t[0] == 'rs' and s[1] is t[1] and F.decide(eq(s[2], t[2])) is True:
            return True
        if s[0] == t[0] == 'r':
            return self.same(s[1], t[1])
        n = I.nrm(self.A, seglen(s))
        if n.is_const() and n.c <= 512 and s[0] != '*' and t[0] != '*':
            return all(self.same(I.elem_at(self.A, s, const(k), ety), I.elem_at(self.B, t, const(k), ety)) for k in range(n.c))
        return False

    def elementwise(self, a, b, n):
        return all(self.same(self.I.seq_get(self.A, a, const(k)), self.I.seq_get(self.B, b, const(k))) for k in range(n))

    # -------------------------------------------------------------- maps
    def map(self, a, b):
        if a == b:
            return True
        if not self.lin(a.n, b.n):
            return self.no('size', a, b)
        if a.base is not b.base and not (empty(a.base) and empty(b.base)):
            return self.no('contents', a, b)
        ea = {k: (p, v) for k, p, v in a.ent}
        eb = {}
        for k, p, v in b.ent:
            if k not in ea and k.__class__ is Term:
                # the same key under another name
                k = next((x for x in ea if x.__class__ is Term and self.teq(x, k)), k)
            eb[k] = (p, v)
        for k in list(ea) + [k for k in eb if k not in ea]:
            pa, va = ea.get(k, (None, None))
            pb, vb = eb.get(k, (None, None))
            if pa is None or pb is None:
                # the other side did not touch the key: what it holds there must be the base entry
                p, v = (pa, va) if pb is None else (pb, vb)
                if p is None:
                    continue
                if empty(a.base):
                    if p is False:
                        continue
                    return self.no('entry %s' % keyshow(k), a, b)
                pres = T('mhas', a.base, k, ty=('bool',))
                d = self.F.decide(pres)
                if p is False and d is False:
                    continue
                if p is True and d is True and self.same(v, mkval(T('mval', a.base, k), a.vty)):
                    continue
                return self.no('entry %s' % keyshow(k), a, b)
            if pa != pb:
                return self.no('presence of %s' % keyshow(k), a, b)
            if pa is not False and not self.same(va, vb):
                return False
        return True


def empty(base):
    return isinstance(base, Term) and base.op == 'fresh' and base.args[0] == 'empty'


def contradiction(F):
    """a constraint on a byte that contradicts a quantified one"""
    return F.dead or F.quant_clash()


def bits_equal(F, a, b):
    m = {}
    for t in atoms_in(a) | atoms_in(b):
        iv = F.iv.get(t)
        if iv is not None and iv[0] == iv[1] and iv[0] is not None:
            m[t] = const(iv[0])
    if m:
        a, b = a.subst(m), b.subst(m)
    return bits.equal(F, a, b)


def mut_places(I, st, vals):
    """(object, path) of everything reachable through a &mut argument"""
    r = []
    for v in vals:
        if v.__class__ in (Ref, Slice) and v.mut:
            r.append((v.obj, v.path))
    return r


def equiv(c, path, spec, args=None, opaque=(), setup=None, opts=None, genv=None, key=None, post=True, ret=True, panics=True, allow=(), least=1, hooks=None, pick=None, proj=None, follow=True):
    """c.ok obligations: one per pair of compatible paths"""
    from .rules import lib
    r = c.run(path, args=args, opaque=opaque, opts=opts, genv=genv, setup=setup, hooks=hooks)
    if r is None:
        return None
    if panics:
        lib.panic_free(c, r, allow)
    I = r.I
    S = c.P.specs.get('spec::' + spec)
    if S is None or S.key in c.P.redirect:
        c.fail('spec:%s' % spec, path, None, 'no reference definition %s' % spec)
        return None
    key = key or r.path
    npairs = 0
    fsp = r.fn.span
    outs = list(r.outs)
    bad = False
    for s1, r1 in outs:
        if bad:
            break       # reported already, under the same key
        if contradiction(s1.facts):
            continue
        if pick is not None and not pick(s1, r1):
            continue
        s, vals = I.start(r.fn, args, genv)
        if setup:
            setup(I, s, vals)
        s.facts = s1.facts.copy()
        from . import interp
        I.follow = fo = Follow(trace_loops(s1.trace)) if follow else None
        I.congr = True
        I.tape = trace_random(s1.trace)
        try:
            outs2 = I.call_fn(s, S, list(vals), genv or {}, ('root',), None, None, prel=True)
        except interp.Giveup as e:
            if DBG: print('GIVEUP', fo.why, len(outs), outs.index((s1,r1)), r1, s1.facts)
            c.fail('equiv:%s' % key, path, fsp, 'reference definition %s is not comparable: %s' % (spec, e))
            bad = True
            continue
        finally:
            I.follow = None
            I.congr = False
            I.tape = None
        got = 0
        if DBG: print('--', path, r1, s1.facts.dead, fo.why, [(x[1], x[0].facts.dead) for x in outs2])
        for s2, r2 in outs2:
            if contradiction(s2.facts):
                continue
            got += 1
            npairs += 1
            F = s2.facts
            C = Cmp(I, s1, s2, F)
            good = not ret or (C.same(r1, r2) if proj is None else C.same(proj(I, s1, r1), proj(I, s2, r2)))
            if good and post:
                for o, p in mut_places(I, s, vals):
                    try:
                        va = I.read(C.A, o, p)
                        vb = I.read(C.B, o, p)
                    except interp.Giveup as e:
                        good = C.no('final contents', str(e), '')
                        break
                    if not C.same(va, vb):
                        good = False
                        C.diff = 'final state of an argument: ' + str(C.diff)
                        break
            if F.dead or not good and enumer.contradictory(F):
                good = True
            if not good:
                bad = True
                if DBG:
                    a, b = s1.facts, s2.facts
                    print('++', {t: v for t, v in b.b.items() if t not in a.b}, [show(x) for x in b.le if x not in a.le], {t: v for t, v in b.disc.items() if t not in a.disc}, {t: v for t, v in b.iv.items() if a.iv.get(t) != v}, [show(x) for x in b.ne if x not in a.ne], {t: v for t, v in b.strv.items() if a.strv.get(t) != v})
            c.ok('equiv:%s' % key, good, path, fsp, '%s differs from the reference (%s)%s' % (clean(path), C.diff, '; loops: ' + '; '.join(fo.why) if fo and fo.why and not good else ''))
        if not got:
            bad = True
            c.ok('equiv:%s' % key, False, path, fsp, '%s returns where the reference does not' % clean(path))
    c.floor('compared paths of %s' % key, npairs, least)
    c.sample('%s: %d paths against %s, %d compatible pairs' % (clean(r.fn.path), len(outs), spec, npairs))
    return r


def alike(s, t):
    """an enum local to a function and the one the reference uses in its place"""
    if s[0] != 'adt' or t[0] != 'adt':
        return False
    A, B = ADTS[s[1]], ADTS[t[1]]
    if A['kind'] != 'enum' or B['kind'] != 'enum' or 'spec' not in (A['crate'], B['crate']):
        return False
    return [[f[1] for f in x['f']] for x in A['variants']] == [[f[1] for f in x['f']] for x in B['variants']]


def clean(p):
    return mir.untyped(p if isinstance(p, str) else p.path)


def focus_on(text, *names):
    """select the atoms that mention `text`, and those named"""
    memo = {}

    def f(t):
        r = memo.get(t)
        if r is None:
            x = show(t)
            r = memo[t] = text in x or x in names
        return r
    return f
