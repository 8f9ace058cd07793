"""Loops of a reference definition run in lockstep with the loops the implementation went through.

While a reference is interpreted inside a final state of the implementation, a loop of the
reference is matched with a loop of that path: every location the reference loop changes is
expressed through the values the implementation's loop carries, and the body of the reference
is interpreted under the facts of each iteration the implementation can make.  It has to
continue too, and to preserve the correspondence.  After the loop, both speak of the same values."""
from .terms import *
from .values import *
from .interp import Interp, Giveup
from .loops import Joiner


import os
DBG = os.environ.get('FDBG')


def dsub(e, m):
    """substitution that reaches into divisions"""
    m = dict(m)
    for a, _ in e.t:
        if a not in m and a.op in ('div', 'rem'):
            m[a] = (div if a.op == 'div' else rem)(dsub(a.args[0], m), a.args[1])
    return e.subst(m)


def exact(F, alias):
    """a division the path knows to be exact"""
    for e in alias.values():
        if e.__class__ is Lin:
            for a, _ in e.t:
                if a.op == 'div' and F.prove_cong(a.args[0], a.args[1]):
                    F.add_eq(atom(a) * a.args[1] - a.args[0])


def same_ety(a, b):
    from .equiv import alike
    return a == b or a[0] != b[0] and 'int' not in (a[0], b[0]) or a[0] == b[0] == 'adt' and (a[1] == b[1] or alike(a, b)) or a[0] == b[0] and a[0] not in ('adt', 'int')


def alias_(a):
    return [(k[0][0][1:], show(v) if v.__class__ is Lin else v) for k, v in a.items()]


def same_objs(a, b):
    """the same contents of memory (places nobody has looked at yet are not in it)"""
    for k in a.keys() | b.keys():
        x, y = a.get(k), b.get(k)
        if x is None or y is None:
            v = y if x is None else x
            if k[0] != 'D' or v.__class__ is not Sym:
                return False
        elif x != y:
            return False
    return True


class Follow:
    def __init__(self, recs):
        self.recs = list(recs)
        self.why = []
        self.alias = {}
        self.peel = 0


def trace_loops(tr, stop=None):
    r = []
    while tr is not None:
        e = tr[1]
        if e[0] == 'loop':
            if e[1] is stop:
                break
            r.append(e[1])
        tr = tr[0]
    r.reverse()
    return r


def trace_random(tr, stop=None):
    r = []
    while tr is not None:
        e = tr[1]
        if e[0] == 'loop' and e[1] is stop:
            break
        if e[0] == 'random' and len(e) == 5:
            r.append((e[1], e[3], e[4]))
        elif e[0] == 'random' and len(e) == 3:
            r.append((e[1], None, e[2]))
        tr = tr[0]
    r.reverse()
    return r


def gone(F):
    return F.dead or F.quant_clash()


class FollowMixin:
    def follow_loop(self, fr, h, body, st0):
        ctx = self.follow
        i0 = st0.ghost.get('_fp', 0)
        save = (self.first_branch, self.trial, self.cond_log, self.optimistic)
        try:
            for i in range(i0, len(ctx.recs)):
                L1 = ctx.recs[i]
                self.cond_log, self.optimistic = None, 0
                self.trial = save[1] + 1
                old = next((x for x in L1.__dict__.setdefault('known', []) if x[0] == (fr.fid, h) and same_objs(x[1], st0.objs)), None)
                try:
                    if old is not None:
                        H2, ctx.alias = old[2] and old[2].copy(), old[3]
                    else:
                        H2 = self.match_loop(fr, h, body, st0, L1, ctx)
                        L1.known.append(((fr.fid, h), dict(st0.objs), H2 and H2.copy(), ctx.alias if H2 else None))
                except Giveup as e:
                    ctx.why.append('%s/%s: %s' % (L1.name, h, e))
                    H2 = None
                self.trial, self.follow = save[1], ctx
                if H2 is None:
                    continue
                X = H2
                X.facts = st0.facts.copy()
                exact(X.facts, ctx.alias)
                X.ghost = dict(st0.ghost)
                X.ghost['_fp'] = i + 1
                X.trace = st0.trace
                self.trial += 1
                back, exits, rets = self.iterate(fr, h, body, [X])
                left = [b for b in back if not gone(b.facts)]
                if left:
                    if DBG and not save[1]:
                        stays(L1, st0, left)
                    ctx.why.append('%s/%s: the reference goes on where the loop ends' % (L1.name, h))
                    continue
                outs = dict(exits)
                if rets:
                    outs['ret'] = rets
                for ss in outs.values():
                    for s in ss:
                        self.normalise_phis(s, L1)
                return list(outs.items())
            # the code may have handled the first element apart from the others
            if i0 < len(ctx.recs) and ctx.peel < 1:
                ctx.peel += 1
                try:
                    self.trial = save[1]
                    self.cond_log = None
                    back, exits, rets = self.iterate(fr, h, body, [st0.copy()])
                    back = [b for b in back if not b.facts.dead]
                    outs = dict(exits)
                    if rets:
                        outs['ret'] = rets
                    if len(back) <= 4:
                        for s in back:
                            r = self.follow_loop(fr, h, body, s)
                            if r is None:
                                break
                            for tb, ss in r:
                                outs.setdefault(tb, []).extend(ss)
                        else:
                            return list(outs.items())
                finally:
                    ctx.peel -= 1
            if i0 >= len(ctx.recs):
                ctx.why.append('loop %s of the reference has no counterpart' % h)
        finally:
            self.first_branch, self.trial, self.cond_log, self.optimistic = save
            self.follow = ctx
        return None

    def match_loop(self, fr, h, body, st0, L1, ctx):
        def no(why):
            ctx.why.append('%s/%s: %s' % (L1.name, h, why))
            return None
        if not L1.backs:
            return None
        # what the reference loop changes
        self.follow = None
        self.optimistic = 1
        J = Joiner(self, 'probe', [st0])
        base = st0.copy()
        base.facts = L1.init.facts.copy()
        G = base
        n = -1
        pb = []
        for rnd in range(8):
            pb, _, _ = self.iterate(fr, h, body, [G.copy()])
            if not pb:
                break
            G = self.join_states(J, fr, h, [base] + pb, None)
            G.facts = L1.init.facts.copy()
            G.ghost = dict(st0.ghost)
            G.trace = st0.trace
            if len(J.memo) == n:
                break
            n = len(J.memo)
        self.optimistic = 0
        if not pb:
            return no('the reference loop does not iterate')
        slope = {}
        for t, vs in J.vals.items():
            if J.kind[t] == 'int':
                ds = self.const_deltas(vs, t)
                if ds and all(d == ds[0] for d in ds):
                    slope[(J.leaf[t], 'int')] = ds[0]
        cands, idx = {}, {}
        signs = {(J.leaf[t], 'int'): self.moves(vs, t) for t, vs in J.vals.items() if J.kind[t] == 'int'}

        def add(A, t):
            key = (A.leaf[t], A.kind[t])
            if key in cands:
                return False
            cands[key] = self.counterparts(key, A.vals[t][0], slope.get(key), L1, st0, signs.get(key))
            idx[key] = 0
            return bool(cands[key])
        for t in J.vals:
            if not add(J, t):
                return no('nothing in the loop corresponds to %s (%s, from %s)' % (J.leaf[t], J.kind[t], str(J.vals[t][0])[:80]))
        tries = 0
        for rnd in range(60):
            A = Joiner(self, 'follow', [st0])
            A.alias = {k: cands[k][idx[k]] for k in cands}
            # the length of a list goes with the list
            for k in cands:
                if k[1] == 'int' and k[0][-1] == 'n' and (k[0][:-1], 'seq') in cands:
                    l = L1.leaf[A.alias[(k[0][:-1], 'seq')]] + ('n',)
                    for t in L1.phis:
                        if L1.leaf[t] == l and L1.kind[t] == 'int':
                            A.alias[k] = atom(t)
            H2 = self.join_states(A, fr, h, [st0] + pb, None)
            if A.memo:
                for t in A.vals:
                    if not add(A, t):
                        return no('nothing in the loop corresponds to %s (%s, from %s)' % (A.leaf[t], A.kind[t], str(A.vals[t][0])[:80]))
                continue
            r = self.lockstep(fr, h, body, st0, L1, H2, pb, A.alias, ctx)
            if r is True:
                ctx.why.append('%s/%s: matched %s' % (L1.name, h, {k[0]: v for k, v in A.alias.items()}))
                ctx.alias = A.alias
                return H2
            if r.__class__ is str:
                # perhaps another correspondence keeps step
                ks = [k for k in cands if idx[k] + 1 < len(cands[k])]
                tries += 1
                if not ks or tries > 12:
                    return no(r)
                ctx.why.append('%s/%s: %s (%s)' % (L1.name, h, r, alias_(A.alias)))
                for k in list(cands)[list(cands).index(ks[-1]) + 1:]:
                    idx[k] = 0
                idx[ks[-1]] += 1
                continue
            kind, key = r
            if kind == 'new':
                for t in key.vals:
                    if not add(key, t):
                        return no('nothing in the loop corresponds to %s' % (key.leaf[t],))
            elif kind == 'gone':
                del cands[key], idx[key]
            else:
                idx[key] += 1
                if idx[key] >= len(cands[key]):
                    return no('nothing in the loop keeps step with %s' % (key[0],))
        return no('no correspondence found')

    def lockstep(self, fr, h, body, st0, L1, H2, pb, alias, ctx):
        from .equiv import Cmp
        for k, b1 in enumerate(L1.backs):
            if b1.facts.dead:
                continue
            X = H2.copy()
            X.facts = b1.facts.copy()
            exact(X.facts, alias)
            X.ghost = dict(st0.ghost)
            X.ghost['_fp'] = 0
            X.ghost['_rp'] = 0
            X.trace = st0.trace
            self.follow = Follow(trace_loops(b1.trace, L1))
            tape, self.tape = self.tape, trace_random(b1.trace, L1)
            try:
                back, exits, rets = self.iterate(fr, h, body, [X])
            finally:
                self.tape = tape
            ctx.why.extend('  ' + w for w in self.follow.why)
            self.follow = None
            if any(not gone(s.facts) for ss in list(exits.values()) + [rets] for s in ss):
                if DBG: gone_on(k, L1, b1, exits, rets)
                return 'the reference ends where the loop goes on'
            back = [b for b in back if not gone(b.facts)]
            if not back:
                return 'no iteration of the reference matches'
            m = {t: vs[1][k] for t, vs in L1.phis.items() if L1.kind[t] == 'int'}
            for b2 in back:
                A = Joiner(self, 'follow', [st0])
                A.alias = alias
                self.join_states(A, fr, h, [st0] + pb + [b2], None)
                if A.memo:
                    return ('new', A)
                for key, e in alias.items():
                    if key not in A.avals:
                        return ('gone', key)
                    v2 = A.avals[key][-1]
                    C = Cmp(self, b1, b2, b2.facts)
                    if key[1] == 'int':
                        ok = C.lin(dsub(e, m), v2)
                    elif e.op == 'not' and e.args[0] in L1.phis:
                        ok = C.boolean(bnot(L1.phis[e.args[0]][1][k]), v2)
                    else:
                        v1 = L1.phis[e][1][k]
                        if v1.__class__ is Sym and v2.__class__ is Seq:
                            v1 = self.expand(b1, v1)
                        ok = C.same(v1, v2)
                    if not ok and not C.F.dead:
                        ctx.why.append('   %s as %s: %s' % (key[0], show(e), C.diff))
                        return ('next', key)
        return True

    def moves(self, vs, t):
        """by how much a number changes in the iterations of a loop"""
        r = set()
        for v in vs[1:]:
            d = v - atom(t)
            r.add(d.c if d.is_const() else None)
        return r

    def counterparts(self, key, v0, sl, L1, st0, sign=None):
        from .equiv import Cmp
        leaf, kind = key
        out = []
        for t, (i1, bs) in L1.phis.items():
            k1 = L1.kind[t]
            if k1 != kind:
                continue
            if kind == 'int':
                ds = self.const_deltas([i1] + list(bs), t)
                s1 = ds[0] if ds and all(d == ds[0] for d in ds) else None
                A = atom(t)
                # lengths of lists go with the lists; numbers that move alike come first
                odd = 0 if sign is None else len(self.moves([i1] + list(bs), t) ^ sign)
                if L1.leaf[t][-1] in ('n', 'gh') and leaf[-1] != L1.leaf[t][-1]:
                    odd += 6
                if s1 and sl is not None:
                    if sl % s1 == 0:
                        out.append((odd + (0 if v0 is i1 else 1), v0 + (A - i1) * (sl // s1)))
                    elif s1 % sl == 0 and s1 // sl > 0:
                        out.append((odd + 4, v0 + div(A - i1, s1 // sl)))
                    continue
                same = st0.facts.decide(eq(v0, i1)) is True
                worse = odd + (3 if (s1 is None) != (sl is None) else 0)
                out.append((worse + (0 if same else 2), A if same else A + (v0 - i1)))
                out.append((worse + 3, v0 + i1 - A))
            else:
                F = st0.facts.copy()
                C = Cmp(self, st0, st0, F)
                if kind == 'seq' and i1.__class__ is Seq and v0.__class__ is Seq and i1.ety is not None and v0.ety is not None and not same_ety(i1.ety, v0.ety):
                    continue
                try:
                    if C.same(i1, v0):
                        out.append((0, t))
                    elif kind == 'bool' and C.boolean(bnot(i1), v0):
                        out.append((1, bnot(t)))
                except Giveup:
                    pass
        out.sort(key=lambda x: x[0])
        return [e for _, e in out]


for _n, _f in list(FollowMixin.__dict__.items()):
    if not _n.startswith('__'):
        setattr(Interp, _n, _f)


def gone_on(k, L1, b1, exits, rets):
    """what the reference assumes that the loop does not (debugging)"""
    print('++ back', k, {show(p)[-12:]: show(v[1][k])[:60] for p, v in L1.phis.items() if v[1][k] != atom(p)})
    print('   knows', {show(t)[-60:]: v for t, v in b1.facts.disc.items()}, {show(t): v for t, v in b1.facts.b.items()}, [show(x)[-60:] for x in b1.facts.le if 'len' in show(x)])
    for tb, ss in list(exits.items()) + [('ret', rets)]:
        for s in ss:
            if not s.facts.dead:
                print('   ', tb, {show(t)[-60:]: v for t, v in s.facts.b.items() if t not in b1.facts.b}, [show(x)[-80:] for x in s.facts.le if x not in b1.facts.le], {show(t)[-60:]: v for t, v in s.facts.disc.items() if t not in b1.facts.disc}, {show(t)[-40:]: v for t, v in s.facts.iv.items() if b1.facts.iv.get(t) != v}, [show(x)[-80:] for x in s.facts.ne if x not in b1.facts.ne])


def stays(L1, st0, left):
    """what the reference assumes when it goes on where the loop ends (debugging)"""
    print('++ stays', L1.name, [show(x)[-60:] for x in st0.facts.le[-8:]], {show(t)[-40:]: hex(v) for t, v in st0.facts.mask.items()}, {show(t)[-40:]: v for t, v in st0.facts.iv.items()})
    for s in left:
        print('   ', {show(t)[-60:]: v for t, v in s.facts.b.items() if t not in st0.facts.b}, [show(x)[-80:] for x in s.facts.le if x not in st0.facts.le], {show(t)[-60:]: v for t, v in s.facts.disc.items() if t not in st0.facts.disc}, {show(t)[-40:]: v for t, v in s.facts.iv.items() if st0.facts.iv.get(t) != v}, [show(x)[-80:] for x in s.facts.ne if x not in st0.facts.ne])
