"""Joins and loop generalisation (mixed into Interp)."""
from math import gcd
from .terms import *
from .facts import Facts, FULL, set_nvariants
from .values import *
from .interp import Interp, Frame, LoopRec, Giveup, OpenBranch, norm_segs
from .mir import ADTS
from . import mir

_uid = itertools.count()


def subterms(t):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.__class__ is Lin:
            todo += [a for a, _ in x.t]
        elif x.__class__ is tuple:
            todo += list(x)
        elif x.__class__ is Term and x not in seen:
            seen.add(x)
            out.append(x)
            todo += list(x.args)
    return out


class Joiner:
    """leaf-wise join of several values into one with phi atoms where they differ"""

    def __init__(self, I, name, states):
        self.I, self.name, self.states = I, name, states
        self.uid = next(_uid)
        self.memo = {}       # leaf path -> phi term
        self.vals = {}       # phi term -> list of values (one per state)
        self.kind = {}
        self.leaf = {}
        self.nocopy = set()
        self.newcopy = False
        self.share = {}      # phi term -> the locations it stands for
        self.told = {}       # phi term -> the location that said so in this join
        self.splits = 0
        self.congr = True
        self.alias = {}      # (leaf, kind) -> what stands for the phi
        self.avals = {}

    def begin(self, states):
        self.avals = {}
        self.states = states
        self.vals = {}
        self.told = {}

    def phi(self, leaf, ty, vals, kind):
        if (leaf, kind) in self.alias:
            self.avals[(leaf, kind)] = list(vals)
            return self.alias[(leaf, kind)]
        t = self.memo.get((leaf, kind))
        if kind == 'int' and self.congr and self.name != 'probe':
            # locations that always hold the same number share one name, until proved different
            vals = list(vals)
            if t is None:
                r = next((x for x, vs in self.vals.items() if self.kind[x] == 'int' and (x.ty == ty or None in (x.ty, ty)) and vs == vals), None)
                if r is not None:
                    self.memo[(leaf, kind)] = r
                    self.share.setdefault(r, [self.leaf[r]]).append(leaf)
                    return r
            elif len(self.share.get(t, ())) > 1:
                if t not in self.vals:
                    self.vals[t] = vals
                    self.told[t] = leaf
                    return t
                if self.told.get(t) == leaf or self.vals[t] == vals:
                    self.vals[t] = vals
                    return t
                ls = self.share[t]
                ls.remove(leaf)
                if self.leaf[t] == leaf:
                    self.leaf[t] = self.told.get(t, ls[0])
                self.splits += 1
                t = None
        if t is None:
            t = T('phi', self.name, self.uid, leaf, ty=ty)
            self.memo[(leaf, kind)] = t
            self.kind[t] = kind
            self.leaf[t] = leaf
        self.vals[t] = list(vals)
        return t

    def join(self, leaf, ty, vals):
        v0 = vals[0]
        if all(v is v0 or v == v0 for v in vals):
            return v0
        cl = {v.__class__ for v in vals}
        if Sym in cl:
            o = next(v for v in vals if v.__class__ is Sym)
            if all(untouched(self.I, s, v, o) for s, v in zip(self.states, vals)):
                return o
            if cl == {Agg, Sym}:
                vals = [self.I.expand(s, v) for s, v in zip(self.states, vals)]
                v0 = vals[0]
                cl = {v.__class__ for v in vals}
        if cl == {Lin}:
            if ty is None or ty[0] not in ('int', 'char', 'len'):
                ty = None
                for v in vals:
                    for a, _ in v.t:
                        if a.ty and a.ty[0] in ('int', 'char', 'len'):
                            ty = a.ty if ty is None or ty == a.ty else ty
                            break
            t = self.phi(leaf, ty, vals, 'int')
            return t if t.__class__ is Lin else atom(t)
        if cl <= {bool, Term}:
            return self.phi(leaf, ('bool',), vals, 'bool')
        if cl == {Agg}:
            if all(v.tag == v0.tag and v.var == v0.var and len(v.f) == len(v0.f) for v in vals):
                fs = []
                for i in range(len(v0.f)):
                    fty = None
                    if ty is not None and ty[0] in ('adt', 'tuple'):
                        try:
                            fty = self.I.field_ty(ty, v0.var, i)
                        except (Giveup, IndexError):
                            fty = None
                    fs.append(self.join(leaf + ('.%d' % i,), fty, [v.f[i] for v in vals]))
                return Agg(v0.tag, v0.var, fs)
        if cl == {Ref}:
            if all(v.obj == v0.obj and len(v.path) == len(v0.path) for v in vals):
                path = []
                ok = True
                for k in range(len(v0.path)):
                    es = [v.path[k] for v in vals]
                    if all(e == es[0] for e in es):
                        path.append(es[0])
                    elif all(e[0] == es[0][0] and e[0] in ('i', 'mi', 'mki') for e in es):
                        path.append((es[0][0], self.join(leaf + ('@%d' % k,), mir_usize, [e[1] for e in es])))
                    else:
                        ok = False
                        break
                if ok:
                    return Ref(v0.obj, tuple(path), v0.mut)
        if cl == {Slice}:
            if all(v.obj == v0.obj and v.path == v0.path for v in vals):
                return Slice(v0.obj, v0.path, self.join(leaf + ('lo',), LEN, [v.lo for v in vals]), self.join(leaf + ('n',), LEN, [v.n for v in vals]), v0.st, v0.mut)
            # different targets: a slice of something unknown
            t = self.phi(leaf, None, vals, 'slice')
            try:
                e = self.I.typeof(self.states[0], v0)
            except Giveup:
                e = ('ref', False, ('slice', U8))
            DTY[t] = e[2]
            n = self.join(leaf + ('n',), LEN, [v.n for v in vals])
            if len({v.n for v in vals}) == 1:
                n = v0.n
            o = ('D', t)
            return Slice(o, (), ZERO, self.dlen(o, n), v0.st, v0.mut)
        if cl <= {Seq, Sym} and Seq in cl or (cl == {Sym} and ty is not None and is_seq_ty(ty)):
            vs = [self.I.expand(s, v) for s, v in zip(self.states, vals)]
            if all(v.__class__ is Seq for v in vs):
                return self.join_seq(leaf, ty, vs)
        if cl <= {Map, Sym} and Map in cl:
            vs = [self.I.expand(s, v) for s, v in zip(self.states, vals)]
            if all(v.__class__ is Map for v in vs):
                vs = [strip(self.I, s, v) for s, v in zip(self.states, vs)]
                if all(v == vs[0] for v in vs):
                    return vs[0]
                t = self.phi(leaf, None, vs, 'map')
                n = self.join(leaf + ('n',), LEN, [v.n for v in vs])
                m0 = vs[0]
                b = T('map', t)
                # keep per-key entries on which all agree
                ent = []
                for k, p, x in m0.ent:
                    if all(any(k2 == k and p2 == p and x2 == x for k2, p2, x2 in v.ent) for v in vs[1:]):
                        ent.append((k, p, x))
                if all(v.base is m0.base for v in vs) and all(v.ent == m0.ent for v in vs):
                    return Map(m0.base, m0.ent, n, m0.kty, m0.vty)
                return Map(b, ent, n, m0.kty, m0.vty)
        # anything else: an unknown value of the type
        if ty is None or ty[0] in ('param', 'other'):
            for s, v in zip(self.states, vals):
                t2 = self.I.typeof(s, v)
                if t2[0] not in ('other', 'param', 'seq', 'map'):
                    ty = t2
                    break
        if ty is None:
            ty = ('other', None)
        if ty[0] == 'adt' and any(a[0] in ('other', 'param') for a in ty[2]):
            # refine type arguments from whichever value knows them
            args = list(ty[2])
            for s, v in zip(self.states, vals):
                t2 = self.I.typeof(s, v)
                if t2[0] == 'adt' and t2[1] == ty[1]:
                    for i, a in enumerate(t2[2]):
                        if i < len(args) and args[i][0] in ('other', 'param'):
                            args[i] = a
            ty = ('adt', ty[1], tuple(args))
        t = self.phi(leaf, ty if ty[0] in ('int', 'bool', 'char') else None, vals, 'sym')
        return mkval(t, ty)

    def dlen(self, o, n):
        return n

    def join_seq(self, leaf, ty, vs):
        v0 = vs[0]
        ety = v0.ety
        # same segment structure: join lengths only
        if (leaf, 'seq') not in self.memo and all(len(v.segs) == len(v0.segs) and v.ov == v0.ov for v in vs):
            ok = True
            for k, s in enumerate(v0.segs):
                for v in vs[1:]:
                    x = v.segs[k]
                    if x[0] != s[0]:
                        ok = False
                    elif s[0] in ('s', 'rs') and x[1] is not s[1]:
                        ok = False
                    elif s[0] == 'c' and x[1] != s[1]:
                        ok = False
                if not ok:
                    break
            if ok and any(s[0] in ('s', 'rs', 'r') for s in v0.segs) or ok and v0.n.is_const() and len(v0.segs) <= 300:
                segs = []
                n = ZERO
                for k, s in enumerate(v0.segs):
                    xs = [v.segs[k] for v in vs]
                    lf = leaf + ('s%d' % k,)
                    if s[0] == 'e':
                        segs.append(('e', self.join(lf, ety, [x[1] for x in xs])))
                    elif s[0] == 'c':
                        segs.append(s)
                    elif s[0] == 'r':
                        segs.append(('r', self.join(lf, ety, [x[1] for x in xs]), self.join(lf + ('n',), LEN, [x[2] for x in xs])))
                    else:
                        segs.append((s[0], s[1], self.join(lf + ('lo',), LEN, [x[2] for x in xs]), self.join(lf + ('n',), LEN, [x[3] for x in xs])))
                    n = n + seglen_of(segs[-1])
                return Seq(segs, n, ety, v0.ov, self.join_gh(leaf, vs))
        # one side is empty where the other has one segment of the same base: treat as length zero
        k = 0
        while all(len(v.segs) > k for v in vs) and all(v.segs[k] == v0.segs[k] for v in vs) and not any(v.ov for v in vs):
            k += 1
        pre = v0.segs[:k]
        npre = ZERO
        for s in pre:
            npre = npre + seglen_of(s)
        t = self.phi(leaf, None, [Seq(v.segs[k:], v.n - npre, ety, v.ov) for v in vs], 'seq')
        n = self.join(leaf + ('n',), LEN, [v.n - npre for v in vs])
        return Seq(pre + (('s', t, ZERO, n),), npre + n, ety, (), self.join_gh(leaf, vs))

    def join_gh(self, leaf, vs):
        if self.name in ('probe', 'follow'):
            return None
        gs = []
        for v in vs:
            g = v.gh
            if g is None and v.n is ZERO:
                g = ZERO
            gs.append(g)
        if any(g is None for g in gs):
            return None
        return self.join(leaf + ('gh',), USIZE, gs)


mir_usize = USIZE


def strip(I, st, m):
    """a map without the entries that only record what was read from it"""
    if m.base is None or not m.ent:
        return m
    ent = []
    for k, p, x in m.ent:
        d = st.facts.b.get(T('mhas', m.base, k, ty=('bool',)))
        if p is not None and d is p and (p is False or untouched(I, st, x, mkval(T('mval', m.base, k), m.vty))):
            continue
        ent.append((k, p, x))
    return m if len(ent) == len(m.ent) else Map(m.base, ent, m.n, m.kty, m.vty)


def untouched(I, st, v, o):
    """v is o, possibly written out"""
    if v is o or v == o:
        return True
    if o.__class__ is not Sym:
        return False
    if v.__class__ is Agg:
        o = I.expand(st, o, v.var)
        return o.__class__ is Agg and o.tag == v.tag and o.var == v.var and len(o.f) == len(v.f) and all(untouched(I, st, a, b) for a, b in zip(v.f, o.f))
    if v.__class__ is Seq:
        o = I.expand(st, o)
        return v == o
    if v.__class__ is Map:
        o = I.expand(st, o)
        return o.__class__ is Map and strip(I, st, v) == o
    return False


def seglen_of(s):
    from .values import seglen
    return seglen(s)


def drop_gh(v, w):
    if v.__class__ is Seq and w.__class__ is Seq:
        if v.gh is not None and w.gh is None:
            return Seq(v.segs, v.n, v.ety, v.ov, None)
    elif v.__class__ is Agg and w.__class__ is Agg and len(v.f) == len(w.f):
        f = [drop_gh(x, y) for x, y in zip(v.f, w.f)]
        if any(x is not y for x, y in zip(f, v.f)):
            return Agg(v.tag, v.var, f)
    return v


class LoopMixin:
    # ------------------------------------------------------------ merging at joins
    def merge(self, fr, b, states):
        name = '%s@%s' % (fr.fn.name, b)
        J = Joiner(self, 'join:' + name, states)
        out = self.join_states(J, fr, b, states, [s.facts for s in states])
        cands = self.bound_cands(J, states)
        self.add_common_facts(out, J, states, cands)
        tr = out.trace
        out.trace = (self.common_trace(states), ('join', tuple(s for s in states)))
        out.ghost = dict(states[0].ghost)
        for s in states[1:]:
            out.ghost = {k: v for k, v in out.ghost.items() if s.ghost.get(k) == v}
        for t, vals in J.vals.items():
            self.phis[t] = ('join', J.kind[t], vals, states)
        return out

    def common_trace(self, states):
        chains = []
        for s in states:
            ids = {}
            t = s.trace
            while t is not None:
                ids[id(t)] = t
                t = t[0]
            chains.append(ids)
        t = states[0].trace
        while t is not None:
            if all(id(t) in c for c in chains):
                return t
            t = t[0]
        return None

    def live_objs(self, fr, b, states):
        """the objects that matter at block b"""
        an = fr.an
        live = an.live[b] | an.addr
        keys = None
        for s in states:
            k = set(s.objs)
            keys = k if keys is None else keys & k
        # memory behind references that only some paths touched: unchanged on the others
        for s in states:
            for o in s.objs:
                if o not in keys and (o[0] == 'C' or o[0] == 'D' and o[1] in DTY):
                    keys.add(o)
        drop = set()
        n = len(fr.fn.ltys)
        for i in range(n):
            if i not in live:
                drop.add(('L', fr.fid, i))
        return keys, drop

    def join_states(self, J, fr, b, states, factsl):
        J.begin(states)
        keys, drop = self.live_objs(fr, b, states)
        out = State()
        for s in states:
            for o, n in s.mut.items():
                if out.mut.get(o, 0) < n:
                    out.mut[o] = n
        for o in sorted(keys, key=repr_key):
            if o in drop:
                continue
            vals = [self.obj(s, o) for s in states]
            v0 = vals[0]
            if all(v is v0 for v in vals):
                out.objs[o] = v0
                continue
            ty = None
            if o[0] == 'L' and o[1] == fr.fid:
                ty = mir.subst(fr.fn.ltys[o[2]], fr.genv)
            elif o[0] == 'D':
                ty = DTY.get(o[1])
            out.objs[o] = J.join((o,), ty, vals)
        return out

    def add_common_facts(self, out, J, states, cands):
        F = out.facts
        f0 = states[0].facts
        rest = [s.facts for s in states[1:]]
        for b, v in f0.b.items():
            if all(f.b.get(b) == v for f in rest):
                F.b[b] = v
        for t, d in f0.disc.items():
            ds = [f.disc.get(t) for f in rest]
            if all(x == d for x in ds):
                F.disc[t] = d
        for t, d in f0.strv.items():
            if all(f.strv.get(t) == d for f in rest):
                F.strv[t] = d
            elif d.__class__ is frozenset:
                d = frozenset(x for x in d if all(f.decide(T('streq', t, x, ty=('bool',))) is False for f in rest))
                if d:
                    F.strv[t] = d
        for t, d in f0.pre.items():
            if all(f.pre.get(t) == d for f in rest):
                F.pre[t] = d
        for t, d in f0.misc.items():
            if all(f.misc.get(t) == d for f in rest):
                F.misc[t] = d
        for a, m in f0.mask.items():
            mm = m
            for f in rest:
                mm |= f.get_mask(a)
            if mm != FULL:
                F.restrict_mask(a, mm)
        for a, (lo, hi) in f0.iv.items():
            for f in rest:
                l2, h2 = f.bounds(a)
                lo = None if lo is None or l2 is None else min(lo, l2)
                hi = None if hi is None or h2 is None else max(hi, h2)
            F._set_iv(a, lo, hi)
        for q in f0.quant:
            if all(q in f.quant for f in rest):
                F.add_quant(q)
        for c in f0.cong:
            if all(c in f.cong for f in rest):
                F.add_cong(*c)
        seen = set()
        for k, f in enumerate([f0] + rest):
            others = [g for i, g in enumerate([f0] + rest) if i != k]
            for l in f.le:
                if l not in seen:
                    seen.add(l)
                    if all(l in g.le or g.prove_le(l) for g in others):
                        F.add_le(l)
            for l in f.eq:
                if l not in seen:
                    seen.add(l)
                    if all(l in g.eq or g.prove_eq(l) for g in others):
                        F.add_eq(l)
            for l in f.ne:
                if l not in seen:
                    seen.add(l)
                    if all(l in g.ne or g.prove_ne(l) for g in others):
                        F.add_ne(l)
        # facts about the phis
        ivals = {t: vs for t, vs in J.vals.items() if J.kind[t] == 'int'}
        for kind, l in cands:
            ok = True
            for i, s in enumerate(states):
                m = {t: vs[i] for t, vs in ivals.items()}
                l2 = l.subst(m)
                if not (s.facts.prove_le(l2) if kind == 'le' else s.facts.prove_eq(l2)):
                    ok = False
                    break
            if ok:
                (F.add_le if kind == 'le' else F.add_eq)(l)
        for t, vs in ivals.items():
            los, his = [], []
            msk = 0
            for s, v in zip(states, vs):
                los.append(s.facts.lower(v))
                his.append(s.facts.upper(v))
                if msk is not None and t.ty == U8:
                    a = v.single()
                    if a is not None:
                        msk |= s.facts.get_mask(a)
                    elif v.is_const():
                        msk |= 1 << v.c
                    else:
                        msk = None
            lo = None if None in los else min(los)
            hi = None if None in his else max(his)
            F._set_iv(t, lo, hi)
            if t.ty == U8 and msk:
                F.restrict_mask(t, msk)
        for t, vs in J.vals.items():
            if J.kind[t] == 'sym':
                self.sym_facts(F, t, vs, states)
            elif J.kind[t] == 'seq':
                m = self.seq_masks(vs, states)
                if m is not None and m != FULL:
                    n = T('phi', J.name, J.uid, J.leaf[t] + ('n',), ty=LEN)
                    F.add_quant((t, ZERO, atom(n) if (J.leaf[t] + ('n',), 'int') in J.memo else vs[0].n, m))

    def sym_facts(self, F, t, vs, states):
        ds = set()
        for v, s in zip(vs, states):
            if v.__class__ is Agg and v.tag[0] == 'adt':
                ds.add(v.var)
            elif v.__class__ is Sym:
                d = s.facts.disc.get(v.t)
                if isinstance(d, int):
                    ds.add(d)
                else:
                    return
            else:
                return
        v = vs[0]
        key = v.tag[1] if v.__class__ is Agg else v.ty[1] if v.ty[0] == 'adt' else None
        if key is None or ADTS[key]['kind'] != 'enum':
            return
        n = len(ADTS[key]['variants'])
        set_nvariants(t, n)
        if len(ds) == 1:
            F.set_disc(t, ds.pop())
        else:
            for i in range(n):
                if i not in ds:
                    F.exclude_disc(t, i)

    def seq_masks(self, vs, states):
        """union of the byte sets of all elements, when every element's set is known"""
        m = 0
        for v, s in zip(vs, states):
            x = self.seq_mask(v, s)
            if x is None:
                return None
            m |= x
        return m

    def seq_mask(self, v, s, selfbase=None, selfmask=0):
        if v.ety != U8:
            return None
        m = 0
        for _, x in v.ov:
            if x.__class__ is not Lin:
                return None
            m |= self.byte_mask(x, s)
        for g in v.segs:
            if g[0] == 'c':
                for x in g[1]:
                    m |= 1 << x
            elif g[0] in ('e', 'r'):
                x = g[1]
                if x.__class__ is not Lin:
                    return None
                a = x.single()
                m |= selfmask if a is not None and a.op == 'elem' and a.args[0] is selfbase else self.byte_mask(x, s)
            elif g[0] in ('s', 'rs'):
                if g[1] is selfbase:
                    m |= selfmask
                    continue
                mm = FULL
                for (b, lo, hi, mk_) in s.facts.quant:
                    if b is g[1] and s.facts.prove_le(lo - g[2]) and s.facts.prove_le(g[2] + g[3] - hi):
                        mm &= mk_
                m |= mm
            if m == FULL:
                return FULL
        return m

    def byte_mask(self, x, s):
        if x.is_const():
            return 1 << x.c if 0 <= x.c < 256 else FULL
        a = x.single()
        if a is not None:
            return s.facts.get_mask(a)
        if len(x.t) == 1 and x.t[0][1] == 1:
            m = s.facts.get_mask(x.t[0][0])
            return (m << x.c if x.c >= 0 else m >> -x.c) & FULL
        lo, hi = s.facts.lower(x), s.facts.upper(x)
        from .facts import mask_range
        return mask_range(lo if lo is not None else 0, hi if hi is not None else 255)

    def bound_cands(self, J, states):
        """candidate linear facts about freshly joined integers"""
        ivals = {t: vs for t, vs in J.vals.items() if J.kind[t] == 'int' and t.ty not in (U8, ('char',))}
        c = []
        for t, vs in ivals.items():
            for v in vs[:4]:
                c.append(('le', v - atom(t)))
                c.append(('le', atom(t) - v))
            for a in {a for v in vs for a, _ in v.t}:
                c.append(('le', atom(t) - atom(a)))
        ts = list(ivals)
        if len(ts) <= 8:
            for i, t in enumerate(ts):
                for u in ts[i + 1:]:
                    d = ivals[t][0] - ivals[u][0]
                    c.append(('eq', atom(t) - atom(u) - d))
                    c.append(('le', atom(t) - atom(u)))
                    c.append(('le', atom(u) - atom(t)))
                    e = ivals[t][0] + ivals[u][0]
                    c.append(('eq', atom(t) + atom(u) - e))
        return c

    # ------------------------------------------------------------ loops
    def run_loop(self, fr, h, states):
        body = fr.an.loops[h]
        outs = {}

        def add(tb, ss):
            outs.setdefault(tb, []).extend(ss)
        lim = self.opts.get('loop_states', 10)
        if len(states) > lim:
            states = [self.merge(fr, h, states)]
        for st in states:
            for tb, ss in self.loop_one(fr, h, body, st):
                add(tb, ss)
        return list(outs.items())

    def loop_one(self, fr, h, body, st):
        # 1. unroll while the first branch of each iteration is decided
        follow = self.follow is not None and st.ghost.get('_fp', 0) < len(self.follow.recs)
        if follow:
            fb, ab = self._fb, self.abort_open
            self.abort_open = 0
            try:
                r = self.follow_loop(fr, h, body, st)
            finally:
                self.abort_open = ab
            if r is not None:
                self._fb = fb
                if fb is None:
                    self.first_branch = 'open'
                return r
        r = self.try_unroll(fr, h, body, st)
        if r is not None:
            return r
        fb, ab = self._fb, self.abort_open
        self.abort_open = 0
        try:
            r = self.follow_loop(fr, h, body, st) if self.follow is not None and not follow else None
            if r is None:
                r = self.generalise(fr, h, body, st)
        finally:
            self.abort_open = ab
            self._fb = fb
        if fb is None:
            self.first_branch = 'open'
        return r

    def iterate(self, fr, h, body, states):
        """one iteration of the loop body"""
        exits = {}
        pend = {h: list(states)}
        self.iters.append((fr.fid, h))
        try:
            rets = self.walk(fr, pend, body, h, exits)
        finally:
            self.iters.pop()
        back = exits.pop('back', [])
        return back, exits, rets

    def try_unroll(self, fr, h, body, st0):
        save = (self.first_branch, self.trial, self.cond_log)
        cur = [st0.copy()]
        outs = {}
        self.trial += 1
        self.abort_open += 1
        ok = False
        try:
            for k in range(self.unroll_cap):
                nxt = []
                good = True
                for s in cur:
                    self.first_branch = None
                    f0 = self.forks
                    back, exits, rets = self.iterate(fr, h, body, [s])
                    if self.first_branch == 'open' or (self.first_branch is None and back):
                        good = False
                        break
                    nxt.extend(back)
                if not good:
                    break
                if not nxt:
                    ok = True
                    break
                if len(nxt) > 4 and self.opts.get('sharp'):
                    ok = False
                    break
                if len(nxt) > (16 if k < 3 else 4):
                    nxt = [self.merge(fr, h, nxt)]
                cur = nxt
        except OpenBranch:
            ok = False
        finally:
            self.abort_open -= 1
            self._fb, self.trial, self.cond_log = save
        if not ok:
            return None
        # run it again for real (records obligations)
        save = self.first_branch
        cur = [st0]
        k = -1
        while cur:
            k += 1
            nxt = []
            for s in cur:
                back, exits, rets = self.iterate(fr, h, body, [s])
                nxt.extend(back)
                for tb, ss in exits.items():
                    outs.setdefault(tb, []).extend(ss)
                if rets:
                    outs.setdefault('ret', []).extend(rets)
            if len(nxt) > (16 if k < 3 else 4):
                nxt = [self.merge(fr, h, nxt)]
            cur = nxt
        self.first_branch = save if save is not None else 'decided'
        return list(outs.items())

    def generalise(self, fr, h, body, st0):
        name = '%s@%d' % (fr.fn.name, h)
        J = Joiner(self, name, [st0])
        save = (self.first_branch, self.cond_log)
        G = st0.copy()
        tr0 = st0.trace
        conds = []
        # 2. find the locations the body changes
        self.trial += 1
        self.optimistic += 1
        backs = []
        try:
            nphi = -1
            for rnd in range(12):
                self.cond_log = conds
                G2 = G.copy()
                backs, exits, rets = self.iterate(fr, h, body, [G2])
                if not backs:
                    break
                Gp, G = G, self.join_states(J, fr, h, [st0] + backs, None)
                G.facts = st0.facts.copy()
                self.phi_type_facts(G, J)
                self.carry_sym_facts(G, J, [st0] + backs)
                G.trace = (tr0, ('loophead', name))
                G.ghost = dict(st0.ghost)
                if len(J.memo) + J.splits == nphi and self.shaped(Gp, G):
                    if not self.copies(J, [st0] + backs):
                        break
                    continue
                nphi = len(J.memo) + J.splits
        finally:
            self.trial -= 1
            self.optimistic -= 1
            self.cond_log = None
        opt = self.optimistic
        self.optimistic = 0
        # 3. candidate invariants; keep the inductive ones
        cands = []
        masks = {}
        if backs:
            cands = self.loop_cands(J, st0, backs, conds)
            masks = self.mask_cands(J, st0, backs)
            cands = [c for c in cands if self.holds(c, J, 0, st0)]
            self.trial += 1
            try:
                for rnd in range(12):
                    H = self.with_cands(G, cands, masks)
                    backs, exits, rets = self.iterate(fr, h, body, [H.copy()])
                    if not backs:
                        break
                    G2 = self.join_states(J, fr, h, [st0] + backs, None)
                    if len(J.memo) + J.splits != nphi or not self.shaped(G, G2):
                        nphi = len(J.memo) + J.splits
                        G2.facts = st0.facts.copy()
                        self.phi_type_facts(G2, J)
                        self.carry_sym_facts(G2, J, [st0] + backs)
                        G2.trace = (tr0, ('loophead', name))
                        G2.ghost = dict(st0.ghost)
                        G = G2
                        more = [c for c in self.loop_cands(J, st0, backs, conds) if c not in cands and self.holds(c, J, 0, st0)]
                        cands = cands + more
                        continue
                    if self.drop_ghosts(G, G2):
                        continue
                    keep = [c for c in cands if all(self.holds(c, J, i, b) for i, b in enumerate([st0] + backs))]
                    nm = self.check_masks(J, st0, backs, masks)
                    if len(keep) == len(cands) and nm == masks:
                        if not self.refresh(G, J, st0, backs):
                            break
                        continue
                    cands, masks = keep, nm
            finally:
                self.trial -= 1
        self.optimistic = opt
        if backs and not self.peeled and self.settles(J, [st0] + backs):
            # a variable takes another variant in the first iteration and keeps it: the loop
            # starts with the second one
            try:
                back, outs, rets = self.iterate(fr, h, body, [st0.copy()])
                if len(back) > 4:
                    back = [self.merge(fr, h, back)]
                if rets:
                    outs.setdefault('ret', []).extend(rets)
                self.cond_log = save[1]
                for s in back:
                    self.peeled += 1
                    try:
                        r = self.generalise(fr, h, body, s)
                    finally:
                        self.peeled -= 1
                    for tb, ss in r:
                        outs.setdefault(tb, []).extend(ss)
                return list(outs.items())
            finally:
                self.cond_log = save[1]
        # 4. the recording pass, from the inductive state
        H = self.with_cands(G, cands, masks)
        rec = LoopRec(name, fr.fn, h)
        rec.init = st0
        rec.head = H.copy()
        rec.leaf = dict(J.leaf)
        H.trace = (tr0, ('loop', rec))
        rec.head.trace = H.trace
        nm0 = len(J.memo) + J.splits
        backs, exits, rets = self.iterate(fr, h, body, [H])
        rec.backs = backs
        J.begin([st0] + backs)
        if backs:
            self.optimistic, opt2 = 0, self.optimistic
            G2 = self.join_states(J, fr, h, [st0] + backs, None)
            # the state the pass started from must cover what comes back to the header
            ok = len(J.memo) + J.splits == nm0 and not self.drop_ghosts(G, G2) and self.check_masks(J, st0, backs, masks) == masks \
                and all(self.holds(c, J, i + 1, b) for c in cands for i, b in enumerate(backs)) \
                and all(self.holds(c, J, 0, st0) for c in cands) and not self.refresh(G, J, st0, backs)
            self.optimistic = opt2
            ok = ok and self.shaped(G, G2)
            if not ok:
                raise Giveup('no inductive state for the loop at %s' % name)
            for key, base in J.alias.items():
                if key not in J.avals or not all(self.is_copy(J, s, v, base) for s, v in zip([st0] + backs, J.avals[key])):
                    raise Giveup('no inductive state for the loop at %s' % name)
        rec.phis = {t: (vs[0], vs[1:]) for t, vs in J.vals.items()}
        rec.kind = dict(J.kind)
        for t in rec.phis:
            self.phis[t] = ('loop', J.kind[t], rec)
        rec.cands = cands
        rec.exits = exits
        rec.rets = rets
        if not self.trial:
            self.loops.append(rec)
        self.cond_log = save[1]
        outs = dict(exits)
        if rets:
            outs['ret'] = rets
        for ss in outs.values():
            for s in ss:
                self.normalise_phis(s, rec)
        return list(outs.items())

    def settles(self, J, states):
        for t, vs in J.vals.items():
            if J.kind[t] != 'sym':
                continue
            v0 = vs[0]
            if v0.__class__ is not Agg or v0.tag[0] != 'adt' or ADTS[v0.tag[1]]['kind'] != 'enum':
                continue
            ds = set()
            for v, s in zip(vs[1:], states[1:]):
                ds.add(v.var if v.__class__ is Agg else s.facts.disc.get(v.t) if v.__class__ is Sym else None)
            if len(ds) == 1 and ds.pop() not in (None, v0.var):
                return True
        return False

    def copies(self, J, states):
        """a list that receives the elements of another one, one by one, is a prefix of it;
        True when the state of the loop changes by saying so"""
        from .equiv import Cmp
        ch = False
        for t, vs in list(J.vals.items()):
            if J.kind[t] != 'seq' or (J.leaf[t], 'seq') in J.alias or (J.leaf[t], 'seq') in J.nocopy:
                continue
            base = self.copied_from(J, t, vs, states)
            if base is None:
                J.nocopy.add((J.leaf[t], 'seq'))
                continue
            J.alias[(J.leaf[t], 'seq')] = base
            ch = True
        if ch or J.newcopy:
            # the next round is the first that starts from the new description
            J.newcopy = ch
            return True
        for key, base in list(J.alias.items()):
            vs = J.avals.get(key)
            if vs is None:
                continue
            for s, v in zip(states, vs):
                if not self.is_copy(J, s, v, base):
                    del J.alias[key]
                    J.nocopy.add(key)
                    ch = True
                    break
        return ch

    def in_step(self, J, n):
        """numbers of the loop that always equal n"""
        a = n.t[0][0] if len(n.t) == 1 and n.c == 0 and n.t[0][1] == 1 else None
        va = J.vals.get(a)
        if va is None:
            return []
        r = []
        for b, vb in J.vals.items():
            if b is not a and J.kind[b] == 'int' and all(x.__class__ is Lin for x in vb) and va[0] is vb[0] \
                    and all((x - atom(a)) is (y - atom(b)) for x, y in zip(va[1:], vb[1:])):
                r.append(atom(b))
        return r

    def is_copy(self, J, s, v, base):
        from .equiv import Cmp
        if base in J.vals or v.__class__ is not Seq:
            return False
        F = s.facts.copy()
        for g in v.segs:
            if g[0] == 's' and g[1] is base:
                for b in self.in_step(J, g[3]):
                    F.add_eq(b - g[3])
        ety = next((self.typeof(s, g[1]) for g in v.segs if g[0] == 'e'), v.ety)
        return Cmp(self, s, s, F).same(Seq(v.segs, v.n, ety, v.ov), Seq((('s', base, ZERO, v.n),) if v.n is not ZERO else (), v.n, ety))

    def copied_from(self, J, t, vs, states):
        if not vs[0].segs == () or len(vs) < 2:
            return None
        base = None
        for s, v in zip(states[1:], vs[1:]):
            if v.__class__ is not Seq or v.ov or len(v.segs) != 2 or v.segs[0][0] != 's' or v.segs[0][1] is not t or v.segs[0][2] is not ZERO or v.segs[1][0] != 'e':
                return None
            n, x = v.segs[0][3], v.segs[1][1]
            b = None
            xt = self.vterm(s, x)
            if xt.__class__ is Lin:
                xt = xt.t[0][0] if len(xt.t) == 1 and xt.c == 0 and xt.t[0][1] == 1 else None
            if xt.__class__ is not Term:
                return None
            for y in subterms(xt):
                if y.op == 'elem' and len(y.args) == 2 and (s.facts.decide(eq(y.args[1], n)) is True or y.args[1] in self.in_step(J, n)) and y.args[0] not in J.vals:
                    e = mkval(y, self.typeof(s, x))
                    if y is xt or e.__class__ is Sym and self.vterm(s, self.expand(s, e)) is xt:
                        b = y.args[0]
                        break
            if b is None or base is not None and b is not base:
                return None
            base = b
        return base

    def drop_ghosts(self, G, G2):
        """forget payload bounds of G that the back edges do not preserve"""
        ch = False
        for o, v in list(G.objs.items()):
            w = G2.objs.get(o)
            if w is None or w is v:
                continue
            v2 = drop_gh(v, w)
            if v2 is not v:
                G.objs[o] = v2
                ch = True
        return ch

    def phi_type_facts(self, G, J):
        pass

    def carry_sym_facts(self, G, J, states):
        for t, vs in J.vals.items():
            if J.kind[t] == 'sym':
                self.sym_facts(G.facts, t, vs, states)

    def shaped(self, G, H):
        """do both states describe their lists and places the same way?"""
        for o, a in G.objs.items():
            b = H.objs.get(o)
            if b is not None and not alike(a, b):
                return False
        return True

    def refresh(self, G, J, st0, backs):
        """widen tag facts that turned out not to be inductive; True when something changed"""
        ch = False
        for t, vs in J.vals.items():
            if J.kind[t] != 'sym':
                continue
            old = G.facts.disc.get(t)
            if old is None:
                continue
            F = Facts()
            self.sym_facts(F, t, vs, [st0] + backs)
            new = F.disc.get(t)
            if new != old:
                if new is None:
                    G.facts.disc.pop(t)
                else:
                    G.facts.disc[t] = new
                ch = True
        return ch

    def with_cands(self, G, cands, masks):
        H = G.copy()
        for c in cands:
            if c[0] == 'cong':
                H.facts.add_cong(c[1], c[2])
        for c in cands:
            if c[0] == 'le':
                H.facts.add_le(c[1])
            elif c[0] == 'eq':
                H.facts.add_eq(c[1])
            elif c[0] == 'cong':
                H.facts.add_cong(c[1], c[2])
            elif c[0] == 'bool':
                H.facts.assume(c[1])
            elif c[0] == 'quant':
                H.facts.add_quant(c[1])
        for t, (m, lo, n) in masks.items():
            if m != FULL:
                H.facts.add_quant((t, lo, n, m))
        H.facts.dead = False
        return H

    def holds(self, c, J, i, s):
        m = {t: vs[i] for t, vs in J.vals.items() if J.kind[t] == 'int'}
        if c[0] == 'le':
            return s.facts.prove_le(c[1].subst(m))
        if c[0] == 'eq':
            return s.facts.prove_eq(deep(c[1], m))
        if c[0] == 'cong':
            return s.facts.prove_cong(c[1].subst(m), c[2])
        if c[0] == 'bool':
            vs = J.vals.get(c[2])
            if vs is None:
                return False
            v = vs[i]
            d = s.facts.decide(v)
            return d is not None and d == c[3]
        if c[0] == 'quant':
            b, lo, hi, mk_ = c[1]
            lo2, hi2 = lo.subst(m), hi.subst(m)
            if s.facts.prove_le(hi2 - lo2):
                return True
            return self.quant_holds(s, b, lo2, hi2, mk_)
        return False

    def quant_holds(self, s, b, lo, hi, mk_):
        """every element of base b in [lo, hi) has its byte in mk_ ?"""
        F = s.facts
        cur = lo
        for _ in range(6):
            if F.prove_le(hi - cur):
                return True
            adv = None
            for (qb, ql, qh, qm) in F.quant:
                if qb is b and qm & ~mk_ == 0 and qh != cur and F.prove_le(ql - cur) and F.prove_le(cur - qh):
                    adv = qh
                    break
            if adv is None:
                a = T('elem', b, self.nrm(s, cur), ty=U8)
                if F.get_mask(a) & ~mk_ == 0:
                    adv = cur + 1
            if adv is None:
                return False
            cur = adv
        return False

    def mask_cands(self, J, st0, backs):
        r = {}
        for t, vs in J.vals.items():
            if J.kind[t] != 'seq' or vs[0].ety != U8:
                continue
            m = self.seq_mask(vs[0], st0)
            if m is None:
                continue
            ok = True
            for _ in range(6):
                m2 = m
                for v, b in zip(vs[1:], backs):
                    x = self.seq_mask(v, b, t, m)
                    if x is None:
                        ok = False
                        break
                    m2 |= x
                if not ok or m2 == m:
                    break
                m = m2
            if ok and m != FULL and m:
                nt = J.memo.get((J.leaf[t] + ('n',), 'int'))
                r[t] = (m, ZERO, atom(nt) if nt is not None else vs[0].n)
        return r

    def check_masks(self, J, st0, backs, masks):
        r = {}
        for t, (m, lo, n) in masks.items():
            vs = J.vals.get(t)
            if vs is None:
                continue
            ok = True
            mm = m
            x = self.seq_mask(vs[0], st0)
            if x is None:
                continue
            mm |= x
            for v, b in zip(vs[1:], backs):
                x = self.seq_mask(v, b, t, m)
                if x is None:
                    ok = False
                    break
                mm |= x
            if ok and mm != FULL:
                r[t] = (mm, lo, n)
        return r

    def loop_cands(self, J, st0, backs, conds):
        ivals = {t: vs for t, vs in J.vals.items() if J.kind[t] == 'int'}
        out = []
        seen = set()

        def put(kind, l):
            if l.t and (kind, l) not in seen:
                seen.add((kind, l))
                out.append((kind, l))
        out.extend(self.elem_quants(J, backs))
        ts = sorted(ivals)
        big = len(ts) > 14
        for t in ts:
            vs = ivals[t]
            v0 = vs[0]
            A = atom(t)
            put('le', v0 - A)
            put('le', A - v0)
            lo, hi = st0.facts.lower(v0), st0.facts.upper(v0)
            if t.lo is None or t.ty == LEN:
                put('le', -A)
            if lo is not None and lo != t.lo:
                put('le', const(lo) - A)
            # other quantities mentioned by the values it takes
            for v in vs:
                for a, _ in v.t:
                    if a is not t and not big:
                        put('le', A - atom(a))
                        put('le', atom(a) - A)
        for i, t in enumerate(ts):
            for u in ts[i + 1:]:
                if big and J.leaf[t][0] != J.leaf[u][0]:
                    continue
                A, B = atom(t), atom(u)
                a0, b0 = ivals[t][0], ivals[u][0]
                put('eq', A - B - (a0 - b0))
                put('eq', A + B - (a0 + b0))
                put('le', A - B - (a0 - b0))
                put('le', B - A - (b0 - a0))
                put('le', A - B)
                put('le', B - A)
                put('le', A + B - (a0 + b0))
                # proportional changes
                da = self.const_deltas(ivals[t], t)
                db = self.const_deltas(ivals[u], u)
                if da and db and len(da) == len(db) and da[0] and db[0]:
                    if all(x * db[0] == y * da[0] for x, y in zip(da, db)):
                        put('eq', (A - a0) * db[0] - (B - b0) * da[0])
        # a number computed from the element another one points at
        for x in ts:
            for p in ts:
                if x is p:
                    continue
                for i in range(1, len(backs) + 1):
                    v, e = ivals[x][i], ivals[p][i]
                    if v is atom(x) or e is atom(p) or len(e.t) != 1 or e.t[0][1] != 1:
                        continue
                    a = e.t[0][0]
                    if a is p or a is x or mentions(v, (x,)) or not mentions(v, (a,)):
                        continue
                    l = atom(x) - deep(v, {a: atom(p) - e.c})
                    if not mentions(l, (a,)) and mentions(l, (p,)):
                        put('eq', l)
        # forms that the body's conditions compare
        phis = set(ivals)
        for c in conds:
            for l in forms_of(c):
                if any(a in phis for a, _ in l.t):
                    put('le', l)
                    put('le', -l)
                    put('le', l - 1)
                    put('le', -l - 1)
        # facts that hold initially, restated about the phis
        inv0 = {}
        for t in ts:
            v0 = ivals[t][0]
            if v0.single() is not None:
                inv0.setdefault(v0.single(), []).append(t)
        for l in st0.facts.le:
            for a, _ in l.t:
                for t in inv0.get(a, ()):
                    put('le', l.subst({a: atom(t)}))
        for l in st0.facts.eq:
            for a, _ in l.t:
                for t in inv0.get(a, ()):
                    put('eq', l.subst({a: atom(t)}))
        # congruences
        for t in ts:
            ds = self.const_deltas(ivals[t], t)
            if ds:
                g = 0
                for d in ds:
                    g = gcd(g, abs(d))
                if g > 1 and g <= 64:
                    out.append(('cong', atom(t) - ivals[t][0], g))
        # boolean phis that keep their initial value
        for t, vs in J.vals.items():
            if J.kind[t] == 'bool':
                d = st0.facts.decide(vs[0])
                if d is not None:
                    out.append(('bool', t if d else bnot(t), t, d))
        # bytes seen so far: what a position scan has learnt about the bytes it passed
        for t in ts:
            v0 = ivals[t][0]
            for i, b in enumerate(backs):
                nv = ivals[t][i + 1]
                d = nv - atom(t)
                if not (d.is_const() and d.c == 1):
                    continue
                for a, m in b.facts.mask.items():
                    if a.op == 'elem' and m != FULL and a.args[1].coef(t) == 1:
                        off = a.args[1] - atom(t)
                        if any(x in phis for x, _ in off.t):
                            continue
                        q = (a.args[0], v0 + off, atom(t) + off, m)
                        if ('quant', q) not in seen:
                            seen.add(('quant', q))
                            out.append(('quant', q))
        return out

    def elem_quants(self, J, backs):
        """bytes a loop passes over one by one: the same constraint on each"""
        out = []
        if not backs or len(backs) > 12:
            return out
        for t, vs in J.vals.items():
            if J.kind[t] != 'int':
                continue
            ds = self.const_deltas(vs, t)
            if not ds or any(d != ds[0] for d in ds) or abs(ds[0]) != 1 or len(ds) != len(backs):
                continue
            els = None
            for b in backs:
                here = {a for a in b.facts.mask if a.op == 'elem' and a.args[1].__class__ is Lin and abs(a.args[1].coef(t)) == 1}
                els = here if els is None else els & here
            for a in sorted(els)[:6]:
                ix = a.args[1]
                m = 0
                for b in backs:
                    m |= b.facts.get_mask(a)
                if m & FULL == FULL:
                    continue
                i0 = ix.subst({t: vs[0]})
                if ix.coef(t) * ds[0] > 0:
                    out.append(('quant', (a.args[0], i0, ix, m)))
                else:
                    out.append(('quant', (a.args[0], ix + 1, i0 + 1, m)))
        return out

    def const_deltas(self, vs, t):
        r = []
        for v in vs[1:]:
            d = v - atom(t)
            if not d.is_const():
                return None
            r.append(d.c)
        return r

    def normalise_phis(self, s, rec):
        """rewrite sequences built element by element from another sequence into slices of it"""
        done = rec.__dict__.setdefault('norm', None)
        if done is None:
            rec.norm = done = {}
            for t, (v0, backs) in rec.phis.items():
                if rec.kind[t] != 'seq' or not backs or v0.segs:
                    continue
                r = self.recognise(t, backs, rec)
                if r:
                    done[t] = r
        if not done:
            return
        for o, v in list(s.objs.items()):
            w = self.rewrite_seq(v, done)
            if w is not v:
                s.objs[o] = w

    def recognise(self, t, backs, rec):
        r = None
        for k, v in enumerate(backs):
            if len(v.segs) != 2 or v.ov or v.segs[0][0] != 's' or v.segs[0][1] is not t or v.segs[1][0] != 'e':
                return None
            e = v.segs[1][1]
            if e.__class__ is Lin:
                e = e.single()
            elif e.__class__ is Sym:
                e = e.t
            else:
                return None
            if e is None or e.op != 'elem':
                return None
            base, ix = e.args
            phi = None
            for a, c in ix.t:
                if a in rec.phis and c == 1 and rec.kind[a] == 'int':
                    phi = a
            if phi is None or any(a in rec.phis and a is not phi for a, _ in ix.t) or base in rec.phis:
                return None
            d = rec.phis[phi][1][k] - atom(phi)
            if not d.is_const() or abs(d.c) != 1:
                return None
            i0 = ix.subst({phi: rec.phis[phi][0]})
            x = (base, i0, d.c)
            if r is not None and r != x:
                return None
            r = x
        return r

    def rewrite_seq(self, v, done):
        c = v.__class__
        if c is Seq:
            hit = False
            segs = []
            for g in v.segs:
                if g[0] == 's' and g[1] in done and g[2] is ZERO:
                    base, i0, d = done[g[1]]
                    if d == 1:
                        segs.append(('s', base, i0, g[3]))
                    else:
                        segs.append(('rs', base, i0 - g[3] + 1, g[3]))
                    hit = True
                elif g[0] == 'e':
                    w = self.rewrite_seq(g[1], done)
                    hit = hit or w is not g[1]
                    segs.append(('e', w))
                else:
                    segs.append(g)
            return Seq(norm_segs(segs), v.n, v.ety, v.ov, v.gh) if hit else v
        if c is Agg:
            f = [self.rewrite_seq(x, done) for x in v.f]
            if any(a is not b for a, b in zip(f, v.f)):
                return Agg(v.tag, v.var, f)
        return v


def forms_of(c):
    """linear forms occurring in a boolean formula"""
    if c is True or c is False:
        return
    if c.op in ('le0', 'eq0'):
        yield c.args[0]
    elif c.op in ('and', 'or', 'not'):
        for a in c.args:
            yield from forms_of(a)


def repr_key(o):
    return (o[0], repr(o[1]), repr(o[2:]) if len(o) > 2 else '')


for _n, _f in list(LoopMixin.__dict__.items()):
    if not _n.startswith('__'):
        setattr(Interp, _n, _f)


def alike(a, b):
    c = a.__class__
    if c is not b.__class__:
        return True
    if c is Seq:
        return len(a.segs) == len(b.segs) and len(a.ov) == len(b.ov) and all(x[0] == y[0] and (x[0] not in ('s', 'rs') or x[1] is y[1]) for x, y in zip(a.segs, b.segs))
    if c is Agg:
        return a.tag != b.tag or a.var != b.var or all(alike(x, y) for x, y in zip(a.f, b.f))
    return True
