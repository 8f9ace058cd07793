"""Path-sensitive abstract interpretation of the dumped MIR.

A state maps abstract objects to abstract values and carries a conjunction of facts over
symbolic atoms.  Branches on undecided conditions split the state, joins merge states when
there are many, and loops are generalised to an inductive state: every location the body
changes becomes a phi atom and a set of candidate invariants is filtered to the largest
inductive subset.  No input is ever given a concrete value and no solver is called."""
import sys
import re
from .terms import *
from .facts import Facts, FULL, set_nvariants, nvariants
from .values import *

RETRY = object()

from . import mir, enumer
from .mir import ADTS, analyse, tshow

sys.setrecursionlimit(20000)


class Giveup(Exception):
    """the analysis cannot represent this construct"""


class OpenBranch(Exception):
    """the first branch of a loop iteration is not decided: the loop is not unrolled"""


class Frame:
    __slots__ = ('fn', 'fid', 'genv', 'chain', 'an', 'prel', 'at')

    def __init__(self, fn, fid, genv, chain):
        self.fn, self.fid, self.genv, self.chain = fn, fid, genv, chain
        self.an = analyse(fn)
        self.prel = False
        self.at = ''


class PhiRec:
    __slots__ = ('name', 'kind', 'init', 'backs', 'loop')


class LoopRec:
    def __init__(self, name, fn, header):
        self.name, self.fn, self.header = name, fn, header
        self.phis = {}       # phi term -> (init value, [value at each back edge])
        self.backs = []      # back-edge states
        self.head = None     # the generalised state at the header
        self.init = None
        self.iters = []
        self.leaf = {}

    def __repr__(self):
        return 'loop@%s' % self.name


class Obl:
    """one proof obligation: a place where the program panics unless the condition holds"""
    __slots__ = ('kind', 'where', 'fn', 'span', 'ok', 'bad', 'what', 'chain')

    def __init__(self, kind, where, fn, span, what, chain):
        self.kind, self.where, self.fn, self.span, self.what, self.chain = kind, where, fn, span, what, chain
        self.ok = 0
        self.bad = []


class Interp:
    def __init__(self, prog, opaque=(), max_paths=96, opts=None):
        self.elems, self.congr = {}, False
        self.iters = []
        self.peeled = 0
        self.prog = prog
        self.opaque = set(opaque)
        self.tape = None
        self.opaque_post = {mir.untyped(k): v for k, v in opaque.items() if v} if isinstance(opaque, dict) else {}
        self.max_paths = max_paths
        self.obls = {}
        self.curb = None
        self.tick = 0
        self.loops = []
        self.trial = 0
        self.optimistic = 0
        self.abort_open = 0
        self._fb = None
        self.cond_log = None
        self.havocs = {}
        self.visited = set()
        self.visited_blocks = set()
        self.phis = {}
        self.unroll_cap = 300
        self.follow = None
        self.opts = opts or {}
        self.stack = []
        self.notes = {}
        self.steps = 0
        self.step_limit = self.opts.get('steps', 3000000)
        from . import models
        self.models = models.MODELS
        self.M = models
        self.calls = {}
        self.hooks = {}
        self.nloops = 0
        self.loopseen = {}
        self.forks = 0

    @property
    def first_branch(self):
        return self._fb

    @first_branch.setter
    def first_branch(self, v):
        self._fb = v
        if v == 'open' and self.abort_open:
            raise OpenBranch()

    # ------------------------------------------------------------ reading and writing values
    def field_ty(self, ty, var, i):
        """type of field i of variant var of type ty"""
        k = ty[0]
        if k == 'tuple':
            return ty[1][i]
        if k == 'adt':
            info = ADTS[ty[1]]
            v = info['variants'][var or 0]
            ft = v['f'][i][1]
            gen = [g for g in info['gen']]
            env = {}
            a = ty[2]
            if len(gen) >= len(a):
                gen = gen[len(gen) - len(a):] if len(gen) != len(a) else gen
            env = dict(zip(gen, a))
            return mir.subst(ft, env)
        if k == 'closure':
            return None
        raise Giveup('field of %s' % tshow(ty))

    def nfields(self, ty, var):
        if ty[0] == 'tuple':
            return len(ty[1])
        info = ADTS[ty[1]]
        return len(info['variants'][var or 0]['f'])

    def expand(self, st, v, var=None):
        """expand a symbolic value one level"""
        if v.__class__ is not Sym:
            return v
        ty = v.ty
        k = ty[0]
        if is_seq_ty(ty):
            if ty[0] == 'array' and isinstance(ty[2], int):
                n = const(ty[2])
            elif ty[0] == 'array' and str(ty[2]).isdigit():
                n = const(int(ty[2]))
            elif v.t.op == 'deref':
                n = atom(T('len', v.t, ty=LEN))
            else:
                n = atom(T('len', v.t, ty=LEN))
            return Seq((('s', T('seq', v.t), ZERO, n),) if n is not ZERO else (), n, elem_ty(ty))
        if is_map_ty(ty):
            a = [x for x in ty[2]]
            return Map(T('map', v.t), (), atom(T('len', v.t, ty=LEN)), a[0], a[1])
        if k == 'tuple':
            return Agg(('tuple',), 0, [mkval(T('fld', v.t, i), t) for i, t in enumerate(ty[1])])
        if k == 'adt':
            info = ADTS[ty[1]]
            if info['name'] == 'Box':
                return Agg(('box',), 0, [mkval(T('fld', v.t, 'box'), ty[2][0])])
            if info['kind'] == 'enum':
                if var is None:
                    d = st.facts.disc.get(v.t)
                    if isinstance(d, int):
                        var = d
                    else:
                        return v
                n = len(info['variants'][var]['f'])
                return Agg(('adt', ty[1]), var, [mkval(T('fld', v.t, var, i), self.field_ty(ty, var, i)) for i in range(n)])
            if info['full']:
                n = len(info['variants'][0]['f'])
                return Agg(('adt', ty[1]), 0, [mkval(T('fld', v.t, i), self.field_ty(ty, 0, i)) for i in range(n)])
        return v

    def get(self, st, v, e):
        """read one path element of a value"""
        k = e[0]
        c = v.__class__
        if k == 'f':
            if c is Sym:
                v = self.expand(st, v, e[2])
                c = v.__class__
            if c is Agg:
                if v.tag[0] == 'adt' and e[2] is not None and v.var != e[2] and ADTS[v.tag[1]]['kind'] == 'enum':
                    return mkval(fresh('deadvar'), ('never',))
                if e[1] >= len(v.f):
                    raise Giveup('field %s of %r' % (e[1], v))
                return v.f[e[1]]
            raise Giveup('field %s of %r' % (e[1], v))
        if k == 'i':
            if c is Sym:
                v = self.expand(st, v)
                c = v.__class__
            if c is Seq:
                return self.seq_get(st, v, e[1])
            raise Giveup('index of %r' % (v,))
        if k == 'mk':
            if c is Sym:
                v = self.expand(st, v)
            for kk, p, val in v.ent:
                if kk == e[1]:
                    return val
            return mkval(T('mval', v.base, e[1]), v.vty)
        if k == 'mi':
            if c is Sym:
                v = self.expand(st, v)
            return mkval(T('mvali', v.base, e[1]), v.vty)
        if k == 'mki':
            if c is Sym:
                v = self.expand(st, v)
            return mkval(T('mkeyi', v.base, e[1]), v.kty)
        if k == 'sl':
            if c is Sym:
                v = self.expand(st, v)
            return self.seq_sub(st, v, e[1], e[2])
        raise Giveup('path %r' % (e,))

    def put(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        k = e[0]
        c = v.__class__
        if k == 'f':
            if c is Sym:
                v = self.expand(st, v, e[2])
            if v.__class__ is not Agg:
                raise Giveup('write field of %r' % (v,))
            if v.tag[0] == 'uninit' and all(x[0] == 'f' for x in path):
                return new
            if e[1] >= len(v.f):
                raise Giveup('write field %s of %r' % (e[1], v))
            f = list(v.f)
            f[e[1]] = self.put(st, f[e[1]], path[1:], new)
            return Agg(v.tag, v.var, f)
        if k == 'i':
            if c is Sym:
                v = self.expand(st, v)
            if v.__class__ is not Seq:
                raise Giveup('write index of %r' % (v,))
            if len(path) > 1:
                new = self.put(st, self.seq_get(st, v, e[1]), path[1:], new)
            return self.seq_set(st, v, e[1], new)
        if k in ('mk', 'mi'):
            if c is Sym:
                v = self.expand(st, v)
            key = e[1] if k == 'mk' else T('mkeyi', v.base, e[1])
            if len(path) > 1:
                new = self.put(st, self.get(st, v, e), path[1:], new)
            ent = [x for x in v.ent if x[0] != key]
            if k == 'mi':
                # writing through an iterator: remembered as an entry of its own
                key = ('mi', e[1])
                ent = [x for x in v.ent if x[0] != key]
            return Map(v.base, ent + [(key, True, new)], v.n, v.kty, v.vty)
        if k == 'sl':
            if c is Sym:
                v = self.expand(st, v)
            if len(path) == 1:
                # replace a sub-slice by a sequence of the same length
                pre = self.seq_sub(st, v, ZERO, e[1])
                post = self.seq_sub(st, v, e[1] + e[2], v.n - e[1] - e[2])
                return Seq(norm_segs(pre.segs + new.segs + post.segs), v.n, v.ety, ())
            raise Giveup('write through slice path')
        raise Giveup('write path %r' % (e,))

    def obj(self, st, o):
        v = st.objs.get(o)
        if v is None:
            if o[0] == 'D':
                ty = DTY.get(o[1])
                if ty is None:
                    raise Giveup('no type for %s' % show(o[1]))
                v = mkval(T('deref', o[1]), ty)
                st.objs[o] = v
            elif o[0] == 'C':
                v = Seq((('c', o[1]),), const(len(o[1])), U8)
            else:
                raise Giveup('uninitialised %s' % (o,))
        return v

    def read(self, st, o, path):
        v = self.obj(st, o)
        for e in path:
            v = self.get(st, v, e)
        return v

    def write(self, st, o, path, new):
        if not path:
            st.objs[o] = new
            return
        st.objs[o] = self.put(st, self.obj(st, o), path, new)

    def deref(self, st, v):
        """the value a reference points to"""
        if v.__class__ is Ref:
            return self.read(st, v.obj, v.path)
        if v.__class__ is Slice:
            return self.slice_seq(st, v)
        if v.__class__ is Agg and v.tag[0] == 'box':
            return v.f[0]
        if v.__class__ is Sym:
            w = self.expand(st, v)
            if w.__class__ is Agg and w.tag[0] == 'box':
                return w.f[0]
        raise Giveup('deref of %r' % (v,))

    def slice_seq(self, st, s):
        v = self.read(st, s.obj, s.path)
        if v.__class__ is Sym:
            v = self.expand(st, v)
        if v.__class__ is not Seq:
            raise Giveup('slice over %r' % (v,))
        return self.seq_sub(st, v, s.lo, s.n)

    # ------------------------------------------------------------ sequences
    def nrm(self, st, l):
        """replace atoms with a known constant value"""
        iv = st.facts.iv
        m = None
        for a, _ in l.t:
            b = iv.get(a)
            if b is not None and b[0] == b[1] and b[0] is not None:
                if m is None:
                    m = {}
                m[a] = const(b[0])
            elif a.op == 'lz' and st.facts.decide(eq0(a.args[0])) is True:
                if m is None:
                    m = {}
                m[a] = const(a.args[1])
        return l.subst(m) if m else l

    def elem_at(self, st, s, k, ety):
        """element k of segment s"""
        t = s[0]
        if t == 'e':
            return s[1]
        if t == 'c':
            if k.is_const():
                return const(s[1][k.c])
            k = self.nrm(st, k)
            if k.is_const() and 0 <= k.c < len(s[1]):
                return const(s[1][k.c])
            bf = enumer.byte_fn(k) if ety[0] == 'int' and s[1] else None
            if bf is not None:
                lim = len(s[1])
                vals = [s[1][v] if v is not None and 0 <= v < lim else None for v in bf[0]]
                dfl = next((v for v in vals if v is not None), 0)
                return fn8([dfl if v is None else v for v in vals], bf[1])
            a = T('tbl', s[1], k, ty=ety)
            if ety[0] == 'int' and s[1]:
                lo, hi = st.facts.lower(k), st.facts.upper(k)
                lo = max(0, lo if lo is not None else 0)
                hi = min(len(s[1]) - 1, hi if hi is not None else len(s[1]) - 1)
                if lo <= hi:
                    vals = s[1][lo:hi + 1]
                    if ety == U8:
                        m = 0
                        for x in vals:
                            m |= 1 << x
                        st.facts.restrict_mask(a, m)
                    else:
                        st.facts._set_iv(a, min(vals), max(vals))
            return atom(a)
        if t == 'r':
            return s[1]
        if t == 's':
            ix = self.nrm(st, s[2] + k)
            if s[1].op == 'sub':
                # part of a list known segment by segment
                segs = s[1].args[0]
                n = ZERO
                for x in segs:
                    n = n + seglen(x)
                return self.seq_get(st, Seq(segs, n, ety), s[1].args[1] + ix)
            return self.base_elem(st, s[1], ix, ety)
        if t == 'rs':
            ix = self.nrm(st, s[2] + s[3] - 1 - k)
            return self.base_elem(st, s[1], ix, ety)
        raise Giveup('element of segment %s' % t)

    def base_elem(self, st, base, ix, ety):
        reg = self.elems.get(base)
        if reg is None:
            reg = self.elems[base] = {}
        if self.congr:
            # perhaps an element the implementation spoke of under another name
            F = st.facts
            told = lambda jx: any(x in F.iv or x in F.mask for x in (T('elem', base, jx, ty=ety),))
            new = ix not in reg
            if new or not told(ix):
                known = None
                for jx in reg:
                    d = ix - jx
                    if not d.t or not new and not told(jx):
                        continue
                    if known is None:
                        known = F.spoken()
                    if all(a in known for a, _ in d.t) and F.prove_eq(d):
                        ix = jx
                        break
                else:
                    reg.setdefault(ix, False)
        elif ix not in reg:
            reg[ix] = True
        a = T('elem', base, ix)
        v = mkval(a, ety)
        if ety == U8:
            at = v.t[0][0]
            if st.facts.quant:
                m = st.facts.quant_mask(base, ix)
                if m != FULL:
                    st.facts.restrict_mask(at, m)
        return v

    def seq_get(self, st, v, i):
        F = st.facts
        for j, val in reversed(v.ov):
            d = F.decide(eq(i, j))
            if d is True:
                return val
            if d is None:
                # may be one of the written elements: named by the whole history of writes
                try:
                    return mkval(T('sel', v.segs, v.ov, i), v.ety)
                except TypeError:
                    return mkval(fresh('elem'), v.ety)
        off = ZERO
        segs = v.segs
        if len(segs) == 1:
            return self.elem_at(st, segs[0], i, v.ety)
        for s in segs:
            n = seglen(s)
            d = F.decide(lt(i, off + n))
            if d is True:
                if F.decide(leq(off, i)) is True:
                    return self.elem_at(st, s, i - off, v.ety)
                break
            if d is None:
                # maybe it lies after; try from the end
                break
            off = off + n
        # from the end
        end = v.n
        for s in reversed(segs):
            n = seglen(s)
            if F.decide(leq(end - n, i)) is True:
                if F.decide(lt(i, end)) is True:
                    return self.elem_at(st, s, i - (end - n), v.ety)
                break
            end = end - n
        t = T('sel', v.segs, i) if all(hash_ok(s) for s in segs) else fresh('elem')
        val = mkval(t, v.ety)
        return val

    def seq_explode(self, v):
        segs = []
        for s in v.segs:
            if s[0] == 'c':
                segs.extend(('e', const(x)) for x in s[1])
            elif s[0] == 's' and s[3].is_const() and s[3].c <= 64:
                segs.extend(('e', mkval(T('elem', s[1], s[2] + k), v.ety)) for k in range(s[3].c))
            elif s[0] == 'r' and s[2].is_const() and s[2].c <= 64:
                segs.extend([('e', s[1])] * s[2].c)
            else:
                segs.append(s)
        return segs

    def seq_set(self, st, v, i, new):
        if v.n.is_const() and v.n.c <= 64:
            i2 = self.nrm(st, i)
            segs = self.seq_explode(v)
            if i2.is_const() and all(s[0] == 'e' for s in segs) and not v.ov:
                segs[i2.c] = ('e', new)
                return Seq(segs, v.n, v.ety, ())
        # a located single element at either end of the segment list
        F = st.facts
        if not v.ov:
            off = ZERO
            for k, s in enumerate(v.segs):
                if s[0] == 'e' and F.decide(eq(i, off)) is True:
                    return Seq(v.segs[:k] + (('e', new),) + v.segs[k + 1:], v.n, v.ety, ())
                off = off + seglen(s)
        ov = tuple(x for x in v.ov if F.decide(eq(x[0], i)) is not True)
        return Seq(v.segs, v.n, v.ety, ov + ((i, new),))

    def seq_sub(self, st, v, lo, n):
        """the sub-sequence of n elements from index lo"""
        if lo is ZERO and n is v.n:
            return v
        F = st.facts
        if n is ZERO or F.decide(eq0(n)) is True:
            return Seq((), ZERO, v.ety)
        if v.ov:
            ov = []
            for j, val in v.ov:
                if F.decide(band(leq(lo, j), lt(j, lo + n))) is False:
                    continue
                ov.append((j - lo, val))
            ov = tuple(ov)
        else:
            ov = ()
        if len(v.segs) == 1 and v.segs[0][0] == 'c' and not (lo.is_const() and n.is_const()):
            # a part of a constant at a symbolic position
            return Seq((('s', T('cseq', v.segs[0][1]), lo, n),), n, v.ety, ov)
        # locate the start
        segs = list(v.segs)
        off = ZERO
        out = []
        i = 0
        rest = lo
        while i < len(segs):
            s = segs[i]
            ln = seglen(s)
            if rest is ZERO or F.decide(eq0(rest)) is True:
                break
            d = F.decide(leq(ln, rest))
            if d is True:
                rest = rest - ln
                i += 1
                continue
            if d is False or i == len(segs) - 1:
                segs[i] = seg_cut(s, rest, ln - rest)
                rest = ZERO
                break
            return Seq((('s', T('sub', v.segs, lo), ZERO, n),), n, v.ety, ov)
        left = n
        while i < len(segs):
            s = segs[i]
            if left is ZERO or F.decide(eq0(left)) is True:
                break
            ln = seglen(s)
            d = F.decide(leq(ln, left))
            if d is True:
                out.append(s)
                left = left - ln
                i += 1
                continue
            if d is False or i == len(segs) - 1:
                out.append(seg_cut(s, ZERO, left))
                left = ZERO
                break
            return Seq((('s', T('sub', v.segs, lo), ZERO, n),), n, v.ety, ov)
        return Seq(norm_segs(out), n, v.ety, ov)

    def seq_cat(self, st, a, b):
        if a.ov or b.ov:
            ov = tuple(a.ov) + tuple((j + a.n, x) for j, x in b.ov)
        else:
            ov = ()
        return Seq(norm_segs(a.segs + b.segs), a.n + b.n, a.ety, ov, a.gh)

    # ------------------------------------------------------------ places and operands
    def place(self, st, fr, p):
        """-> (obj, path)"""
        o = ('L', fr.fid, p[0])
        path = ()
        var = None
        for e in p[1]:
            k = e[0]
            if k == 'deref':
                v = self.read(st, o, path)
                if v.__class__ is Ref:
                    o, path = v.obj, v.path
                elif v.__class__ is Slice:
                    o, path = v.obj, v.path + (('sl', v.lo, v.n),)
                elif v.__class__ is Agg and v.tag[0] == 'box':
                    path = path + (('f', 0, None),)
                elif v.__class__ is Sym and v.ty[0] == 'adt':
                    path = path + (('f', 0, None),)
                elif v.__class__ is Agg and v.tag == ('rawptr',):
                    s, off, born = v.f
                    self.alive(st, fr, v, self.curb)
                    self.oblige(st, fr, self.curb, 'raw pointer in bounds', band(leq(0, off), lt(off, s.n)))
                    o, path = s.obj, s.path + (('i', s.lo + off),)
                else:
                    raise Giveup('deref place of %r' % (v,))
                var = None
            elif k == 'f':
                path = path + (('f', e[1], var),)
                var = None
            elif k == 'dc':
                var = e[1]
            elif k == 'idx':
                ix = self.read(st, ('L', fr.fid, e[1]), ())
                o, path = self.idx_place(o, path, ix)
                var = None
            elif k == 'cidx':
                ln = self.place_len(st, o, path)
                ix = const(e[1]) if not e[3] else ln - e[1]
                o, path = self.idx_place(o, path, ix)
                var = None
            elif k == 'sub':
                ln = self.place_len(st, o, path)
                lo = const(e[1])
                hi = ln - e[2] if e[3] else const(e[2])
                if path and path[-1][0] == 'sl':
                    path = path[:-1] + (('sl', path[-1][1] + lo, hi - lo),)
                else:
                    path = path + (('sl', lo, hi - lo),)
                var = None
            else:
                raise Giveup('projection %s' % k)
        return o, path

    def touched(self, st, o):
        self.tick += 1
        st.mut = dict(st.mut)
        st.mut[o] = self.tick

    def alive(self, st, fr, p, b):
        """the raw pointer was not invalidated: no mutable borrow or write of the object, by another way, since it was made"""
        self.oblige(st, fr, b, 'raw pointer still valid', st.mut.get(p.f[0].obj, 0) <= p.f[2])

    def idx_place(self, o, path, ix):
        if path and path[-1][0] == 'sl':
            return o, path[:-1] + (('i', path[-1][1] + ix),)
        return o, path + (('i', ix),)

    def place_len(self, st, o, path):
        if path and path[-1][0] == 'sl':
            return path[-1][2]
        v = self.read(st, o, path)
        v = self.expand(st, v)
        if v.__class__ is Seq:
            return v.n
        raise Giveup('length of %r' % (v,))

    def read_place(self, st, fr, p):
        if not p[1]:
            return self.obj(st, ('L', fr.fid, p[0]))
        o, path = self.place(st, fr, p)
        return self.read(st, o, path)

    def operand(self, st, fr, op):
        if 'p' in op:
            return self.read_place(st, fr, op['p'])
        if op['k'] == 'promoted':
            return self.promoted(st, fr, op['i'])
        return self.constant(st, fr, op)

    def constant(self, st, fr, op):
        ty = mir.subst(op['t'], fr.genv)
        v = op['v']
        return self.const_val(st, ty, v, op.get('n'), fr)

    def const_val(self, st, ty, v, name, fr):
        k = ty[0]
        if k == 'fndef':
            return FnV(ty[1], ty[2], ty[3])
        if k == 'tuple' and not ty[1]:
            return UNIT
        if v is None:
            if name:
                r = self.named_const(st, ty, name, fr)
                if r is not None:
                    return r
            if k == 'closure':
                return Agg(ty, 0, ())
            if k == 'adt':
                info = ADTS[ty[1]]
                if info['kind'] == 'struct' and info['full'] and not info['variants'][0]['f']:
                    return Agg(('adt', ty[1]), 0, ())
            return mkval(T('konst', name or '?', fr.fn.key if fr else '', ty=ty if ty[0] in ('int', 'bool', 'char') else None), ty)
        kk = v.get('k') if isinstance(v, dict) else None
        if kk is None:
            raise Giveup('constant %r' % (v,))
        if kk == 'int':
            n = int(v['v'])
            if k == 'bool':
                return bool(n)
            if k == 'int' and ty[1] and n >= 1 << (ty[2] - 1):
                n -= 1 << ty[2]
            if k == 'float':
                return mkval(T('fconst', f64_of(n)) if ty[1] == 'f64' else T('fbits', n), ty)
            return const(n)
        if kk == 'str':
            b = bytes(v['v'])
            return Slice(('C', b), (), ZERO, const(len(b)), True)
        if kk == 'fn':
            if k == 'closure':
                return Agg(('closure', ty[1], tuple(sorted(fr.genv.items())) if fr else ()), 0, ())
            return self.zst(ty)
        if kk == 'slice':
            return self.const_val(st, ty, {'k': 'refto', 'v': {'k': 'array', 'v': v['v']}}, name, fr)
        if kk == 'zst':
            if k == 'closure':
                return Agg(('closure', ty[1], tuple(sorted(fr.genv.items())) if fr else ()), 0, ())
            return self.zst(ty)
        if kk == 'refto':
            inner = ty[2]
            if v['v'].get('k') == 'array' and all(x.get('k') == 'int' for x in v['v']['v']):
                xs = [int(x['v']) for x in v['v']['v']]
                et = elem_ty(inner) if is_seq_ty(inner) else None
                if et == U8:
                    o = ('C', bytes(xs))
                else:
                    o = ('K', tuple(xs))
                    st.objs[o] = Seq((('c', tuple(xs)),) if xs else (), const(len(xs)), et)
                if inner[0] in ('slice', 'str'):
                    return Slice(o, (), ZERO, const(len(xs)), inner[0] == 'str')
                return Ref(o)
            o = ('K', repr(v), inner)
            st.objs[o] = w = self.const_val(st, inner, v['v'], name, fr)
            if inner[0] in ('slice', 'str') and w.__class__ is Seq:
                return Slice(o, (), ZERO, w.n, inner[0] == 'str')
            return Ref(o)
        if kk == 'array':
            et = elem_ty(ty) if is_seq_ty(ty) else None
            xs = v['v']
            if xs and all(x.get('k') == 'int' for x in xs) and et[0] != 'bool':
                t = [int(x['v']) for x in xs]
                return Seq((('c', bytes(t) if et == U8 else tuple(t)),), const(len(t)), et)
            return Seq([('e', self.const_val(st, et, x, None, fr)) for x in xs], const(len(xs)), et)
        if kk == 'adt':
            var = v['var']
            fs = v['v']
            if k == 'tuple':
                return Agg(('tuple',), 0, [self.const_val(st, ty[1][i], x, None, fr) for i, x in enumerate(fs)])
            if ADTS[ty[1]]['name'] in ('Ipv4Addr', 'Ipv6Addr') and len(fs) == 1:
                n = 4 if ADTS[ty[1]]['name'] == 'Ipv4Addr' else 16
                try:
                    return Agg(('ipoct', n), 0, (self.const_val(st, ('array', U8, n), fs[0], None, fr),))
                except (Giveup, KeyError, TypeError, IndexError):
                    pass
            if is_seq_ty(ty) or is_map_ty(ty) or not ADTS[ty[1]]['full']:
                return mkval(T('konst', name or repr(v)), ty)
            return Agg(('adt', ty[1]), var, [self.const_val(st, self.field_ty(ty, var, i), x, None, fr) for i, x in enumerate(fs)])
        if kk == 'tuple':
            return Agg(('tuple',), 0, [self.const_val(st, ty[1][i], x, None, fr) for i, x in enumerate(v['v'])])
        return self.other_const(st, ty, v, fr)

    def zst(self, ty):
        k = ty[0]
        if k == 'adt' or k == 'closure':
            if k == 'adt' and ADTS[ty[1]]['kind'] == 'enum':
                return Agg(('adt', ty[1]), 0, ())
            return Agg(ty[:2], 0, ())
        if k == 'array':
            return Seq((), ZERO, ty[1])
        if k == 'fndef':
            return FnV(ty[1], ty[2], ty[3])
        return UNIT

    def other_const(self, st, ty, v, fr):
        raise Giveup('constant %r of type %s' % (v, tshow(ty)))

    def named_const(self, st, ty, name, fr):
        f = self.prog.by_path.get(name)
        if f is None:
            for q in self.prog.fns.values():
                if q.path == name or (q.kind == 'const' and q.path.endswith('::' + name)):
                    f = q
                    break
        if f is not None and f.argc == 0 and f.kind in ('const', 'assoc_const', 'static', 'inline_const'):
            s2 = State()
            r = self.call_fn(s2, f, [], {}, ('const',) + (name,), fr, None)
            if len(r) == 1 and not r[0][0].facts.dead:
                s3, val = r[0]
                for o, w in s3.objs.items():
                    st.objs.setdefault(o, w)
                return val
        return None

    def promoted(self, st, fr, i):
        f = fr.fn.promoted[i]
        fid = (fr.fn.key, 'promoted', i)
        if fr.genv:
            fid = fid + (tuple(sorted(fr.genv.items())),)
        o = ('L', fid, 0)
        if o not in st.objs:
            s2 = State()
            fr2 = Frame(f, fid, fr.genv, fr.chain)
            fr2.prel = fr.prel
            r = self.run_body(s2, fr2)
            if len(r) != 1:
                raise Giveup('promoted with branches')
            for k, w in r[0].objs.items():
                st.objs.setdefault(k, w)
        return self.obj(st, o)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r):
        k = r['k']
        if k == 'use':
            return self.operand(st, fr, r['o'])
        if k in ('ref', 'rawptr'):
            v = self.mkref(st, fr, r['p'], bool(r.get('m')))
            if r.get('m') and v.__class__ in (Ref, Slice):
                self.touched(st, v.obj)
            return v
        if k == 'bin':
            return self.binop(st, fr, r['op'], self.operand(st, fr, r['a']), self.operand(st, fr, r['b']), mir.subst(r['t'], fr.genv))
        if k == 'un':
            return self.unop(st, fr, r)
        if k == 'cast':
            return self.cast(st, fr, r)
        if k == 'discr':
            return self.discr(st, self.read_place(st, fr, r['p']))
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r['ops']]
            a = r['a']
            if a == 'tuple':
                return UNIT if not ops else Agg(('tuple',), 0, ops)
            if a == 'array':
                ety = mir.subst(r['t'], fr.genv) if isinstance(r.get('t'), tuple) else None
                if ety is None:
                    ety = self.typeof(st, ops[0]) if ops else ('other', None)
                elif ety[0] == 'array':
                    ety = ety[1]
                return Seq([('e', o) for o in ops], const(len(ops)), ety)
            if a == 'adt':
                info = mir.ADTS.get(r['key']) or mir.ADT_BY_PATH.get(r['path'])
                if len(ops) == 1 and ops[0].__class__ is Agg and ops[0].tag[0] == 'sock46' and info['path'].endswith('net::SocketAddr'):
                    # a socket address is kept as one address and a port
                    x = ops[0]
                    return Agg(('sock',), 0, (Agg(('adt', next(k for k, i in ADTS.items() if i['path'] == 'std::net::IpAddr')), r['var'], (x.f[0],)), x.f[1]))
                return Agg(('adt', info['key']), r['var'], ops)
            if a == 'closure':
                return Agg(('closure', r['key'], tuple(sorted(fr.genv.items()))), 0, ops)
            raise Giveup('aggregate %s' % a)
        if k == 'repeat':
            v = self.operand(st, fr, r['o'])
            n = r['n']
            if not isinstance(n, int):
                n = int(n) if str(n).isdigit() else None
            if n is None:
                raise Giveup('repeat length')
            ety = self.optype(fr, r['o'])
            return Seq([('r', v, const(n))] if n else [], const(n), ety)
        raise Giveup('rvalue %s' % k)

    def optype(self, fr, op):
        if 'p' in op and not op['p'][1]:
            return mir.subst(fr.fn.ltys[op['p'][0]], fr.genv)
        if 't' in op:
            return mir.subst(op['t'], fr.genv)
        return ('other', None)

    def mkref(self, st, fr, p, mut):
        o, path = self.place(st, fr, p)
        if path and path[-1][0] == 'sl':
            base = self.read(st, o, path[:-1])
            isstr = False
            # keep the string-ness of the slice this place came from
            lastd = max((i for i, e in enumerate(p[1]) if e[0] == 'deref'), default=None)
            if lastd is not None and lastd == len(p[1]) - 1:
                v = self.read_place(st, fr, [p[0], p[1][:lastd]])
                if v.__class__ is Slice:
                    isstr = v.st
                    return v if not mut else Slice(v.obj, v.path, v.lo, v.n, v.st, True)
            return Slice(o, path[:-1], path[-1][1], path[-1][2], isstr, mut)
        return Ref(o, path, mut)

    def discr(self, st, v):
        if v.__class__ is Agg:
            if v.tag[0] == 'adt':
                return const(ADTS[v.tag[1]]['variants'][v.var]['d'])
            return ZERO
        if v.__class__ is Sym and v.ty[0] == 'adt':
            set_nvariants(v.t, len(ADTS[v.ty[1]]['variants']))
            d = st.facts.disc.get(v.t)
            if isinstance(d, int):
                return const(ADTS[v.ty[1]]['variants'][d]['d'])
            return Disc(v.t, v.ty)
        raise Giveup('discriminant of %r' % (v,))

    def intlin(self, v):
        if v.__class__ is Lin:
            return v
        if v is True or v is False:
            return const(int(v))
        if v.__class__ is Term:
            return None
        return None

    def binop(self, st, fr, op, a, b, ty):
        """ty: type of the left operand"""
        F = st.facts
        if op.endswith('WithOverflow'):
            r, ovf = self.arith(st, op[:-12], a, b, ty, True)
            return Agg(('tuple',), 0, [r, ovf])
        if ty[0] == 'float':
            return self.fbin(st, op, a, b, ty)
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            return self.arith(st, op.replace('Unchecked', ''), a, b, ty, False)[0]
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if a.__class__ is Disc or b.__class__ is Disc:
                return self.disc_cmp(op, a, b)
            if ty[0] == 'bool' or a.__class__ in (bool, Term) or b.__class__ in (bool, Term):
                return self.bool_cmp(op, a, b)
            if a.__class__ is not Lin or b.__class__ is not Lin:
                if a == b and op in ('Eq', 'Ne') and a.__class__ in (Agg, Ref, Sym):
                    return op == 'Eq'
                return fresh('cmp', ('bool',))
            if op == 'Eq':
                return eq(a, b)
            if op == 'Ne':
                return bnot(eq(a, b))
            if op == 'Lt':
                return lt(a, b)
            if op == 'Le':
                return leq(a, b)
            if op == 'Gt':
                return lt(b, a)
            return leq(b, a)
        if op in ('BitAnd', 'BitOr', 'BitXor') and (ty[0] == 'bool' or a.__class__ in (bool, Term)):
            if op == 'BitAnd':
                return band(a, b)
            if op == 'BitOr':
                return bor(a, b)
            return bnot(self.bool_cmp('Eq', a, b))
        if op == 'Offset' or op == 'Cmp':
            return mkval(fresh(op), ty)
        if a.__class__ is not Lin or b.__class__ is not Lin:
            return mkval(fresh(op), ty)
        return self.bits(st, op, a, b, ty)

    def fbin(self, st, op, a, b, ty):
        ta, tb = self.vterm(st, a), self.vterm(st, b)
        fc = ty[1] == 'f64' and ta.op == tb.op == 'fconst'
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if fc:
                x, y = ta.args[0], tb.args[0]
                return {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]
            if op == 'Ne':
                return bnot(self.fbin(st, 'Eq', a, b, ty))
            if op in ('Gt', 'Ge'):
                op, ta, tb = 'L' + op[1], tb, ta
            return T('f' + op, ta, tb, ty=('bool',))
        if fc and op in ('Add', 'Sub', 'Mul', 'Div') and (op != 'Div' or tb.args[0] != 0):
            x, y = ta.args[0], tb.args[0]
            try:
                return mkval(T('fconst', {'Add': x + y, 'Sub': x - y, 'Mul': x * y, 'Div': x / y if y else 0.0}[op]), ty)
            except OverflowError:
                pass
        if op in ('Add', 'Mul'):
            ta, tb = sorted((ta, tb), key=lambda t: t.id)
        return mkval(T('f' + op, ta, tb), ty)

    def disc_cmp(self, op, a, b):
        if a.__class__ is not Disc:
            a, b = b, a
        if b.__class__ is Lin and b.is_const() and op in ('Eq', 'Ne'):
            vs = [i for i, v in enumerate(ADTS[a.ty[1]]['variants']) if v['d'] == b.c]
            r = T('isvar', a.t, vs[0]) if vs else False
            return r if op == 'Eq' else bnot(r)
        if b.__class__ is Disc and op in ('Eq', 'Ne'):
            r = T('samevar', *sorted((a.t, b.t), key=lambda x: x.id), ty=('bool',))
            return r if op == 'Eq' else bnot(r)
        return fresh('disccmp', ('bool',))

    def bool_cmp(self, op, a, b):
        if op in ('Ne',):
            return bnot(self.bool_cmp('Eq', a, b))
        if op == 'Eq':
            if a is True:
                return b
            if a is False:
                return bnot(b)
            if b is True:
                return a
            if b is False:
                return bnot(a)
            if a is b:
                return True
            return bor(band(a, b), band(bnot(a), bnot(b)))
        return fresh('boolcmp', ('bool',))

    def arith(self, st, op, a, b, ty, ovf):
        F = st.facts
        if a.__class__ is not Lin or b.__class__ is not Lin:
            return mkval(fresh(op), ty), fresh('ovf', ('bool',))
        lo, hi = ty_range(ty)
        if op == 'Add':
            r = a + b
            if b.t and b.t[0][0].op == 'fn8':
                r = merge8(r)
        elif op == 'Sub':
            r = a - b
        else:
            if b.is_const():
                r = a * b.c
            elif a.is_const():
                r = b * a.c
            else:
                r = self.mul(st, a, b)
        if lo is None:
            return r, False
        inr_lo = F.decide(leq(const(lo), r))
        inr_hi = F.decide(leq(r, const(hi)))
        if inr_lo is True and inr_hi is True:
            return r, False
        if ovf:
            c = band(leq(const(lo), r), leq(r, const(hi)))
            return r, bnot(c) if c.__class__ is not bool else (not c)
        # wrapping
        w = self.wrap(st, r, ty)
        return w, False

    def wrap(self, st, r, ty):
        lo, hi = ty_range(ty)
        if r.is_const():
            m = hi - lo + 1
            return const((r.c - lo) % m + lo)
        if st.facts.decide(leq(const(lo), r)) is True and st.facts.decide(leq(r, const(hi))) is True:
            return r
        return atom(T('wrap', r, ty=ty))

    def mul(self, st, a, b):
        t = T('mul', *sorted((a, b), key=id_key))
        if t.lo is None:
            la, ua = st.facts.lower(a), st.facts.upper(a)
            lb, ub = st.facts.lower(b), st.facts.upper(b)
            if None not in (la, ua, lb, ub):
                p = [x * y for x in (la, ua) for y in (lb, ub)]
                # only type-level bounds may be attached to the atom itself
                st.facts._set_iv(t, min(p), max(p))
        return atom(t)

    def bits(self, st, op, a, b, ty):
        F = st.facts
        lo, hi = ty_range(ty)
        a, b = self.nrm(st, a), self.nrm(st, b)
        if op in ('Div', 'Rem'):
            if b.is_const() and b.c > 0 and F.decide(leq(0, a)) is True:
                return div(a, b.c) if op == 'Div' else rem(a, b.c)
            if b.is_const() and a.is_const() and b.c != 0:
                q = abs(a.c) // abs(b.c)
                q = q if (a.c < 0) == (b.c < 0) else -q
                return const(q if op == 'Div' else a.c - q * b.c)
            t = T('divv' if op == 'Div' else 'remv', a, b, ty=ty)
            if F.decide(leq(0, a)) is True and F.decide(lt(0, b)) is True:
                F.add_le(-atom(t))
                if op == 'Div':
                    F.add_le(atom(t) - a)
                else:
                    F.add_le(atom(t) - b + 1)
                    F.add_le(atom(t) - a)
            return atom(t)
        if op in ('Shl', 'ShlUnchecked'):
            if b.is_const() and 0 <= b.c < ty[2]:
                r = a * (1 << b.c)
                if F.decide(leq(r, const(hi))) is True and F.decide(leq(const(lo), r)) is True:
                    return r
                if lo == 0:
                    return rem(a, 1 << (ty[2] - b.c)) * (1 << b.c)
            t = T('shl', a, b, ty=ty)
            return atom(t)
        if op in ('Shr', 'ShrUnchecked'):
            if b.is_const() and F.decide(leq(0, a)) is True:
                return div(a, 1 << b.c)
            t = T('shr', a, b, ty=ty)
            if F.decide(leq(0, a)) is True:
                F.add_le(-atom(t))
                F.add_le(atom(t) - a)
            return atom(t)
        if a.is_const() and b.is_const():
            m = {'BitAnd': a.c & b.c, 'BitOr': a.c | b.c, 'BitXor': a.c ^ b.c}[op]
            return const(m)
        if a.is_const():
            a, b = b, a
        nn = F.decide(leq(0, a)) is True and F.decide(leq(0, b)) is True
        if nn and b.is_const() and ty[0] == 'int' and not ty[1]:
            r = self.fixedbits(F, op, a, b.c, ty[2])
            if r is not None:
                return r
        if op == 'BitAnd':
            if b.is_const() and nn:
                if b.c == 0:
                    return ZERO
                if (b.c & (b.c + 1)) == 0:
                    return rem(a, b.c + 1)
                tz = (b.c & -b.c).bit_length() - 1
                m2 = b.c >> tz
                if tz and (m2 & (m2 + 1)) == 0:
                    return rem(div(a, 1 << tz), m2 + 1) * (1 << tz)
            t = T('band', *sorted((a, b), key=id_key), ty=ty)
            if nn:
                F.add_le(atom(t) - a)
                F.add_le(atom(t) - b)
            return atom(t)
        if b.is_const() and b.c == 0:
            return a
        if nn:
            # disjoint bits: a sum
            for x, y in ((a, b), (b, a)):
                u = F.upper(x)
                if u is not None:
                    m = 1 << u.bit_length()
                    if all(k % m == 0 for _, k in y.t) and y.c % m == 0:
                        return x + y
        t = T('bor' if op == 'BitOr' else 'bxor', *sorted((a, b), key=id_key), ty=ty)
        if nn:
            ua, ub = F.upper(a), F.upper(b)
            if ua is not None and ub is not None:
                m = (1 << max(ua.bit_length(), ub.bit_length())) - 1
                F._set_iv(t, 0, m)
            if ty != U8:
                F.add_le(atom(t) - a - b)
            if op == 'BitOr' and ty != U8:
                F.add_le(a - atom(t))
                F.add_le(b - atom(t))
        return atom(t)

    @staticmethod
    def fixedbits(F, op, a, m, w):
        """The result as a sum when every bit the constant changes is the same for all values in reach."""
        lo, hi = F.lower(a), F.upper(a)
        if lo is None or hi is None or lo < 0 or lo == hi:
            return None
        m = ((1 << w) - 1) & ~m if op == 'BitAnd' else m
        d, k = 0, 0
        while m >> k:
            if m >> k & 1:
                if lo >> k != hi >> k:
                    return None
                on = lo >> k & 1
                if op == 'BitAnd':
                    d -= on << k
                elif op == 'BitOr':
                    d += (1 - on) << k
                else:
                    d += (1 - 2 * on) << k
            k += 1
        return a + const(d)

    def unop(self, st, fr, r):
        v = self.operand(st, fr, r['o'])
        op = r['op']
        ty = mir.subst(r['t'], fr.genv) if isinstance(r.get('t'), tuple) else self.optype(fr, r['o'])
        if op == 'Not':
            if v.__class__ in (bool, Term):
                return bnot(v)
            if v.__class__ is Lin and ty[0] == 'int':
                if ty[1]:
                    return const(-1) - v
                return const((1 << ty[2]) - 1) - v
            return mkval(fresh('not'), ty)
        if op == 'Neg':
            if v.__class__ is Lin:
                return self.wrap(st, -v, ty) if ty[0] == 'int' else mkval(fresh('neg'), ty)
            return mkval(fresh('neg'), ty)
        if op == 'PtrMetadata':
            if v.__class__ is Slice:
                return v.n
            if v.__class__ is Ref:
                w = self.expand(st, self.read(st, v.obj, v.path))
                if w.__class__ is Seq:
                    return w.n
            return UNIT
        raise Giveup('unop %s' % op)

    def cast(self, st, fr, r):
        v = self.operand(st, fr, r['o'])
        ty = mir.subst(r['t'], fr.genv)
        c = r['c']
        sty = mir.subst(r['s'], fr.genv) if isinstance(r.get('s'), tuple) else self.optype(fr, r['o'])
        return self.cast_val(st, v, sty, ty, c)

    def cast_val(self, st, v, sty, ty, c=''):
        if ty[0] in ('ref', 'ptr') or (ty[0] == 'adt' and c not in ('Transmute',) and v.__class__ in (Ref, Slice, Agg)):
            # unsizing / pointer casts
            if ty[0] in ('ref', 'ptr') and ty[2][0] in ('slice', 'str') and v.__class__ is Ref:
                w = self.expand(st, self.read(st, v.obj, v.path))
                if w.__class__ is Seq:
                    return Slice(v.obj, v.path, ZERO, w.n, ty[2][0] == 'str', v.mut)
            return v
        if ty[0] in ('int', 'char', 'bool') and v.__class__ is Disc:
            info = ADTS[v.ty[1]]
            a = T('discval', v.t, ty=ty)
            ds = [x['d'] for x in info['variants']]
            st.facts._set_iv(a, min(ds), max(ds))
            return atom(a)
        if ty[0] in ('int', 'char'):
            if v is True or v is False:
                return const(int(v))
            if v.__class__ is Term:
                t = T('b2i', v, ty=ty)
                d = st.facts.decide(v)
                if d is not None:
                    return const(int(d))
                st.facts._set_iv(t, 0, 1)
                return atom(t)
            if v.__class__ is Lin:
                if sty and sty[0] == 'float':
                    return mkval(T('f2i', self.vterm(st, v), ty=ty), ty)
                lo, hi = ty_range(ty)
                F = st.facts
                if F.decide(leq(const(lo), v)) is True and F.decide(leq(v, const(hi))) is True:
                    return v
                if v.is_const():
                    return self.wrap(st, v, ty)
                if lo == 0 and F.decide(leq(0, v)) is True:
                    return rem(v, hi + 1)
                return self.wrap(st, v, ty)
            if v.__class__ is Agg and v.tag[0] == 'adt':
                return const(ADTS[v.tag[1]]['variants'][v.var]['d'])
            return mkval(fresh('cast'), ty)
        if ty[0] == 'float':
            if v.__class__ is Lin and v.is_const() and ty[1] == 'f64' and abs(v.c) < 1 << 53:
                return mkval(T('fconst', float(v.c)), ty)
            return mkval(T('i2f', v if isinstance(v, Lin) else self.vterm(st, v), ty=ty), ty)
        if c == 'Transmute' or c.startswith('Ptr'):
            return v
        return v

    # ------------------------------------------------------------ types of values
    def typeof(self, st, v):
        c = v.__class__
        if c is Sym or c is Disc:
            return v.ty
        if c is Lin:
            for a, _ in v.t:
                if a.ty and a.ty[0] in ('int', 'char'):
                    return a.ty
            return ('int', False, 64, 'usize')
        if c in (bool, Term):
            return ('bool',)
        if c is Slice:
            e = None
            try:
                w = self.expand(st, self.read(st, v.obj, v.path))
                e = w.ety
            except Giveup:
                pass
            return ('ref', v.mut, ('str',) if v.st else ('slice', e))
        if c is Ref:
            try:
                return ('ref', v.mut, self.typeof(st, self.read(st, v.obj, v.path)))
            except Giveup:
                return ('ref', v.mut, ('other', None))
        if c is Agg:
            if v.tag[0] == 'adt':
                info = ADTS[v.tag[1]]
                args = []
                for g in info['gen']:
                    t = None
                    for i, f in enumerate(info['variants'][v.var]['f']):
                        if f[1] == ('param', g) and i < len(v.f):
                            t = self.typeof(st, v.f[i])
                    args.append(t or ('other', None))
                return ('adt', v.tag[1], tuple(args))
            if v.tag[0] == 'closure':
                return ('closure', v.tag[1])
            if v.tag[0] == 'box':
                return ('boxed', self.typeof(st, v.f[0]))
            return ('tuple', tuple(self.typeof(st, x) for x in v.f))
        if c is Seq:
            return ('seq', v.ety)
        if c is Map:
            return ('map', v.kty, v.vty)
        if c is FnV:
            return ('fndef', v.key, v.args, v.path)
        return ('other', None)

    # ------------------------------------------------------------ branching
    def branch(self, st, cond):
        """-> [(state, bool)] for the feasible outcomes"""
        d = st.facts.decide(cond)
        if d is not None:
            if self.first_branch is None:
                self.first_branch = 'decided'
            return [(st, d)]
        if self.cond_log is not None:
            self.cond_log.append(cond)
        s2 = st.copy()
        out = []
        if st.facts.assume(cond):
            out.append((st, True))
        if s2.facts.assume(bnot(cond)):
            out.append((s2, False))
        if self.first_branch is None:
            self.first_branch = 'open' if len(out) > 1 else 'decided'
        if len(out) > 1:
            self.forks += 1
        return out

    def variants_of(self, st, v):
        """split on the variant of an enum value -> [(state, variant index, Agg value)]"""
        if v.__class__ is Agg:
            if self.first_branch is None:
                self.first_branch = 'decided'
            return [(st, v.var, v)]
        if v.__class__ is not Sym:
            raise Giveup('variant of %r' % (v,))
        d = st.facts.disc.get(v.t)
        n = len(ADTS[v.ty[1]]['variants'])
        set_nvariants(v.t, n)
        if isinstance(d, int):
            if self.first_branch is None:
                self.first_branch = 'decided'
            return [(st, d, self.expand(st, v, d))]
        if self.first_branch is None:
            self.first_branch = 'open'
        out = []
        for i in range(n):
            if d is not None and i in d:
                continue
            s2 = st.copy()
            if self.set_variant(s2, v.t, i):
                out.append((s2, i, self.expand(s2, v, i)))
        self.forks += len(out) - 1
        return out

    def set_variant(self, st, t, i):
        if not st.facts.set_disc(t, i):
            return False
        if t.info is not None and hasattr(t.info, 'on_variant'):
            return t.info.on_variant(self, st, i)
        return True

    # ------------------------------------------------------------ obligations
    def oblige(self, st, fr, bb, kind, cond, what=''):
        """the program panics here unless cond; assume it afterwards"""
        d = st.facts.decide(cond)
        if self.trial:
            if d is True:
                return True
            return st.facts.assume(cond)
        key, fn, span, chain = self.oblkey(fr, bb, kind)
        o = self.obls.get(key)
        if o is None:
            o = self.obls[key] = Obl(kind, key, fn, span, what, chain)
        if d is True:
            o.ok += 1
            return True
        o.bad.append((d, cond, st.copy()))
        return st.facts.assume(cond)

    def oblkey(self, fr, bb, kind):
        # attribute what happens inside a library summary to the workspace call site
        f, b = fr, bb
        chain = fr.chain
        while f.prel and chain:
            f, b = chain[-1]
            chain = f.chain
        blk = f.fn.blocks[b] if b is not None and b < len(f.fn.blocks) else None
        span = blk['t'].get('sp') if blk else None
        names = tuple(x[0].fn.path for x in chain)
        return (f.fn.path, b, kind), f.fn.path, span, names

    # ------------------------------------------------------------ statements
    def stmt(self, st, fr, s):
        k = s['k']
        if k == 'assign':
            v = self.rvalue(st, fr, s['r'])
            p = s['p']
            if not p[1]:
                st.objs[('L', fr.fid, p[0])] = v
            else:
                o, path = self.place(st, fr, p)
                if not any(e[0] == 'deref' for e in p[1]) or fr.fn.ltys[p[0]][0] != 'ptr':
                    self.touched(st, o)
                self.write(st, o, path, v)
                h = self.hooks.get('write')
                if h:
                    h(self, st, fr, o, path, v)
        elif k == 'setdiscr':
            o, path = self.place(st, fr, s['p'])
            raise Giveup('setdiscr')
        elif k == 'intrinsic':
            pass

    # ------------------------------------------------------------ running a body
    def run_body(self, st, fr):
        """-> list of states at return (return value in local 0)"""
        exits = {}
        rets = self.walk(fr, {0: [st]}, None, None, exits)
        return rets

    def walk(self, fr, pending, region, header, exits):
        """advance states through blocks in topological order; inside `region` when given.
        States reaching `header` are put into exits['back']; states leaving the region into
        exits[block].  Returns the states that returned from the function."""
        fn, an = fr.fn, fr.an
        prio = an.prio
        rets = []
        while pending:
            b = min(pending, key=lambda x: prio[x])
            states = pending.pop(b)
            states = [s for s in states if not s.facts.dead]
            if not states:
                continue
            if len(states) > 1:
                states = self.dedup(states)
            lim = self.opts.get('merge', 40)
            if len(states) > lim:
                states = self.merge_groups(fr, b, states, lim)
            if b in an.loops and b != header:
                outs = self.run_loop(fr, b, states)
                for tb, ss in outs:
                    if tb == 'ret':
                        rets.extend(ss)
                    elif region is not None and tb not in region:
                        exits.setdefault(tb, []).extend(ss)
                    elif tb == header:
                        exits.setdefault('back', []).extend(ss)
                    else:
                        pending.setdefault(tb, []).extend(ss)
                continue
            blk = fn.blocks[b]
            if not self.trial:
                self.visited_blocks.add((fn.key, b))
            for st in states:
                for s2, tb in self.run_block(st, fr, b, blk):
                    if tb == 'ret':
                        rets.append(s2)
                    elif tb is None:
                        pass
                    elif tb == header:
                        exits.setdefault('back', []).append(s2)
                    elif region is not None and tb not in region:
                        exits.setdefault(tb, []).append(s2)
                    else:
                        pending.setdefault(tb, []).append(s2)
        return rets

    def dedup(self, states):
        return states

    def merge_groups(self, fr, b, states, lim):
        """join the states; with a focus, only those that agree on the focused atoms"""
        foc = self.opts.get('focus')
        if foc is None:
            return [self.merge(fr, b, states)]
        groups = {}
        for s in states:
            k = [('b', t.id, v) for t, v in s.facts.b.items() if foc(t)]
            k += [('d', t.id, v) for t, v in s.facts.disc.items() if foc(t)]
            k += [('n', l) for l in s.facts.ne if any(foc(t) for t, x in l.t)]
            k += [('c', t.id, v[0]) for t, v in s.facts.iv.items() if v[0] == v[1] and foc(t)]
            groups.setdefault(frozenset(k), []).append(s)
        if len(groups) > lim and lim > 4:
            return [self.merge(fr, b, states)]
        return [g[0] if len(g) == 1 else self.merge(fr, b, g) for g in groups.values()]

    def run_block(self, st, fr, b, blk):
        self.steps += 1
        if self.steps > self.step_limit:
            raise Giveup('step limit')
        self.curb = b
        for s in blk['s']:
            try:
                self.stmt(st, fr, s)
            except Giveup as e:
                if getattr(e, 'loc', None) is None:
                    e.loc = (fr.fn.path, s.get('sp'))
                raise
        t = blk['t']
        k = t['k']
        if k == 'goto':
            return [(st, t['to'])]
        if k == 'drop':
            return [(st, t['to'])]
        if k == 'return':
            return [(st, 'ret')]
        if k == 'unreachable':
            return []
        try:
            if k == 'switch':
                return self.switch(st, fr, t)
            if k == 'assert':
                c = self.operand(st, fr, t['c'])
                if not t['e']:
                    c = bnot(c)
                if fr.prel:
                    st.facts.assume(c)
                    return [(st, t['to'])] if not st.facts.dead else []
                if not self.oblige(st, fr, b, t['msg'], c):
                    return []
                return [(st, t['to'])]
            if k == 'call':
                return self.call(st, fr, b, t)
        except Giveup as e:
            if getattr(e, 'loc', None) is None:
                e.loc = (fr.fn.path, t.get('sp'))
            raise
        raise Giveup('terminator %s' % k)

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t['d'])
        if v.__class__ is Disc:
            out = []
            info = ADTS[v.ty[1]]
            d = st.facts.disc.get(v.t)
            if not isinstance(d, int):
                if self.first_branch is None:
                    self.first_branch = 'open'
            handled = set()
            for val, to in t['v']:
                for i, x in enumerate(info['variants']):
                    if x['d'] == int(val):
                        handled.add(i)
                        s2 = st.copy()
                        if self.set_variant(s2, v.t, i):
                            out.append((s2, to))
            rest = [i for i in range(len(info['variants'])) if i not in handled]
            if rest and fr.fn.blocks[t['else']]['t']['k'] != 'unreachable':
                if len(rest) <= 2:
                    for i in rest:
                        s2 = st.copy()
                        if self.set_variant(s2, v.t, i):
                            out.append((s2, t['else']))
                else:
                    s2 = st.copy()
                    ok = True
                    for i in handled:
                        ok = ok and s2.facts.exclude_disc(v.t, i)
                    if ok:
                        out.append((s2, t['else']))
            return out
        if v.__class__ in (bool, Term):
            out = []
            tv = {int(val): to for val, to in t['v']}
            for s2, r in self.branch(st, v):
                out.append((s2, tv.get(int(r), t['else'])))
            return out
        if v.__class__ is Lin:
            v = self.nrm(st, v)
            if v.is_const():
                if self.first_branch is None:
                    self.first_branch = 'decided'
                for val, to in t['v']:
                    if int(val) == v.c or (t['t'][0] == 'int' and t['t'][1] and int(val) - (1 << t['t'][2]) == v.c):
                        return [(st, to)]
                return [(st, t['else'])]
            out = []
            cur = st
            for val, to in t['v']:
                val = int(val)
                if t['t'][0] == 'int' and t['t'][1] and val >= 1 << (t['t'][2] - 1):
                    val -= 1 << t['t'][2]
                nxt = None
                for s2, r in self.branch(cur, eq(v, const(val))):
                    if r:
                        out.append((s2, to))
                    else:
                        nxt = s2
                cur = nxt
                if cur is None:
                    break
            if cur is not None:
                out.append((cur, t['else']))
            return out
        raise Giveup('switch on %r' % (v,))

    # ------------------------------------------------------------ calls
    def call(self, st, fr, b, t):
        f = t['f']
        args = [self.operand(st, fr, a) for a in t['args']]
        outs = self.call_callee(st, fr, b, f, args, t)
        if t['to'] is None:
            return []
        res = []
        for s2, v in outs:
            if s2.facts.dead:
                continue
            if v is RETRY:
                if fr.fn.crate == 'prelude' and fr.fn.name.endswith(('__next', '__step')):
                    s2.objs[('L', fr.fid, 0)] = v
                    res.append((s2, 'ret'))
                else:
                    res.append((s2, self.iters[-1][1]))
                continue
            p = t['dst']
            if not p[1]:
                s2.objs[('L', fr.fid, p[0])] = v
            else:
                o, path = self.place(s2, fr, p)
                self.write(s2, o, path, v)
            res.append((s2, t['to']))
        return res

    def call_callee(self, st, fr, b, f, args, t):
        if 'dyn' in f:
            v = self.operand(st, fr, f['dyn'])
            return self.call_value(st, fr, b, v, args, t)
        cargs = tuple(mir.subst(x, fr.genv) for x in f['a'])
        selfty = mir.subst(f['self'], fr.genv) if f['self'] is not None else None
        return self.dispatch(st, fr, b, f, cargs, selfty, args, t)

    def dispatch(self, st, fr, b, f, cargs, selfty, args, t):
        cn = f['cn']
        dty = self.dest_ty(fr, t)
        # calls of closures and function items
        if f['trait'] and f['name'] in ('call', 'call_mut', 'call_once') and cn.split('::')[0] in ('Fn', 'FnMut', 'FnOnce'):
            tup = args[1]
            if tup.__class__ is Sym:
                tup = self.expand(st, tup)
            return self.call_value(st, fr, b, args[0], list(tup.f), t)
        # functions of the workspace
        fn, genv = self.resolve(st, fr, f, cargs, selfty, args)
        if fn is not None and not (fn.crate == 'prelude' and fn.name in self.M.PRIMS):
            return self.call_fn(st, fn, args, genv, (b,), fr, dty)
        m = self.models.get(cn) if fn is None else self.M.PRIMS[fn.name]
        if m is not None:
            ctx = Ctx(self, fr, b, f, cn, cargs, selfty, dty, t)
            r = m(ctx, st, args)
            if r is not None:
                return r
        fn = self.prelude_fn(st, cn, selfty, args, dty, f)
        if fn is not None:
            return self.call_fn(st, fn, args, self.infer(fn, cargs, selfty), (b,), fr, dty, prel=True)
        return self.havoc(st, fr, b, f, cn, cargs, selfty, args, dty)

    def dest_ty(self, fr, t):
        if t is None:
            return None
        p = t['dst']
        ty = fr.fn.ltys[p[0]]
        for e in p[1]:
            if e[0] == 'f':
                ty = e[2]
            elif e[0] == 'deref':
                ty = ty[2] if ty[0] in ('ref', 'ptr') else ty
        return mir.subst(ty, fr.genv)

    def head_name(self, st, v):
        """name of the type constructor of a value, through references"""
        for _ in range(6):
            c = v.__class__
            if c is Ref:
                v = self.read(st, v.obj, v.path)
                continue
            if c is Agg:
                if v.tag[0] == 'adt':
                    return ADTS[v.tag[1]]['name']
                return v.tag[0]
            if c is Sym:
                return mir.tname(v.ty)
            if c is Slice:
                return 'str' if v.st else '[T]'
            if c is Seq:
                return 'Seq'
            if c is Map:
                return 'Map'
            return c.__name__
        return None

    def resolve(self, st, fr, f, cargs, selfty, args):
        res = f.get('res')
        key = f['key']
        P = self.prog
        fn = None
        genv = {}
        if res and res['key'] in P.fns:
            fn = P.fns[res['key']]
            a = res['a']
            # the resolved arguments are in the caller's generic context
            if len(a) == len(fn.gen):
                genv = dict(zip(fn.gen, [mir.subst(x, fr.genv) for x in a]))
            return fn, genv
        if key in P.fns and not f['trait']:
            fn = P.fns[key]
            return fn, dict(zip(fn.gen, cargs))
        if f['trait']:
            cands = P.impls.get((mir.short(f['trait']), f['name']), ())
            cands = [c for c in cands if c.crate != 'prelude']
            if cands:
                if selfty is not None and selfty[0] not in ('param', 'other'):
                    for c in cands:
                        env = {}
                        if unify(c.selfty, selfty, env) and self.targs_ok(c, cargs, env):
                            return c, env
                # dynamic: by the abstract value of the receiver
                if args and (selfty is None or selfty[0] in ('param', 'other', 'dyn')):
                    hn = self.head_name(st, args[0])
                    for c in cands:
                        if c.selfty and mir.tname(c.selfty) == hn:
                            return c, {}
            # default methods of workspace traits
            if key in P.fns:
                fn = P.fns[key]
                if fn.blocks:
                    env = dict(zip(fn.gen, cargs))
                    return fn, env
        return None, None

    def targs_ok(self, c, cargs, env):
        if len(c.targs) == len(cargs):
            for x, y in zip(c.targs, cargs):
                if not unify(x, y, env):
                    return False
        return True

    def infer(self, fn, cargs, selfty):
        if len(fn.gen) == len(cargs):
            return dict(zip(fn.gen, cargs))
        return {}

    def prelude_fn(self, st, cn, selfty, args, dty, f):
        pre = self.prog.prelude
        name = cn.split('::')[-1]
        if f['trait']:
            tr = cn.split('::')[0]
            if args:
                hn = self.head_name(st, args[0])
                p = pre.get('%s__%s' % (hn, name))
                if p is not None:
                    return p
            if selfty is not None:
                p = pre.get('%s__%s' % (mir.tname(selfty), name))
                if p is not None:
                    return p
            return pre.get('%s__%s' % (tr, name))
        p = pre.get('__'.join(cn.split('::')))
        if p is None and args:
            hn = self.head_name(st, args[0])
            if hn and hn in self.prog.prelude_adts:
                p = pre.get('%s__%s' % (hn, name))
        return p

    def call_value(self, st, fr, b, v, args, t):
        """call a closure, a function item or something unknown"""
        for _ in range(4):
            if v.__class__ is Ref:
                w = self.read(st, v.obj, v.path)
                if w.__class__ in (Agg, FnV, Ref) or (w.__class__ is Sym and w.ty[0] == 'closure'):
                    if w.__class__ is Agg and w.tag[0] == 'closure':
                        return self.call_closure(st, fr, b, w, v, args, t)
                    v = w
                    continue
            break
        if v.__class__ is Agg and v.tag[0] == 'closure':
            o = ('T', fr.fid, b, 'env')
            st.objs[o] = v
            return self.call_closure(st, fr, b, v, Ref(o, (), True), args, t)
        if v.__class__ is Agg and v.tag[0] == 'box':
            return self.call_value(st, fr, b, v.f[0], args, t)
        if v.__class__ is FnV:
            return self.call_fnv(st, fr, b, v, args, t)
        name = 'indirect call'
        self.note_havoc(name)
        dty = self.dest_ty(fr, t)
        r = mkval(fresh('icall'), dty) if dty else UNIT
        st.emit('icall', v, tuple(args), r)
        return [(st, r)]

    def call_fnv(self, st, fr, b, v, args, t):
        # constructor of a tuple struct or variant used as a function
        info = None
        p = v.path
        q = mir.GEN_RE.sub('', p)
        parts = q.split('::')
        for i in ADTS.values():
            if i['kind'] == 'enum' and len(parts) >= 2 and i['name'] == parts[-2]:
                for k, x in enumerate(i['variants']):
                    if x['n'] == parts[-1] and i['path'].split('<')[0].endswith('::'.join(parts[:-1])[-len(i['name']):]):
                        if (i['path'] == '::'.join(parts[:-1]) or mir.short(i['path']) == parts[-2]) and len(x['f']) == len(args):
                            return [(st, Agg(('adt', i['key']), k, args))]
            elif i['kind'] == 'struct' and i['name'] == parts[-1] and i['local'] and len(i['variants'][0]['f']) == len(args) and q not in self.prog.by_path and v.key not in self.prog.fns:
                return [(st, Agg(('adt', i['key']), 0, args))]
        f = {'p': v.path, 'key': v.key, 'a': v.args, 'trait': None, 'self': None, 'res': None, 'name': parts[-1], 'unsafe': False}
        tr = self.trait_of_path(v)
        if tr:
            f['trait'] = tr
            f['self'] = v.args[0] if v.args else None
        f['cn'] = mir.canon(f)
        if v.key in self.prog.fns:
            fn = self.prog.fns[v.key]
            return self.call_fn(st, fn, args, dict(zip(fn.gen, v.args)), (b, 'fnv'), fr, None, prel=(fn.crate == 'prelude'))
        if f['cn'] not in self.models and not f['trait']:
            pass
        return self.dispatch(st, fr, b, f, v.args, f['self'], args, t)

    TRAITS = {'Into::into', 'From::from', 'ToString::to_string', 'ToOwned::to_owned', 'Clone::clone', 'AsRef::as_ref', 'Default::default', 'Deref::deref', 'PartialEq::eq', 'Ord::cmp', 'Iterator::next', 'TryFrom::try_from', 'TryInto::try_into', 'FromStr::from_str', 'IntoIterator::into_iter', 'Borrow::borrow', 'Ord::max', 'Ord::min'}

    def trait_of_path(self, v):
        q = mir.GEN_RE.sub('', v.path)
        q2 = '::'.join(q.split('::')[-2:])
        if q2 in self.TRAITS:
            return q.rsplit('::', 1)[0]
        return None

    def call_closure(self, st, fr, b, clo, env, args, t):
        fn = self.prog.fns.get(clo.tag[1])
        if fn is None:
            raise Giveup('closure body %s not found' % (clo.tag[1],))
        genv = dict(clo.tag[2]) if len(clo.tag) > 2 else {}
        # the environment is passed by value or by reference depending on the body
        t1 = fn.ltys[1] if fn.argc >= 1 else None
        if t1 is not None and t1[0] == 'ref':
            a0 = env
        else:
            a0 = clo
        # nested tuple arguments are spread
        return self.call_fn(st, fn, [a0] + list(args), genv, (b, 'c'), fr, None, prel=(fn.crate == 'prelude'))

    def call_fn(self, st, fn, args, genv, site, fr, dty, prel=False):
        hk = self.hooks.get('call')
        if hk:
            r = hk(self, st, fr, fn, args, dty)
            if r is not None:
                return r
        if fn.crate == 'spec':
            fn = self.prog.redirect.get(fn.key, fn)
        if fn.crate == 'prelude' and fn.name in STEPS and self.retryable(fr, site[0]):
            fn = self.prog.prelude[fn.name.replace('__next', '__step')]
        if self.stack and (fn.path in self.opaque or fn.name in self.opaque or mir.untyped(fn.path) in self.opaque):
            return self.opaque_call(st, fn, args, genv)
        depth = sum(1 for k in self.stack if k == fn.key)
        if depth >= 1 and fn.crate != 'prelude' and fn.kind != 'closure':
            return self.opaque_call(st, fn, args, genv, rec=True)
        if depth >= 12:
            raise Giveup('recursion in %s' % fn.path)
        if not self.trial:
            self.visited.add(fn.key)
        fid = (fr.fid if fr else ()) + tuple(site) + (fn.name,)
        chain = (fr.chain + ((fr, site[0] if site and isinstance(site[0], int) else None),)) if fr else ()
        f2 = Frame(fn, fid, genv, chain)
        f2.prel = prel or fn.crate in ('prelude', 'spec')
        if len(args) != fn.argc:
            if len(args) == fn.argc + 1 or True:
                # closures called with a tuple
                if fn.argc > len(args) and args and args[-1].__class__ is Agg and args[-1].tag[0] == 'tuple':
                    args = list(args[:-1]) + list(args[-1].f)
        for i, a in enumerate(args):
            st.objs[('L', fid, i + 1)] = a
        if not f2.prel and fn.kind != 'closure':
            st.emit('enter', fn.path, tuple(args))
        self.stack.append(fn.key)
        try:
            rets = self.run_body(st, f2)
        finally:
            self.stack.pop()
        out = []
        nl = len(fn.ltys)
        for s in rets:
            v = s.objs.get(('L', fid, 0), UNIT)
            if not f2.prel and fn.kind != 'closure':
                s.emit('leave', fn.path, v)
            # locals of the finished call are dead unless the result points to them
            if not self.keeps(v, fid):
                for i in range(nl):
                    s.objs.pop(('L', fid, i), None)
            out.append((s, v))
        return out

    def retryable(self, fr, b):
        """the call at block b of fr is the first thing an iteration of a loop does (through
        iterator adapters that do nothing before): an element that is passed over can go
        straight back to the loop header"""
        while True:
            fn = fr.fn
            if fn.crate == 'prelude' and fn.name.endswith(('__next', '__step')):
                if b != 0 or not fr.chain:
                    return False
                fr, b = fr.chain[-1]
                if fr is None or b.__class__ is not int:
                    return False
                continue
            if not self.iters or self.iters[-1][0] != fr.fid:
                return False
            x = self.iters[-1][1]
            for _ in range(4):
                for s in fn.blocks[x]['s']:
                    if s.get('k') == 'assign' and not (s['r'].get('k') in ('ref', 'reborrow')):
                        return False
                if x == b:
                    return True
                t = fn.blocks[x]['t']
                if t['k'] != 'goto':
                    return False
                x = t['to']
            return False

    def keeps(self, v, fid):
        c = v.__class__
        if c in (Ref, Slice):
            return v.obj[0] == 'L' and v.obj[1][:len(fid)] == fid
        if c is Agg:
            return any(self.keeps(x, fid) for x in v.f)
        if c is Seq:
            return any(s[0] == 'e' and self.keeps(s[1], fid) for s in v.segs)
        return False

    def opaque_call(self, st, fn, args, genv, rec=False):
        """a call whose result is only named: T('call', path, argument terms)"""
        ts = tuple(self.vterm(st, a) for a in args)
        rty = mir.subst(fn.ltys[0], genv)
        t = T('call', fn.path, ts, ty=rty if rty[0] in ('int', 'bool', 'char') else None)
        st.emit('opaque', fn.path, tuple(args), t)
        # what is behind a mutable argument afterwards is named too (a recursive call may do anything)
        for i, a in enumerate(args):
            if a.__class__ is Ref and a.mut and fn.ltys[i + 1][0] == 'ref' and fn.ltys[i + 1][1]:
                old = self.read(st, a.obj, a.path)
                pty = mir.subst(fn.ltys[i + 1][2], genv)
                if rec or pty[0] not in ('adt', 'int', 'bool', 'array', 'tuple'):
                    new = self.havoc_val(st, old, 'after ' + fn.name)
                    t = T('call', fn.path, ts, fresh('n'), ty=rty if rty[0] in ('int', 'bool', 'char') else None)
                else:
                    new = mkval(T('after', fn.path, i, ts, ty=pty if pty[0] in ('int', 'bool', 'char') else None), pty)
                self.write(st, a.obj, a.path, new)
            elif a.__class__ is Slice and a.mut:
                q = self.slice_seq(st, a)
                b = fresh('seq') if rec else T('after', fn.path, i, ts)
                self.write(st, a.obj, a.path + (('sl', a.lo, a.n),), Seq((('s', b, ZERO, q.n),), q.n, q.ety))
        v = mkval(t, rty)
        post = self.opaque_post.get(mir.untyped(fn.path))
        if post is not None:
            post(self, st, v, args)
            if st.facts.dead:
                return []
        return [(st, v)]

    def vterm(self, st, v):
        """a term that names a value (used to name the results of pure calls)"""
        c = v.__class__
        if c is Sym:
            return v.t
        if c in (Lin, bool, Term):
            return v
        if c is Ref:
            try:
                return T('ref', self.vterm(st, self.read(st, v.obj, v.path)))
            except Giveup:
                return T('loc', v.obj, v.path)
        if c is Slice:
            try:
                q = self.slice_seq(st, v)
                return self.seqterm(st, q)
            except Giveup:
                return T('loc', v.obj, v.path, v.lo, v.n)
        if c is Agg:
            return T('agg', v.tag, v.var, tuple(self.vterm(st, x) for x in v.f))
        if c is Seq:
            return self.seqterm(st, v)
        if c is Map:
            return T('mapv', v.base, tuple((k, p, self.vterm(st, x) if p else None) for k, p, x in v.ent), v.n)
        if c is FnV:
            return T('fn', v.key)
        if c is Disc:
            return T('disc', v.t)
        return fresh('v')

    def seqterm(self, st, q):
        segs = []
        for s in q.segs:
            if s[0] == 'e':
                segs.append(('e', self.vterm(st, s[1])))
            elif s[0] == 'r':
                segs.append(('r', self.vterm(st, s[1]), s[2]))
            elif s[0] == 'c':
                segs.append(('c', bytes(s[1]) if all(isinstance(x, int) and 0 <= x < 256 for x in s[1]) else tuple(s[1])))
            elif s[0] == 's':
                segs.append(self.named_part(st, s))
            else:
                segs.append(s[:4])
        # one canonical spelling for a whole symbolic sequence
        segs2 = []
        for s in segs:
            if s[0] == 'e' and s[1].__class__ is Lin and s[1].is_const() and 0 <= s[1].c < 256:
                s = ('c', bytes([s[1].c]))
            if s[0] == 'c' and segs2 and segs2[-1][0] == 'c' and isinstance(s[1], bytes) and isinstance(segs2[-1][1], bytes):
                segs2[-1] = ('c', segs2[-1][1] + s[1])
            else:
                segs2.append(s)
        ov = tuple((i, self.vterm(st, x)) for i, x in q.ov)
        return T('seqv', tuple(segs2), ov)

    def named_part(self, st, s):
        reg = self.elems.setdefault(('part', s[1]), {})
        k = (s[2], s[3])
        if k not in reg:
            if not self.congr:
                reg[k] = True
            elif len(reg) <= 40:
                # a part the implementation spoke of under another name
                known = None
                for lo, n in reg:
                    d, e = s[2] - lo, s[3] - n
                    if d.is_const() and d.c or e.is_const() and e.c:
                        continue
                    if known is None:
                        known = st.facts.spoken()
                    if all(a in known for a, _ in d.t + e.t) and (not d.t or st.facts.prove_eq(d)) and (not e.t or st.facts.prove_eq(e)):
                        return s[:2] + (lo, n)
        return s[:4]

    def havoc_val(self, st, old, why):
        c = old.__class__
        if c is Seq:
            b = fresh('seq')
            n = T('len', b, ty=LEN)
            return Seq((('s', b, ZERO, atom(n)),), atom(n), old.ety)
        if c is Map:
            b = fresh('map')
            return Map(b, (), atom(T('len', b, ty=LEN)), old.kty, old.vty)
        ty = self.typeof(st, old)
        return mkval(fresh(why), ty)

    def note_havoc(self, cn):
        self.havocs[cn] = self.havocs.get(cn, 0) + 1

    def havoc(self, st, fr, b, f, cn, cargs, selfty, args, dty):
        """an unknown library function: any result, any effect on its &mut arguments"""
        self.note_havoc(cn)
        if self.opts.get('alloc') and not self.trial and re.search('capacity|reserve|resize|repeat|uninit|zeroed|alloc|array', cn.lower()):
            for a in args:
                if a.__class__ is Lin:
                    self.opts['alloc'](self, st, fr, b, a)
        for a in args:
            self.havoc_arg(st, a, cn)
        r = mkval(fresh(cn), dty) if dty is not None else UNIT
        st.emit('lib', cn, tuple(args), r)
        return [(st, r)]

    def havoc_arg(self, st, a, cn):
        if a.__class__ is Ref and a.mut:
            try:
                old = self.read(st, a.obj, a.path)
                if old.__class__ in (Ref, Slice):
                    self.havoc_arg(st, old, cn)
                else:
                    self.write(st, a.obj, a.path, self.havoc_val(st, old, cn))
            except Giveup:
                pass
        elif a.__class__ is Slice and a.mut:
            q = self.slice_seq(st, a)
            new = Seq((('s', fresh('seq'), ZERO, q.n),), q.n, q.ety)
            self.write(st, a.obj, a.path + (('sl', a.lo, a.n),), new)
        elif a.__class__ is Agg:
            for x in a.f:
                self.havoc_arg(st, x, cn)

    # ------------------------------------------------------------ entry points
    def start(self, fn, args=None, genv=None):
        """a state in which fn is about to run on arbitrary arguments -> (state, args)"""
        st = State()
        genv = genv or {}
        vals = []
        for i in range(fn.argc):
            ty = mir.subst(fn.ltys[i + 1], genv)
            if args and i in args:
                vals.append(args[i](self, st) if callable(args[i]) else args[i])
                continue
            t = T('sym', fn.lnames[i + 1] or 'a%d' % (i + 1), ty=ty if ty[0] in ('int', 'bool', 'char') else None)
            vals.append(mkval(t, ty))
        return st, vals

    def run(self, fn, args=None, genv=None, state=None, vals=None):
        """-> [(state, return value)]"""
        if state is None:
            state, vals = self.start(fn, args, genv)
        self.last_args = vals
        return self.call_fn(state, fn, vals, genv or {}, ('root',), None, None)


class Ctx:
    """what a library model knows about the call it stands for"""
    __slots__ = ('I', 'fr', 'b', 'f', 'cn', 'targs', 'selfty', 'dty', 't')

    def __init__(self, I, fr, b, f, cn, targs, selfty, dty, t):
        self.I, self.fr, self.b, self.f, self.cn, self.targs, self.selfty, self.dty, self.t = I, fr, b, f, cn, targs, selfty, dty, t

    def oblige(self, st, kind, cond, what=''):
        return self.I.oblige(st, self.fr, self.b, kind, cond, what)

    def call(self, st, f, args, tag=0):
        """call a closure value"""
        return self.I.call_value(st, self.fr, (self.b, tag) if False else self.b, f, args, None)


STEPS = {'PFilter__next', 'PFilterMap__next'}


def id_key(l):
    return tuple((a.id, k) for a, k in l.t), l.c


def f64_of(n):
    import struct
    return struct.unpack('<d', struct.pack('<Q', n))[0]


def hash_ok(s):
    try:
        hash(s)
        return True
    except TypeError:
        return False


def seg_cut(s, lo, n):
    k = s[0]
    if lo is ZERO and n is seglen(s):
        return s
    if k == 'e':
        return s
    if k == 'c':
        if lo.is_const() and n.is_const():
            return ('c', s[1][lo.c:lo.c + n.c])
        return ('s', T('cseq', s[1]), lo, n)
    if k == 's':
        return ('s', s[1], s[2] + lo, n)
    if k == 'rs':
        # element k of the whole is base[lo0 + n0 - 1 - k]
        return ('rs', s[1], s[2] + s[3] - lo - n, n)
    if k == 'r':
        return ('r', s[1], n)
    raise Giveup('cut of segment')


def norm_segs(segs):
    out = []
    for s in segs:
        n = seglen(s)
        if n is ZERO:
            continue
        if out:
            p = out[-1]
            if s[0] == 'c' and p[0] == 'c' and type(s[1]) is type(p[1]):
                out[-1] = ('c', p[1] + s[1])
                continue
            if s[0] == 's' and p[0] == 's' and s[1] is p[1] and (p[2] + p[3]) is s[2]:
                out[-1] = ('s', s[1], p[2], p[3] + s[3])
                continue
            if s[0] == 'rs' and p[0] == 'rs' and s[1] is p[1] and (s[2] + s[3]) is p[2]:
                out[-1] = ('rs', s[1], s[2], p[3] + s[3])
                continue
        out.append(s)
    return tuple(out)


def unify(pat, ty, env):
    """match a type with parameters against a concrete one"""
    if pat is None or ty is None:
        return True
    if pat[0] == 'param':
        o = env.get(pat[1])
        if o is None:
            env[pat[1]] = ty
            return True
        return o == ty or ty[0] in ('param', 'other')
    if ty[0] in ('param', 'other'):
        return False
    if pat[0] != ty[0]:
        return False
    k = pat[0]
    if k == 'adt':
        return pat[1] == ty[1] and len(pat[2]) == len(ty[2]) and all(unify(x, y, env) for x, y in zip(pat[2], ty[2]))
    if k in ('ref', 'ptr'):
        return unify(pat[2], ty[2], env)
    if k == 'slice':
        return unify(pat[1], ty[1], env)
    if k == 'array':
        return unify(pat[1], ty[1], env)
    if k == 'tuple':
        return len(pat[1]) == len(ty[1]) and all(unify(x, y, env) for x, y in zip(pat[1], ty[1]))
    return pat == ty
