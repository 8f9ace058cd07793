"""The numeric and symbolic abstract state: conjunction of linear (in)equalities over
atoms (a polyhedral domain with exact Fourier-Motzkin entailment and integer
tightening), intervals, congruences, per-byte value sets, enum tags, boolean atoms,
string equalities and byte-range facts over sequences."""
from math import gcd
from .terms import *

FULL = (1 << 256) - 1


def mask_range(lo, hi):
    lo = max(lo, 0)
    hi = min(hi, 255)
    if hi < lo:
        return 0
    return ((1 << (hi + 1)) - 1) & ~((1 << lo) - 1)


def byte_pred(b):
    """(atom, mask) when the boolean term says that one byte lies in a fixed set, else None"""
    if b is True or b is False:
        return None
    op = b.op
    if op == 'inmask':
        return b.args
    if op in ('le0', 'eq0'):
        l = b.args[0]
        if len(l.t) != 1 or l.t[0][0].ty != U8:
            return None
        a, k = l.t[0]
        m = 0
        for v in range(256):
            x = l.c + k * v
            if x == 0 or x < 0 and op == 'le0':
                m |= 1 << v
        return a, m
    if op == 'not':
        r = byte_pred(b.args[0])
        return r and (r[0], FULL & ~r[1])
    if op in ('and', 'or'):
        r, q = byte_pred(b.args[0]), byte_pred(b.args[1])
        if r and q and r[0] is q[0]:
            return r[0], r[1] | q[1] if op == 'or' else r[1] & q[1]
    return None


def mask_lohi(m):
    return ((m & -m).bit_length() - 1, m.bit_length() - 1)


_fmcache = {}
_spoken = {}


class _Both:
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __contains__(self, x):
        return x in self.a or x in self.b


# equalities of texts with constants: (text, constant) -> (length, bytes) of the text
STREQ = {}


LZ = {}    # atom -> the terms that count its leading zeros


class Facts:
    __slots__ = ('le', 'eq', 'ne', 'cong', 'iv', 'b', 'disc', 'mask', 'quant', 'strv', 'pre', 'misc', '_cache', 'dead', '_ix')

    def __init__(self):
        self.le = ()
        self.eq = ()
        self.ne = ()
        self.cong = ()
        self.iv = {}
        self.b = {}
        self.disc = {}
        self.mask = {}
        self.quant = ()
        self.strv = {}
        self.pre = {}
        self.misc = {}
        self._cache = {}
        self.dead = False
        self._ix = None

    def copy(self):
        f = Facts.__new__(Facts)
        f.le, f.eq, f.ne, f.cong, f.quant = self.le, self.eq, self.ne, self.cong, self.quant
        f.iv = dict(self.iv)
        f.b = dict(self.b)
        f.disc = dict(self.disc)
        f.mask = dict(self.mask)
        f.strv = dict(self.strv)
        f.pre = dict(self.pre)
        f.misc = dict(self.misc)
        f._cache = self._cache
        f.dead = self.dead
        f._ix = self._ix
        return f

    # ---------------------------------------------------------------- intervals
    def bounds(self, a):
        iv = self.iv.get(a)
        if iv is not None:
            return iv
        return (a.lo, a.hi)

    def upper(self, l):
        s = l.c
        for a, k in l.t:
            lo, hi = self.bounds(a)
            v = hi if k > 0 else lo
            if v is None:
                return None
            s += k * v
        return s

    def lower(self, l):
        s = l.c
        for a, k in l.t:
            lo, hi = self.bounds(a)
            v = lo if k > 0 else hi
            if v is None:
                return None
            s += k * v
        return s

    def _set_iv(self, a, lo, hi):
        """narrow the interval of an atom; False when it becomes empty"""
        plo, phi = self.bounds(a)
        if plo is not None and (lo is None or lo < plo):
            lo = plo
        if phi is not None and (hi is None or hi > phi):
            hi = phi
        m = self.mask.get(a)
        is8 = a.ty == U8
        if is8 and m is None and a.lo == 0 and a.hi == 255:
            m = FULL
        if m is not None:
            m &= mask_range(lo, hi)
            if m == 0:
                self.dead = True
                return False
            lo, hi = mask_lohi(m)
            if m != self.mask.get(a):
                self.mask[a] = m
        if lo is not None and hi is not None and lo > hi:
            self.dead = True
            return False
        if (lo, hi) != (plo, phi):
            self.iv[a] = (lo, hi)
            self._cache = {}
            if a in LZ and hi == 0 and lo == 0:
                # what has no bits has leading zeros only
                for t in LZ[a]:
                    if not self._set_iv(t, t.args[1], t.args[1]):
                        return False
            if a.op == 'div' and a.args[0].__class__ is Lin and a.args[1].__class__ is int and len(a.args[0].t) == 1:
                # what the quotient says about the number divided
                (x, k), c, m = a.args[0].t[0], a.args[0].c, a.args[1]
                if k == 1:
                    if hi != phi and hi is not None and (a.hi is None or hi < a.hi):
                        self._set_iv(x, None, hi * m + m - 1 - c)
                    if not self.dead and lo != plo and lo:
                        self._set_iv(x, lo * m - c, None)
                    return not self.dead
        return True

    def get_mask(self, a):
        m = self.mask.get(a)
        if m is None:
            lo, hi = self.bounds(a)
            m = mask_range(lo if lo is not None else 0, hi if hi is not None else 255)
        return m

    def restrict_mask(self, a, m):
        m &= self.get_mask(a)
        if m == 0:
            self.dead = True
            return False
        if m != self.mask.get(a):
            self.mask[a] = m
            self._cache = {}
            lo, hi = mask_lohi(m)
            return self._set_iv(a, lo, hi)
        return True

    # ---------------------------------------------------------------- adding facts
    def add_le(self, l):
        """assume l <= 0; returns False when infeasible"""
        if self.dead:
            return False
        if not l.t:
            if l.c > 0:
                self.dead = True
            return not self.dead
        u = self.upper(l)
        if u is not None and u <= 0:
            return True
        lo = self.lower(l)
        if lo is not None and lo > 0:
            self.dead = True
            return False
        if len(l.t) == 1:
            a, k = l.t[0]
            if k > 0:
                return self._set_iv(a, None, (-l.c) // k)
            return self._set_iv(a, ceil_div(l.c, -k), None)
        if l in self.le:
            return True
        if self.prove_le(-l + 1):
            self.dead = True
            return False
        for m in {m for _, m in self.congs()}:
            if m <= 64:
                res = self.residue(l, m)
                if res:
                    l = l + (m - res)
        self.le = self.le + (l,)
        self._cache = {}
        return True

    def add_eq(self, l):
        if self.dead:
            return False
        if not l.t:
            if l.c != 0:
                self.dead = True
            return not self.dead
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if l.c % g:
            self.dead = True
            return False
        if len(l.t) == 1:
            a, k = l.t[0]
            v = -l.c // k
            lo, hi = self.bounds(a)
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                self.dead = True
                return False
            return self._set_iv(a, v, v)
        if l.t[0][1] < 0:
            l = -l
        if l in self.eq:
            return True
        lo, hi = self.lower(l), self.upper(l)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            self.dead = True
            return False
        if self.prove_le(-l + 1) or self.prove_le(l + 1) or self.prove_ne(l):
            self.dead = True
            return False
        self.eq = self.eq + (l,)
        self._cache = {}
        return True

    def add_ne(self, l):
        if self.dead:
            return False
        if not l.t:
            if l.c == 0:
                self.dead = True
            return not self.dead
        if l.t[0][1] < 0:
            l = -l
        if len(l.t) == 1:
            a, k = l.t[0]
            if l.c % k:
                return True
            v = -l.c // k
            lo, hi = self.bounds(a)
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                return True
            if a.ty == U8 or a in self.mask:
                return self.restrict_mask(a, ~(1 << v) & FULL)
            if v == lo:
                return self._set_iv(a, lo + 1, None)
            if v == hi:
                return self._set_iv(a, None, hi - 1)
        if self.prove_le(l):
            return self.add_le(l + 1)
        if self.prove_le(-l):
            return self.add_le(-l + 1)
        if l not in self.ne:
            self.ne = self.ne + (l,)
            self._cache = {}
        return True

    def add_cong(self, l, m):
        if m > 1 and (l, m) not in self.cong:
            self.cong = self.cong + ((l, m),)
            self._cache = {}

    def assume(self, b):
        """assume the boolean formula; False when infeasible"""
        if self.dead:
            return False
        if b is True:
            return True
        if b is False:
            self.dead = True
            return False
        op = b.op
        if op == 'le0':
            return self.add_le(b.args[0])
        if op == 'eq0':
            return self.add_eq(b.args[0])
        if op == 'and':
            if self.b.get(b) is False:
                self.dead = True
                return False
            return self.assume(b.args[0]) and self.assume(b.args[1])
        if op == 'or':
            if self.decide(b.args[0]) is False:
                return self.assume(b.args[1])
            if self.decide(b.args[1]) is False:
                return self.assume(b.args[0])
            r = byte_pred(b)
            if r:
                return self.restrict_mask(*r)
        if op == 'not':
            x = b.args[0]
            if x.op == 'eq0':
                return self.add_ne(x.args[0])
            if x.op == 'or':
                return self.assume(bnot(x.args[0])) and self.assume(bnot(x.args[1]))
            if x.op == 'and':
                if self.decide(x.args[0]) is True:
                    return self.assume(bnot(x.args[1]))
                if self.decide(x.args[1]) is True:
                    return self.assume(bnot(x.args[0]))
                r = byte_pred(b)
                if r:
                    return self.restrict_mask(*r)
            if x.op == 'isvar':
                return self.exclude_disc(x.args[0], x.args[1])
            if x.op == 'streq':
                return self.add_strne(x.args[0], x.args[1])
            if x.op == 'inmask':
                return self.assume(T('inmask', x.args[0], FULL & ~x.args[1]))
            return self._set_b(x, False)
        if op == 'isvar':
            return self.set_disc(b.args[0], b.args[1])
        if op == 'samevar':
            x, y = b.args
            dx, dy = self.disc.get(x), self.disc.get(y)
            if isinstance(dx, int):
                return self.set_disc(y, dx)
            if isinstance(dy, int):
                return self.set_disc(x, dy)
            self.misc[('same', x)] = y
            self.misc[('same', y)] = x
            return self._set_b(b, True)
        if op == 'streq':
            return self.add_streq(b.args[0], b.args[1])
        if op == 'inmask':
            return self.restrict_mask(b.args[0], b.args[1])
        return self._set_b(b, True)

    def _set_b(self, t, v):
        o = self.b.get(t)
        if o is not None:
            if o != v:
                self.dead = True
                return False
            return True
        self.b[t] = v
        if t.op == 'prefix' and v:
            # string t.args[0] starts with the literal t.args[1]
            p = self.pre.get(t.args[0])
            if p is None or len(p) < len(t.args[1]):
                self.pre[t.args[0]] = t.args[1]
            ln = t.args[2]
            if not self.add_le(const(len(t.args[1])) - ln):
                return False
        if t.info and callable(t.info):
            return t.info(self, v)
        return True

    # enum tags
    def set_disc(self, t, v):
        o = self.misc.get(('same', t))
        if o is not None and self.disc.get(o) != v:
            del self.misc[('same', t)]
            if not self.set_disc(o, v):
                return False
        d = self.disc.get(t)
        if isinstance(d, int):
            if d != v:
                self.dead = True
                return False
            return True
        if d is not None and v in d:
            self.dead = True
            return False
        self.disc[t] = v
        return True

    def exclude_disc(self, t, v):
        d = self.disc.get(t)
        if isinstance(d, int):
            if d == v:
                self.dead = True
                return False
            return True
        d = (d or frozenset()) | {v}
        n = nvariants(t)
        if n is not None:
            left = [i for i in range(n) if i not in d]
            if not left:
                self.dead = True
                return False
            if len(left) == 1:
                self.disc[t] = left[0]
                return True
        self.disc[t] = d
        return True

    # string constants
    def streq_known(self, t, s):
        """what length and bytes say about an equality with a constant"""
        n, el = STREQ.get((t, s), (None, ()))
        if n is None:
            return None
        d = self.decide(eq(n, const(len(s))))
        if d is not True:
            return d
        for e, c in zip(el, s):
            x = self.decide(eq(e, const(c)))
            if x is False:
                return False
            if x is None:
                d = None
        return d if len(el) == len(s) else None

    def add_streq(self, t, s):
        n, el = STREQ.get((t, s), (None, ()))
        if n is not None:
            self.add_eq(n - len(s))
            for e, c in zip(el, s):
                if not self.dead:
                    self.add_eq(e - c)
            if self.dead:
                return False
        d = self.strv.get(t)
        if isinstance(d, bytes):
            if d != s:
                self.dead = True
                return False
            return True
        if d is not None and s in d:
            self.dead = True
            return False
        self.strv[t] = s
        return True

    def add_strne(self, t, s):
        if self.streq_known(t, s) is True:
            self.dead = True
            return False
        d = self.strv.get(t)
        if isinstance(d, bytes):
            if d == s:
                self.dead = True
                return False
            return True
        self.strv[t] = (d or frozenset()) | {s}
        return True

    # ---------------------------------------------------------------- entailment
    def decide(self, b):
        """True / False / None"""
        if b is True or b is False:
            return b
        op = b.op
        if op == 'le0':
            l = b.args[0]
            if self.prove_le(l):
                return True
            if self.prove_le(-l + 1):
                return False
            return None
        if op == 'eq0':
            l = b.args[0]
            if self.prove_ne(l):
                return False
            if self.prove_le(l) and self.prove_le(-l):
                return True
            return None
        if op == 'not':
            r = self.decide(b.args[0])
            return None if r is None else not r
        if op == 'and':
            r, s = self.decide(b.args[0]), self.decide(b.args[1])
            if r is False or s is False:
                return False
            return True if r and s else None
        if op == 'or':
            r, s = self.decide(b.args[0]), self.decide(b.args[1])
            if r or s:
                return True
            if r is False and s is False:
                return False
            r = byte_pred(b)
            if r:
                m = self.get_mask(r[0])
                return True if m & ~r[1] == 0 else False if m & r[1] == 0 else None
            return None
        if op == 'samevar':
            x, y = self.disc.get(b.args[0]), self.disc.get(b.args[1])
            if isinstance(x, int) and isinstance(y, int):
                return x == y
            if isinstance(x, int) and isinstance(y, frozenset) and x in y or isinstance(y, int) and isinstance(x, frozenset) and y in x:
                return False
        if op == 'isvar':
            d = self.disc.get(b.args[0])
            if isinstance(d, int):
                return d == b.args[1]
            if d is not None and b.args[1] in d:
                return False
            return None
        if op == 'streq':
            d = self.strv.get(b.args[0])
            if isinstance(d, bytes):
                return d == b.args[1]
            if d is not None and b.args[1] in d:
                return False
            return self.streq_known(*b.args)
        if op == 'inmask':
            m = self.get_mask(b.args[0])
            if m & ~b.args[1] == 0:
                return True
            if m & b.args[1] == 0:
                return False
            return None
        return self.b.get(b)

    def prove_ne(self, l):
        if not l.t:
            return l.c != 0
        if l.t[0][1] < 0:
            l = -l
        if l in self.ne:
            return True
        if len(l.t) == 1:
            a, k = l.t[0]
            if (-l.c) % k:
                return True
            v = -l.c // k
            m = self.mask.get(a)
            if m is not None and (v < 0 or v > 255 or not (m >> v) & 1):
                return True
        if self.prove_le(l + 1) or self.prove_le(-l + 1):
            return True
        for cl, m in self.cong:
            for k in range(m):
                d = l - cl * k
                if all(c % m == 0 for _, c in d.t):
                    if d.c % m:
                        return True
                    break
        return False

    def congs(self):
        """known congruences (form, modulus): form = 0 (mod modulus)"""
        r = list(self.cong)
        for a, (lo, hi) in self.iv.items():
            if lo == hi and lo is not None and a.op == 'rem' and a.args[0].__class__ is Lin:
                m = a.args[1]
                if m.__class__ is Lin and m.is_const():
                    m = m.c
                if isinstance(m, int) and m > 1:
                    r.append((a.args[0] - lo, m))
        return r

    def residue(self, l, m):
        """r with l = r (mod m), or None"""
        if all(c % m == 0 for _, c in l.t):
            return l.c % m
        forms = [cl for cl, m2 in self.congs() if m2 % m == 0]
        forms += [e for e in self.eq if len(e.t) <= 3]
        for a, _ in l.t:
            iv = self.iv.get(a)
            if iv and iv[0] == iv[1] and iv[0] is not None:
                forms.append(atom(a) - iv[0])
        if m > 64:
            return None
        for i, f in enumerate(forms):
            for k in range(1, m):
                d = l - f * k
                if all(c % m == 0 for _, c in d.t):
                    return d.c % m
                if m <= 8:
                    for g in forms[i + 1:]:
                        for k2 in range(1, m):
                            e = d - g * k2
                            if all(c % m == 0 for _, c in e.t):
                                return e.c % m
        return None

    def prove_cong(self, l, m):
        return self.residue(l, m) == 0

    def spoken(self):
        """atoms that occur in a linear fact"""
        k = (id(self.le), id(self.eq))
        r = _spoken.get(k)
        if r is None or r[0] is not self.le or r[1] is not self.eq:
            if len(_spoken) > 5000:
                _spoken.clear()
            r = _spoken[k] = (self.le, self.eq, {a for l in self.le + self.eq for a, _ in l.t})
        return _Both(r[2], self.iv)

    def prove_eq(self, l):
        return self.prove_le(l) and self.prove_le(-l)

    def prove_le(self, l):
        """entails l <= 0 ?"""
        if self.dead:
            return True
        if not l.t:
            return l.c <= 0
        u = self.upper(l)
        if u is not None and u <= 0:
            return True
        c = self._cache
        r = c.get(l)
        if r is None:
            r = self._fm(l)
            if not r and self.ne and l.c != None:
                # l <= 1 and l != 1  =>  l <= 0   (integers)
                m = l - 1
                mm = m if not m.t or m.t[0][1] > 0 else -m
                if mm in self.ne:
                    r = self._fm(m)
            if not r:
                # l <= s and l = res (mod m)  =>  l <= the largest number <= s congruent to res
                for m in {m for _, m in self.congs()}:
                    if m > 64:
                        continue
                    res = self.residue(l, m)
                    if res is None or res == 0:
                        s = m - 1 if res == 0 else 0
                    else:
                        s = res - 1
                    if res is not None and s > 0 and self._fm(l - s):
                        r = True
                        break
            c[l] = r
        return r

    def _fm(self, l):
        # negation: l >= 1, i.e. -l + 1 <= 0, together with the relevant facts
        work = [a for a, _ in l.t]
        atoms = set(work)
        cons = [(dict((a, -k) for a, k in l.t), -l.c + 1)]
        eqs = []
        ix = self._ix
        if ix is None or ix[0] is not self.le or ix[1] is not self.eq:
            d = {}
            for x in self.le:
                for b, _ in x.t:
                    d.setdefault(b, []).append((0, x))
            for x in self.eq:
                for b, _ in x.t:
                    d.setdefault(b, []).append((1, x))
            ix = self._ix = (self.le, self.eq, d)
        d = ix[2]
        seen = set()
        wi = 0
        while wi < len(work) and len(cons) + len(eqs) < 140:
            a = work[wi]
            wi += 1
            for kind, x in a.ax:
                (eqs if kind == 'eq' else cons).append((dict(x.t), x.c))
                for b, _ in x.t:
                    if b not in atoms:
                        atoms.add(b)
                        work.append(b)
            for kind, x in d.get(a, ()):
                if (kind, x) in seen:
                    continue
                seen.add((kind, x))
                (eqs if kind else cons).append((dict(x.t), x.c))
                for b, _ in x.t:
                    if b not in atoms:
                        atoms.add(b)
                        work.append(b)
        bs = []
        for a in atoms:
            lo, hi = self.bounds(a)
            if lo is not None or hi is not None:
                bs.append((a, lo, hi))
        key = (l, frozenset(seen), frozenset(bs))
        r = _fmcache.get(key)
        if r is not None:
            return r
        for a, lo, hi in bs:
            if lo is not None and lo == hi:
                eqs.append(({a: 1}, -lo))
                continue
            if lo is not None:
                cons.append(({a: -1}, lo))
            if hi is not None:
                cons.append(({a: 1}, -hi))
        r = fm_unsat(cons, eqs)
        _fmcache[key] = r
        return r

    # ---------------------------------------------------------------- quantified byte facts
    def add_quant(self, q):
        if q not in self.quant:
            self.quant = self.quant + (q,)

    def decide_parts(self, t, v):
        for x in t.args:
            if isinstance(x, Term) and x.op == t.op:
                if not self.decide_parts(x, v):
                    return False
            elif self.decide(x) is not v:
                return False
        return True

    def quant_clash(self):
        """a byte constrained one way by name and another way by a range it lies in"""
        for t, v in self.b.items():
            # all parts of a conjunction that is false, or none of a disjunction that is true
            if t.op == 'and' and v is False and self.decide_parts(t, True) is True:
                return True
            if t.op == 'or' and v is True and self.decide_parts(t, False) is True:
                return True
        if self.quant:
            for a in self.mask:
                if a.op == 'elem' and a.args[1].__class__ is Lin:
                    m = self.get_mask(a)
                    if any(q[0] is a.args[0] for q in self.quant) and m & self.quant_mask(*a.args) == 0:
                        return True
        for a in list(self.mask):
            if a.op == 'elem' and a.args[1].__class__ is Lin and a.args[1].t:
                # the few places it can be
                lo = self.lower(a.args[1])
                hi = None if lo is None else next((h for h in range(lo, lo + 4) if self.prove_le(a.args[1] - h)), None)
                if hi is None:
                    continue
                m = self.get_mask(a)
                if not any(m & self.mask_at(a, i) for i in range(lo, hi + 1)):
                    return True
        for t, d in self.strv.items():
            if d.__class__ is frozenset and any(self.streq_known(t, s) is True for s in d):
                return True
        return False

    def mask_at(self, a, i):
        """the values of element i of the sequence a is an element of"""
        return self.get_mask(T('elem', a.args[0], const(i), ty=a.ty)) & self.quant_mask(a.args[0], const(i))

    def quant_mask(self, base, idx):
        m = FULL
        for (b, lo, hi, mk_) in self.quant:
            if b is base and m & ~mk_:
                if self.prove_le(lo - idx) and self.prove_le(idx + 1 - hi):
                    m &= mk_
        return m


def ceil_div(a, b):
    return -((-a) // b)


_nvar = {}


def nvariants(t):
    return _nvar.get(t)


def set_nvariants(t, n):
    _nvar[t] = n


def _norm(d, c):
    g = 0
    for k in d.values():
        g = gcd(g, k)
        if g == 1:
            return d, c
    if g > 1:
        return {a: k // g for a, k in d.items()}, ceil_div(c, g)
    return d, c


def fm_unsat(cons, eqs, limit=300):
    """True when the conjunction (sum + c <= 0 for cons, sum + c == 0 for eqs) has no integer
    solution that Gaussian elimination + Fourier-Motzkin with gcd tightening can exclude."""
    cons = [(dict(d), c) for d, c in cons]
    eqs = [(dict(d), c) for d, c in eqs]
    while eqs:
        # choose an equation with a unit coefficient when there is one
        best = None
        for i, (d, c) in enumerate(eqs):
            d = {a: k for a, k in d.items() if k}
            eqs[i] = (d, c)
            if not d:
                if c:
                    return True
                continue
            g = 0
            for k in d.values():
                g = gcd(g, k)
            if c % g:
                return True
            for a, k in d.items():
                if abs(k) == g and (best is None or len(d) < best[2]):
                    best = (i, a, len(d))
        if best is None:
            # no unit coefficient: turn the rest into two inequalities
            for d, c in eqs:
                if d:
                    cons.append((dict(d), c))
                    cons.append(({a: -k for a, k in d.items()}, -c))
            break
        i, a, _ = best
        d, c = eqs.pop(i)
        k = d[a]
        if k < 0:
            d = {x: -y for x, y in d.items()}
            c = -c
            k = -k
        g = k
        d = {x: y // g for x, y in d.items()}
        c = c // g
        # a = -(rest) - c

        def sub(dd, cc):
            q = dd.get(a)
            if not q:
                return dd, cc
            nd = dict(dd)
            del nd[a]
            for x, y in d.items():
                if x is not a:
                    v = nd.get(x, 0) - q * y
                    if v:
                        nd[x] = v
                    else:
                        nd.pop(x, None)
            return nd, cc - q * c
        eqs = [sub(*e) for e in eqs]
        cons = [sub(*e) for e in cons]
    tab = {}

    def put(tab, d, c):
        if not d:
            return c > 0
        d, c = _norm(d, c)
        key = tuple(sorted(((a.id, k) for a, k in d.items())))
        o = tab.get(key)
        if o is None or c > o[1]:
            tab[key] = (d, c)
        return False
    for d, c in cons:
        d = {a: k for a, k in d.items() if k}
        if put(tab, d, c):
            return True
    while tab:
        # choose the variable with the smallest product
        cnt = {}
        for d, c in tab.values():
            for a, k in d.items():
                p = cnt.setdefault(a, [0, 0])
                p[0 if k > 0 else 1] += 1
        a = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], x.id))
        if cnt[a][0] * cnt[a][1] > limit:
            return False
        pos, neg, rest = [], [], {}
        for key, (d, c) in tab.items():
            k = d.get(a)
            if not k:
                rest[key] = (d, c)
            elif k > 0:
                pos.append((d, c))
            else:
                neg.append((d, c))
        for d1, c1 in pos:
            k1 = d1[a]
            for d2, c2 in neg:
                k2 = -d2[a]
                g = gcd(k1, k2)
                m1, m2 = k2 // g, k1 // g
                nd = {}
                for x, y in d1.items():
                    if x is not a:
                        nd[x] = y * m1
                for x, y in d2.items():
                    if x is not a:
                        v = nd.get(x, 0) + y * m2
                        if v:
                            nd[x] = v
                        else:
                            nd.pop(x, None)
                if put(rest, nd, c1 * m1 + c2 * m2):
                    return True
        tab = rest
        if len(tab) > limit:
            return False
    return False
