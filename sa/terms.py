"""Hash-consed symbolic atoms and linear forms over them.

An abstract integer is a `Lin`: an affine form  c + sum(k_i * atom_i).  Atoms are
`Term`s: unknown inputs, lengths, elements of sequences, loop phis, and the results of
non-linear operations (which carry axioms that bound them).  Nothing here is ever
given a concrete value: atoms stand for all values at once.
"""
import itertools

_tbl = {}
_ids = itertools.count()


class Term:
    __slots__ = ('op', 'args', 'ty', 'id', 'ax', 'info', 'lo', 'hi')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id

    def __hash__(self):
        return self.id


def T(op, *args, ty=None):
    k = (op, args, ty)
    t = _tbl.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.ty, t.id = op, args, ty, next(_ids)
        t.ax = ()
        t.info = None
        t.lo, t.hi = ty_range(ty)
        _tbl[k] = t
    return t


_fresh = itertools.count()


def fresh(name, ty=None):
    return T('fresh', name, next(_fresh), ty=ty)


def ty_range(ty):
    if not ty:
        return (None, None)
    if ty[0] == 'int':
        if ty[1]:
            return (-(1 << (ty[2] - 1)), (1 << (ty[2] - 1)) - 1)
        return (0, (1 << ty[2]) - 1)
    if ty[0] == 'char':
        return (0, 0x10ffff)
    if ty[0] == 'len':
        return (0, (1 << 48) - 1)
    return (None, None)


USIZE = ('int', False, 64, 'usize')
U8 = ('int', False, 8, 'u8')
I64 = ('int', True, 64, 'i64')
I32 = ('int', True, 32, 'i32')
LEN = ('len',)

_lin = {}


class Lin:
    __slots__ = ('t', 'c', '_h', 'src')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def is_const(self):
        return not self.t

    def __add__(self, o):
        return add(self, o)

    def __sub__(self, o):
        return add(self, o, -1)

    def __mul__(self, k):
        return scale(self, k)

    def __neg__(self):
        return scale(self, -1)

    def coef(self, a):
        for x, k in self.t:
            if x is a:
                return k
        return 0

    def single(self):
        """the atom, when the form is exactly one atom"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return self.t[0][0]
        return None

    def subst(self, m):
        r = {}
        c = self.c
        hit = False
        for a, k in self.t:
            e = m.get(a)
            if e is None:
                r[a] = r.get(a, 0) + k
            else:
                hit = True
                c += k * e.c
                for b, kb in e.t:
                    r[b] = r.get(b, 0) + k * kb
        return mk(r, c) if hit else self


def _mk(items, c):
    k = (items, c)
    l = _lin.get(k)
    if l is None:
        l = Lin()
        l.t, l.c = items, c
        l._h = hash(k)
        _lin[k] = l
    return l


def mk(d, c):
    return _mk(tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id)), c)


def const(n):
    return _mk((), n)


ZERO = const(0)
ONE = const(1)


def atom(t):
    return _mk(((t, 1),), 0)


def lin(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, int):
        return const(x)
    return atom(x)


def add(a, b, k=1):
    b = lin(b)
    if not b.t:
        return _mk(a.t, a.c + k * b.c)
    d = dict(a.t)
    for x, kx in b.t:
        d[x] = d.get(x, 0) + k * kx
    return mk(d, a.c + k * b.c)


def scale(a, k):
    if k == 0:
        return ZERO
    return _mk(tuple((x, c * k) for x, c in a.t), a.c * k)


def show(x, depth=6):
    if isinstance(x, Lin):
        if not x.t:
            return str(x.c)
        s = ''
        for a, k in x.t:
            n = show(a, depth - 1)
            s += (' + ' if k > 0 and s else ' - ' if k < 0 and s else '-' if k < 0 else '') + (n if abs(k) == 1 else '%d*%s' % (abs(k), n))
        if x.c:
            s += ' %s %d' % ('+' if x.c > 0 else '-', abs(x.c))
        return s
    if isinstance(x, Term):
        if x.op == 'sym':
            return str(x.args[0])
        if x.op == 'fresh':
            return '%s#%d' % x.args
        if x.op == 'phi':
            lf = x.args[2]
            h = lf[0]
            h = '_%s' % h[2] if h[0] == 'L' else show(h[1], 1) if h[0] == 'D' else h[0]
            return '<%s#%s:%s%s>' % (x.args[0].split('@')[-1], x.args[1], h, ''.join(map(str, lf[1:])))
        if x.op == 'fld':
            return '%s.%s' % (show(x.args[0], depth - 1), '.'.join(map(str, x.args[1:])))
        if x.op == 'deref':
            return '*%s' % show(x.args[0], depth - 1)
        if x.op == 'len':
            return 'len(%s)' % show(x.args[0], depth - 1)
        if x.op == 'elem':
            return '%s[%s]' % (show(x.args[0], depth - 1), show(x.args[1], depth - 1))
        if depth <= 0:
            return x.op + '(..)'
        return '%s(%s)' % (x.op, ', '.join(show(a, depth - 1) for a in x.args))
    if isinstance(x, tuple):
        return '(' + ', '.join(show(a, depth - 1) for a in x) + ')'
    if isinstance(x, bytes):
        return repr(x)
    return str(x)


def atoms_in(x, acc=None):
    """every Term reachable inside x"""
    if acc is None:
        acc = set()
    if isinstance(x, Term):
        if x in acc:
            return acc
        acc.add(x)
        for a in x.args:
            atoms_in(a, acc)
    elif isinstance(x, Lin):
        for a, _ in x.t:
            atoms_in(a, acc)
    elif isinstance(x, (tuple, list)):
        for a in x:
            atoms_in(a, acc)
    return acc


# ---- booleans: True/False, or Terms  le0(lin) eq0(lin) not(b) and(a,b) or(a,b) / any other op = boolean atom
def le0(l):
    l = lin(l)
    if not l.t:
        return l.c <= 0
    # single atom against its type range
    if len(l.t) == 1:
        a, k = l.t[0]
        if a.lo is not None:
            hi = k * (a.hi if k > 0 else a.lo) + l.c
            lo = k * (a.lo if k > 0 else a.hi) + l.c
            if hi <= 0:
                return True
            if lo > 0:
                return False
    return T('le0', l)


def lt0(l):
    return le0(lin(l) + 1)


def eq0(l):
    l = lin(l)
    if not l.t:
        return l.c == 0
    if l.t[0][1] < 0:
        l = -l
    if len(l.t) == 1 and l.t[0][0].lo is not None:
        a, k = l.t[0]
        if (-l.c) % k:
            return False
        v = -l.c // k
        if v < a.lo or v > a.hi:
            return False
    return T('eq0', l)


def bnot(b):
    if b is True:
        return False
    if b is False:
        return True
    if b.op == 'not':
        return b.args[0]
    if b.op == 'le0':
        return le0(-b.args[0] + 1)
    return T('not', b)


def band(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if a is b:
        return a
    return T('and', a, b)


def bor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    if a is b:
        return a
    return T('or', a, b)


def leq(a, b):
    return le0(lin(a) - lin(b))


def lt(a, b):
    return le0(lin(a) - lin(b) + 1)


def eq(a, b):
    return eq0(lin(a) - lin(b))


# ---- non-linear integer operations as atoms with axioms
def set_ax(t, lo=None, hi=None, ax=()):
    if lo is not None and (t.lo is None or lo > t.lo):
        t.lo = lo
    if hi is not None and (t.hi is None or hi < t.hi):
        t.hi = hi
    if ax and not t.ax:
        t.ax = tuple(ax)
    return t


def div(a, k):
    """a / k for a >= 0, k > 0 constant"""
    if k == 1:
        return a
    if not a.t:
        return const(a.c // k)
    q = T('div', a, k)
    A = atom(q)
    hi = None
    if len(a.t) == 1 and a.t[0][0].hi is not None and a.t[0][1] > 0:
        hi = (a.t[0][1] * a.t[0][0].hi + a.c) // k
    set_ax(q, 0, hi if hi is not None else (1 << 64) // k, [('le', A * k - a), ('le', a - A * k - (k - 1))])
    return A


def rem(a, k):
    """a % k for a >= 0, k > 0 constant"""
    if k == 1:
        return ZERO
    if not a.t:
        return const(a.c % k)
    if len(a.t) == 1 and a.c >= 0 and a.t[0][1] > 0 and a.t[0][0].hi is not None:
        if a.t[0][1] * a.t[0][0].hi + a.c < k and a.t[0][0].lo >= 0:
            return a
    r = T('rem', a, k)
    q = div(a, k)
    set_ax(r, 0, k - 1, [('eq', q * k + atom(r) - a)])
    return atom(r)


# ---- functions of one byte, by their table
def fn8(vals, x):
    """the integer vals[x] for a byte atom x, in normal form: base + factor * table"""
    from math import gcd
    b = vals[0]
    g = [v - b for v in vals]
    d = 0
    for v in g:
        d = gcd(d, v)
    if d == 0:
        return const(b)
    if next(v for v in g if v) < 0:
        d = -d
    g = tuple(v // d for v in g)
    t = T('fn8', g, x)
    t.lo, t.hi = min(g), max(g)
    return atom(t) * d + b


def merge8(l):
    """a sum with at most one function of each byte"""
    by = {}
    for a, k in l.t:
        if a.op == 'fn8':
            by.setdefault(a.args[1], []).append((a, k))
    for x, fs in by.items():
        if len(fs) > 1:
            vals = [sum(k * a.args[0][i] for a, k in fs) for i in range(256)]
            for a, k in fs:
                l = l - atom(a) * k
            l = l + fn8(vals, x)
    return l


def deep(e, m):
    """substitution of numbers for atoms that reaches into the arguments of terms"""
    memo = {}

    def term(t):
        if t in m:
            return m[t]
        r = memo.get(t)
        if r is None:
            args = tuple(go(a) for a in t.args)
            if all(a is b for a, b in zip(args, t.args)):
                r = t
            elif t.op == 'div' and args[0].__class__ is Lin and args[1].__class__ is int:
                r = div(*args)
            elif t.op == 'rem' and args[0].__class__ is Lin and args[1].__class__ is int:
                r = rem(*args)
            else:
                r = T(t.op, *args, ty=t.ty)
            memo[t] = r
        return r

    def go(a):
        if a.__class__ is Lin:
            r = const(a.c)
            for t, k in a.t:
                x = term(t)
                r = r + (atom(x) if x.__class__ is Term else x) * k
            return r
        if a.__class__ is Term:
            if a in m:
                return a
            return term(a)
        if a.__class__ is tuple:
            r = tuple(go(x) for x in a)
            return a if all(x is y for x, y in zip(r, a)) else r
        return a
    return go(e)


def mentions(e, ts):
    """does e speak of one of the atoms ts, at any depth?"""
    seen = set()

    def go(a):
        if a.__class__ is Lin:
            return any(go(t) for t, _ in a.t)
        if a.__class__ is Term:
            if a in ts:
                return True
            if a in seen:
                return False
            seen.add(a)
            return any(go(x) for x in a.args)
        if a.__class__ is tuple:
            return any(go(x) for x in a)
        return False
    return go(e)
