"""Bit-level normal form: each bit of an integer expression as an algebraic normal form
(exclusive or of products of input bits).  Equal normal forms mean equal values."""
from .terms import *

CAP = 512
ONEP = frozenset([frozenset()])
ZEROP = frozenset()


class TooBig(Exception):
    pass


def x_or(a, b):
    return a ^ b ^ a_nd(a, b)


def a_nd(a, b):
    if not a or not b:
        return ZEROP
    if a == ONEP:
        return b
    if b == ONEP:
        return a
    if a == b:
        return a
    r = set()
    for m in a:
        for n in b:
            r ^= {m | n}
    if len(r) > CAP:
        raise TooBig()
    return frozenset(r)


def n_ot(a):
    return a ^ ONEP


def num(c, w):
    return [ONEP if (c >> i) & 1 else ZEROP for i in range(w)]


_memo = {}
_hi = {}        # input values known to be smaller than their types allow


def abits(t, w):
    """bits of an atom"""
    k = (t, w)
    r = _memo.get(k)
    if r is None:
        r = _memo[k] = abits0(t, w)
    return r


def pow2(k):
    return isinstance(k, int) and k > 0 and k & (k - 1) == 0


def abits0(t, w):
    op = t.op
    if op == 'div' and pow2(t.args[1]):
        j = t.args[1].bit_length() - 1
        return lbits(t.args[0], w + j)[j:]
    if op == 'rem' and pow2(t.args[1]):
        j = t.args[1].bit_length() - 1
        return (lbits(t.args[0], min(j, w)) + [ZEROP] * w)[:w]
    if op in ('band', 'bor', 'bxor'):
        a, b = lbits(lin(t.args[0]), w), lbits(lin(t.args[1]), w)
        f = {'band': a_nd, 'bor': x_or, 'bxor': lambda x, y: x ^ y}[op]
        return [f(x, y) for x, y in zip(a, b)]
    if op == 'wrap' and t.lo == 0:
        n = t.hi.bit_length()
        return (lbits(t.args[0], min(w, n)) + [ZEROP] * w)[:w]
    if op in ('shl', 'shr') and lin(t.args[1]).is_const() and t.lo == 0:
        s, n = lin(t.args[1]).c, t.hi.bit_length()
        if op == 'shl':
            return (([ZEROP] * s + lbits(lin(t.args[0]), n))[:n] + [ZEROP] * w)[:w]
        return (lbits(lin(t.args[0]), n)[s:] + [ZEROP] * w)[:w]
    if t.lo is None or t.lo < 0 or t.hi is None:
        raise TooBig()
    n = _hi.get(t, t.hi).bit_length()
    return [frozenset([frozenset([(t, i)])]) if i < n else ZEROP for i in range(w)]


def lbits(l, w):
    l = lin(l)
    acc = None
    c = l.c
    for a, k in l.t:
        neg = k < 0
        k = abs(k)
        ab = abits(a, w)
        j = 0
        while k:
            if k & 1:
                x = ([ZEROP] * j + ab)[:w]
                if neg:
                    x = [n_ot(b) for b in x]
                    c += 1
                acc = x if acc is None else add_bits(acc, x)
            k >>= 1
            j += 1
    if acc is None:
        return num(c % (1 << w), w)
    c %= 1 << w
    return add_bits(acc, num(c, w)) if c else acc


def add_bits(a, b):
    if all(not x or not y for x, y in zip(a, b)):
        return [x ^ y for x, y in zip(a, b)]
    r = []
    cy = ZEROP
    for x, y in zip(a, b):
        r.append(x ^ y ^ cy)
        cy = a_nd(x, y) ^ a_nd(cy, x ^ y)
        if len(cy) > CAP:
            raise TooBig()
    return r


def inputs(x, acc):
    if isinstance(x, Lin):
        for a, _ in x.t:
            inputs(a, acc)
    elif isinstance(x, Term):
        if x.op in ('div', 'rem', 'band', 'bor', 'bxor', 'wrap', 'shl', 'shr'):
            for y in x.args:
                inputs(y, acc)
        else:
            acc.add(x)
    return acc


def equal(F, a, b, w=64):
    global _memo, _hi
    try:
        for x in (a, b):
            lo = F.lower(x)
            if lo is None or lo < 0:
                return False
        if lbits(a, w) == lbits(b, w):
            return True
    except TooBig:
        pass
    hi = {}
    for t in inputs(a, set()) | inputs(b, set()):
        lo, h = F.bounds(t)
        m = F.mask.get(t)
        if m:
            h = m.bit_length() - 1 if h is None else min(h, m.bit_length() - 1)
        if h is not None and h >= 0 and t.hi is not None and h < t.hi:
            hi[t] = h
    if not hi:
        return False
    save = _memo, _hi
    _memo, _hi = {}, hi
    try:
        return lbits(a, w) == lbits(b, w)
    except TooBig:
        return False
    finally:
        _memo, _hi = save
