"""Shifts of a 160-bit hash."""
from .lib import *
from ..bits import lbits, ZEROP, TooBig

RULE = ('the shift operators are interpreted for each of the 160 shift amounts that leave bits and for all larger amounts at once; every bit of the result '
        'is compared, in algebraic normal form, with the bit a big-endian 160-bit shift puts there; every memory access is in bounds')
N = 20


def data_bytes(I, st, obj):
    """the byte expressions of the hash stored at obj"""
    v = I.obj(st, obj)
    v = I.expand(st, v)
    q = v.f[0]
    if q.__class__ is Sym:
        q = I.expand(st, q)
    return [I.seq_get(st, q, const(i)) for i in range(N)]


def check_shift(c, path, left):
    f = c.fn(path)
    for s in list(range(0, 8 * N)) + [None]:
        def setup(I, st, vals, s=s):
            if s is None:
                st.facts.add_le(const(8 * N) - vals[1])
        r = c.run(f, args={} if s is None else {1: const(s)}, setup=setup)
        if r is None:
            return
        panic_free(c, r)
        terminates(c, r)
        c.floor('outcomes of %s' % path, len(r.outs), 1)
        nm = 'shl' if left else 'shr'
        for st, ret in r.outs:
            I = r.I
            obj = r.args[0].obj
            ini = I.start(f, {} if s is None else {1: const(s)})[0]
            src = data_bytes(I, ini, obj)
            got = data_bytes(I, st, obj)
            bad = None
            inb = [lbits(x, 8) for x in src]
            for i in range(N):
                try:
                    gb = lbits(I.nrm(st, got[i]), 8)
                except TooBig:
                    bad = (i, 'not representable')
                    break
                for b in range(8):
                    v = 8 * (N - 1 - i) + b
                    w = None if s is None else (v - s if left else v + s)
                    exp = ZEROP if w is None or w < 0 or w >= 8 * N else inb[N - 1 - w // 8][w % 8]
                    if gb[b] != exp:
                        bad = (i, b)
                        break
                if bad:
                    break
            c.ok('shift:%s' % nm, bad is None, path, f.span,
                 'shifting by %s gives a wrong byte %s' % ('160 or more' if s is None else s, bad and bad[0]))


def shifts(c):
    check_shift(c, '<common::sha1::Sha1Hash as std::ops::ShlAssign<usize>>::shl_assign', True)
    check_shift(c, '<common::sha1::Sha1Hash as std::ops::ShrAssign<usize>>::shr_assign', False)


RULES = [shifts]
