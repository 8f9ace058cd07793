"""Bitwise operators of a 160-bit hash."""
from .lib import *
from ..bits import lbits, x_or, a_nd, n_ot, TooBig

RULE = ('every operator implementation (by value, by reference, assigning) is interpreted on two arbitrary hashes; each of the 160 result bits is compared, in '
        'algebraic normal form, with the operator applied to the operand bits at the same position')
N = 20
T_ = 'common::sha1::Sha1Hash'
OPS = {'Xor': ('bitxor', lambda a, b: a ^ b), 'And': ('bitand', a_nd), 'Or': ('bitor', x_or)}


def hash_bytes(I, st, v):
    while v.__class__ is Ref:
        v = I.deref(st, v)
    v = I.expand(st, v)
    q = v.f[0]
    if q.__class__ is Sym:
        q = I.expand(st, q)
    return [lbits(I.nrm(st, I.seq_get(st, q, const(i))), 8) for i in range(N)]


def check(c, path, fn, assign, operands=2):
    r = c.run(path)
    if r is None:
        return
    panic_free(c, r)
    terminates(c, r)
    c.floor('outcomes of %s' % path, len(r.outs), 1)
    I = r.I
    ini, _ = I.start(r.fn)
    ops = [hash_bytes(I, ini, a) for a in r.args[:operands]]
    for st, ret in r.outs:
        try:
            got = hash_bytes(I, st, I.deref(st, r.args[0]) if assign else ret)
        except TooBig:
            got = None
        bad = None
        for i in range(N):
            for b in range(8):
                exp = fn(*[o[i][b] for o in ops])
                if got is None or got[i][b] != exp:
                    bad = (i, b)
                    break
            if bad:
                break
        c.ok('bits:%s' % clean(r.fn.path), bad is None, path, r.fn.span, 'byte %s bit %s of the result is wrong' % (bad or ('', '')))


def binary(c):
    for o, (m, fn) in OPS.items():
        t = 'std::ops::Bit%s' % o
        check(c, '<%s as %sAssign<&%s>>::%s_assign' % (T_, t, T_, m), fn, True)
        check(c, '<%s as %sAssign>::%s_assign' % (T_, t, m), fn, True)
        check(c, '<%s as %s>::%s' % (T_, t, m), fn, False)
        check(c, '<%s as %s<&%s>>::%s' % (T_, t, T_, m), fn, False)
        check(c, '<&%s as %s>::%s' % (T_, t, m), fn, False)
        if c.has('<&%s as %s<%s>>::%s' % (T_, t, T_, m)):
            check(c, '<&%s as %s<%s>>::%s' % (T_, t, T_, m), fn, False)


def negation(c):
    check(c, '<%s as std::ops::Not>::not' % T_, n_ot, False, 1)


RULES = [binary, negation]
