"""Clamping and random numbers."""
from .lib import *
from ..equiv import equiv
from ..follow import trace_random

RULE = ('clamp is compared path by path with its reference over all 64-bit integers, given a lower bound that is not above the upper one; '
        'a random number is what the generator gave for exactly the range up to the maximum')
I64 = ('int', True, 64, 'i64')


def ordered(I, st, vals):
    st.facts.assume(leq(vals[1], vals[2]))


def clamping(c):
    r = equiv(c, 'common::clamp', 'common::misc::clamp', genv={'T': I64}, setup=ordered)


def numbers(c):
    def some(I, st, vals):
        st.facts.add_le(const(1) - vals[0])
    r = c.run('common::random::random_usize', setup=some)
    if r is None:
        return
    panic_free(c, r)
    c.floor('paths of random_usize', len(r.outs), 1)
    s0, vals = r.I.start(r.fn, None, None)
    for s, v in r.outs:
        asked = trace_random(s.trace)
        good = len(asked) == 1 and asked[0][1] is not None and s.facts.decide(eq(asked[0][1], ZERO)) is True \
            and s.facts.decide(eq(asked[0][2], vals[0])) is True and v.__class__ is Lin and s.facts.decide(eq(v, atom(asked[0][0]))) is True
        c.ok('random:random_usize', good, r.path, r.fn.span, 'the result is not a random number from 0 up to, and excluding, the maximum: %s' % (show(v) if v.__class__ is Lin else v))


RULES = [clamping, numbers]
