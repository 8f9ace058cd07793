"""Kademlia distance."""
from .lib import *
from ..equiv import equiv

RULE = 'the distance functions are compared path by path with reference definitions over arbitrary ids and id lists; loops are aligned iteration by iteration'
N = 'dht::node::'


def some(I, st, vals):
    v = vals[1]
    st.facts.add_le(const(1) - (v.n if v.__class__ is Slice else I.expand(st, v).n))


def distances(c):
    equiv(c, N + 'distance', 'dht::near::xor')
    r = equiv(c, N + 'distance_exp', 'dht::near::exp')
    terminates(c, r)
    r = equiv(c, N + 'min_distance_exp', 'dht::near::least', setup=some, opts=dict(loop_states=200, merge=400, steps=8000000))
    terminates(c, r)
    for s, v in r.outs if r else ():
        c.ok('bound:least', s.facts.decide(leq(v, const(160))) is True, r.path, r.fn.span, 'an exponent above 160')


RULES = [distances]
