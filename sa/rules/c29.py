"""Checking the keys of a message."""
from .lib import *
from ..equiv import equiv

RULE = 'the check is compared path by path with its reference for all messages and all descriptions, its loop iteration by iteration; what a rejected message leaves in the result is not compared'
F = 'dht::msg::verify_message_impl'


def same_number(I, st, vals):
    d, r = (v.n if v.__class__ is Slice else I.expand(st, v).n for v in (vals[1], vals[2]))
    st.facts.assume(eq(d, r))


def accepted(I, st, v):
    return I.expand(st, v).var == 0


def verify(c):
    r = equiv(c, F, 'dht::message::verify', setup=same_number, post=False, proj=lambda I, st, v: accepted(I, st, v))
    terminates(c, r)
    equiv(c, F, 'dht::message::verify', setup=same_number, pick=lambda s, v: accepted(r.I, s, v), ret=False, key=F + ' found', panics=False)


RULES = [verify]
