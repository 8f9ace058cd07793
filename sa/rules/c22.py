"""Announcing a peer."""
from .lib import *
from .store import *
from . import c11
from ..equiv import equiv

RULE = 'announce_peer is compared path by path with its reference definition over arbitrary stores, settings and endpoints'




def announcing(c):
    r = equiv(c, D + 'announce_peer', 'dht::store::announce', opts=dict(merge=400))
    terminates(c, r)


def order(c):
    equiv(c, '<dht::storage::PeerEntry as std::cmp::Ord>::cmp', 'dht::store::order')


RULES = [announcing, order, c11.equality]
