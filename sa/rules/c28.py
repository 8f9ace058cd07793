"""Items and counters of the store."""
from .lib import *
from .store import *
from . import c12, c14
from ..equiv import equiv

RULE = 'constructors, counters and the bookkeeping of items are compared path by path with reference definitions'


def items(c):
    equiv(c, S + 'DhtImmutableItem::new', 'dht::store::immutable')
    equiv(c, S + 'DhtMutableItem::new', 'dht::store::mutable')
    equiv(c, S + 'DhtImmutableItem::touch_item', 'dht::store::touch', opaque=OPAQUE)
    equiv(c, S + 'DhtImmutableItem::set_value', 'dht::store::replace')


def whole(c):
    equiv(c, S + 'DefaultDhtStorage::new', 'dht::store::new')
    equiv(c, D + 'update_node_ids', 'dht::store::ids')
    equiv(c, S + 'DhtStorageCounter::reset', 'dht::store::reset')


def peers(c):
    equiv(c, '<dht::storage::PeerEntry as std::cmp::Ord>::cmp', 'dht::store::order')
    equiv(c, '<dht::storage::PeerEntry as std::cmp::PartialOrd>::partial_cmp', 'dht::store::some_order')


RULES = [items, whole, peers, c12.address, c14.ops]
