"""What the rules about the DHT store share."""
from .lib import *

S = 'dht::storage::'
D = '<dht::storage::DefaultDhtStorage as dht::storage::DhtStorage>::'


def somewhere(I, st, vals):
    """the node knows at least one of its own ids"""
    st.facts.add_le(const(1) - field(I, st, vals[0], 'node_ids').n)


def into_dict(I, st, vals):
    """the reply under construction is a dictionary"""
    v = I.read(st, vals[-1].obj, vals[-1].path)
    k = [x['n'] for x in mir.ADTS[v.ty[1]]['variants']].index('Dict')
    st.facts.set_disc(v.t, k)


def exponent(I, st, v, args):
    """what C18 proves of min_distance_exp"""
    st.facts.add_le(v - 160)


OPAQUE = {'dht::node::min_distance_exp': exponent, 'bencode::value::Value::decode': None, 'common::bloom_filter::BloomFilter128::set': None,
          'common::bloom_filter::BloomFilter128::find': None, 'common::bloom_filter::BloomFilter256::set': None, 'common::sha1::Sha1Hash::from_address': None}
