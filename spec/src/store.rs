//! Reference operations of the DHT store.
use super::super::bencode::value::Value;
use super::super::common::bloom_filter::{BloomFilter128, BloomFilter256};
use super::super::common::sha1::Sha1Hash;
use super::super::common::types::{PublicKey, Signature};
use super::settings::DhtSettings;
use super::storage::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::net::{IpAddr, SocketAddr};
use std::time::Instant;

pub fn new(settings: &DhtSettings) -> DefaultDhtStorage {
    DefaultDhtStorage {
        settings,
        counters: DhtStorageCounter { torrents: 0, peers: 0, immutable_data: 0, mutable_data: 0 },
        node_ids: Vec::new(),
        map: HashMap::new(),
        immutable_table: HashMap::new(),
        mutable_table: HashMap::new(),
        infohashes_sample: InfohashesSample { samples: Vec::new(), created: Instant::now() },
    }
}
pub fn ids(s: &mut DefaultDhtStorage, ids: &[Sha1Hash]) { s.node_ids = ids.to_vec(); }
pub fn reset(c: &mut DhtStorageCounter) { *c = DhtStorageCounter { torrents: 0, peers: 0, immutable_data: 0, mutable_data: 0 }; }

// peers are kept in order of address, then port
pub fn order(a: &PeerEntry, b: &PeerEntry) -> Ordering {
    match a.addr.ip().cmp(&b.addr.ip()) {
        Ordering::Equal => a.addr.port().cmp(&b.addr.port()),
        o => o,
    }
}
pub fn some_order(a: &PeerEntry, b: &PeerEntry) -> Option<Ordering> { Some(order(a, b)) }

pub fn announce(s: &mut DefaultDhtStorage, ih: &Sha1Hash, ep: &SocketAddr, name: &str, seed: bool) {
    if !s.map.contains_key(ih) {
        if s.map.len() >= s.settings.max_torrents { return; }
        s.counters.torrents += 1;
        s.map.insert(Sha1Hash { data: ih.data }, TorrentEntry { name: String::new(), peers4: Vec::new(), peers6: Vec::new() });
    }
    let limit = s.settings.max_peers;
    let t = s.map.get_mut(ih).unwrap();
    if name.len() != 0 && t.name.len() == 0 { t.name = name.chars().take(100).collect(); }
    let l = match ep { SocketAddr::V4(_) => &mut t.peers4, SocketAddr::V6(_) => &mut t.peers6 };
    let p = PeerEntry { added: Instant::now(), addr: *ep, seed };
    match l.binary_search(&p) {
        Ok(i) => { l[i] = p; }
        Err(i) => {
            if l.len() < limit { l.insert(i, p); s.counters.peers += 1; }
        }
    }
}

// ---- items
pub fn immutable(value: Vec<u8>) -> DhtImmutableItem {
    DhtImmutableItem { value, ips: BloomFilter128::new(), last_seen: Instant::now(), num_announcers: 0, size: 0 }
}
pub fn mutable(value: Vec<u8>) -> DhtMutableItem {
    DhtMutableItem { inner: immutable(value), sig: Signature([0; 64]), seq: 0, key: PublicKey([0; 32]), salt: Vec::new() }
}
pub fn replace(i: &mut DhtImmutableItem, buf: &[u8]) { i.value = buf.to_vec(); }
pub fn touch(i: &mut DhtImmutableItem, addr: &IpAddr) {
    i.last_seen = Instant::now();
    let h = Sha1Hash::from_address(addr);
    if !i.ips.find(&h) { i.ips.set(&h); i.num_announcers += 1; }
}

// ---- immutable items
fn pick_imm<'a>(ids: &[Sha1Hash], t: &'a HashMap<Sha1Hash, DhtImmutableItem>) -> Option<(&'a Sha1Hash, &'a DhtImmutableItem)> {
    t.iter().min_by(|a, b| importance(a.1.num_announcers, a.0, ids).cmp(&importance(b.1.num_announcers, b.0, ids)))
}
fn pick_mut<'a>(ids: &[Sha1Hash], t: &'a HashMap<Sha1Hash, DhtMutableItem>) -> Option<(&'a Sha1Hash, &'a DhtMutableItem)> {
    t.iter().min_by(|a, b| importance(a.1.inner.num_announcers, a.0, ids).cmp(&importance(b.1.inner.num_announcers, b.0, ids)))
}
fn importance(n: usize, k: &Sha1Hash, ids: &[Sha1Hash]) -> isize {
    (n / 5) as isize - super::node::min_distance_exp(k, ids) as isize
}
pub fn put_immutable(s: &mut DefaultDhtStorage, target: &Sha1Hash, item: &[u8], addr: &IpAddr) {
    if !s.immutable_table.contains_key(target) {
        if s.immutable_table.len() >= s.settings.max_dht_items {
            let k = match pick_imm(&s.node_ids, &s.immutable_table) { Some(x) => x.0.clone(), None => return };
            s.immutable_table.remove(&k);
            s.counters.immutable_data -= 1;
        }
        s.immutable_table.insert(target.clone(), immutable(item.to_vec()));
        s.counters.immutable_data += 1;
    }
    touch(s.immutable_table.get_mut(target).unwrap(), addr);
}
pub fn get_immutable(s: &DefaultDhtStorage, target: &Sha1Hash, item: &mut Value) -> bool {
    match s.immutable_table.get(target) {
        Some(i) => {
            if let Value::Dict(d) = item {
                if let Ok(v) = Value::decode(&i.value) { d.insert(String::from("v"), v); }
            }
            true
        }
        None => false,
    }
}

// ---- mutable items
pub fn put_mutable(s: &mut DefaultDhtStorage, target: &Sha1Hash, buf: &[u8], sig: &Signature, seq: i64, pk: &PublicKey, salt: &[u8], addr: &IpAddr) {
    if let Some(i) = s.mutable_table.get_mut(target) {
        if seq > i.seq {
            i.inner.value = buf.to_vec();
            i.seq = seq;
            i.sig = Signature(sig.0);
        }
        touch(&mut i.inner, addr);
        return;
    }
    if s.mutable_table.len() >= s.settings.max_dht_items {
        let k = match pick_mut(&s.node_ids, &s.mutable_table) { Some(x) => x.0.clone(), None => return };
        s.mutable_table.remove(&k);
        s.counters.mutable_data -= 1;
    }
    let mut i = mutable(buf.to_vec());
    i.seq = seq;
    i.salt = salt.to_vec();
    i.sig = Signature(sig.0);
    i.key = PublicKey(pk.0);
    touch(&mut i.inner, addr);
    s.mutable_table.insert(target.clone(), i);
    s.counters.mutable_data += 1;
}
pub fn get_seq(s: &DefaultDhtStorage, target: &Sha1Hash, seq: &mut i64) -> bool {
    match s.mutable_table.get(target) { Some(i) => { *seq = i.seq; true } None => false }
}
pub fn get_mutable(s: &DefaultDhtStorage, target: &Sha1Hash, seq: i64, force: bool, item: &mut Value) -> bool {
    match s.mutable_table.get(target) {
        Some(i) => {
            if let Value::Dict(d) = item {
                d.insert(String::from("seq"), Value::Int(i.seq));
                if force || seq >= 0 && seq < i.seq {
                    if let Ok(v) = Value::decode(&i.inner.value) {
                        d.insert(String::from("v"), v);
                        d.insert(String::from("sig"), Value::Bytes(i.sig.0.to_vec()));
                        d.insert(String::from("k"), Value::Bytes(i.key.0.to_vec()));
                    }
                }
            }
            true
        }
        None => false,
    }
}

// ---- peers are looked up
pub fn get_peers(s: &DefaultDhtStorage, ih: &Sha1Hash, no_seed: bool, scrape: bool, requester: &SocketAddr, reply: &mut Value) -> std::io::Result<bool> {
    let t = match s.map.get(ih) {
        Some(t) => t,
        None => return Ok(s.map.len() >= s.settings.max_torrents),
    };
    let v6 = match requester { SocketAddr::V4(_) => false, SocketAddr::V6(_) => true };
    let l = if v6 { &t.peers6 } else { &t.peers4 };
    let d = match reply { Value::Dict(d) => d, _ => return Err(std::io::Error::from(std::io::ErrorKind::Other)) };
    if t.name.len() != 0 { d.insert(String::from("n"), Value::Bytes(t.name.as_bytes().to_vec())); }
    if scrape {
        let mut down = BloomFilter256::new();
        let mut seeds = BloomFilter256::new();
        let mut i = 0;
        while i < l.len() {
            let h = Sha1Hash::from_address(&l[i].addr.ip());
            if l[i].seed { seeds.set(&h); } else { down.set(&h); }
            i += 1;
        }
        d.insert(String::from("BFpe"), Value::Bytes(down.bits.to_vec()));
        d.insert(String::from("BFsd"), Value::Bytes(seeds.bits.to_vec()));
    } else {
        if !d.contains_key("values") { d.insert(String::from("values"), Value::List(Vec::new())); }
        let out = match d.get_mut("values") { Some(Value::List(x)) => x, _ => return Err(std::io::Error::from(std::io::ErrorKind::Other)) };
        let mut want = s.settings.max_peers_reply;
        if l.len() != 0 && v6 { want = want / 4; }
        let mut left = 0;
        let mut i = 0;
        while i < l.len() { if !(no_seed && l[i].seed) { left += 1; } i += 1; }
        if want > left { want = left; }
        // each of the `left` eligible peers still to come is taken so that `want` are taken in the end
        let mut i = 0;
        while want > 0 {
            if i >= l.len() { break; }
            let p = &l[i];
            i += 1;
            if no_seed && p.seed { continue; }
            left -= 1;
            if super::super::common::random::random_usize(left + 1) > want { continue; }
            let mut b = Vec::new();
            super::detail::write_socket_addr(&mut b, &p.addr);
            out.push(Value::Bytes(b));
            want -= 1;
        }
    }
    if l.len() < s.settings.max_peers { return Ok(false); }
    let me = PeerEntry { added: Instant::now(), addr: *requester, seed: false };
    match l.binary_search(&me) {
        Ok(_) => Ok(false),
        Err(_) => Ok(true),
    }
}
