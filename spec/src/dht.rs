use super::bencode::value::Value;
use super::bencode::value_ref::ValueRef;
use super::common::sha1::Sha1Hash;
pub mod settings {
    pub struct DhtSettings {
        pub max_peers_reply: usize,
        pub search_branching: usize,
        pub max_fail_count: usize,
        pub max_torrents: usize,
        pub max_dht_items: usize,
        pub max_peers: usize,
        pub max_torrent_search_reply: usize,
        pub restrict_routing_ips: bool,
        pub restrict_search_ips: bool,
        pub extended_routing_table: bool,
        pub aggressive_lookups: bool,
        pub privacy_lookups: bool,
        pub enforce_node_id: bool,
        pub ignore_dark_internet: bool,
        pub block_timeout: usize,
        pub block_ratelimit: usize,
        pub read_only: bool,
        pub item_lifetime: usize,
        pub upload_rate_limit: usize,
        pub sample_infohashes_interval: usize,
        pub max_infohashes_sample_count: usize,
    }
    pub struct Settings {
        pub dht_settings: DhtSettings,
        pub prefer_verified_node_ids: bool,
    }
}
pub mod state {
    use super::Sha1Hash;
    use std::net::{IpAddr, SocketAddr};
    pub struct DhtState { pub nids: Vec<(IpAddr, Sha1Hash)>, pub nodes: Vec<SocketAddr>, pub nodes6: Vec<SocketAddr> }
}
pub mod set {
    use super::*;
    use super::settings::{DhtSettings, Settings};
    use std::collections::BTreeMap;
    pub fn session() -> Settings { Settings { dht_settings: default(), prefer_verified_node_ids: true } }
    pub fn default() -> DhtSettings {
        DhtSettings {
            max_peers_reply: 100,
            search_branching: 5,
            max_fail_count: 20,
            max_torrents: 2000,
            max_dht_items: 700,
            max_peers: 500,
            max_torrent_search_reply: 20,
            restrict_routing_ips: true,
            restrict_search_ips: true,
            extended_routing_table: true,
            aggressive_lookups: true,
            privacy_lookups: false,
            enforce_node_id: false,
            ignore_dark_internet: true,
            block_timeout: 300,
            block_ratelimit: 5,
            read_only: false,
            item_lifetime: 0,
            upload_rate_limit: 8000,
            sample_infohashes_interval: 21600,
            max_infohashes_sample_count: 20,
        }
    }
    fn int(d: &BTreeMap<&str, ValueRef>, k: &str, dfl: usize) -> usize { match d.get(k) { Some(ValueRef::Int(n)) => *n as usize, _ => dfl } }
    fn flag(d: &BTreeMap<&str, ValueRef>, k: &str, dfl: bool) -> bool { match d.get(k) { Some(ValueRef::Int(n)) => *n != 0, _ => dfl } }
    pub fn read(v: &ValueRef) -> DhtSettings {
        match v {
            ValueRef::Dict(d) => DhtSettings {
                max_peers_reply: int(d, "max_peers_reply", 100),
                search_branching: int(d, "search_branching", 5),
                max_fail_count: int(d, "max_fail_count", 20),
                max_torrents: int(d, "max_torrents", 2000),
                max_dht_items: int(d, "max_dht_items", 700),
                max_peers: int(d, "max_peers", 500),
                max_torrent_search_reply: int(d, "max_torrent_search_reply", 20),
                restrict_routing_ips: flag(d, "restrict_routing_ips", true),
                restrict_search_ips: flag(d, "restrict_search_ips", true),
                extended_routing_table: flag(d, "extended_routing_table", true),
                aggressive_lookups: flag(d, "aggressive_lookups", true),
                privacy_lookups: flag(d, "privacy_lookups", false),
                enforce_node_id: flag(d, "enforce_node_id", false),
                ignore_dark_internet: flag(d, "ignore_dark_internet", true),
                block_timeout: int(d, "block_timeout", 300),
                block_ratelimit: int(d, "block_ratelimit", 5),
                read_only: flag(d, "read_only", false),
                item_lifetime: int(d, "item_lifetime", 0),
                upload_rate_limit: int(d, "upload_rate_limit", 8000),
                sample_infohashes_interval: int(d, "sample_infohashes_interval", 21600),
                max_infohashes_sample_count: int(d, "max_infohashes_sample_count", 20),
            },
            _ => default(),
        }
    }
    pub fn save(s: &DhtSettings) -> Value {
        let mut d = BTreeMap::new();
        d.insert(String::from("max_peers_reply"), Value::Int(s.max_peers_reply as i64));
        d.insert(String::from("search_branching"), Value::Int(s.search_branching as i64));
        d.insert(String::from("max_fail_count"), Value::Int(s.max_fail_count as i64));
        d.insert(String::from("max_torrents"), Value::Int(s.max_torrents as i64));
        d.insert(String::from("max_dht_items"), Value::Int(s.max_dht_items as i64));
        d.insert(String::from("max_peers"), Value::Int(s.max_peers as i64));
        d.insert(String::from("max_torrent_search_reply"), Value::Int(s.max_torrent_search_reply as i64));
        d.insert(String::from("block_timeout"), Value::Int(s.block_timeout as i64));
        d.insert(String::from("block_ratelimit"), Value::Int(s.block_ratelimit as i64));
        d.insert(String::from("item_lifetime"), Value::Int(s.item_lifetime as i64));
        d.insert(String::from("upload_rate_limit"), Value::Int(s.upload_rate_limit as i64));
        d.insert(String::from("sample_infohashes_interval"), Value::Int(s.sample_infohashes_interval as i64));
        d.insert(String::from("max_infohashes_sample_count"), Value::Int(s.max_infohashes_sample_count as i64));
        d.insert(String::from("restrict_routing_ips"), Value::Int(s.restrict_routing_ips as i64));
        d.insert(String::from("restrict_search_ips"), Value::Int(s.restrict_search_ips as i64));
        d.insert(String::from("extended_routing_table"), Value::Int(s.extended_routing_table as i64));
        d.insert(String::from("aggressive_lookups"), Value::Int(s.aggressive_lookups as i64));
        d.insert(String::from("privacy_lookups"), Value::Int(s.privacy_lookups as i64));
        d.insert(String::from("enforce_node_id"), Value::Int(s.enforce_node_id as i64));
        d.insert(String::from("ignore_dark_internet"), Value::Int(s.ignore_dark_internet as i64));
        d.insert(String::from("read_only"), Value::Int(s.read_only as i64));
        Value::Dict(d)
    }
}
pub mod det {
    use std::io;
    use std::net::*;
    pub fn write_address(w: &mut Vec<u8>, a: &IpAddr) -> io::Result<()> {
        match a {
            IpAddr::V4(x) => { let o = x.octets(); let mut i = 0; while i < 4 { w.push(o[i]); i += 1; } }
            IpAddr::V6(x) => { let o = x.octets(); let mut i = 0; while i < 16 { w.push(o[i]); i += 1; } }
        }
        Ok(())
    }
    pub fn write_socket_addr(w: &mut Vec<u8>, a: &SocketAddr) -> io::Result<()> {
        match a.ip() {
            IpAddr::V4(x) => { let o = x.octets(); let mut i = 0; while i < 4 { w.push(o[i]); i += 1; } }
            IpAddr::V6(x) => { let o = x.octets(); let mut i = 0; while i < 16 { w.push(o[i]); i += 1; } }
        }
        let p = a.port();
        w.push((p >> 8) as u8);
        w.push((p & 255) as u8);
        Ok(())
    }
    pub fn ip4(r: &mut &[u8]) -> Option<IpAddr> {
        if r.len() < 4 { return None; }
        let a = IpAddr::V4(Ipv4Addr::new(r[0], r[1], r[2], r[3]));
        *r = &r[4..];
        Some(a)
    }
    pub fn ip6(r: &mut &[u8]) -> Option<IpAddr> {
        if r.len() < 16 { return None; }
        let mut o = [0u8; 16];
        let mut i = 0;
        while i < 16 { o[i] = r[i]; i += 1; }
        *r = &r[16..];
        Some(IpAddr::V6(Ipv6Addr::from(o)))
    }
    pub fn sock4(r: &mut &[u8]) -> Option<SocketAddr> {
        if r.len() < 6 { return None; }
        let a = IpAddr::V4(Ipv4Addr::new(r[0], r[1], r[2], r[3]));
        let p = 256 * (r[4] as u16) + r[5] as u16;
        *r = &r[6..];
        Some(SocketAddr::new(a, p))
    }
    pub fn sock6(r: &mut &[u8]) -> Option<SocketAddr> {
        if r.len() < 18 { return None; }
        let mut o = [0u8; 16];
        let mut i = 0;
        while i < 16 { o[i] = r[i]; i += 1; }
        let p = 256 * (r[16] as u16) + r[17] as u16;
        *r = &r[18..];
        Some(SocketAddr::new(IpAddr::V6(Ipv6Addr::from(o)), p))
    }
    pub fn first_smaller(v: &[i64], x: &i64) -> usize {
        let mut i = 0;
        while i < v.len() {
            if v[i] < *x { return i; }
            i += 1;
        }
        v.len()
    }
}
pub mod st {
    use super::state::DhtState;
    use super::*;
    use std::collections::BTreeMap;
    use std::net::*;
    fn octets(b: &mut Vec<u8>, a: &IpAddr) {
        match a {
            IpAddr::V4(x) => { let o = x.octets(); let mut i = 0; while i < 4 { b.push(o[i]); i += 1; } }
            IpAddr::V6(x) => { let o = x.octets(); let mut i = 0; while i < 16 { b.push(o[i]); i += 1; } }
        }
    }
    fn endpoints(v: &Vec<SocketAddr>) -> Value {
        let mut l = Vec::new();
        let mut i = 0;
        while i < v.len() {
            let mut b = Vec::new();
            octets(&mut b, &v[i].ip());
            let p = v[i].port();
            b.push((p / 256) as u8);
            b.push((p % 256) as u8);
            l.push(Value::Bytes(b));
            i += 1;
        }
        Value::List(l)
    }
    pub fn save(s: &DhtState) -> Value {
        let mut d = BTreeMap::new();
        if s.nids.len() > 0 {
            let mut l = Vec::new();
            let mut i = 0;
            while i < s.nids.len() {
                let mut b = Vec::new();
                let mut k = 0;
                while k < 20 { b.push(s.nids[i].1.data[k]); k += 1; }
                octets(&mut b, &s.nids[i].0);
                l.push(Value::Bytes(b));
                i += 1;
            }
            d.insert(String::from("node-id"), Value::List(l));
        }
        if s.nodes.len() > 0 { d.insert(String::from("nodes"), endpoints(&s.nodes)); }
        if s.nodes6.len() > 0 { d.insert(String::from("nodes6"), endpoints(&s.nodes6)); }
        Value::Dict(d)
    }
    pub fn clear(s: &mut DhtState) { s.nids = Vec::new(); s.nodes = Vec::new(); s.nodes6 = Vec::new(); }
    fn ip4(b: &[u8]) -> IpAddr { IpAddr::V4(Ipv4Addr::new(b[0], b[1], b[2], b[3])) }
    fn ip6(b: &[u8]) -> IpAddr {
        let mut o = [0u8; 16];
        let mut i = 0;
        while i < 16 { o[i] = b[i]; i += 1; }
        IpAddr::V6(Ipv6Addr::from(o))
    }
    fn id(b: &[u8]) -> Sha1Hash {
        let mut data = [0u8; 20];
        let mut i = 0;
        while i < 20 { data[i] = b[i]; i += 1; }
        Sha1Hash { data }
    }
    pub fn ids(v: &ValueRef, key: &str) -> Option<Vec<(IpAddr, Sha1Hash)>> {
        let mut r = Vec::new();
        if let ValueRef::Dict(d) = v {
            match d.get(key) {
                Some(ValueRef::Bytes(b)) => {
                    if b.len() == 20 { r.push((IpAddr::V4(Ipv4Addr::new(127, 0, 0, 1)), id(b))); }
                }
                Some(ValueRef::List(l)) => {
                    let mut i = 0;
                    while i < l.len() {
                        if let ValueRef::Bytes(b) = &l[i] {
                            if b.len() == 24 { r.push((ip4(&b[20..]), id(b))); }
                            else if b.len() == 36 { r.push((ip6(&b[20..]), id(b))); }
                        }
                        i += 1;
                    }
                }
                _ => {}
            }
        }
        Some(r)
    }
    fn nodes(d: &BTreeMap<&str, ValueRef>, key: &str) -> Vec<SocketAddr> {
        let mut r = Vec::new();
        if let Some(ValueRef::List(l)) = d.get(key) {
            let mut i = 0;
            while i < l.len() {
                if let ValueRef::Bytes(b) = &l[i] {
                    if b.len() == 6 { r.push(SocketAddr::new(ip4(b), 256 * (b[4] as u16) + b[5] as u16)); }
                    else if b.len() == 18 { r.push(SocketAddr::new(ip6(b), 256 * (b[16] as u16) + b[17] as u16)); }
                }
                i += 1;
            }
        }
        r
    }
    pub fn read(v: &ValueRef) -> Option<DhtState> {
        match v {
            ValueRef::Dict(d) => {
                let nids = match ids(v, "node-id") { Some(x) => x, None => return None };
                Some(DhtState { nids, nodes: nodes(d, "nodes"), nodes6: nodes(d, "nodes6") })
            }
            _ => Some(DhtState { nids: Vec::new(), nodes: Vec::new(), nodes6: Vec::new() }),
        }
    }
}

pub mod near {
    use super::Sha1Hash;
    fn zeros(a: &Sha1Hash, b: &Sha1Hash) -> usize {
        let mut i = 0;
        while i < 20 {
            let x = a.data[i] ^ b.data[i];
            if x != 0 { return 8 * i + x.leading_zeros() as usize; }
            i += 1;
        }
        160
    }
    pub fn xor(a: &Sha1Hash, b: &Sha1Hash) -> Sha1Hash {
        let mut data = [0u8; 20];
        let mut i = 0;
        while i < 20 { data[i] = a.data[i] ^ b.data[i]; i += 1; }
        Sha1Hash { data }
    }
    /// 159 minus the common prefix length, and 0 for equal ids
    pub fn exp(a: &Sha1Hash, b: &Sha1Hash) -> usize {
        let z = zeros(a, b);
        if z >= 159 { 0 } else { 159 - z }
    }
    pub fn least(a: &Sha1Hash, ids: &[Sha1Hash]) -> usize {
        let mut m = 160;
        let mut i = 0;
        while i < ids.len() {
            let e = exp(a, &ids[i]);
            if e < m { m = e; }
            i += 1;
        }
        m
    }
}
#[path = "storage.rs"]
pub mod storage;
#[path = "store.rs"]
pub mod store;
pub mod node { pub fn min_distance_exp(n: &super::Sha1Hash, ids: &[super::Sha1Hash]) -> usize { loop {} } }
pub mod detail { pub fn write_socket_addr(w: &mut Vec<u8>, a: &std::net::SocketAddr) -> std::io::Result<()> { loop {} } }

pub mod msg {
    pub struct KeyDesc<'a> { pub name: &'a str, kind: usize, size: usize, flags: Flags }
    pub struct Flags { bits: u8 }
}
/// Messages.
pub mod message {
    use super::msg::KeyDesc;
    use crate::bencode::value_ref::ValueRef;
    /// the value of every described key, in order
    pub fn verify<'a, 'b>(m: &'b ValueRef<'a>, desc: &[KeyDesc], ret: &mut [&'b ValueRef<'a>]) -> Result<(), &'static str> {
        if let ValueRef::Dict(d) = m {
            let mut i = 0;
            while i < desc.len() {
                match d.get(desc[i].name) { Some(v) => ret[i] = v, None => return Err("") }
                i += 1;
            }
            Ok(())
        } else { Err("") }
    }
}
