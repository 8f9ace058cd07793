//! Types of dht::storage.
use super::super::bencode::value::Value;
use super::super::common::bloom_filter::BloomFilter128;
use super::super::common::sha1::Sha1Hash;
use super::super::common::types::{PublicKey, Signature};
use super::settings::DhtSettings;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::net::SocketAddr;
use std::time::Instant;
pub struct DhtStorageCounter { pub torrents: i32, pub peers: i32, pub immutable_data: i32, pub mutable_data: i32 }
pub struct PeerEntry { pub added: Instant, pub addr: SocketAddr, pub seed: bool }
impl PartialEq for PeerEntry { fn eq(&self, o: &Self) -> bool { loop {} } }
impl Eq for PeerEntry {}
impl PartialOrd for PeerEntry { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { loop {} } }
impl Ord for PeerEntry { fn cmp(&self, o: &Self) -> Ordering { loop {} } }
pub struct TorrentEntry { pub name: String, pub peers4: Vec<PeerEntry>, pub peers6: Vec<PeerEntry> }
pub struct DhtImmutableItem { pub value: Vec<u8>, pub ips: BloomFilter128, pub last_seen: Instant, pub num_announcers: usize, pub size: usize }
pub struct DhtMutableItem { pub inner: DhtImmutableItem, pub sig: Signature, pub seq: i64, pub key: PublicKey, pub salt: Vec<u8> }
pub struct InfohashesSample { pub samples: Vec<Sha1Hash>, pub created: Instant }
pub struct DefaultDhtStorage<'a> {
    pub settings: &'a DhtSettings,
    pub counters: DhtStorageCounter,
    pub node_ids: Vec<Sha1Hash>,
    pub map: HashMap<Sha1Hash, TorrentEntry>,
    pub immutable_table: HashMap<Sha1Hash, DhtImmutableItem>,
    pub mutable_table: HashMap<Sha1Hash, DhtMutableItem>,
    pub infohashes_sample: InfohashesSample,
}
