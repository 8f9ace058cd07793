pub mod error {
    pub enum Error {
        InvalidUrl,
        UnsupportedUrlProtocol,
        InvalidEscapedString,
        InvalidInfoHash,
        ParseInt,
        ParseString,
        ParseEndpoint,
        InvalidPort,
        ExpectedCloseBracketInAddr,
        MissingInfoHash,
    }
}
pub mod text {
    use super::error::Error;
    pub fn upper(c: u8) -> u8 { if c >= 97 && c <= 122 { c - 32 } else { c } }
    pub fn digit(c: u8) -> bool { c >= 48 && c <= 57 }
    pub fn white(c: u8) -> bool { c == 32 || c == 13 || c == 10 || c == 9 }
    pub fn int(s: &[u8]) -> Result<isize, Error> {
        match std::str::from_utf8(s) {
            Ok(t) => match t.parse::<isize>() { Ok(n) => Ok(n), Err(_) => Err(Error::ParseInt) },
            Err(_) => Err(Error::ParseInt),
        }
    }
    pub fn trimmed(s: &[u8]) -> &[u8] {
        let mut a = 0;
        while a < s.len() && white(s[a]) { a += 1; }
        if a == s.len() { return &[]; }
        let t = &s[a..];
        let mut b = 0;
        while b < t.len() && white(t[t.len() - 1 - b]) { b += 1; }
        &t[..t.len() - b]
    }
    pub fn split(s: &[u8], sep: u8) -> (&[u8], &[u8]) {
        if s.len() == 0 { return (s, s); }
        let mut p = 0;
        if s[0] == 34 && sep != 34 {
            // a quoted part is skipped up to its closing quote
            while p + 1 < s.len() {
                p += 1;
                if s[p] == 34 { break; }
            }
        }
        while p < s.len() {
            if s[p] == sep { return (&s[..p], &s[p + 1..]); }
            p += 1;
        }
        (s, &s[s.len()..])
    }
    fn hexdigit(c: u8) -> bool { c >= 48 && c <= 57 || c >= 65 && c <= 70 || c >= 97 && c <= 102 }
    fn hexvalue(c: u8) -> u8 { if c <= 57 { c - 48 } else if c <= 70 { c - 55 } else { c - 87 } }
    pub fn unescape(s: &[u8]) -> Result<Vec<u8>, Error> {
        let mut r = Vec::new();
        let mut i = 0;
        while i < s.len() {
            if s[i] == 43 { r.push(32); i += 1; }
            else if s[i] != 37 { r.push(s[i]); i += 1; }
            else {
                if i + 2 >= s.len() { return Err(Error::InvalidEscapedString); }
                if !hexdigit(s[i + 1]) || !hexdigit(s[i + 2]) { return Err(Error::InvalidEscapedString); }
                r.push(hexvalue(s[i + 1]) * 16 + hexvalue(s[i + 2]));
                i += 3;
            }
        }
        Ok(r)
    }
    pub fn unescape_str(s: &[u8]) -> Result<String, Error> {
        match unescape(s) {
            Ok(v) => match String::from_utf8(v) { Ok(t) => Ok(t), Err(_) => Err(Error::InvalidEscapedString) },
            Err(e) => Err(e),
        }
    }

    fn symbol(c: u8) -> u8 {
        if c >= 65 && c <= 90 { c - 65 }
        else if c >= 97 && c <= 122 { c - 97 }
        else if c >= 50 && c <= 55 { c - 24 }
        else if c == 49 { 8 }
        else { 255 }
    }
    fn bytes_of(symbols: usize) -> usize {
        match symbols { 1 => 1, 2 => 1, 3 => 2, 4 => 2, 5 => 3, 6 => 4, 7 => 4, _ => 5 }
    }
    pub fn base32(s: &[u8]) -> Vec<u8> {
        let mut r = Vec::new();
        let mut i = 0;
        while i < s.len() {
            let n = if s.len() - i < 8 { s.len() - i } else { 8 };
            let mut v = [0u8; 8];
            let mut k = if n < 8 { n } else { 0 };
            let mut j = 0;
            while j < n {
                let c = s[i + j];
                if c == 61 {
                    if j == 0 { return Vec::new(); }
                    if k == 0 { k = j; }
                    v[j] = 0;
                } else {
                    let x = symbol(c);
                    if x > 31 { return Vec::new(); }
                    v[j] = x;
                }
                j += 1;
            }
            let o = [
                (v[0] << 3) | (v[1] >> 2),
                (v[1] << 6) | (v[2] << 1) | (v[3] >> 4),
                (v[3] << 4) | (v[4] >> 1),
                (v[4] << 7) | (v[5] << 2) | (v[6] >> 3),
                (v[6] << 5) | v[7],
            ];
            r.extend_from_slice(&o[..bytes_of(k)]);
            i += n;
        }
        r
    }
}

pub mod torrent {
    use crate::ext::url::Url;
    use std::path::PathBuf;
    pub struct Torrent { announce_url: Url, name: Option<String>, piece_len: usize, pieces: Vec<u8>, kind: TorrentKind }
    pub enum TorrentKind { File(TorrentFile), Directory(Vec<TorrentFile>) }
    pub struct TorrentFile { path: PathBuf, len: usize }
    impl Torrent {
        pub fn of(announce_url: Url, name: &str, piece_len: usize, pieces: &[u8], kind: TorrentKind) -> Torrent {
            Torrent { announce_url, name: Some(String::from(name)), piece_len, pieces: pieces.to_vec(), kind }
        }
    }
    /// the repository's own predicate where there is one (it is shown to be the reference's)
    pub fn is_plain_file_name(name: &str) -> bool { super::metainfo::plain(name) }
    impl TorrentFile { pub fn of(path: PathBuf, len: usize) -> TorrentFile { TorrentFile { path, len } } }
}
/// Torrent files.
pub mod metainfo {
    use super::torrent::*;
    use crate::bencode::value_ref::ValueRef;
    use std::collections::BTreeMap;
    use std::path::PathBuf;

    type Dict<'a> = BTreeMap<&'a str, ValueRef<'a>>;
    fn dict<'v, 'a>(v: &'v ValueRef<'a>) -> Option<&'v Dict<'a>> { match v { ValueRef::Dict(d) => Some(d), _ => None } }
    fn list<'v, 'a>(v: &'v ValueRef<'a>) -> Option<&'v Vec<ValueRef<'a>>> { match v { ValueRef::List(l) => Some(l), _ => None } }
    fn bytes<'v, 'a>(v: &'v ValueRef<'a>) -> Option<&'a [u8]> { match v { ValueRef::Bytes(b) => Some(b), _ => None } }
    fn text<'v, 'a>(v: &'v ValueRef<'a>) -> Option<&'a str> {
        match bytes(v) { Some(b) => match std::str::from_utf8(b) { Ok(s) => Some(s), Err(_) => None }, None => None }
    }
    /// a number that is not negative
    fn size<'v, 'a>(v: &'v ValueRef<'a>) -> Option<usize> { match v { ValueRef::Int(n) => if *n >= 0 { Some(*n as usize) } else { None }, _ => None } }
    /// the name of one file or directory, which cannot lead anywhere else
    pub fn plain(s: &str) -> bool {
        let b = s.as_bytes();
        if b.len() == 0 { return false; }
        if b.len() == 1 && b[0] == b'.' { return false; }
        if b.len() == 2 && b[0] == b'.' && b[1] == b'.' { return false; }
        !s.contains(|c: char| c == '/' || c == '\\' || c == '\0')
    }
    fn file<'v, 'a>(v: &'v ValueRef<'a>) -> Option<TorrentFile> {
        let d = dict(v)?;
        let len = size(d.get("length")?)?;
        let mut path = PathBuf::new();
        let segments = list(d.get("path")?)?;
        for s in segments {
            let s = text(s)?;
            if !is_plain_file_name(s) { return None; }
            path.push(s);
        }
        if segments.len() == 0 { return None; }
        Some(TorrentFile::of(path, len))
    }
    pub fn parse(b: &[u8]) -> Option<Torrent> {
        if b.len() > 6000000 { return None; }
        let v = match ValueRef::decode_with_limits(b, Some(100), Some(2000000)) { Ok(v) => v, Err(_) => return None };
        let top = dict(&v)?;
        let url = text(top.get("announce")?)?;
        let info = dict(top.get("info")?)?;
        let name = text(info.get("name")?)?;
        if !is_plain_file_name(name) { return None; }
        let piece_len = size(info.get("piece length")?)?;
        let pieces = bytes(info.get("pieces")?)?;
        // one SHA-1 digest per piece
        if pieces.len() % 20 != 0 || pieces.len() > 20 * 0x100000 { return None; }
        let kind = match (info.get("length"), info.get("files")) {
            (Some(_), Some(_)) | (None, None) => return None,
            (Some(n), None) => {
                let len = size(n)?;
                let mut path = PathBuf::new();
                path.push(name);
                TorrentKind::File(TorrentFile::of(path, len))
            }
            (None, Some(l)) => {
                let mut r = Vec::new();
                for f in list(l)? { r.push(file(f)?); }
                TorrentKind::Directory(r)
            }
        };
        let url = match url.parse() { Ok(u) => u, Err(_) => return None };
        Some(Torrent::of(url, name, piece_len, pieces, kind))
    }
}

pub mod flags { pub struct TorrentFlags { pub bits: u64 } }
pub mod fs { pub struct FileStorage { pub piece_len: usize } }
pub mod info { pub struct TorrentInfo { pub files: super::fs::FileStorage } }
pub mod download_priority { #[derive(Clone)] pub enum DownloadPriority { DontDownload, LowPriority, DefaultPriority, TopPriority } }
pub mod params {
    use crate::common::sha1::Sha1Hash;
    use super::{download_priority::DownloadPriority, flags::TorrentFlags, info::TorrentInfo};
    use std::collections::HashMap;
    use std::net::SocketAddr;
    use std::sync::Arc;
    use std::time::{Duration, Instant};
    pub struct TorrentParams {
        pub version: usize,
        pub torrent_info: Arc<TorrentInfo>,
        pub trackers: Vec<String>,
        pub tracker_tiers: Vec<isize>,
        pub dht_nodes: Vec<(String, u16)>,
        pub name: String,
        pub save_path: String,
        pub storage_mode: (),
        pub storage: (),
        pub user_data: (),
        pub file_priorities: Vec<DownloadPriority>,
        pub flags: TorrentFlags,
        pub info_hash: Sha1Hash,
        pub max_uploads: isize,
        pub max_connections: isize,
        pub upload_limit: isize,
        pub download_limit: isize,
        pub total_uploaded: usize,
        pub total_downloaded: usize,
        pub active_time: Duration,
        pub finished_time: Duration,
        pub seeding_time: Duration,
        pub added_time: Instant,
        pub completed_time: Option<Instant>,
        pub last_seen_complete: Option<Instant>,
        pub num_complete: isize,
        pub num_incomplete: isize,
        pub num_downloaded: isize,
        pub http_seeds: Vec<String>,
        pub url_seeds: Vec<String>,
        pub peers: Vec<SocketAddr>,
        pub banned_peers: Vec<SocketAddr>,
        pub unfinished_pieces: HashMap<(), ()>,
        pub have_pieces: (),
        pub verified_pieces: (),
        pub piece_priorities: Vec<()>,
        pub merkle_tree: Vec<Sha1Hash>,
        pub renamed_files: HashMap<(), ()>,
        pub last_download: Option<Instant>,
        pub last_upload: Option<Instant>,
    }
}
/// What a torrent starts with.
pub mod start {
    use super::{flags::TorrentFlags, fs::FileStorage, info::TorrentInfo, params::TorrentParams};
    use crate::common::sha1::Sha1Hash;
    use std::collections::HashMap;
    use std::sync::Arc;
    use std::time::{Duration, Instant};
    pub fn storage() -> FileStorage { FileStorage { piece_len: 0 } }
    pub fn info() -> TorrentInfo { TorrentInfo { files: storage() } }
    pub fn valid(s: &FileStorage) -> bool { s.piece_len != 0 }
    /// update_subscribe, auto_managed, paused, apply_ip_filter, need_save_resume
    pub fn flags() -> TorrentFlags { TorrentFlags { bits: 1 << 7 | 1 << 5 | 1 << 4 | 1 << 3 | 1 << 13 } }
    pub fn params() -> TorrentParams {
        TorrentParams {
            version: 0,
            torrent_info: Arc::new(info()),
            trackers: Vec::new(),
            tracker_tiers: Vec::new(),
            dht_nodes: Vec::new(),
            name: String::new(),
            save_path: String::new(),
            storage_mode: (),
            storage: (),
            user_data: (),
            file_priorities: Vec::new(),
            flags: flags(),
            info_hash: Sha1Hash { data: [0; 20] },
            max_uploads: 0,
            max_connections: 0,
            upload_limit: 0,
            download_limit: 0,
            total_uploaded: 0,
            total_downloaded: 0,
            active_time: Duration::from_millis(0),
            finished_time: Duration::from_millis(0),
            seeding_time: Duration::from_millis(0),
            added_time: Instant::now(),
            completed_time: None,
            last_seen_complete: None,
            num_complete: 0,
            num_incomplete: 0,
            num_downloaded: 0,
            http_seeds: Vec::new(),
            url_seeds: Vec::new(),
            peers: Vec::new(),
            banned_peers: Vec::new(),
            unfinished_pieces: HashMap::new(),
            have_pieces: (),
            verified_pieces: (),
            piece_priorities: Vec::new(),
            merkle_tree: Vec::new(),
            renamed_files: HashMap::new(),
            last_download: None,
            last_upload: None,
        }
    }
}
/// Errors of libraries.
pub mod failure {
    use super::error::Error;
    pub fn url(_e: ()) -> Error { Error::InvalidUrl }
    pub fn addr(_e: std::net::AddrParseError) -> Error { Error::ParseEndpoint }
    pub fn number(_e: std::num::ParseIntError) -> Error { Error::ParseInt }
}

/// Magnet links.
pub mod magnet {
    use super::{download_priority::DownloadPriority, error::Error, params::TorrentParams, start, text};
    use crate::ext::url::Url;
    use std::net::SocketAddr;
    pub const LAST_FILE: isize = 10_000;

    /// The digest, from 40 hex digits or 32 base32 digits.
    fn hash(s: &[u8]) -> Option<[u8; 20]> {
        let mut d = [0u8; 20];
        if s.len() == 40 {
            if crate::common::hex::from_hex(s, &mut d).is_some() { Some(d) } else { None }
        } else if s.len() == 32 {
            let v = super::str_utl::base32_decode(s);
            if v.len() == 20 { d.copy_from_slice(&v); Some(d) } else { None }
        } else {
            None
        }
    }
    /// The files chosen by one token: `None` if it chooses none.
    fn files(t: &[u8]) -> Result<Option<(isize, isize)>, Error> {
        let mut dash = 0;
        while dash < t.len() && t[dash] != 45 { dash += 1; }
        if dash == t.len() {
            let n = text::int(t)?;
            return Ok(if n >= 0 && n <= LAST_FILE { Some((n, n)) } else { None });
        }
        if dash == 0 || dash + 1 == t.len() { return Ok(None); }
        let a = text::int(&t[..dash])?;
        if a < 0 || a > LAST_FILE { return Ok(None); }
        let b = text::int(&t[dash + 1..])?;
        if b < a || b > LAST_FILE { return Ok(None); }
        Ok(Some((a, b)))
    }
    fn select(v: &str, p: &mut TorrentParams) -> Result<(), Error> {
        let b = v.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if !(text::digit(b[i]) || b[i] == 45 || b[i] == 44) { return Ok(()); }
            i += 1;
        }
        let mut left = v.as_bytes();
        while left.len() > 0 {
            let (t, rest) = super::str_utl::split_string(left, 44);
            left = rest;
            if t.len() == 0 { continue; }
            if let Some((a, b)) = files(t)? {
                let n = b as usize + 1;
                if p.file_priorities.len() < n { p.file_priorities.resize(n, DownloadPriority::DontDownload); }
                for i in a..=b { p.file_priorities[i as usize] = DownloadPriority::DefaultPriority; }
            }
        }
        Ok(())
    }
    fn node(v: &str, p: &mut TorrentParams) -> Result<(), Error> {
        let b = v.as_bytes();
        let mut k = b.len();
        while k > 0 {
            k -= 1;
            if b[k] == 58 {
                match v[k + 1..].parse::<u16>() {
                    Ok(port) => { p.dht_nodes.push((String::from(&v[..k]), port)); return Ok(()); }
                    Err(_) => return Err(Error::ParseInt),
                }
            }
        }
        Ok(())
    }
    pub fn parse(uri: &str, p: &mut TorrentParams) -> Result<(), Error> {
        let url = match Url::parse(uri) { Ok(u) => u, Err(_) => return Err(Error::InvalidUrl) };
        if url.scheme() != "magnet" { return Err(Error::UnsupportedUrlProtocol); }
        let mut tier = 0;
        let mut found = false;
        let mut pairs = url.query_pairs();
        while let Some((key, value)) = pairs.next() {
            let k: &str = &key;
            if k == "dn" {
                p.name = String::from(&*value);
            } else if k == "tr" {
                // tiers follow the trackers; earlier trackers without one are in the first
                if p.tracker_tiers.len() != p.trackers.len() { p.tracker_tiers.resize(p.trackers.len(), 0); }
                p.trackers.push(String::from(&*value));
                p.tracker_tiers.push(tier);
                tier += 1;
            } else if k == "ws" {
                p.url_seeds.push(String::from(&*value));
            } else if k == "xt" {
                if value.starts_with("urn:btih:") {
                    match hash(value[9..].as_bytes()) {
                        Some(d) => { p.info_hash.data = d; found = true; }
                        None => return Err(Error::InvalidInfoHash),
                    }
                }
            } else if k == "so" {
                select(&value, p)?;
            } else if k == "x.pe" {
                match value.parse::<SocketAddr>() {
                    Ok(a) => p.peers.push(a),
                    Err(_) => return Err(Error::ParseEndpoint),
                }
            } else if k == "dht" {
                node(&value, p)?;
            }
        }
        if found { Ok(()) } else { Err(Error::MissingInfoHash) }
    }
    pub fn of(uri: &str) -> Result<TorrentParams, Error> {
        let mut p = start::params();
        match super::magnet_uri::parse_magnet_uri(uri, &mut p) { Ok(()) => Ok(p), Err(e) => Err(e) }
    }
    pub fn link(p: &TorrentParams, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("magnet:?xt=urn:btih:")?;
        f.write_str(&crate::common::hex::to_hex(&p.info_hash.data))
    }
}
pub mod magnet_uri {
    use super::{error::Error, params::TorrentParams};
    pub fn parse_magnet_uri(uri: &str, p: &mut TorrentParams) -> Result<(), Error> { super::magnet::parse(uri, p) }
}
pub mod str_utl {
    pub fn base32_decode(s: &[u8]) -> Vec<u8> { super::text::base32(s) }
    pub fn split_string(s: &[u8], sep: u8) -> (&[u8], &[u8]) { super::text::split(s, sep) }
}
