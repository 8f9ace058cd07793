pub mod sha1 {
    #[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct Sha1Hash { pub data: [u8; 20] }
    impl Sha1Hash {
        pub fn update(b: &[u8]) -> Sha1Hash { loop {} }
        pub fn from_address(a: &std::net::IpAddr) -> Sha1Hash { loop {} }
    }
}
pub mod random { pub fn random_usize(max: usize) -> usize { loop {} } pub fn fill_bytes(b: &mut [u8]) { loop {} } }
pub mod types {
    pub struct PublicKey(pub [u8; 32]);
    pub struct SecretKey(pub [u8; 64]);
    pub struct Signature(pub [u8; 64]);
}
pub mod bloom_filter {
    pub struct BloomFilter128 { pub bits: [u8; 128] }
    pub struct BloomFilter256 { pub bits: [u8; 256] }
    use super::sha1::Sha1Hash;
    impl BloomFilter128 { pub fn new() -> Self { loop {} } pub fn find(&self, k: &Sha1Hash) -> bool { loop {} } pub fn set(&mut self, k: &Sha1Hash) { loop {} } }
    impl BloomFilter256 { pub fn new() -> Self { loop {} } pub fn find(&self, k: &Sha1Hash) -> bool { loop {} } pub fn set(&mut self, k: &Sha1Hash) { loop {} } pub fn as_bytes(&self) -> &[u8] { loop {} } }
}
pub mod hash {
    use super::sha1::Sha1Hash;
    use std::net::IpAddr;
    pub fn zero() -> Sha1Hash { Sha1Hash { data: [0; 20] } }
    pub fn ones() -> Sha1Hash { Sha1Hash { data: [255; 20] } }
    pub fn from_bytes(b: &[u8]) -> Option<Sha1Hash> {
        if b.len() == 20 {
            let mut data = [0u8; 20];
            let mut i = 0;
            while i < 20 { data[i] = b[i]; i += 1; }
            Some(Sha1Hash { data })
        } else { None }
    }
    pub fn from_array(data: [u8; 20]) -> Sha1Hash { Sha1Hash { data } }
    pub fn from_array_ref(data: &[u8; 20]) -> Sha1Hash { Sha1Hash { data: *data } }
    pub fn clear(h: &mut Sha1Hash) { h.data = [0; 20]; }
    pub fn deref(h: &Sha1Hash) -> &[u8] { &h.data }
    pub fn deref_mut(h: &mut Sha1Hash) -> &mut [u8] { &mut h.data }
    pub fn all_zeroes(h: &Sha1Hash) -> bool {
        let mut i = 0;
        while i < 20 { if h.data[i] != 0 { return false; } i += 1; }
        true
    }
    pub fn leading_zeros(h: &Sha1Hash) -> usize {
        let mut i = 0;
        while i < 20 {
            if h.data[i] != 0 { return 8 * i + h.data[i].leading_zeros() as usize; }
            i += 1;
        }
        160
    }
    pub fn eq(a: &Sha1Hash, b: &Sha1Hash) -> bool { a.data == b.data }
    pub fn cmp(a: &Sha1Hash, b: &Sha1Hash) -> std::cmp::Ordering { a.data.cmp(&b.data) }
    pub fn from_address(a: &IpAddr) -> Sha1Hash {
        match a { IpAddr::V4(x) => Sha1Hash::update(&x.octets()), IpAddr::V6(x) => Sha1Hash::update(&x.octets()) }
    }
    pub fn clone(a: &Sha1Hash) -> Sha1Hash { Sha1Hash { data: a.data } }
}
pub mod hexref {
    pub fn hex_to_int(c: u8) -> Option<u8> {
        if c >= 48 && c <= 57 { Some(c - 48) }
        else if c >= 65 && c <= 70 { Some(c - 55) }
        else if c >= 97 && c <= 102 { Some(c - 87) }
        else { None }
    }
    fn digit(c: u8) -> bool { c >= 48 && c <= 57 || c >= 65 && c <= 70 || c >= 97 && c <= 102 }
    fn value(c: u8) -> u8 { if c <= 57 { c - 48 } else if c <= 70 { c - 55 } else { c - 87 } }
    pub fn is_hex(s: &[u8]) -> bool {
        let mut i = 0;
        while i < s.len() {
            if !digit(s[i]) { return false; }
            i += 1;
        }
        true
    }
    pub fn from_hex(s: &[u8], out: &mut [u8]) -> Option<()> {
        let mut k = 0;
        while 2 * k < s.len() {
            if !digit(s[2 * k]) { return None; }
            if 2 * k + 1 >= s.len() { return None; }
            if !digit(s[2 * k + 1]) { return None; }
            out[k] = value(s[2 * k]) * 16 + value(s[2 * k + 1]);
            k += 1;
        }
        Some(())
    }
    fn lower(n: u8) -> char { if n < 10 { (48 + n) as char } else { (87 + n) as char } }
    pub fn to_hex(s: &[u8]) -> String {
        let mut r = String::new();
        let mut i = 0;
        while i < s.len() {
            r.push(lower(s[i] / 16));
            r.push(lower(s[i] % 16));
            i += 1;
        }
        r
    }
}

macro_rules! bloom {
    ($m:ident, $T:ident, $n:expr) => {
        pub mod $m {
            use super::bloom_filter::$T;
            use super::sha1::Sha1Hash;
            fn index(h: &Sha1Hash, i: usize) -> usize { (h.data[2 * i] as usize + 256 * h.data[2 * i + 1] as usize) % (8 * $n) }
            pub fn find(f: &$T, h: &Sha1Hash) -> bool {
                let a = index(h, 0);
                let b = index(h, 1);
                f.bits[a / 8] & (1 << (a % 8)) != 0 && f.bits[b / 8] & (1 << (b % 8)) != 0
            }
            pub fn set(f: &mut $T, h: &Sha1Hash) {
                let a = index(h, 0);
                let b = index(h, 1);
                f.bits[a / 8] = f.bits[a / 8] | (1 << (a % 8));
                f.bits[b / 8] = f.bits[b / 8] | (1 << (b % 8));
            }
            pub fn new() -> $T { $T { bits: [0; $n] } }
            pub fn clear(f: &mut $T) { f.bits = [0; $n]; }
            pub fn as_bytes(f: &$T) -> &[u8] { &f.bits }
            fn copy(b: &[u8]) -> $T {
                let mut f = $T { bits: [0; $n] };
                let mut i = 0;
                while i < $n { f.bits[i] = b[i]; i += 1; }
                f
            }
            pub fn from_vec(b: Vec<u8>) -> $T { copy(&b) }
            pub fn from_slice(b: &[u8]) -> $T { copy(b) }
            pub fn from_array(bits: [u8; $n]) -> $T { $T { bits } }
            pub fn from_str(s: &str) -> $T { copy(s.as_bytes()) }
            pub fn from_string(s: String) -> $T { copy(s.as_bytes()) }
            pub fn zeros(b: &[u8], n: usize) -> usize {
                let mut r = 0;
                let mut i = 0;
                while i < $n { r += b[i].count_zeros() as usize; i += 1; }
                r
            }
            pub fn size(f: &$T) -> f64 {
                let z = zeros(&f.bits, $n);
                let c = (if z < 8 * $n - 1 { z } else { 8 * $n - 1 }) as f64;
                let m = (8 * $n) as f64;
                (c / m).ln() / (2.0 * (1.0 - 1.0 / m).ln())
            }
        }
    };
}
bloom!(bloom128, BloomFilter128, 128);
bloom!(bloom256, BloomFilter256, 256);

pub mod misc {
    use super::types::*;
    pub fn clamp(v: i64, lo: i64, hi: i64) -> i64 { if v < lo { lo } else if v > hi { hi } else { v } }
    macro_rules! bytes {
        ($m:ident, $t:ident, $n:expr) => {
            pub mod $m {
                use crate::common::types::$t;
                pub fn default() -> $t { $t([0; $n]) }
                pub fn clone(a: &$t) -> $t { let mut r = [0; $n]; let mut i = 0; while i < $n { r[i] = a.0[i]; i += 1; } $t(r) }
                pub fn deref(a: &$t) -> &[u8; $n] { &a.0 }
                pub fn deref_mut(a: &mut $t) -> &mut [u8; $n] { &mut a.0 }
            }
        };
    }
    bytes!(key32, PublicKey, 32);
    bytes!(key64, SecretKey, 64);
    bytes!(sig64, Signature, 64);
    pub fn seed() -> [u8; 32] { let mut s = [0; 32]; super::random::fill_bytes(&mut s); s }
}

pub mod hex {
    pub fn from_hex(s: &[u8], out: &mut [u8]) -> Option<()> { super::hexref::from_hex(s, out) }
    pub fn to_hex(s: &[u8]) -> String { super::hexref::to_hex(s) }
}
/// Printed forms.
pub mod print {
    use super::sha1::Sha1Hash;
    pub fn hash(h: &Sha1Hash, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&super::hex::to_hex(&h.data))
    }
}
