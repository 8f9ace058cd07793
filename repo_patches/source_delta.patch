From e94964851413dec29fa383478d4c76f8f188b53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 01/20] fix: accept an empty byte string at the end of the
 input

---
 bencode/src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bencode/src/reader.rs b/bencode/src/reader.rs
index 3d71786..2855e9a 100644
--- a/bencode/src/reader.rs
+++ b/bencode/src/reader.rs
@@ -53,7 +53,7 @@ impl<'a> Reader<'a> {
 
     pub fn read_exact(&mut self, len: usize) -> Result<&'a [u8]> {
         let end_index = self.curr_idx + len;
-        if self.curr_idx >= self.buf.len() || end_index > self.buf.len() {
+        if end_index > self.buf.len() {
             self.curr_idx = self.buf.len();
             return Err(Error::EOF);
         }
-- 
2.43.0


From 02b855cfbffd6dc3d1d268c3ee8ce163ec9658e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 02/20] fix: shift Sha1Hash by bytes without copying past its
 20 bytes

---
 common/src/sha1.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/src/sha1.rs b/common/src/sha1.rs
index 911004c..64bb913 100644
--- a/common/src/sha1.rs
+++ b/common/src/sha1.rs
@@ -125,7 +125,7 @@ impl std::ops::ShlAssign<usize> for Sha1Hash {
                 std::ptr::copy(
                     self.data[shift_bytes..].as_mut_ptr(),
                     self.data.as_mut_ptr(),
-                    (SIZE - shift_bytes) * 8,
+                    SIZE - shift_bytes,
                 );
             }
             self.data[(SIZE - shift_bytes)..]
@@ -162,7 +162,7 @@ impl std::ops::ShrAssign<usize> for Sha1Hash {
                 std::ptr::copy(
                     self.data.as_mut_ptr(),
                     self.data[shift_bytes..].as_mut_ptr(),
-                    (SIZE - shift_bytes) * 8,
+                    SIZE - shift_bytes,
                 );
             }
             self.data[..shift_bytes].iter_mut().for_each(|v| *v = 0);
-- 
2.43.0


From b8d3547299c729aed0119c0141dc3aae7815ced6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 03/20] fix: from_hex combines both nibbles of a byte

---
 common/src/hex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/hex.rs b/common/src/hex.rs
index cd72731..e76042b 100644
--- a/common/src/hex.rs
+++ b/common/src/hex.rs
@@ -30,7 +30,7 @@ pub fn from_hex(s: &[u8], out: &mut [u8]) -> Option<()> {
         }
         let t2 = hex_to_int(s[i])? & 0xf;
         i += 1;
-        out[j] = t1 & t2;
+        out[j] = t1 | t2;
         j += 1;
     }
     Some(())
-- 
2.43.0


From eafcdd0f5cef27c677f081dd009b7a20c72605e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 04/20] fix: reject a non-hex magnet info hash instead of
 panicking

---
 src/magnet_uri.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnet_uri.rs b/src/magnet_uri.rs
index cb48cbb..3ee5de3 100644
--- a/src/magnet_uri.rs
+++ b/src/magnet_uri.rs
@@ -64,7 +64,7 @@ pub fn parse_magnet_uri(uri: &str, p: &mut TorrentParams) -> Result<()> {
                 let mut s = Sha1Hash::new();
                 match value.len() {
                     40 => {
-                        hex::from_hex(value.as_bytes(), &mut s).unwrap();
+                        hex::from_hex(value.as_bytes(), &mut s).ok_or(Error::InvalidInfoHash)?;
                     }
                     32 => {
                         let ih = str_utl::base32_decode(value.as_bytes());
-- 
2.43.0


From 226f81a3d868923911d40d1cfd88513800cad929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 05/20] fix: skip an invalid select-only token instead of
 looping forever

---
 src/magnet_uri.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/magnet_uri.rs b/src/magnet_uri.rs
index 3ee5de3..5188180 100644
--- a/src/magnet_uri.rs
+++ b/src/magnet_uri.rs
@@ -90,6 +90,7 @@ pub fn parse_magnet_uri(uri: &str, p: &mut TorrentParams) -> Result<()> {
                 let mut value = value.as_bytes();
                 while !value.is_empty() {
                     let (token, rest) = str_utl::split_string(value, b',');
+                    value = rest;
                     if token.is_empty() {
                         continue;
                     }
@@ -146,8 +147,6 @@ pub fn parse_magnet_uri(uri: &str, p: &mut TorrentParams) -> Result<()> {
                     for i in idx1..=idx2 {
                         p.file_priorities[i as usize] = DownloadPriority::DefaultPriority;
                     }
-
-                    value = rest;
                 }
             }
             "x.pe" => {
-- 
2.43.0


From 6d2ec607da9c185d3dd7b4bc527cef05a948cac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 06/20] fix: base32_decode rejects padding at the start of a
 chunk

---
 src/str_utl.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/str_utl.rs b/src/str_utl.rs
index 51f462b..289016f 100644
--- a/src/str_utl.rs
+++ b/src/str_utl.rs
@@ -164,6 +164,10 @@ pub fn base32_decode(s: &[u8]) -> Vec<u8> {
                 b'A'..=b'Z' => c - b'A',
                 b'2'..=b'7' => c - b'2' + (b'Z' - b'A') + 1,
                 b'=' => {
+                    if j == 0 {
+                        // a chunk can't start with padding
+                        return vec![];
+                    }
                     if pad_start == 0 {
                         pad_start = j;
                     }
-- 
2.43.0


From 9a540d22ce449672f60cea604efebede5c257e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 07/20] fix: do not store more than max_torrents torrents

---
 dht/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index 48371dc..8edb13c 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -343,7 +343,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
         let v = if let Some(v) = self.map.get_mut(info_hash) {
             v
         } else {
-            if self.map.len() > self.settings.max_torrents {
+            if self.map.len() >= self.settings.max_torrents {
                 // we're at capacity, drop the announce
                 return;
             }
-- 
2.43.0


From 5bfff4e6f222461f0da9f7e87bede55cb62bbedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 08/20] fix: evicting a mutable item decrements its counter

---
 dht/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index 8edb13c..7c72f2e 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -482,7 +482,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
                     let (key, _) = pick_least_imp(&self.node_ids, &self.mutable_table).unwrap();
                     let key = key.clone();
                     self.mutable_table.remove(&key);
-                    self.counters.mutable_data += 1;
+                    self.counters.mutable_data -= 1;
                 }
                 let mut item = DhtMutableItem::new(buf.to_vec());
                 item.seq = seq;
-- 
2.43.0


From 3dc37228b3430de432afff0aba861afd9b0c8d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 09/20] fix: compute eviction scores without unsigned underflow

---
 dht/src/storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index 7c72f2e..aa59d28 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -526,8 +526,8 @@ fn pick_least_imp<'a, T: ImmutableItem>(
         let dist_1 = crate::node::min_distance_exp(node_1, node_ids);
         let dist_2 = crate::node::min_distance_exp(node_2, node_ids);
 
-        let n1 = t1.num_announcers() / 5 - dist_1;
-        let n2 = t2.num_announcers() / 5 - dist_2;
+        let n1 = (t1.num_announcers() / 5) as isize - dist_1 as isize;
+        let n2 = (t2.num_announcers() / 5) as isize - dist_2 as isize;
         n1.cmp(&n2)
     })
 }
-- 
2.43.0


From f846679907f5f818aff8c7bb0fe9269b1d3ea6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 10/20] fix: distance_exp of equal node ids does not underflow

---
 dht/src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/node.rs b/dht/src/node.rs
index 6972fcc..ff1eb69 100644
--- a/dht/src/node.rs
+++ b/dht/src/node.rs
@@ -20,7 +20,7 @@ pub fn distance_exp(n1: &NodeId, n2: &NodeId) -> usize {
     // TODO: it's a little bit weird to return 159 - leading zeroes. It should
     // probably be 160 - leading zeroes, but all other code in here is tuned to
     // this expectation now, and it doesn't really matter (other than complexity)
-    cmp::max(159 - distance(n1, n2).leading_zeros(), 0)
+    159_usize.saturating_sub(distance(n1, n2).leading_zeros())
 }
 
 pub fn min_distance_exp(n1: &NodeId, ids: &[NodeId]) -> usize {
-- 
2.43.0


From ba8c9ca98a2eec4be57b90f1ec9c71c4502e570b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 11/20] fix: get_peers creates the values list when it is
 missing

---
 dht/src/storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index aa59d28..d7df18d 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -288,8 +288,8 @@ impl DhtStorage for DefaultDhtStorage<'_> {
             }
 
             let pe = peer_map
-                .get_mut("values")
-                .unwrap()
+                .entry(String::from("values"))
+                .or_insert_with(|| Value::with_list(vec![]))
                 .as_list_mut()
                 .ok_or_else(|| bencode::Error::ParseList)?;
 
-- 
2.43.0


From 5107deb196395d48d906b2f6a709e7c4647e5e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 12/20] fix: do not panic on put when max_dht_items is zero

---
 dht/src/storage.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index d7df18d..7140882 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -407,8 +407,10 @@ impl DhtStorage for DefaultDhtStorage<'_> {
         let mut i = self.immutable_table.get_mut(target);
         if i.is_none() {
             if self.immutable_table.len() >= self.settings.max_dht_items {
-                let (k, _) = pick_least_imp(&self.node_ids, &self.immutable_table).unwrap();
-                let k = k.clone();
+                let k = match pick_least_imp(&self.node_ids, &self.immutable_table) {
+                    Some((k, _)) => k.clone(),
+                    None => return, // no room for any item
+                };
                 self.immutable_table.remove(&k);
                 self.counters.immutable_data -= 1;
             }
@@ -479,8 +481,10 @@ impl DhtStorage for DefaultDhtStorage<'_> {
                 // this is the case where we don't have an item in this slot
                 // make sure we don't add too many items
                 if self.mutable_table.len() >= self.settings.max_dht_items {
-                    let (key, _) = pick_least_imp(&self.node_ids, &self.mutable_table).unwrap();
-                    let key = key.clone();
+                    let key = match pick_least_imp(&self.node_ids, &self.mutable_table) {
+                        Some((key, _)) => key.clone(),
+                        None => return, // no room for any item
+                    };
                     self.mutable_table.remove(&key);
                     self.counters.mutable_data -= 1;
                 }
-- 
2.43.0


From 9fb85e33360c1c552d97c9ffcfac917987875796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 13/20] fix: a stored item that is not bencode does not panic
 the lookup

---
 dht/src/storage.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index 7140882..b3d77aa 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -390,8 +390,6 @@ impl DhtStorage for DefaultDhtStorage<'_> {
             if let Some(dict) = item.as_dict_mut() {
                 if let Ok(v) = Value::decode(&dht.value) {
                     dict.insert("v".to_string(), v);
-                } else {
-                    debug_assert!(false, "Unable to decode");
                 }
             } else {
                 debug_assert!(false, "item is not a dict");
@@ -444,9 +442,11 @@ impl DhtStorage for DefaultDhtStorage<'_> {
             if let Some(dict) = item.as_dict_mut() {
                 dict.insert("seq".to_string(), Value::with_int(f.seq));
                 if force_fill || 0 <= seq && seq < f.seq {
-                    dict.insert("v".to_string(), Value::decode(&f.inner.value).unwrap());
-                    dict.insert("sig".to_string(), Value::from(&f.sig[..]));
-                    dict.insert("k".to_string(), Value::from(&f.key[..]));
+                    if let Ok(v) = Value::decode(&f.inner.value) {
+                        dict.insert("v".to_string(), v);
+                        dict.insert("sig".to_string(), Value::from(&f.sig[..]));
+                        dict.insert("k".to_string(), Value::from(&f.key[..]));
+                    }
                 }
             } else {
                 panic!("Value not a dict");
-- 
2.43.0


From 546b3be7e864a94d3d1b6566e7de82cab6cbf949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 14/20] fix: DhtSettings::read ignores a setting of the wrong
 type

---
 dht/src/settings.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dht/src/settings.rs b/dht/src/settings.rs
index dba05c0..f145d5e 100644
--- a/dht/src/settings.rs
+++ b/dht/src/settings.rs
@@ -36,16 +36,16 @@ pub struct Settings {
 
 macro_rules! read_int {
     ($settings: expr, $dict: expr, $key: ident) => {
-        if let Some(value) = $dict.get(stringify!($key)) {
-            $settings.$key = value.as_int().unwrap() as usize;
+        if let Some(value) = $dict.get(stringify!($key)).and_then(|v| v.as_int()) {
+            $settings.$key = value as usize;
         }
     };
 }
 
 macro_rules! read_bool {
     ($settings: expr, $dict: expr, $key: ident) => {
-        if let Some(value) = $dict.get(stringify!($key)) {
-            $settings.$key = value.as_int().unwrap() != 0;
+        if let Some(value) = $dict.get(stringify!($key)).and_then(|v| v.as_int()) {
+            $settings.$key = value != 0;
         }
     };
 }
-- 
2.43.0


From 975b8dbe4861934e36f4ffe3236d57d5ddf00507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 15/20] fix: save and read every DhtSettings field

---
 dht/src/settings.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dht/src/settings.rs b/dht/src/settings.rs
index f145d5e..797d7f2 100644
--- a/dht/src/settings.rs
+++ b/dht/src/settings.rs
@@ -110,6 +110,9 @@ impl DhtSettings {
         set_int!(dict, block_timeout, self);
         set_int!(dict, block_ratelimit, self);
         set_int!(dict, item_lifetime, self);
+        set_int!(dict, upload_rate_limit, self);
+        set_int!(dict, sample_infohashes_interval, self);
+        set_int!(dict, max_infohashes_sample_count, self);
 
         set_bool!(dict, restrict_routing_ips, self);
         set_bool!(dict, restrict_search_ips, self);
@@ -141,6 +144,9 @@ impl DhtSettings {
         read_int!(settings, dict, block_timeout);
         read_int!(settings, dict, block_ratelimit);
         read_int!(settings, dict, item_lifetime);
+        read_int!(settings, dict, upload_rate_limit);
+        read_int!(settings, dict, sample_infohashes_interval);
+        read_int!(settings, dict, max_infohashes_sample_count);
 
         read_bool!(settings, dict, restrict_routing_ips);
         read_bool!(settings, dict, restrict_search_ips);
-- 
2.43.0


From 3448b779ed1660a324125cbce1b71200789a4a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 16/20] fix: apply the torrent limits when parsing a torrent

---
 src/torrent.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/torrent.rs b/src/torrent.rs
index 2e948b0..d0becaa 100644
--- a/src/torrent.rs
+++ b/src/torrent.rs
@@ -1,6 +1,9 @@
+use std::convert::TryFrom;
 use std::path::PathBuf;
 use url::Url;
 
+use crate::info::TorrentLimits;
+
 #[derive(Debug)]
 pub struct Torrent {
     /// Tracker URL
@@ -34,7 +37,16 @@ pub struct TorrentFile {
 
 impl Torrent {
     fn parse(bytes: &[u8]) -> Option<Self> {
-        let parsed = bencode::ValueRef::decode(bytes).ok()?;
+        let limits = TorrentLimits::default();
+        if bytes.len() > limits.max_buf_size {
+            return None;
+        }
+        let parsed = bencode::ValueRef::decode_with_limits(
+            bytes,
+            Some(limits.max_decode_depth),
+            Some(limits.max_decode_tokens),
+        )
+        .ok()?;
         let dict = parsed.as_dict()?;
 
         let announce_url = dict.get("announce")?.as_str()?;
@@ -42,7 +54,7 @@ impl Torrent {
         let name = info.get("name")?.as_str()?;
         let piece_len = info.get("piece length")?.as_int()? as usize;
         let pieces = info.get("pieces")?.as_bytes()?;
-        if pieces.len() % 20 != 0 {
+        if pieces.len() % 20 != 0 || pieces.len() / 20 > limits.max_pieces {
             return None;
         }
 
-- 
2.43.0


From f49eb1c68b8e78f61f5bc0906168e432eddb4366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 17/20] fix: reject negative lengths in a torrent

---
 src/torrent.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/torrent.rs b/src/torrent.rs
index d0becaa..eb801e2 100644
--- a/src/torrent.rs
+++ b/src/torrent.rs
@@ -52,7 +52,7 @@ impl Torrent {
         let announce_url = dict.get("announce")?.as_str()?;
         let info = dict.get("info")?.as_dict()?;
         let name = info.get("name")?.as_str()?;
-        let piece_len = info.get("piece length")?.as_int()? as usize;
+        let piece_len = usize::try_from(info.get("piece length")?.as_int()?).ok()?;
         let pieces = info.get("pieces")?.as_bytes()?;
         if pieces.len() % 20 != 0 || pieces.len() / 20 > limits.max_pieces {
             return None;
@@ -65,7 +65,7 @@ impl Torrent {
                 // Can't have `files` key at the same time
                 return None;
             }
-            let len = len.as_int()? as usize;
+            let len = usize::try_from(len.as_int()?).ok()?;
             kind = TorrentKind::File(TorrentFile {
                 path: name.into(),
                 len,
@@ -76,7 +76,7 @@ impl Torrent {
             let mut dir = vec![];
             for file in files.as_list()? {
                 let file = file.as_dict()?;
-                let len = file.get("length")?.as_int()? as usize;
+                let len = usize::try_from(file.get("length")?.as_int()?).ok()?;
                 let mut path = PathBuf::new();
                 for segment in file.get("path")?.as_list()? {
                     path.push(segment.as_str()?);
-- 
2.43.0


From 078038a4390d6cae99ec1e53b4af7d75350f3b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 18/20] fix: reject torrent file names that leave the download
 directory

---
 src/torrent.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/torrent.rs b/src/torrent.rs
index eb801e2..c43ce22 100644
--- a/src/torrent.rs
+++ b/src/torrent.rs
@@ -35,6 +35,14 @@ pub struct TorrentFile {
     len: usize,
 }
 
+/// A name that stays inside the directory it is joined to
+fn is_plain_file_name(name: &str) -> bool {
+    !name.is_empty()
+        && name != "."
+        && name != ".."
+        && !name.contains(|c| c == '/' || c == '\\' || c == '\0')
+}
+
 impl Torrent {
     fn parse(bytes: &[u8]) -> Option<Self> {
         let limits = TorrentLimits::default();
@@ -52,6 +60,9 @@ impl Torrent {
         let announce_url = dict.get("announce")?.as_str()?;
         let info = dict.get("info")?.as_dict()?;
         let name = info.get("name")?.as_str()?;
+        if !is_plain_file_name(name) {
+            return None;
+        }
         let piece_len = usize::try_from(info.get("piece length")?.as_int()?).ok()?;
         let pieces = info.get("pieces")?.as_bytes()?;
         if pieces.len() % 20 != 0 || pieces.len() / 20 > limits.max_pieces {
@@ -79,7 +90,14 @@ impl Torrent {
                 let len = usize::try_from(file.get("length")?.as_int()?).ok()?;
                 let mut path = PathBuf::new();
                 for segment in file.get("path")?.as_list()? {
-                    path.push(segment.as_str()?);
+                    let segment = segment.as_str()?;
+                    if !is_plain_file_name(segment) {
+                        return None;
+                    }
+                    path.push(segment);
+                }
+                if path.as_os_str().is_empty() {
+                    return None;
                 }
                 dir.push(TorrentFile { path, len });
             }
-- 
2.43.0


From 780f441d4fea79aed7109201efd0acea6b5da7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:19 +0000
Subject: [PATCH 19/20] fix: move the bytes of a shifted hash with copy_within

The raw copy used a pointer that the second borrow of the same array
had invalidated: undefined behaviour under stacked borrows (miri).
---
 common/src/sha1.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/common/src/sha1.rs b/common/src/sha1.rs
index 64bb913..ea06bdf 100644
--- a/common/src/sha1.rs
+++ b/common/src/sha1.rs
@@ -121,13 +121,7 @@ impl std::ops::ShlAssign<usize> for Sha1Hash {
 
         if shift_bytes > 0 {
             debug_assert!(shift_bytes < self.data.len());
-            unsafe {
-                std::ptr::copy(
-                    self.data[shift_bytes..].as_mut_ptr(),
-                    self.data.as_mut_ptr(),
-                    SIZE - shift_bytes,
-                );
-            }
+            self.data.copy_within(shift_bytes.., 0);
             self.data[(SIZE - shift_bytes)..]
                 .iter_mut()
                 .for_each(|v| *v = 0);
@@ -158,13 +152,7 @@ impl std::ops::ShrAssign<usize> for Sha1Hash {
 
         if shift_bytes > 0 {
             debug_assert!(shift_bytes < self.data.len());
-            unsafe {
-                std::ptr::copy(
-                    self.data.as_mut_ptr(),
-                    self.data[shift_bytes..].as_mut_ptr(),
-                    SIZE - shift_bytes,
-                );
-            }
+            self.data.copy_within(..SIZE - shift_bytes, shift_bytes);
             self.data[..shift_bytes].iter_mut().for_each(|v| *v = 0);
             shift -= shift_bytes * 8;
         }
-- 
2.43.0


From e950358896bb8a61e03c6b3d54e5b94093f7d85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:29 +0000
Subject: [PATCH 20/20] fix: store one entry per address and port

Entries are ordered by address and port, but a found entry was only
replaced when the whole socket address was equal. IPv6 endpoints that
differ in flow label or scope were then inserted again and again.
---
 dht/src/storage.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index b3d77aa..7d82480 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -328,7 +328,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
         };
 
         match peersv.binary_search(&requester_entry) {
-            Ok(i) => Ok(&peersv[i].addr != requester),
+            Ok(_) => Ok(false),
             Err(_) => Ok(true),
         }
     }
@@ -371,13 +371,12 @@ impl DhtStorage for DefaultDhtStorage<'_> {
         };
 
         match peersv.binary_search(&peer) {
-            Ok(i) if &peersv[i].addr == endpoint => peersv[i] = peer,
-            v => {
+            Ok(i) => peersv[i] = peer,
+            Err(i) => {
                 if peersv.len() >= self.settings.max_peers {
                     // we're at capacity, drop the announce
                     return;
                 } else {
-                    let i = v.unwrap_or_else(|x| x);
                     peersv.insert(i, peer);
                     self.counters.peers += 1;
                 }
-- 
2.43.0

