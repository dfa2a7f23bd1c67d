From 79d79fde81c4d0571ea2afd5a7c2038ed3bb44d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 01/56] fix: refuse empty input when decoding a transaction
 instead of panicking

---
 protocol/src/codec/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/src/codec/transaction.rs b/protocol/src/codec/transaction.rs
index 513a841..2bc310c 100644
--- a/protocol/src/codec/transaction.rs
+++ b/protocol/src/codec/transaction.rs
@@ -312,7 +312,7 @@ impl Encodable for UnverifiedTransaction {
 impl Decodable for UnverifiedTransaction {
     fn decode(r: &Rlp) -> Result<Self, DecoderError> {
         let raw = r.as_raw();
-        let header = raw[0];
+        let header = *raw.first().ok_or(DecoderError::RlpIsTooShort)?;
 
         if (header & 0x80) != 0x00 {
             return LegacyTransaction::rlp_decode(r);
-- 
2.43.0


From 4447a490a62c8013ff2a0361293e9b6eda193a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 02/56] fix: refuse non-canonical encodings of transactions

---
 protocol/src/codec/transaction.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/protocol/src/codec/transaction.rs b/protocol/src/codec/transaction.rs
index 2bc310c..acd75d2 100644
--- a/protocol/src/codec/transaction.rs
+++ b/protocol/src/codec/transaction.rs
@@ -314,15 +314,23 @@ impl Decodable for UnverifiedTransaction {
         let raw = r.as_raw();
         let header = *raw.first().ok_or(DecoderError::RlpIsTooShort)?;
 
-        if (header & 0x80) != 0x00 {
-            return LegacyTransaction::rlp_decode(r);
-        }
+        let tx = if (header & 0x80) != 0x00 {
+            LegacyTransaction::rlp_decode(r)?
+        } else {
+            match header {
+                0x01 => Eip2930Transaction::rlp_decode(&Rlp::new(&raw[1..]))?,
+                0x02 => Eip1559Transaction::rlp_decode(&Rlp::new(&raw[1..]))?,
+                _ => return Err(DecoderError::Custom("Invalid transaction header")),
+            }
+        };
 
-        match header {
-            0x01 => Eip2930Transaction::rlp_decode(&Rlp::new(&raw[1..])),
-            0x02 => Eip1559Transaction::rlp_decode(&Rlp::new(&raw[1..])),
-            _ => Err(DecoderError::Custom("Invalid transaction header")),
+        // The hash is taken over the raw bytes, so they must be the one canonical
+        // encoding: neither trailing bytes nor extra data inside of the list.
+        if tx.rlp_bytes() != raw {
+            return Err(DecoderError::Custom("Non-canonical transaction encoding"));
         }
+
+        Ok(tx)
     }
 }
 
-- 
2.43.0


From 5cb28d1fcdc05fc4a7de7ff46cdc945a06d91239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 03/56] fix: encode and decode all eight fields of a
 transaction response

---
 protocol/src/codec/executor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/src/codec/executor.rs b/protocol/src/codec/executor.rs
index 24621f2..c698fac 100644
--- a/protocol/src/codec/executor.rs
+++ b/protocol/src/codec/executor.rs
@@ -4,7 +4,7 @@ use crate::types::TxResp;
 
 impl Encodable for TxResp {
     fn rlp_append(&self, s: &mut RlpStream) {
-        s.begin_list(7)
+        s.begin_list(8)
             .append(&bincode::serialize(&self.exit_reason).unwrap())
             .append(&self.ret)
             .append(&self.gas_used)
@@ -19,7 +19,7 @@ impl Encodable for TxResp {
 impl Decodable for TxResp {
     fn decode(r: &Rlp) -> Result<Self, DecoderError> {
         match r.prototype()? {
-            Prototype::List(7) => Ok(TxResp {
+            Prototype::List(8) => Ok(TxResp {
                 exit_reason:  {
                     let tmp: Vec<u8> = r.val_at(0)?;
                     bincode::deserialize(&tmp)
-- 
2.43.0


From 06bc75d7a65f7b2728567636165814c89cc46b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 04/56] fix: keep max_contract_limit when the verification
 library reads a metadata record

---
 devtools/axon-tools/src/types.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/devtools/axon-tools/src/types.rs b/devtools/axon-tools/src/types.rs
index 11e6fc7..82acc25 100644
--- a/devtools/axon-tools/src/types.rs
+++ b/devtools/axon-tools/src/types.rs
@@ -492,6 +492,20 @@ pub struct ConsensusConfig {
         serde(deserialize_with = "decode::deserialize_hex_u64")
     )]
     pub max_tx_size: u64,
+
+    #[cfg_attr(
+        all(feature = "impl-serde", feature = "std"),
+        serde(
+            default = "default_max_contract_limit",
+            deserialize_with = "decode::deserialize_hex_u64"
+        )
+    )]
+    pub max_contract_limit: u64,
+}
+
+#[cfg(all(feature = "impl-serde", feature = "std"))]
+fn default_max_contract_limit() -> u64 {
+    0x6000
 }
 
 #[derive(Clone, Debug, PartialEq, Eq)]
-- 
2.43.0


From 656ea98306283f6cc527434e81b1ddb2ae5fe6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:47 +0000
Subject: [PATCH 05/56] fix: weigh votes by vote weight when the verification
 library counts a quorum

---
 devtools/axon-tools/src/proof.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/devtools/axon-tools/src/proof.rs b/devtools/axon-tools/src/proof.rs
index 2c7d796..29fbf99 100644
--- a/devtools/axon-tools/src/proof.rs
+++ b/devtools/axon-tools/src/proof.rs
@@ -83,7 +83,7 @@ fn extract_pks(
 
     let bit_map = BitVec::from_bytes(&proof.bitmap);
     let mut pks = Vec::with_capacity(validator_list.len());
-    let mut count = 0usize;
+    let mut weight = 0u64;
 
     for (v, bit) in validator_list.iter().zip(bit_map.iter()) {
         if !bit {
@@ -91,10 +91,16 @@ fn extract_pks(
         }
 
         pks.push(PublicKey::from_bytes(&v.bls_pub_key.as_bytes())?);
-        count += 1;
+        weight += u64::from(v.vote_weight);
     }
 
-    if count * 3 <= validator_list.len() * 2 {
+    // The same rule as the network: strictly more than 2/3 of the vote weight.
+    let total_weight: u64 = validator_list
+        .iter()
+        .map(|v| u64::from(v.vote_weight))
+        .sum();
+
+    if weight * 3 <= total_weight * 2 {
         return Err(Error::NotEnoughSignatures);
     }
 
-- 
2.43.0


From 6a1f98bfa81ed4b517ffd5fee1de1d9e9729fae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:47 +0000
Subject: [PATCH 06/56] fix: refuse a proof of another height in the
 verification library

---
 devtools/axon-tools/src/proof.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/devtools/axon-tools/src/proof.rs b/devtools/axon-tools/src/proof.rs
index 29fbf99..0d41962 100644
--- a/devtools/axon-tools/src/proof.rs
+++ b/devtools/axon-tools/src/proof.rs
@@ -31,6 +31,10 @@ pub fn verify_proof(
     validator_list: &mut [ValidatorExtend],
     proof: Proof,
 ) -> Result<(), Error> {
+    if proof.number != block.header.number {
+        return Err(Error::InvalidProofBlockHash);
+    }
+
     let raw_proposal = Proposal {
         version:                  block.header.version,
         prev_hash:                block.header.prev_hash,
-- 
2.43.0


From fa9b42b7ffcd397c671e0302a0a5d095b43fdf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 07/56] fix: refuse doubly prefixed hex strings and over-long
 addresses instead of accepting them or panicking

---
 protocol/src/types/primitive.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/protocol/src/types/primitive.rs b/protocol/src/types/primitive.rs
index 085bb81..e2a0ab5 100644
--- a/protocol/src/types/primitive.rs
+++ b/protocol/src/types/primitive.rs
@@ -144,7 +144,8 @@ impl FromStr for Hex {
             return Err(TypesError::HexPrefix.into());
         }
 
-        Ok(Hex(hex_decode(&s[2..])?.into()))
+        // The prefix is stripped by `hex_decode`, once.
+        Ok(Hex(hex_decode(s)?.into()))
     }
 }
 
@@ -251,6 +252,9 @@ impl Address {
 
     pub fn from_hex(s: &str) -> ProtocolResult<Self> {
         let s = clean_0x(s)?;
+        if s.starts_with(HEX_PREFIX) {
+            return Err(TypesError::HexPrefix.into());
+        }
         let bytes = Bytes::from(hex_decode(s)?);
         Self::from_bytes(bytes)
     }
@@ -264,6 +268,7 @@ impl FromStr for Address {
     type Err = ProtocolError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
+        ensure_len(s.len(), HEX_PREFIX.len() + ADDRESS_LEN * 2)?;
         if checksum(s) != s {
             return Err(TypesError::InvalidCheckSum.into());
         }
-- 
2.43.0


From e8c42c46755a535bdf902a99d1edac1a824858a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 08/56] fix: refuse malformed and oversized hexadecimal numbers
 in the verification library instead of truncating them or panicking

---
 devtools/axon-tools/src/types.rs | 46 ++++++++++++++------------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/devtools/axon-tools/src/types.rs b/devtools/axon-tools/src/types.rs
index 82acc25..8415c04 100644
--- a/devtools/axon-tools/src/types.rs
+++ b/devtools/axon-tools/src/types.rs
@@ -99,7 +99,8 @@ impl FromStr for Hex {
             return Err(crate::Error::HexPrefix);
         }
 
-        Ok(Hex(hex_decode(&s[2..])?.into()))
+        // The prefix is stripped by `hex_decode`, once.
+        Ok(Hex(hex_decode(s)?.into()))
     }
 }
 
@@ -646,10 +647,13 @@ mod encode {
 
 #[cfg(all(feature = "impl-serde", feature = "std"))]
 mod decode {
-    use ethereum_types::U256;
     use serde::de::{Deserialize, Deserializer};
 
     pub fn from_hex(hex: &str) -> Result<Vec<u8>, &'static str> {
+        if hex.is_empty() || !hex.bytes().all(|c| c.is_ascii_hexdigit()) {
+            return Err("Failed to parse hex string");
+        }
+
         let mut bytes = Vec::with_capacity((hex.len() + 1) / 2);
 
         let mut start_i = 0;
@@ -661,31 +665,31 @@ mod decode {
         }
 
         for i in (start_i..hex.len()).step_by(2) {
-            let end_i = if i + 2 > hex.len() { i + 1 } else { i + 2 };
             let byte =
-                u8::from_str_radix(&hex[i..end_i], 16).map_err(|_| "Failed to parse hex string")?;
+                u8::from_str_radix(&hex[i..i + 2], 16).map_err(|_| "Failed to parse hex string")?;
             bytes.push(byte);
         }
 
         Ok(bytes)
     }
 
+    fn from_hex_uint(s: &str) -> Result<u64, &'static str> {
+        let bytes = from_hex(s.strip_prefix("0x").ok_or("Invalid format")?)?;
+        bytes.into_iter().try_fold(0u64, |acc, b| {
+            if acc >> 56 != 0 {
+                return Err("The number is too large");
+            }
+            Ok(acc << 8 | u64::from(b))
+        })
+    }
+
     pub fn deserialize_hex_u32<'de, D>(deserializer: D) -> Result<u32, D::Error>
     where
         D: Deserializer<'de>,
     {
         let s = String::deserialize(deserializer)?;
-        if s == "0x0" {
-            return Ok(0);
-        }
-
-        if s.len() >= 2 && &s[0..2] == "0x" {
-            let bytes = from_hex(&s[2..]).map_err(serde::de::Error::custom)?;
-            let val = U256::from_big_endian(&bytes);
-            Ok(val.low_u32())
-        } else {
-            Err(serde::de::Error::custom("Invalid format"))
-        }
+        let val = from_hex_uint(&s).map_err(serde::de::Error::custom)?;
+        u32::try_from(val).map_err(serde::de::Error::custom)
     }
 
     pub fn deserialize_hex_u64<'de, D>(deserializer: D) -> Result<u64, D::Error>
@@ -693,17 +697,7 @@ mod decode {
         D: Deserializer<'de>,
     {
         let s = String::deserialize(deserializer)?;
-        if s == "0x0" {
-            return Ok(0);
-        }
-
-        if s.len() >= 2 && &s[0..2] == "0x" {
-            let bytes = from_hex(&s[2..]).map_err(serde::de::Error::custom)?;
-            let val = U256::from_big_endian(&bytes);
-            Ok(val.low_u64())
-        } else {
-            Err(serde::de::Error::custom("Invalid format"))
-        }
+        from_hex_uint(&s).map_err(serde::de::Error::custom)
     }
 
     #[cfg(test)]
-- 
2.43.0


From fda957064d16d415c8ebadf559ca5e8cc887c7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 09/56] fix: keep private keys out of the printed configuration

---
 common/config-parser/src/types/config.rs | 25 +++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/common/config-parser/src/types/config.rs b/common/config-parser/src/types/config.rs
index ff3bfb5..cdf5f6b 100644
--- a/common/config-parser/src/types/config.rs
+++ b/common/config-parser/src/types/config.rs
@@ -1,6 +1,7 @@
 use std::{
     collections::HashMap,
     ffi::OsStr,
+    fmt,
     fs::File,
     io::{self, Read as _},
     net::SocketAddr,
@@ -24,7 +25,7 @@ pub const DEFAULT_CACHE_SIZE: usize = 100;
 ///
 /// All configurations can be modified, and the chain won't be affected by their
 /// changes.
-#[derive(Clone, Debug, Deserialize)]
+#[derive(Clone, Deserialize)]
 pub struct Config {
     // crypto
     /// `net_privkey` is used for network connection.
@@ -57,6 +58,28 @@ pub struct Config {
     pub ibc_contract_address: H160,
 }
 
+// The private keys are left out on purpose.
+impl fmt::Debug for Config {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        f.debug_struct("Config")
+            .field("net_privkey_file", &self.net_privkey_file)
+            .field("bls_privkey_file", &self.bls_privkey_file)
+            .field("data_path", &self.data_path)
+            .field("rpc", &self.rpc)
+            .field("web3", &self.web3)
+            .field("network", &self.network)
+            .field("mempool", &self.mempool)
+            .field("executor", &self.executor)
+            .field("sync", &self.sync)
+            .field("logger", &self.logger)
+            .field("rocksdb", &self.rocksdb)
+            .field("jaeger", &self.jaeger)
+            .field("prometheus", &self.prometheus)
+            .field("ibc_contract_address", &self.ibc_contract_address)
+            .finish_non_exhaustive()
+    }
+}
+
 impl Config {
     pub fn data_path_for_rocksdb(&self) -> PathBuf {
         let mut path_state = self.data_path.clone();
-- 
2.43.0


From fb683ebbe10a7835fb5824e90c8adbc0a3c224d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 10/56] fix: refuse a cross-chain signature without data
 instead of panicking

---
 protocol/src/types/transaction.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/protocol/src/types/transaction.rs b/protocol/src/types/transaction.rs
index 20d2c06..acc03d9 100644
--- a/protocol/src/types/transaction.rs
+++ b/protocol/src/types/transaction.rs
@@ -406,6 +406,10 @@ impl SignatureComponents {
 
     pub(crate) fn extract_interoperation_tx_sender(&self) -> ProtocolResult<H160> {
         // Only call CKB-VM mode is supported now
+        if self.r.is_empty() {
+            return Err(TypesError::SignatureRIsEmpty.into());
+        }
+
         if self.r[0] == 0 {
             let r = rlp::decode::<CellDepWithPubKey>(&self.r[1..])
                 .map_err(TypesError::DecodeInteroperationSigR)?;
-- 
2.43.0


From 5dec92130ca96230dc0d48a91fd8d00978516b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:28 +0000
Subject: [PATCH 11/56] fix: refuse to recover the signer of a signature of
 another length instead of panicking

---
 protocol/src/types/transaction.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/protocol/src/types/transaction.rs b/protocol/src/types/transaction.rs
index acc03d9..3c5648e 100644
--- a/protocol/src/types/transaction.rs
+++ b/protocol/src/types/transaction.rs
@@ -328,14 +328,23 @@ impl UnverifiedTransaction {
     }
 
     pub fn recover_public(&self, with_chain_id: bool) -> ProtocolResult<Public> {
+        let signature = self
+            .signature
+            .as_ref()
+            .ok_or(TypesError::MissingSignature)?
+            .as_bytes();
+        if signature.len() != SignatureComponents::SECP256K1_SIGNATURE_LEN {
+            return Err(TypesError::LengthMismatch {
+                expect: SignatureComponents::SECP256K1_SIGNATURE_LEN,
+                real:   signature.len(),
+            }
+            .into());
+        }
+
         Ok(Public::from_slice(
             &secp256k1_recover(
                 self.signature_hash(with_chain_id).as_bytes(),
-                self.signature
-                    .as_ref()
-                    .ok_or(TypesError::MissingSignature)?
-                    .as_bytes()
-                    .as_ref(),
+                signature.as_ref(),
             )
             .map_err(TypesError::Crypto)?
             .serialize_uncompressed()[1..65],
-- 
2.43.0


From 55ef173b217ef87d1a52f5f2c89468536b9182a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:54 +0000
Subject: [PATCH 12/56] fix: do not overwrite a log archive of the same second

---
 common/logger/src/date_fixed_roller.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/common/logger/src/date_fixed_roller.rs b/common/logger/src/date_fixed_roller.rs
index e4ccc91..3ffc6ad 100644
--- a/common/logger/src/date_fixed_roller.rs
+++ b/common/logger/src/date_fixed_roller.rs
@@ -50,11 +50,15 @@ impl DateFixedWindowRoller {
     }
 
     fn roll_file(&self, cur_log: &Path, date: &str, timestamp: &str) -> Result<(), anyhow::Error> {
-        let archived_log = {
-            let pattern = self.pattern.clone();
-            let partial_log = pattern.replace("{date}", date);
-            partial_log.replace("{timestamp}", timestamp)
-        };
+        let dated_pattern = self.pattern.replace("{date}", date);
+        let mut archived_log = dated_pattern.replace("{timestamp}", timestamp);
+        // The file may be rolled several times within a second, an archive of
+        // the same second must not be overwritten.
+        let mut seq = 0u32;
+        while Path::new(&archived_log).exists() {
+            seq += 1;
+            archived_log = dated_pattern.replace("{timestamp}", &format!("{timestamp}-{seq}"));
+        }
 
         if let Some(parent) = Path::new(&archived_log).parent() {
             fs::create_dir_all(parent)?;
-- 
2.43.0


From bc71cd095dccb30c56f949d21398131e3adfc39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 13/56] fix: iterate the memory database from the prefix, in
 the order of keys

---
 core/db/src/memory.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/core/db/src/memory.rs b/core/db/src/memory.rs
index 3db9af8..caffe96 100644
--- a/core/db/src/memory.rs
+++ b/core/db/src/memory.rs
@@ -1,4 +1,4 @@
-use std::collections::{hash_map, HashMap};
+use std::collections::{btree_map, BTreeMap, HashMap};
 use std::{error::Error, marker::PhantomData, sync::Arc};
 
 use parking_lot::RwLock;
@@ -11,7 +11,8 @@ use protocol::{
     ProtocolResult,
 };
 
-type Category = HashMap<Vec<u8>, Vec<u8>>;
+// Ordered by key, like a column of RocksDB
+type Category = BTreeMap<Vec<u8>, Vec<u8>>;
 
 #[derive(Debug)]
 pub struct MemoryAdapter {
@@ -33,7 +34,7 @@ impl Default for MemoryAdapter {
 }
 
 pub struct MemoryIterator<'a, S: StorageSchema> {
-    inner: hash_map::Iter<'a, Vec<u8>, Vec<u8>>,
+    inner: btree_map::Range<'a, Vec<u8>, Vec<u8>>,
     pin_s: PhantomData<S>,
 }
 
@@ -55,8 +56,9 @@ impl<'a, S: StorageSchema> Iterator for MemoryIterator<'a, S> {
 }
 
 pub struct MemoryIntoIterator<'a, S: StorageSchema> {
-    inner: parking_lot::RwLockReadGuard<'a, HashMap<String, Category>>,
-    pin_s: PhantomData<S>,
+    inner:  parking_lot::RwLockReadGuard<'a, HashMap<String, Category>>,
+    prefix: Vec<u8>,
+    pin_s:  PhantomData<S>,
 }
 
 impl<'a, 'b: 'a, S: StorageSchema> IntoIterator for &'b MemoryIntoIterator<'a, S> {
@@ -69,7 +71,7 @@ impl<'a, 'b: 'a, S: StorageSchema> IntoIterator for &'b MemoryIntoIterator<'a, S
                 .inner
                 .get(&S::category().to_string())
                 .expect("impossible, already ensure we have category in prepare_iter")
-                .iter(),
+                .range(self.prefix.clone()..),
             pin_s: PhantomData::<S>,
         })
     }
@@ -93,7 +95,7 @@ impl StorageAdapter for MemoryAdapter {
         let mut db = self.db.write();
         let db = db
             .entry(S::category().to_string())
-            .or_insert_with(HashMap::new);
+            .or_insert_with(Category::new);
 
         db.insert(key, val);
 
@@ -109,7 +111,7 @@ impl StorageAdapter for MemoryAdapter {
         let mut db = self.db.write();
         let db = db
             .entry(S::category().to_string())
-            .or_insert_with(HashMap::new);
+            .or_insert_with(Category::new);
 
         let opt_bytes = db.get(&key.to_vec()).cloned();
 
@@ -128,7 +130,7 @@ impl StorageAdapter for MemoryAdapter {
         let mut db = self.db.write();
         let db = db
             .entry(S::category().to_string())
-            .or_insert_with(HashMap::new);
+            .or_insert_with(Category::new);
 
         db.remove(&key);
 
@@ -141,7 +143,7 @@ impl StorageAdapter for MemoryAdapter {
         let mut db = self.db.write();
         let db = db
             .entry(S::category().to_string())
-            .or_insert_with(HashMap::new);
+            .or_insert_with(Category::new);
 
         Ok(db.get(&key).is_some())
     }
@@ -171,7 +173,7 @@ impl StorageAdapter for MemoryAdapter {
         let mut db = self.db.write();
         let db = db
             .entry(S::category().to_string())
-            .or_insert_with(HashMap::new);
+            .or_insert_with(Category::new);
 
         for (key, value) in pairs.into_iter() {
             match value {
@@ -185,18 +187,19 @@ impl StorageAdapter for MemoryAdapter {
 
     fn prepare_iter<'a, 'b: 'a, S: StorageSchema + 'static, P: AsRef<[u8]> + 'a>(
         &'b self,
-        _prefix: &P,
+        prefix: &P,
     ) -> ProtocolResult<Box<dyn IntoIteratorByRef<S> + 'a>> {
         {
             self.db
                 .write()
                 .entry(S::category().to_string())
-                .or_insert_with(HashMap::new);
+                .or_insert_with(Category::new);
         }
 
         Ok(Box::new(MemoryIntoIterator {
-            inner: self.db.read(),
-            pin_s: PhantomData::<S>,
+            inner:  self.db.read(),
+            prefix: prefix.as_ref().to_vec(),
+            pin_s:  PhantomData::<S>,
         }))
     }
 }
-- 
2.43.0


From 8602a3ccafbe6311782dd2c52780fdc924fb0731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 14/56] fix: do not answer a block for the hash of a
 transaction

---
 core/storage/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/storage/src/lib.rs b/core/storage/src/lib.rs
index f4a697d..bfb6e15 100644
--- a/core/storage/src/lib.rs
+++ b/core/storage/src/lib.rs
@@ -107,7 +107,14 @@ impl<Adapter: StorageAdapter> ImplStorage<Adapter> {
 
     async fn get_block_number_by_hash(&self, hash: &Hash) -> ProtocolResult<Option<u64>> {
         get_cache!(self, hash, block_numbers);
-        let ret = self.adapter.get::<BlockHashNumberSchema>(*hash)?;
+        let mut ret = self.adapter.get::<BlockHashNumberSchema>(*hash)?;
+        // The numbers of transactions are stored in the same column
+        if let Some(number) = ret {
+            let header = self.get_block_header(Context::new(), number).await?;
+            if header.map(|h| h.hash()) != Some(*hash) {
+                ret = None;
+            }
+        }
         put_cache!(self, hash, ret, block_numbers);
         Ok(ret)
     }
-- 
2.43.0


From 1eb56d3f42a4e63cf1ddcf4ebf53d398aa5593c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 15/56] fix: answer every occurrence of a repeated hash

---
 core/storage/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/storage/src/lib.rs b/core/storage/src/lib.rs
index bfb6e15..b810146 100644
--- a/core/storage/src/lib.rs
+++ b/core/storage/src/lib.rs
@@ -293,7 +293,7 @@ impl<Adapter: StorageAdapter> ReadOnlyStorage for ImplStorage<Adapter> {
             }
         }
 
-        let mut found = {
+        let found = {
             if found.len() <= BATCH_VALUE_DECODE_NUMBER {
                 found
                     .drain(..)
@@ -327,7 +327,7 @@ impl<Adapter: StorageAdapter> ReadOnlyStorage for ImplStorage<Adapter> {
             }
         };
 
-        Ok(hashes.iter().map(|h| found.remove(h)).collect::<Vec<_>>())
+        Ok(hashes.iter().map(|h| found.get(h).cloned()).collect::<Vec<_>>())
     }
 
     async fn get_code_by_hash(&self, _ctx: Context, hash: &Hash) -> ProtocolResult<Option<Bytes>> {
@@ -435,7 +435,7 @@ impl<Adapter: StorageAdapter> ReadOnlyStorage for ImplStorage<Adapter> {
             }
         }
 
-        let mut found = {
+        let found = {
             if found.len() <= BATCH_VALUE_DECODE_NUMBER {
                 found
                     .drain(..)
@@ -469,7 +469,7 @@ impl<Adapter: StorageAdapter> ReadOnlyStorage for ImplStorage<Adapter> {
             }
         };
 
-        Ok(hashes.iter().map(|h| found.remove(h)).collect::<Vec<_>>())
+        Ok(hashes.iter().map(|h| found.get(h).cloned()).collect::<Vec<_>>())
     }
 
     async fn get_latest_proof(&self, _ctx: Context) -> ProtocolResult<Proof> {
-- 
2.43.0


From d00f948d104f9c37e2e9a9e6b94834a7f90ab3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:46 +0000
Subject: [PATCH 16/56] fix: skip an unreadable or short overlord WAL file
 instead of looping on it

---
 core/consensus/src/wal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/consensus/src/wal.rs b/core/consensus/src/wal.rs
index ed533d9..31a42f0 100644
--- a/core/consensus/src/wal.rs
+++ b/core/consensus/src/wal.rs
@@ -277,12 +277,14 @@ impl ConsensusWal {
             let mut file = fs::File::open(&log_path).map_err(ConsensusError::WALErr)?;
             let res = file.read_to_end(&mut read_buf);
             if res.is_err() {
+                index += 1;
                 continue;
             }
 
             let mut info = Bytes::from(read_buf);
 
             if info.len() < Hash::default().as_bytes().len() {
+                index += 1;
                 continue;
             }
 
-- 
2.43.0


From 544715f1351996f6273e29c66e883f372d2013a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:46 +0000
Subject: [PATCH 17/56] fix: name a transactions WAL file by the whole hash,
 not its abbreviation

---
 core/consensus/src/wal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/consensus/src/wal.rs b/core/consensus/src/wal.rs
index 31a42f0..a4263ab 100644
--- a/core/consensus/src/wal.rs
+++ b/core/consensus/src/wal.rs
@@ -37,7 +37,7 @@ impl SignedTxsWAL {
             fs::create_dir(&wal_path).map_err(ConsensusError::WALErr)?;
         }
 
-        wal_path.push(ordered_signed_transactions_hash.to_string());
+        wal_path.push(format!("{:#x}", ordered_signed_transactions_hash));
         wal_path.set_extension("txt");
 
         let mut wal_file = match fs::OpenOptions::new()
@@ -89,7 +89,7 @@ impl SignedTxsWAL {
     ) -> ProtocolResult<Vec<SignedTransaction>> {
         let mut file_path = self.path.clone();
         file_path.push(number.to_string());
-        file_path.push(ordered_signed_transactions_hash.to_string());
+        file_path.push(format!("{:#x}", ordered_signed_transactions_hash));
         file_path.set_extension("txt");
 
         self.recover_stxs(file_path)
-- 
2.43.0


From 9e6fda87e3e46f4e2ff43aa1d11fd80eab001530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:16 +0000
Subject: [PATCH 18/56] fix: publish a transactions WAL file only when it is
 whole

---
 core/consensus/src/wal.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/consensus/src/wal.rs b/core/consensus/src/wal.rs
index a4263ab..1270cd5 100644
--- a/core/consensus/src/wal.rs
+++ b/core/consensus/src/wal.rs
@@ -38,13 +38,16 @@ impl SignedTxsWAL {
         }
 
         wal_path.push(format!("{:#x}", ordered_signed_transactions_hash));
+        let mut temp_path = wal_path.clone();
+        temp_path.set_extension("tmp");
         wal_path.set_extension("txt");
 
         let mut wal_file = match fs::OpenOptions::new()
             .read(true)
             .write(true)
             .create(true)
-            .open(wal_path)
+            .truncate(true)
+            .open(&temp_path)
         {
             Ok(file) => file,
             Err(err) => {
@@ -59,6 +62,8 @@ impl SignedTxsWAL {
         wal_file
             .write_all(BatchSignedTxs(txs).encode_msg()?.as_ref())
             .map_err(ConsensusError::WALErr)?;
+        // The list has no checksum, so that it must not be found before it is whole.
+        fs::rename(temp_path, wal_path).map_err(ConsensusError::WALErr)?;
         Ok(())
     }
 
@@ -106,6 +111,9 @@ impl SignedTxsWAL {
 
         let mut ret = Vec::new();
         for entry in dir.flatten() {
+            if entry.path().extension() != Some("txt".as_ref()) {
+                continue;
+            }
             if let Ok(mut stxs) = self.recover_stxs(entry.path()) {
                 ret.append(&mut stxs);
             }
-- 
2.43.0


From 2d327b3add47ff7faf3dacb1474af10c0191186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:16 +0000
Subject: [PATCH 19/56] fix: keep the newest overlord WAL record the newest
 when the clock goes back

---
 core/consensus/src/wal.rs | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/core/consensus/src/wal.rs b/core/consensus/src/wal.rs
index 1270cd5..80a28d4 100644
--- a/core/consensus/src/wal.rs
+++ b/core/consensus/src/wal.rs
@@ -185,23 +185,21 @@ impl ConsensusWal {
         content.put(check_sum.as_bytes());
         content.put(info);
 
-        let (data_path, timestamp) = {
-            loop {
-                let timestamp = SystemTime::now()
-                    .duration_since(SystemTime::UNIX_EPOCH)
-                    .map_err(ConsensusError::SystemTime)?;
-
-                let timestamp = timestamp.as_millis();
-
-                let mut data_path = dir_path.clone();
-
-                data_path.push(timestamp.to_string());
-
-                if !data_path.exists() {
-                    break (data_path, timestamp);
-                }
-            }
-        };
+        // The newest file is the one loaded, so a clock that was set back must not
+        // give this record an older name than the records already there.
+        let newest = fs::read_dir(&dir_path)
+            .map_err(ConsensusError::WALErr)?
+            .filter_map(|item| u128::from_str(item.ok()?.file_name().to_str()?).ok())
+            .max();
+
+        let now = SystemTime::now()
+            .duration_since(SystemTime::UNIX_EPOCH)
+            .map_err(ConsensusError::SystemTime)?
+            .as_millis();
+        let timestamp = newest.map_or(now, |newest| now.max(newest + 1));
+
+        let mut data_path = dir_path.clone();
+        data_path.push(timestamp.to_string());
 
         let mut data_file = match fs::OpenOptions::new()
             .read(true)
-- 
2.43.0


From 931b238cf7992cf6ae214fef91bae8435871f5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 20/56] fix: return full transactions in the order they are
 asked for

---
 core/mempool/src/lib.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index 97165c2..11d5a2b 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -250,25 +250,27 @@ where
         let mut full_txs = Vec::with_capacity(len);
 
         for tx_hash in tx_hashes.iter() {
-            if let Some(tx) = self.pool.get_by_hash(tx_hash) {
-                full_txs.push(tx);
-            } else {
+            let tx = self.pool.get_by_hash(tx_hash);
+            if tx.is_none() {
                 missing_hashes.push(*tx_hash);
             }
+            full_txs.push(tx);
         }
 
         // for push txs when local mempool is flushed, but the remote node still fetch
         // full block
         if !missing_hashes.is_empty() {
-            full_txs.extend(
-                self.adapter
-                    .get_transactions_from_storage(ctx, height, &missing_hashes)
-                    .await?
-                    .into_iter()
-                    .flatten(),
-            );
+            let mut stored_txs = self
+                .adapter
+                .get_transactions_from_storage(ctx, height, &missing_hashes)
+                .await?
+                .into_iter();
+            for tx in full_txs.iter_mut().filter(|tx| tx.is_none()) {
+                *tx = stored_txs.next().flatten();
+            }
         }
 
+        let full_txs = full_txs.into_iter().flatten().collect::<Vec<_>>();
         if full_txs.len() != len {
             Err(MemPoolError::MisMatch {
                 require:  len,
-- 
2.43.0


From 9c82bac641ddbf1b1e768d91d53b190d061e4e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 21/56] fix: refuse pulled transactions that are not the
 requested ones

---
 core/mempool/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index 11d5a2b..ebb8f6a 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -295,7 +295,7 @@ where
             let unknown_len = unknown_hashes.len();
             let txs = self
                 .adapter
-                .pull_txs(ctx.clone(), height, unknown_hashes)
+                .pull_txs(ctx.clone(), height, unknown_hashes.clone())
                 .await?;
 
             // Make sure response signed_txs is the same size of request hashes.
@@ -307,6 +307,15 @@ where
                 .into());
             }
 
+            // Make sure response signed_txs are those of request hashes.
+            let pulled = txs
+                .iter()
+                .map(|tx| tx.transaction.hash)
+                .collect::<HashSet<_>>();
+            if let Some(hash) = unknown_hashes.iter().find(|hash| !pulled.contains(hash)) {
+                return Err(MemPoolError::Insert(*hash).into());
+            }
+
             let check_nonces = self.verify_tx_in_parallel(ctx.clone(), txs.clone()).await?;
 
             for (signed_tx, check_nonce) in txs.into_iter().zip(check_nonces.into_iter()) {
-- 
2.43.0


From 134fa1cccd6b850097dad293298733afbd821f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 22/56] fix: take every flushed system transaction off the size
 of the pool

---
 core/mempool/src/pool.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index 69606d8..bf94541 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -365,8 +365,11 @@ impl BuiltInContractTxBucket {
     pub fn flush(&self, hashes: &[Hash], reduce_len: &mut usize) {
         for hash in hashes.iter() {
             if let Some(data) = self.hash_data_map.remove(hash) {
-                if self.tx_buckets.remove(&data.1).is_some() {
-                    *reduce_len += 1;
+                if let Some((_, txs)) = self.tx_buckets.remove(&data.1) {
+                    *reduce_len += txs.len();
+                    for hash in txs.keys() {
+                        self.hash_data_map.remove(hash);
+                    }
                 }
             }
         }
-- 
2.43.0


From be59fcc6064cdf7ebb168b3d6b52dc8e79fa2024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 23/56] fix: do not let system transactions exceed the capacity
 of the pool

---
 core/mempool/src/pool.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index bf94541..0fabfd6 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -219,7 +219,7 @@ impl PriorityPool {
 
     pub fn reach_limit(&self) -> Result<usize, usize> {
         let c = self.len();
-        if c > self.co_queue.capacity() {
+        if c >= self.co_queue.capacity() {
             Err(c)
         } else {
             Ok(c)
-- 
2.43.0


From ee9fbf78474a9c2f3bc8fd4bb71d938ce0d5e23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 24/56] fix: package the transactions of a sender in the order
 of their nonces

---
 core/mempool/src/pool.rs       | 24 +++++++++++++++++++++++-
 core/mempool/src/tx_wrapper.rs | 17 +----------------
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index 0fabfd6..9173b4a 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -163,7 +163,7 @@ impl PriorityPool {
         }
         let mut q = self.real_queue.lock();
 
-        q.sort_unstable();
+        sort_by_price_and_nonce(&mut q);
 
         hashes.extend(
             q.iter()
@@ -391,6 +391,28 @@ impl BuiltInContractTxBucket {
     }
 }
 
+/// Sort by gas price, but keep the transactions of a sender in the order of
+/// their nonces.
+fn sort_by_price_and_nonce(queue: &mut [TxPtr]) {
+    queue.sort_unstable_by_key(|ptr| ptr.gas_price());
+
+    let mut places: HashMap<H160, Vec<usize>> = HashMap::new();
+    for (i, ptr) in queue.iter().enumerate() {
+        places.entry(ptr.sender()).or_default().push(i);
+    }
+
+    for places in places.values().filter(|places| places.len() > 1) {
+        let mut txs = places
+            .iter()
+            .map(|i| Arc::clone(&queue[*i]))
+            .collect::<Vec<_>>();
+        txs.sort_unstable_by_key(|ptr| *ptr.nonce());
+        for (i, ptr) in places.iter().zip(txs) {
+            queue[*i] = ptr;
+        }
+    }
+}
+
 fn pop_all_item<T>(queue: Arc<ArrayQueue<T>>) -> impl Iterator<Item = T> {
     (0..queue.len()).map(move |_| queue.pop().unwrap())
 }
diff --git a/core/mempool/src/tx_wrapper.rs b/core/mempool/src/tx_wrapper.rs
index 08c358c..3226647 100644
--- a/core/mempool/src/tx_wrapper.rs
+++ b/core/mempool/src/tx_wrapper.rs
@@ -1,4 +1,4 @@
-use std::cmp::{Eq, Ord, Ordering, PartialEq, PartialOrd};
+use std::cmp::{Eq, PartialEq};
 use std::collections::{btree_map::Entry, BTreeMap};
 use std::ops::Bound::{Included, Unbounded};
 use std::sync::atomic::{AtomicU8, Ordering as AtomicOrdering};
@@ -26,15 +26,6 @@ impl From<SignedTransaction> for TxWrapper {
     }
 }
 
-impl Ord for TxWrapper {
-    fn cmp(&self, other: &Self) -> Ordering {
-        if self.sender() != other.sender() {
-            return self.gas_price().cmp(&other.gas_price());
-        }
-        self.nonce().cmp(other.nonce())
-    }
-}
-
 impl PartialEq for TxWrapper {
     fn eq(&self, other: &Self) -> bool {
         self.hash() == other.hash()
@@ -43,12 +34,6 @@ impl PartialEq for TxWrapper {
 
 impl Eq for TxWrapper {}
 
-impl PartialOrd for TxWrapper {
-    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        Some(self.cmp(other))
-    }
-}
-
 impl TxWrapper {
     pub fn hash(&self) -> Hash {
         self.tx.transaction.hash
-- 
2.43.0


From 62ad2259de9891351486e26a2dd440909c2b3477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 25/56] fix: respect the gas limit when packaging transactions

---
 core/mempool/src/pool.rs       | 16 ++++++++--------
 core/mempool/src/tx_wrapper.rs |  4 ++++
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index 9173b4a..8339574 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -152,7 +152,7 @@ impl PriorityPool {
         Ok(())
     }
 
-    pub fn package(&self, _gas_limit: U256, limit: usize) -> PackedTxHashes {
+    pub fn package(&self, gas_limit: U256, limit: usize) -> PackedTxHashes {
         let _flushing = self.flush_lock.read();
 
         let mut hashes = self.sys_tx_bucket.package();
@@ -165,16 +165,16 @@ impl PriorityPool {
 
         sort_by_price_and_nonce(&mut q);
 
+        let mut gas = U256::zero();
         hashes.extend(
             q.iter()
-                .filter_map(|ptr| {
-                    if ptr.is_dropped() {
-                        None
-                    } else {
-                        Some(ptr.hash())
-                    }
+                .filter(|ptr| !ptr.is_dropped())
+                .take(limit)
+                .take_while(|ptr| {
+                    gas = gas.saturating_add(ptr.gas_limit().low_u64().into());
+                    gas <= gas_limit
                 })
-                .take(limit),
+                .map(|ptr| ptr.hash()),
         );
 
         PackedTxHashes {
diff --git a/core/mempool/src/tx_wrapper.rs b/core/mempool/src/tx_wrapper.rs
index 3226647..bb5fa0b 100644
--- a/core/mempool/src/tx_wrapper.rs
+++ b/core/mempool/src/tx_wrapper.rs
@@ -51,6 +51,10 @@ impl TxWrapper {
         self.tx.transaction.unsigned.gas_price()
     }
 
+    pub fn gas_limit(&self) -> &U64 {
+        self.tx.transaction.unsigned.gas_limit()
+    }
+
     pub fn raw_tx(&self) -> SignedTransaction {
         self.tx.clone()
     }
-- 
2.43.0


From e1cdf06f0cf9b79aa021c5fb755253e0a8789457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 26/56] fix: do not package transactions after the gap that a
 timeout leaves

---
 core/mempool/src/pool.rs       |  7 ++++++-
 core/mempool/src/tx_wrapper.rs | 21 +++++++++++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index 8339574..1aa7f10 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -298,10 +298,15 @@ impl PriorityPool {
 
         q.retain(|ptr| !ptr.is_dropped());
 
+        let mut unpackaged = HashSet::new();
         self.pending_queue.retain(|_, v| {
             v.clear_droped();
+            unpackaged.extend(v.unpackage_after_gap());
             !v.need_remove()
-        })
+        });
+        if !unpackaged.is_empty() {
+            q.retain(|ptr| !unpackaged.contains(&ptr.hash()));
+        }
     }
 
     pub fn real_queue_len(&self) -> usize {
diff --git a/core/mempool/src/tx_wrapper.rs b/core/mempool/src/tx_wrapper.rs
index bb5fa0b..5c4b002 100644
--- a/core/mempool/src/tx_wrapper.rs
+++ b/core/mempool/src/tx_wrapper.rs
@@ -71,6 +71,10 @@ impl TxWrapper {
         self.state.fetch_or(0x01, AtomicOrdering::AcqRel);
     }
 
+    fn unset_package(&self) {
+        self.state.fetch_and(!0x01, AtomicOrdering::AcqRel);
+    }
+
     fn is_package(&self) -> bool {
         self.state.load(AtomicOrdering::Acquire) & 0x01 == 0x01
     }
@@ -144,6 +148,23 @@ impl PendingQueue {
         self.queue.retain(|_, v| !v.is_dropped());
     }
 
+    /// A transaction that was dropped may leave a gap before those that are
+    /// already in the package list, which have to wait again.
+    pub fn unpackage_after_gap(&mut self) -> Vec<Hash> {
+        let mut current = self.current_tip_nonce;
+        let mut unpackaged = Vec::new();
+        for (nonce, tx) in self.queue.range((Included(current), Unbounded)) {
+            if *nonce == current && tx.is_package() {
+                current = current + 1;
+            } else if tx.is_package() {
+                tx.unset_package();
+                unpackaged.push(tx.hash());
+            }
+        }
+        self.pop_tip_nonce = current;
+        unpackaged
+    }
+
     pub fn set_drop_by_nonce_tip(&mut self, nonce: U64) {
         for (_, v) in self.queue.range((Included(0.into()), Included(nonce))) {
             v.set_dropped();
-- 
2.43.0


From c7acbc07ce8dddfd84e17159565a04f809b10907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 27/56] fix: forget the age of a transaction that leaves the
 pool

---
 core/mempool/src/pool.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index 1aa7f10..2a5c7f8 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -251,6 +251,7 @@ impl PriorityPool {
         let mut q = self.real_queue.lock();
         let mut timeout_gap = self.timeout_gap.lock();
 
+        let mut removed = Vec::new();
         let mut remove_tip_nonce: HashMap<H160, U64> = HashMap::new();
         for hash in hashes {
             if let Some((_, ptr)) = self.tx_map.remove(hash) {
@@ -265,6 +266,7 @@ impl PriorityPool {
                     }
                 }
                 *reduce_len += 1;
+                removed.push(*hash);
             }
         }
 
@@ -291,9 +293,17 @@ impl PriorityPool {
 
             v.set_dropped();
             *reduce_len += 1;
+            removed.push(*hash);
             false
         });
 
+        // A removed transaction may come again, its time starts anew then.
+        for set in timeout_gap.values_mut() {
+            for hash in removed.iter() {
+                set.remove(hash);
+            }
+        }
+
         timeout_gap.entry(number).or_default().extend(retain_keys);
 
         q.retain(|ptr| !ptr.is_dropped());
-- 
2.43.0


From d83c582a867fd1085462768d90bc2922bf2ae7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 28/56] fix: put the initial transactions where they belong by
 kind and nonce

---
 core/mempool/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index ebb8f6a..ea4ee5b 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -89,7 +89,13 @@ where
         self.adapter
             .check_storage_exist(ctx.clone(), &stx.transaction.hash)
             .await?;
-        self.pool.insert(stx, true, U64::zero())
+        let check_nonce = self.adapter.check_authorization(ctx, &stx).await?;
+
+        if is_call_system_script(stx.transaction.unsigned.action())? {
+            self.pool.insert_system_script_tx(stx)
+        } else {
+            self.pool.insert(stx, true, check_nonce)
+        }
     }
 
     async fn insert_tx(
-- 
2.43.0


From 96f825e46d4ff0952eac19cbbb9e2239d6ceb755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 29/56] fix: drop the waiting transactions below the nonce of
 the account

---
 core/mempool/src/tx_wrapper.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/mempool/src/tx_wrapper.rs b/core/mempool/src/tx_wrapper.rs
index 5c4b002..1d40aa9 100644
--- a/core/mempool/src/tx_wrapper.rs
+++ b/core/mempool/src/tx_wrapper.rs
@@ -99,6 +99,9 @@ impl PendingQueue {
         }
 
         if self.current_tip_nonce < current_tip {
+            for (_, old) in self.queue.range(..current_tip) {
+                old.set_dropped();
+            }
             self.pop_tip_nonce = current_tip;
             self.current_tip_nonce = current_tip;
         }
-- 
2.43.0


From c201cdb77cca048667a357528971f0b005f6fa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 30/56] fix: refuse a cross-chain signature whose program does
 not exit with zero

---
 core/mempool/src/adapter/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/mempool/src/adapter/mod.rs b/core/mempool/src/adapter/mod.rs
index 01745c1..29eeda7 100644
--- a/core/mempool/src/adapter/mod.rs
+++ b/core/mempool/src/adapter/mod.rs
@@ -308,7 +308,7 @@ where
 
         // Verify interoperation signature call CKB-VM mode
         let r = rlp::decode::<CellDepWithPubKey>(&signature.r[1..]).map_err(AdapterError::Rlp)?;
-        InteroperationImpl::call_ckb_vm(
+        let resp = InteroperationImpl::call_ckb_vm(
             Default::default(),
             &DataProvider::new(root),
             r.cell_dep,
@@ -317,6 +317,14 @@ where
         )
         .map_err(|e| AdapterError::VerifySignature(e.to_string()))?;
 
+        if resp.exit_code != 0 {
+            return Err(AdapterError::VerifySignature(format!(
+                "the program exits with {}",
+                resp.exit_code
+            ))
+            .into());
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From 77a49bac33cd4852523c10d48e7fd3f8350f36a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 31/56] fix: refuse an epoch after one that ends at the last
 block number there is

---
 core/executor/src/system_contract/metadata/store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/executor/src/system_contract/metadata/store.rs b/core/executor/src/system_contract/metadata/store.rs
index aad02b0..54cfe10 100644
--- a/core/executor/src/system_contract/metadata/store.rs
+++ b/core/executor/src/system_contract/metadata/store.rs
@@ -98,7 +98,8 @@ impl MetadataStore {
             return Err(SystemScriptError::PastEpoch.into());
         }
 
-        if (metadata.version.start != epoch_segment.last_block_number() + 1) && metadata.epoch != 0
+        if metadata.epoch != 0
+            && Some(metadata.version.start) != epoch_segment.last_block_number().checked_add(1)
         {
             return Err(SystemScriptError::MetadataVersionDiscontinuity.into());
         }
-- 
2.43.0


From 4387ddfcc9de53c742e6feb14678aab85d7b14e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 32/56] fix: give back and collect no more gas than the sender
 paid for

---
 core/executor/src/lib.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/core/executor/src/lib.rs b/core/executor/src/lib.rs
index 9c4a803..b2ecec0 100644
--- a/core/executor/src/lib.rs
+++ b/core/executor/src/lib.rs
@@ -313,7 +313,8 @@ impl AxonExecutor {
         let mut account = adapter.get_account(&sender);
         let old_nonce = account.nonce;
 
-        account.balance = account.balance.saturating_sub(prepay_gas);
+        let prepaid = prepay_gas.min(account.balance);
+        account.balance -= prepaid;
         adapter.save_account(&sender, &account);
 
         let metadata = StackSubstateMetadata::new(gas_limit, config);
@@ -368,14 +369,13 @@ impl AxonExecutor {
         let mut account = adapter.get_account(&tx.sender);
         account.nonce = old_nonce + U256::one();
 
-        // Add remain gas
-        if remained_gas != 0 {
-            let remain_gas = U256::from(remained_gas) * tx_gas_price;
-            account.balance = account
-                .balance
-                .checked_add(remain_gas)
-                .unwrap_or_else(U256::max_value);
-        }
+        // Give back what is left of the prepaid gas, which may be less than the price of
+        // the remaining gas if the balance did not suffice.
+        let fee_cost = prepaid.min(prepay_gas - U256::from(remained_gas) * tx_gas_price);
+        account.balance = account
+            .balance
+            .checked_add(prepaid - fee_cost)
+            .unwrap_or_else(U256::max_value);
 
         adapter.save_account(&tx.sender, &account);
 
@@ -384,8 +384,7 @@ impl AxonExecutor {
             ret:          res,
             remain_gas:   remained_gas,
             gas_used:     used_gas,
-            fee_cost:     tx_gas_price * U256::from(used_gas), /* used_gas must le transaction
-                                                                * gas_limit */
+            fee_cost,
             logs:         vec![],
             code_address: code_addr,
             removed:      false,
-- 
2.43.0


From 6ab761eda46e9638ac61b4ec2d333f1c79ea46cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 33/56] fix: return to the sender the gas that is refunded

---
 core/executor/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/executor/src/lib.rs b/core/executor/src/lib.rs
index b2ecec0..875033c 100644
--- a/core/executor/src/lib.rs
+++ b/core/executor/src/lib.rs
@@ -350,8 +350,9 @@ impl AxonExecutor {
             ),
         };
 
-        let remained_gas = executor.gas();
+        // The gas refunded for freed storage is not used either.
         let used_gas = executor.used_gas();
+        let remained_gas = gas_limit - used_gas;
 
         let code_addr = if tx.transaction.unsigned.action() == &TransactionAction::Create
             && exit.is_succeed()
-- 
2.43.0


From 51c910c6bb65a3c67ad25dd538eb901721de3fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 34/56] fix: allot fees whatever the vote weights add up to

---
 core/executor/src/utils.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/executor/src/utils.rs b/core/executor/src/utils.rs
index cd5c0b9..0c38740 100644
--- a/core/executor/src/utils.rs
+++ b/core/executor/src/utils.rs
@@ -29,7 +29,15 @@ impl FeeAllocate for DefaultFeeAllocator {
             return Vec::new();
         }
 
-        let weight_sum = U256::from(validators.iter().map(|v| v.vote_weight).sum::<u32>());
+        let weight_sum = U256::from(
+            validators
+                .iter()
+                .map(|v| u64::from(v.vote_weight))
+                .sum::<u64>(),
+        );
+        if weight_sum.is_zero() {
+            return Vec::new();
+        }
 
         validators
             .iter()
-- 
2.43.0


From bf228ba92ffcb009d85699d87252d76695cbb28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 35/56] fix: show a revert reason whose stated length is beyond
 any data

---
 core/executor/src/utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/executor/src/utils.rs b/core/executor/src/utils.rs
index 0c38740..0767d82 100644
--- a/core/executor/src/utils.rs
+++ b/core/executor/src/utils.rs
@@ -70,14 +70,14 @@ pub fn decode_revert_msg(input: &[u8]) -> String {
         return decode_reason(input);
     }
 
-    let end_offset = REVERT_EFFECT_MSG_OFFSET
-        + U256::from_big_endian(&input[REVERT_MSG_LEN_OFFSET..REVERT_EFFECT_MSG_OFFSET]).as_usize();
+    let msg = &input[REVERT_EFFECT_MSG_OFFSET..];
+    let len = U256::from_big_endian(&input[REVERT_MSG_LEN_OFFSET..REVERT_EFFECT_MSG_OFFSET]);
 
-    if input.len() < end_offset {
+    if len > U256::from(msg.len()) {
         return decode_reason(input);
     }
 
-    decode_reason(&input[REVERT_EFFECT_MSG_OFFSET..end_offset])
+    decode_reason(&msg[..len.as_usize()])
 }
 
 #[cfg(test)]
-- 
2.43.0


From 49f8c1f1b740e60815c0a4e7ca0751eeed928635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 36/56] fix: refuse to issue more of the native token than a
 balance can hold

---
 core/executor/src/system_contract/native_token.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/executor/src/system_contract/native_token.rs b/core/executor/src/system_contract/native_token.rs
index 3e8dd07..d724bff 100644
--- a/core/executor/src/system_contract/native_token.rs
+++ b/core/executor/src/system_contract/native_token.rs
@@ -29,7 +29,10 @@ impl<Adapter: ExecutorAdapter + ApplyBackend> SystemContract<Adapter>
         let mut account = backend.basic(l2_addr);
 
         if direction {
-            account.balance += tx_value;
+            account.balance = match account.balance.checked_add(tx_value) {
+                Some(balance) => balance,
+                None => return revert_resp(gas_limit),
+            };
         } else {
             if account.balance < tx_value {
                 return revert_resp(gas_limit);
-- 
2.43.0


From 8c1d44e45ad79937c2813740740f00934e0e2555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 37/56] fix: vote on a proposal only under its own hash

---
 core/consensus/src/engine.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 37c7a28..0361ad9 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -159,6 +159,14 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<Proposal> for ConsensusEngine<A
     ) -> Result<(), Box<dyn Error + Send>> {
         let time = Instant::now();
 
+        if hash.as_ref() != proposal.hash().as_bytes() {
+            return Err(ProtocolError::from(ConsensusError::Other(format!(
+                "proposal hash mismatch, expect {:#x}",
+                proposal.hash()
+            )))
+            .into());
+        }
+
         if proposal.number != proposal.proof.number + 1 {
             return Err(ProtocolError::from(ConsensusError::InvalidProof {
                 expect: proposal.number - 1,
-- 
2.43.0


From 7328ce7d7a04d5cc219ef87ff3e3ae932b01967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 38/56] fix: refuse a proposal that is not of the number being
 decided

---
 core/consensus/src/engine.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 0361ad9..72f2665 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -167,9 +167,17 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<Proposal> for ConsensusEngine<A
             .into());
         }
 
-        if proposal.number != proposal.proof.number + 1 {
+        if proposal.number != next_number {
+            return Err(ProtocolError::from(ConsensusError::Other(format!(
+                "proposal is of number {}, expect {}",
+                proposal.number, next_number
+            )))
+            .into());
+        }
+
+        if proposal.number.checked_sub(1) != Some(proposal.proof.number) {
             return Err(ProtocolError::from(ConsensusError::InvalidProof {
-                expect: proposal.number - 1,
+                expect: proposal.number.saturating_sub(1),
                 actual: proposal.proof.number,
             })
             .into());
-- 
2.43.0


From c8b62f64fb2b01c29e7d229909d18e5c4f12af60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 39/56] fix: refuse a proposal on top of another state

---
 core/consensus/src/engine.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 72f2665..065022c 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -579,6 +579,14 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
             .get_block_by_number(ctx.clone(), proposal.number - 1)
             .await?;
 
+        if previous_block.header.state_root != proposal.prev_state_root {
+            return Err(ConsensusError::InvalidStateRoot {
+                expect: previous_block.header.state_root,
+                actual: proposal.prev_state_root,
+            }
+            .into());
+        }
+
         // verify block timestamp.
         if !validate_timestamp(
             current_timestamp,
-- 
2.43.0


From 24b44dcfe71e682cc1b0d0ca2ff8215afd6f6ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 40/56] fix: refuse a proposal with another gas limit

---
 core/consensus/src/engine.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 065022c..f4370d6 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -579,6 +579,14 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
             .get_block_by_number(ctx.clone(), proposal.number - 1)
             .await?;
 
+        if proposal.gas_limit != MAX_BLOCK_GAS_LIMIT.into() {
+            return Err(ConsensusError::Other(format!(
+                "invalid gas limit {} of the proposal",
+                proposal.gas_limit
+            ))
+            .into());
+        }
+
         if previous_block.header.state_root != proposal.prev_state_root {
             return Err(ConsensusError::InvalidStateRoot {
                 expect: previous_block.header.state_root,
-- 
2.43.0


From 24f64aa4188af596f47cc5632dad304400bdcb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 41/56] fix: keep the proof of a synchronized block, not that
 of the one before

---
 core/consensus/src/synchronization.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/consensus/src/synchronization.rs b/core/consensus/src/synchronization.rs
index 6ad31ea..1904322 100644
--- a/core/consensus/src/synchronization.rs
+++ b/core/consensus/src/synchronization.rs
@@ -360,6 +360,7 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
             rich_block.txs.clone(),
             receipts,
             rich_block.block.clone(),
+            proof,
         )
         .await?;
 
@@ -455,6 +456,7 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
         txs: Vec<SignedTransaction>,
         receipts: Vec<Receipt>,
         block: Block,
+        proof: Proof,
     ) -> ProtocolResult<()> {
         self.adapter
             .save_signed_txs(ctx.clone(), block.header.number, txs)
@@ -462,9 +464,7 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
         self.adapter
             .save_receipts(ctx.clone(), block.header.number, receipts)
             .await?;
-        self.adapter
-            .save_proof(ctx.clone(), block.header.proof.clone())
-            .await?;
+        self.adapter.save_proof(ctx.clone(), proof).await?;
         self.adapter.save_block(ctx.clone(), block).await?;
         Ok(())
     }
-- 
2.43.0


From 899113932722291397ecd486821b7e53249e4231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 42/56] fix: refuse a synchronized block whose header is not
 that of its execution

---
 core/consensus/src/synchronization.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/core/consensus/src/synchronization.rs b/core/consensus/src/synchronization.rs
index 1904322..903f2fb 100644
--- a/core/consensus/src/synchronization.rs
+++ b/core/consensus/src/synchronization.rs
@@ -5,6 +5,8 @@ use parking_lot::RwLock;
 
 use common_apm::Instant;
 use common_apm_derive::trace_span;
+use protocol::constants::BASE_FEE_PER_GAS;
+use protocol::lazy::CHAIN_ID;
 use protocol::tokio::{sync::Mutex, time::sleep};
 use protocol::traits::{Context, Synchronization, SynchronizationAdapter};
 use protocol::types::{Block, Proof, Proposal, Receipt, RichBlock, SignedTransaction, U256};
@@ -310,16 +312,17 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
     ) -> ProtocolResult<()> {
         let block = &rich_block.block;
         let block_hash = block.hash();
+        let proposal = Proposal::new_with_state_root(
+            &block.header,
+            self.status.inner().last_state_root,
+            block.tx_hashes.clone(),
+        );
         let resp = self
             .adapter
             .exec(
                 ctx.clone(),
                 status_agent.inner().last_state_root,
-                &Proposal::new_with_state_root(
-                    &block.header,
-                    self.status.inner().last_state_root,
-                    block.tx_hashes.clone(),
-                ),
+                &proposal,
                 &rich_block.txs,
             )
             .await?;
@@ -340,6 +343,18 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
             .into());
         }
 
+        // the votes do not cover what is left of the header
+        let mut proposal = proposal;
+        proposal.base_fee_per_gas = BASE_FEE_PER_GAS.into();
+        proposal.chain_id = **CHAIN_ID.load();
+        if Block::new(proposal, resp.clone()).header != block.header {
+            return Err(ConsensusError::Other(format!(
+                "invalid header of the synchronized block {}",
+                block.header.number
+            ))
+            .into());
+        }
+
         let (receipts, _logs) = rich_block.generate_receipts_and_logs(&resp);
 
         let metadata = self
-- 
2.43.0


From 8dce1e3a57404a37b469702e02af8949789f3f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:23 +0000
Subject: [PATCH 43/56] fix: work with the validators and the state that a
 synchronization arrives at

---
 core/consensus/src/adapter.rs         |  7 +++++++
 core/consensus/src/synchronization.rs | 20 +++++++++++++++++++-
 protocol/src/traits/consensus.rs      |  5 +++++
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/core/consensus/src/adapter.rs b/core/consensus/src/adapter.rs
index 4b87158..965ad6f 100644
--- a/core/consensus/src/adapter.rs
+++ b/core/consensus/src/adapter.rs
@@ -25,6 +25,7 @@ use protocol::types::{
 use protocol::{async_trait, tokio::task, trie, ProtocolResult};
 
 use crate::consensus::gen_overlord_status;
+use crate::engine::generate_new_crypto_map;
 use crate::util::{convert_hex_to_bls_pubkeys, OverlordCrypto};
 use crate::BlockHeaderField::{PreviousBlockHash, Version};
 use crate::BlockProofField::{BitMap, HashMismatch, HeightMismatch, Signature, WeightNotFound};
@@ -221,6 +222,12 @@ where
     fn get_tx_from_mem(&self, ctx: Context, tx_hash: &Hash) -> Option<SignedTransaction> {
         self.mempool.get_tx_from_mem(ctx, tx_hash)
     }
+
+    fn update_validators(&self, metadata: &Metadata) -> ProtocolResult<()> {
+        self.crypto
+            .update(generate_new_crypto_map(metadata.clone())?);
+        Ok(())
+    }
 }
 
 #[async_trait]
diff --git a/core/consensus/src/synchronization.rs b/core/consensus/src/synchronization.rs
index 903f2fb..d03a082 100644
--- a/core/consensus/src/synchronization.rs
+++ b/core/consensus/src/synchronization.rs
@@ -5,7 +5,7 @@ use parking_lot::RwLock;
 
 use common_apm::Instant;
 use common_apm_derive::trace_span;
-use protocol::constants::BASE_FEE_PER_GAS;
+use protocol::constants::{BASE_FEE_PER_GAS, MAX_BLOCK_GAS_LIMIT};
 use protocol::lazy::CHAIN_ID;
 use protocol::tokio::{sync::Mutex, time::sleep};
 use protocol::traits::{Context, Synchronization, SynchronizationAdapter};
@@ -525,6 +525,24 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
             .get_metadata_by_block_number(sync_status.last_number + 1)
             .await?;
 
+        // The next block may be in another epoch, and the mempool has to see the new
+        // state.
+        self.adapter.update_validators(&metadata)?;
+        self.adapter.tag_consensus(
+            ctx.clone(),
+            metadata
+                .verifier_list
+                .iter()
+                .map(|v| v.pub_key.as_bytes())
+                .collect(),
+        )?;
+        self.adapter.set_args(
+            ctx.clone(),
+            sync_status.last_state_root,
+            MAX_BLOCK_GAS_LIMIT,
+            sync_status.max_tx_size.low_u64(),
+        );
+
         self.adapter.update_status(
             ctx,
             sync_status.last_number,
diff --git a/protocol/src/traits/consensus.rs b/protocol/src/traits/consensus.rs
index 2783434..731b360 100644
--- a/protocol/src/traits/consensus.rs
+++ b/protocol/src/traits/consensus.rs
@@ -99,6 +99,11 @@ pub trait SynchronizationAdapter: CommonConsensusAdapter + Send + Sync {
     ) -> ProtocolResult<Proof>;
 
     fn get_tx_from_mem(&self, ctx: Context, tx_hash: &Hash) -> Option<SignedTransaction>;
+
+    /// Verify signatures with the keys of the given validators from now on.
+    fn update_validators(&self, _metadata: &Metadata) -> ProtocolResult<()> {
+        Ok(())
+    }
 }
 
 #[async_trait]
-- 
2.43.0


From 4c46ff7696086c9564ac061154c0d40db8d253bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:11 +0000
Subject: [PATCH 44/56] fix: a transaction stored by an unfinished commit is
 not committed yet

---
 core/mempool/src/adapter/mod.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/core/mempool/src/adapter/mod.rs b/core/mempool/src/adapter/mod.rs
index 29eeda7..222557f 100644
--- a/core/mempool/src/adapter/mod.rs
+++ b/core/mempool/src/adapter/mod.rs
@@ -465,10 +465,23 @@ where
     }
 
     async fn check_storage_exist(&self, ctx: Context, tx_hash: &Hash) -> ProtocolResult<()> {
-        match self.storage.get_transaction_by_hash(ctx, tx_hash).await {
-            Ok(Some(_)) => Err(MemPoolError::CommittedTx(*tx_hash).into()),
-            Ok(None) => Ok(()),
-            Err(err) => Err(err),
+        if self
+            .storage
+            .get_transaction_by_hash(ctx.clone(), tx_hash)
+            .await?
+            .is_none()
+        {
+            return Ok(());
+        }
+
+        // What is stored for a block beyond the latest one was left by a commit that
+        // did not finish, so that the transaction is not committed yet.
+        let latest = self.get_latest_height(ctx.clone()).await?;
+        match self.storage.get_receipt_by_hash(ctx, tx_hash).await? {
+            Some(receipt) if receipt.block_number <= latest => {
+                Err(MemPoolError::CommittedTx(*tx_hash).into())
+            }
+            _ => Ok(()),
         }
     }
 
-- 
2.43.0


From ca7d4eed8af7ef62122c1aed72d2fd86987dcffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:42 +0000
Subject: [PATCH 45/56] fix: resolve a block hash given as block id, and refuse
 one that is unknown

---
 core/api/src/jsonrpc/impl/web3.rs | 61 ++++++++++++-------------------
 1 file changed, 23 insertions(+), 38 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 79361f8..19c65e8 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -47,11 +47,13 @@ impl<Adapter: APIAdapter> Web3RpcImpl<Adapter> {
         block_id: Option<BlockId>,
     ) -> Result<Option<BlockNumber>, RpcError> {
         match block_id {
-            Some(BlockId::Hash(ref hash)) => Ok(self
+            Some(BlockId::Hash(ref hash)) => self
                 .adapter
                 .get_block_number_by_hash(Context::new(), *hash)
                 .await
-                .map_err(|e| RpcError::Internal(e.to_string()))?),
+                .map_err(|e| RpcError::Internal(e.to_string()))?
+                .map(Some)
+                .ok_or(RpcError::InvalidBlockHash),
             _ => Ok(block_id.unwrap_or_default().into()),
         }
     }
@@ -267,9 +269,10 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
         number: BlockId,
         show_rich_tx: bool,
     ) -> RpcResult<Option<Web3Block>> {
+        let number = self.get_block_number_by_id(Some(number)).await?;
         let block = self
             .adapter
-            .get_block_by_number(Context::new(), number.into())
+            .get_block_by_number(Context::new(), number)
             .await
             .map_err(|e| RpcError::Internal(e.to_string()))?;
 
@@ -371,12 +374,8 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
                     .map(|account| account.nonce + pending_tx_count)
                     .unwrap_or_default())
             }
-            BlockId::Hash(ref hash) => {
-                let number = self
-                    .adapter
-                    .get_block_number_by_hash(Context::new(), *hash)
-                    .await
-                    .map_err(|e| RpcError::Internal(e.to_string()))?;
+            id => {
+                let number = self.get_block_number_by_id(Some(id)).await?;
                 Ok(self
                     .adapter
                     .get_account(Context::new(), address, number)
@@ -384,12 +383,6 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
                     .map(|account| account.nonce)
                     .unwrap_or_default())
             }
-            b => Ok(self
-                .adapter
-                .get_account(Context::new(), address, b.into())
-                .await
-                .map(|account| account.nonce)
-                .unwrap_or_default()),
         }
     }
 
@@ -472,10 +465,7 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
             }
         }
 
-        let num = match number {
-            Some(BlockId::Num(n)) => Some(n.low_u64()),
-            _ => None,
-        };
+        let num = self.get_block_number_by_id(number).await?;
         let data_bytes = req
             .data
             .as_ref()
@@ -517,9 +507,10 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
 
     #[metrics_rpc("eth_getBlockTransactionCountByNumber")]
     async fn get_block_transaction_count_by_number(&self, number: BlockId) -> RpcResult<U256> {
+        let number = self.get_block_number_by_id(Some(number)).await?;
         let block = self
             .adapter
-            .get_block_by_number(Context::new(), number.into())
+            .get_block_by_number(Context::new(), number)
             .await
             .map_err(|e| RpcError::Internal(e.to_string()))?;
         let count = match block {
@@ -689,23 +680,16 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
                     .map_err(|e| RpcError::Internal(e.to_string()))?
                     .unwrap();
                 let latest_number = latest_block.header.number;
-                let (start, end) = {
-                    let convert = |id: BlockId| -> BlockNumber {
-                        match id {
-                            BlockId::Num(n) => n.low_u64(),
-                            BlockId::Earliest => 0,
-                            _ => latest_number,
-                        }
-                    };
-
-                    (
-                        filter.from_block.map(convert).unwrap_or(latest_number),
-                        std::cmp::min(
-                            filter.to_block.map(convert).unwrap_or(latest_number),
-                            latest_number,
-                        ),
-                    )
-                };
+                let start = self
+                    .get_block_number_by_id(filter.from_block)
+                    .await?
+                    .unwrap_or(latest_number);
+                let end = std::cmp::min(
+                    self.get_block_number_by_id(filter.to_block)
+                        .await?
+                        .unwrap_or(latest_number),
+                    latest_number,
+                );
 
                 if start > latest_number {
                     return Err(RpcError::InvalidFromBlockNumber(start).into());
@@ -952,9 +936,10 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
         raw_index.copy_from_slice(&raw[..8]);
         let index = usize::from_le_bytes(raw_index);
 
+        let number = self.get_block_number_by_id(Some(number)).await?;
         let block = self
             .adapter
-            .get_block_by_number(Context::new(), number.into())
+            .get_block_by_number(Context::new(), number)
             .await
             .map_err(|e| RpcError::Internal(e.to_string()))?;
 
-- 
2.43.0


From eab3f932f807623b3c8390a80f25b269be973cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:42 +0000
Subject: [PATCH 46/56] fix: refuse a transaction index beyond u64 without
 panicking

---
 core/api/src/jsonrpc/error.rs     | 4 ++--
 core/api/src/jsonrpc/impl/web3.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/api/src/jsonrpc/error.rs b/core/api/src/jsonrpc/error.rs
index ba0701c..a6bd5e8 100644
--- a/core/api/src/jsonrpc/error.rs
+++ b/core/api/src/jsonrpc/error.rs
@@ -1,6 +1,6 @@
 use jsonrpsee::types::{error::ErrorObject, ErrorObjectOwned};
 
-use protocol::types::{ExitReason, TxResp};
+use protocol::types::{ExitReason, TxResp, U256};
 use protocol::{codec::hex_encode, Display};
 
 use core_executor::decode_revert_msg;
@@ -40,7 +40,7 @@ pub enum RpcError {
     #[display(fmt = "Invalid newest block {:?}", _0)]
     InvalidNewestBlock(BlockId),
     #[display(fmt = "Invalid position {}", _0)]
-    InvalidPosition(u64),
+    InvalidPosition(U256),
     #[display(fmt = "Cannot find the block")]
     CannotFindBlock,
     #[display(fmt = "Invalid reward percentiles {} {}", _0, _1)]
diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 19c65e8..5b6becd 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -894,7 +894,7 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
         position: U256,
     ) -> RpcResult<Option<Web3Transaction>> {
         if position > U256::from(usize::MAX) {
-            return Err(RpcError::InvalidPosition(position.as_u64()).into());
+            return Err(RpcError::InvalidPosition(position).into());
         }
 
         let mut raw = [0u8; 32];
@@ -925,7 +925,7 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
         position: U256,
     ) -> RpcResult<Option<Web3Transaction>> {
         if position > U256::from(usize::MAX) {
-            return Err(RpcError::InvalidPosition(position.as_u64()).into());
+            return Err(RpcError::InvalidPosition(position).into());
         }
 
         let mut raw = [0u8; 32];
-- 
2.43.0


From 0dfc470dd7dfd26ea54c3db86202d8a87a3a2c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 47/56] fix: report an unknown filter id beyond u64 without
 panicking

---
 core/api/src/jsonrpc/error.rs       | 2 +-
 core/api/src/jsonrpc/impl/filter.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/api/src/jsonrpc/error.rs b/core/api/src/jsonrpc/error.rs
index a6bd5e8..b4ed80b 100644
--- a/core/api/src/jsonrpc/error.rs
+++ b/core/api/src/jsonrpc/error.rs
@@ -48,7 +48,7 @@ pub enum RpcError {
     #[display(fmt = "Invalid from block number and to block number union")]
     InvalidFromBlockAndToBlockUnion,
     #[display(fmt = "Invalid filter id {}", _0)]
-    CannotFindFilterId(u64),
+    CannotFindFilterId(U256),
     #[display(fmt = "Not allow to call system contract address")]
     CallSystemContract,
 
diff --git a/core/api/src/jsonrpc/impl/filter.rs b/core/api/src/jsonrpc/impl/filter.rs
index bd9e727..acb533a 100644
--- a/core/api/src/jsonrpc/impl/filter.rs
+++ b/core/api/src/jsonrpc/impl/filter.rs
@@ -246,7 +246,7 @@ where
             sender.send(res).unwrap()
         } else {
             sender
-                .send(Err(RpcError::CannotFindFilterId(id.as_u64()).into()))
+                .send(Err(RpcError::CannotFindFilterId(id).into()))
                 .unwrap()
         }
     }
-- 
2.43.0


From 43893f01fdd3b30340cf606f2dd76619f1666464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 48/56] fix: keep the filters when a client is gone before its
 answer

---
 core/api/src/jsonrpc/impl/filter.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/filter.rs b/core/api/src/jsonrpc/impl/filter.rs
index acb533a..0e6e442 100644
--- a/core/api/src/jsonrpc/impl/filter.rs
+++ b/core/api/src/jsonrpc/impl/filter.rs
@@ -212,7 +212,7 @@ where
                 }
 
                 self.logs_hub.insert(id, (filter, Instant::now()));
-                sender.send(id).unwrap()
+                let _ = sender.send(id);
             }
             Command::NewBlocks(sender) => {
                 let id = random_id();
@@ -223,13 +223,13 @@ where
                     .unwrap()
                     .unwrap();
                 self.blocks_hub.insert(id, (header.number, Instant::now()));
-                sender.send(id).unwrap()
+                let _ = sender.send(id);
             }
             Command::FilterRequest((id, sender)) => self.impl_filter(id, sender).await,
             Command::Uninstall((id, sender)) => {
                 let removed =
                     self.blocks_hub.remove(&id).is_some() || self.logs_hub.remove(&id).is_some();
-                sender.send(removed).unwrap()
+                let _ = sender.send(removed);
             }
         }
     }
@@ -237,17 +237,15 @@ where
     async fn impl_filter(&mut self, id: U256, sender: oneshot::Sender<RpcResult<FilterChanges>>) {
         if self.blocks_hub.contains_key(&id) {
             let res = Ok(FilterChanges::Blocks(self.filter_block(&id).await));
-            sender.send(res).unwrap()
+            let _ = sender.send(res);
         } else if self.logs_hub.contains_key(&id) {
             let res = self.filter_logs(&id).await.map(FilterChanges::Logs);
             if res.is_err() {
                 self.logs_hub.remove(&id);
             }
-            sender.send(res).unwrap()
+            let _ = sender.send(res);
         } else {
-            sender
-                .send(Err(RpcError::CannotFindFilterId(id).into()))
-                .unwrap()
+            let _ = sender.send(Err(RpcError::CannotFindFilterId(id).into()));
         }
     }
 
-- 
2.43.0


From f6bb5fac15bb462f8e79ff01fe31fb69171987d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 49/56] fix: a poll that finds nothing keeps a filter alive too

---
 core/api/src/jsonrpc/impl/filter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/api/src/jsonrpc/impl/filter.rs b/core/api/src/jsonrpc/impl/filter.rs
index 0e6e442..05ab89c 100644
--- a/core/api/src/jsonrpc/impl/filter.rs
+++ b/core/api/src/jsonrpc/impl/filter.rs
@@ -258,6 +258,7 @@ where
             .unwrap()
             .unwrap();
         if *start >= latest.header.number {
+            *time = Instant::now();
             return Vec::new();
         }
 
@@ -324,6 +325,7 @@ where
         };
 
         if start > latest_number {
+            *time = Instant::now();
             return Ok(Vec::new());
         }
         if end.saturating_sub(start) > self.log_filter_max_block_range {
-- 
2.43.0


From 10cf5ca371a342de2e98481610b59e629b504845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 50/56] fix: refuse a filter whose range is given by block
 hashes

---
 core/api/src/jsonrpc/impl/filter.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/api/src/jsonrpc/impl/filter.rs b/core/api/src/jsonrpc/impl/filter.rs
index 05ab89c..690a3ae 100644
--- a/core/api/src/jsonrpc/impl/filter.rs
+++ b/core/api/src/jsonrpc/impl/filter.rs
@@ -69,6 +69,11 @@ impl Web3FilterServer for AxonWeb3RpcFilter {
             }
             _ => (),
         }
+        if let (Some(BlockId::Hash(_)), _) | (_, Some(BlockId::Hash(_))) =
+            (&filter.from_block, &filter.to_block)
+        {
+            return Err(RpcError::InvalidFromBlockAndToBlockUnion.into());
+        }
         let (tx, rx) = oneshot::channel();
 
         self.sender
-- 
2.43.0


From 628bfb8e9a1d06d5aa9060a96dcfeb1d9fc31f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 51/56] fix: await the sending of a subscription's messages

---
 core/api/src/jsonrpc/ws_subscription.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/api/src/jsonrpc/ws_subscription.rs b/core/api/src/jsonrpc/ws_subscription.rs
index 46b197a..e3e8a29 100644
--- a/core/api/src/jsonrpc/ws_subscription.rs
+++ b/core/api/src/jsonrpc/ws_subscription.rs
@@ -134,7 +134,7 @@ where
                 let msg = SubscriptionMessage::from_json(&web3_header).unwrap();
 
                 for hub in self.header_hubs.iter_mut() {
-                    let _ignore = hub.sink.send(msg.clone());
+                    let _ignore = hub.sink.send(msg.clone()).await;
                 }
             }
 
@@ -142,7 +142,7 @@ where
             let msg = SubscriptionMessage::from_json(&latest_web3_header).unwrap();
 
             for hub in self.header_hubs.iter_mut() {
-                let _ignore = hub.sink.send(msg.clone());
+                let _ignore = hub.sink.send(msg.clone()).await;
             }
         }
 
@@ -153,7 +153,7 @@ where
 
             for hub in self.sync_hubs.iter_mut() {
                 // unbound sender can ignore it's return
-                let _ignore = hub.sink.send(msg.clone());
+                let _ignore = hub.sink.send(msg.clone()).await;
             }
         }
 
@@ -198,7 +198,7 @@ where
                         for log in logs.drain(..) {
                             let msg = SubscriptionMessage::from_json(&log).unwrap();
                             // unbound sender can ignore it's return
-                            let _ignore = hub.sink.send(msg);
+                            let _ignore = hub.sink.send(msg).await;
                         }
                     }
                     index += log_len;
-- 
2.43.0


From 5f6d4a775a0c03ac6913e5bb189903d8296c9998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 52/56] fix: give a subscribed log the index of its transaction

---
 core/api/src/jsonrpc/ws_subscription.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/api/src/jsonrpc/ws_subscription.rs b/core/api/src/jsonrpc/ws_subscription.rs
index e3e8a29..6cf2d95 100644
--- a/core/api/src/jsonrpc/ws_subscription.rs
+++ b/core/api/src/jsonrpc/ws_subscription.rs
@@ -185,7 +185,6 @@ where
                 let mut index = 0;
                 let mut logs = Vec::new();
                 for receipt in receipts.into_iter().flatten() {
-                    let log_len = receipt.logs.len();
                     for hub in self.log_hubs.iter_mut() {
                         from_receipt_to_web3_log(
                             index,
@@ -201,7 +200,7 @@ where
                             let _ignore = hub.sink.send(msg).await;
                         }
                     }
-                    index += log_len;
+                    index += 1;
                 }
             }
         }
-- 
2.43.0


From 1c7517c25bf5d95cf10f5bf544f235e3cf98d99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:40 +0000
Subject: [PATCH 53/56] fix: forget an address for the peer it is stored under

---
 core/network/src/peer_manager/peer_store/addr_manager.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/network/src/peer_manager/peer_store/addr_manager.rs b/core/network/src/peer_manager/peer_store/addr_manager.rs
index e87e120..a6e5aea 100644
--- a/core/network/src/peer_manager/peer_store/addr_manager.rs
+++ b/core/network/src/peer_manager/peer_store/addr_manager.rs
@@ -107,13 +107,15 @@ impl Manager {
                 self.swap_random_id(random_id_pos, self.random_ids.len() - 1);
                 self.random_ids.pop();
 
-                if let Some(peer_id) = extract_peer_id(multiaddr) {
+                let info = self.id_to_info.remove(&id);
+                // the stored address may belong to another peer than `multiaddr`
+                if let Some(peer_id) = info.as_ref().and_then(|info| extract_peer_id(&info.addr)) {
                     self.peer_id_to_id
                         .get_mut(&peer_id)
                         .map(|set| set.remove(&id));
                 }
 
-                self.id_to_info.remove(&id)
+                info
             })
         })
     }
-- 
2.43.0


From bb8ac59efd00b6937d17c04b42dd5019b26666d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:40 +0000
Subject: [PATCH 54/56] fix: disconnect a peer that another module bans

---
 core/network/src/peer_manager/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index 82f5fdc..ef91b19 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -252,7 +252,8 @@ impl PeerManager {
         if let Some(info) = self.online.read().peers.get(peer_id) {
             self.peer_store
                 .write()
-                .ban_addr(&info.addr, timeout, ban_reason)
+                .ban_addr(&info.addr, timeout, ban_reason);
+            return Some(info.session_id);
         }
         None
     }
-- 
2.43.0


From 48cff4eaab0820783ad8716135ff45fe8fa3b2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:40 +0000
Subject: [PATCH 55/56] fix: refuse sessions of banned addresses and sessions
 beyond the limits

---
 core/network/src/peer_manager/mod.rs | 1 -
 core/network/src/service.rs          | 3 +++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index ef91b19..5bf8c1e 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -232,7 +232,6 @@ impl PeerManager {
         let peer_id = extract_peer_id(addr).unwrap();
         self.bootstraps.contains_key(&peer_id)
             || self.consensus_list.read().contains(&peer_id)
-            || self.with_peer_store(|peer_store| !peer_store.is_addr_banned(addr))
     }
 
     pub fn local_listen_addrs(&self) -> Vec<Multiaddr> {
diff --git a/core/network/src/service.rs b/core/network/src/service.rs
index ac8c027..eebddfc 100644
--- a/core/network/src/service.rs
+++ b/core/network/src/service.rs
@@ -658,6 +658,9 @@ impl ServiceHandle for ServiceHandler {
                     return;
                 }
                 let disable = status.total + 1 > self.config.max_connections
+                    || self.peer_store.with_peer_store(|peer_store| {
+                        peer_store.is_addr_banned(&session_context.address)
+                    })
                     || match session_context.ty {
                         SessionType::Inbound => status.inbound + 1 > self.config.inbound_conn_limit,
                         SessionType::Outbound => {
-- 
2.43.0


From 89716b7cc3124bbcaa0cdddcf974e0cb33846e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:40 +0000
Subject: [PATCH 56/56] fix: count outbound sessions against the outbound limit

---
 core/network/src/service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/network/src/service.rs b/core/network/src/service.rs
index eebddfc..e1eded3 100644
--- a/core/network/src/service.rs
+++ b/core/network/src/service.rs
@@ -430,7 +430,7 @@ where
             .peer_mgr_handle
             .with_registry(|reg| reg.connection_status());
         let count = (self.config.max_connections - self.config.inbound_conn_limit)
-            .saturating_sub(status.inbound);
+            .saturating_sub(status.outbound);
         if count == 0 {
             self.try_identify_count = 0;
             return;
-- 
2.43.0

