From 746f4d41bd73a24c51f6ec4914ea123c48583bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:11 +0000
Subject: [PATCH 01/72] fix: encode all eight fields of TxResp

The encoder declared a list of seven items and then appended eight, so the
last field was written after the list and no encoding could be decoded again.
---
 protocol/src/codec/executor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/src/codec/executor.rs b/protocol/src/codec/executor.rs
index 24621f2..c698fac 100644
--- a/protocol/src/codec/executor.rs
+++ b/protocol/src/codec/executor.rs
@@ -4,7 +4,7 @@ use crate::types::TxResp;
 
 impl Encodable for TxResp {
     fn rlp_append(&self, s: &mut RlpStream) {
-        s.begin_list(7)
+        s.begin_list(8)
             .append(&bincode::serialize(&self.exit_reason).unwrap())
             .append(&self.ret)
             .append(&self.gas_used)
@@ -19,7 +19,7 @@ impl Encodable for TxResp {
 impl Decodable for TxResp {
     fn decode(r: &Rlp) -> Result<Self, DecoderError> {
         match r.prototype()? {
-            Prototype::List(7) => Ok(TxResp {
+            Prototype::List(8) => Ok(TxResp {
                 exit_reason:  {
                     let tmp: Vec<u8> = r.val_at(0)?;
                     bincode::deserialize(&tmp)
-- 
2.43.0


From af44818db0598810a685ef87e14362bfd824d429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:11 +0000
Subject: [PATCH 02/72] fix: count a signed transaction once when it is
 appended to an RLP list

The nested append counted every transaction twice, so the list of a batch was
closed after half of its transactions and the rest were lost by the receiver.
---
 protocol/src/codec/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/src/codec/transaction.rs b/protocol/src/codec/transaction.rs
index 513a841..1b8d1c1 100644
--- a/protocol/src/codec/transaction.rs
+++ b/protocol/src/codec/transaction.rs
@@ -328,7 +328,7 @@ impl Decodable for UnverifiedTransaction {
 
 impl Encodable for SignedTransaction {
     fn rlp_append(&self, s: &mut RlpStream) {
-        s.append(&self.transaction.rlp_bytes());
+        s.append_internal(&self.transaction.rlp_bytes());
     }
 }
 
-- 
2.43.0


From a7672a1e0ea1686c1cabb6c06da8a44ae3602a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 03/72] fix: reject an empty transaction instead of panicking
 on it

---
 protocol/src/codec/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/src/codec/transaction.rs b/protocol/src/codec/transaction.rs
index 1b8d1c1..6f2bdec 100644
--- a/protocol/src/codec/transaction.rs
+++ b/protocol/src/codec/transaction.rs
@@ -312,7 +312,7 @@ impl Encodable for UnverifiedTransaction {
 impl Decodable for UnverifiedTransaction {
     fn decode(r: &Rlp) -> Result<Self, DecoderError> {
         let raw = r.as_raw();
-        let header = raw[0];
+        let header = *raw.first().ok_or(DecoderError::RlpIsTooShort)?;
 
         if (header & 0x80) != 0x00 {
             return LegacyTransaction::rlp_decode(r);
-- 
2.43.0


From 7b238941df20d7c6076ea5dfab722839b53829c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 04/72] fix: reject an interoperation signature with an empty r
 instead of panicking on it

---
 protocol/src/types/transaction.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/src/types/transaction.rs b/protocol/src/types/transaction.rs
index 20d2c06..85874e4 100644
--- a/protocol/src/types/transaction.rs
+++ b/protocol/src/types/transaction.rs
@@ -406,7 +406,8 @@ impl SignatureComponents {
 
     pub(crate) fn extract_interoperation_tx_sender(&self) -> ProtocolResult<H160> {
         // Only call CKB-VM mode is supported now
-        if self.r[0] == 0 {
+        let flag = *self.r.first().ok_or(TypesError::SignatureRIsEmpty)?;
+        if flag == 0 {
             let r = rlp::decode::<CellDepWithPubKey>(&self.r[1..])
                 .map_err(TypesError::DecodeInteroperationSigR)?;
 
-- 
2.43.0


From e56d1b0ca7dcc622d66ea36439943e92ee1c8de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 05/72] fix: parse an address before its checksum is computed

The checksum of a text longer than the digest indexed past its end and panicked.
---
 protocol/src/types/primitive.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protocol/src/types/primitive.rs b/protocol/src/types/primitive.rs
index 085bb81..ccd20fd 100644
--- a/protocol/src/types/primitive.rs
+++ b/protocol/src/types/primitive.rs
@@ -264,11 +264,13 @@ impl FromStr for Address {
     type Err = ProtocolError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
+        let address = Address::from_hex(&s.to_lowercase())?;
+
         if checksum(s) != s {
             return Err(TypesError::InvalidCheckSum.into());
         }
 
-        Address::from_hex(&s.to_lowercase())
+        Ok(address)
     }
 }
 
-- 
2.43.0


From e7a4c65782db11e7da25aa7984a08daf0b78ddcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 06/72] fix: reject a hex text with a doubled 0x prefix

---
 protocol/src/types/primitive.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protocol/src/types/primitive.rs b/protocol/src/types/primitive.rs
index ccd20fd..4c5721d 100644
--- a/protocol/src/types/primitive.rs
+++ b/protocol/src/types/primitive.rs
@@ -144,7 +144,7 @@ impl FromStr for Hex {
             return Err(TypesError::HexPrefix.into());
         }
 
-        Ok(Hex(hex_decode(&s[2..])?.into()))
+        Ok(Hex(hex_decode(s)?.into()))
     }
 }
 
@@ -251,6 +251,9 @@ impl Address {
 
     pub fn from_hex(s: &str) -> ProtocolResult<Self> {
         let s = clean_0x(s)?;
+        if s.starts_with(HEX_PREFIX) {
+            return Err(TypesError::HexPrefix.into());
+        }
         let bytes = Bytes::from(hex_decode(s)?);
         Self::from_bytes(bytes)
     }
-- 
2.43.0


From 00e6271f8b254607fa8b28b7564c5f5d797ce382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 07/72] fix: count and trace early returns of annotated
 synchronous functions

---
 common/apm-derive/src/rpc_expand.rs   | 4 +++-
 common/apm-derive/src/trace_expand.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/common/apm-derive/src/rpc_expand.rs b/common/apm-derive/src/rpc_expand.rs
index c35799f..a66fe0b 100644
--- a/common/apm-derive/src/rpc_expand.rs
+++ b/common/apm-derive/src/rpc_expand.rs
@@ -77,7 +77,9 @@ pub fn expand_rpc_metrics(attr: TokenStream, func: TokenStream) -> TokenStream {
 
             log::debug!(#debug, #fn_name, #( #args, )*);
 
-            let ret: #func_ret_ty = #func_block;
+            // Called as a closure, so that leaving the block early is counted as well.
+            #[allow(clippy::redundant_closure_call)]
+            let ret: #func_ret_ty = (move || -> #func_ret_ty #func_block)();
 
             if ret.is_err() {
                 common_apm::metrics::api::API_REQUEST_RESULT_COUNTER_VEC_STATIC
diff --git a/common/apm-derive/src/trace_expand.rs b/common/apm-derive/src/trace_expand.rs
index cf9fbdf..e11cd88 100644
--- a/common/apm-derive/src/trace_expand.rs
+++ b/common/apm-derive/src/trace_expand.rs
@@ -73,7 +73,9 @@ pub fn expand_trace_span(attr: TokenStream, func: TokenStream) -> TokenStream {
         }
     } else if !func_return.is_ret_pin_box_fut() && is_return_result(func_output) {
         quote! {
-            let ret: #func_ret_ty = #func_block;
+            // Called as a closure, so that leaving the block early is traced as well.
+            #[allow(clippy::redundant_closure_call)]
+            let ret: #func_ret_ty = (move || -> #func_ret_ty #func_block)();
 
             match span.as_mut() {
                 Some(span) => {
-- 
2.43.0


From da343bc293b1232d6bf0189876df7b30e8a29d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 08/72] fix: rolling a log twice in a second overwrote the
 previous archive

---
 common/logger/src/date_fixed_roller.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/common/logger/src/date_fixed_roller.rs b/common/logger/src/date_fixed_roller.rs
index e4ccc91..f06bba7 100644
--- a/common/logger/src/date_fixed_roller.rs
+++ b/common/logger/src/date_fixed_roller.rs
@@ -50,7 +50,7 @@ impl DateFixedWindowRoller {
     }
 
     fn roll_file(&self, cur_log: &Path, date: &str, timestamp: &str) -> Result<(), anyhow::Error> {
-        let archived_log = {
+        let mut archived_log = {
             let pattern = self.pattern.clone();
             let partial_log = pattern.replace("{date}", date);
             partial_log.replace("{timestamp}", timestamp)
@@ -60,6 +60,15 @@ impl DateFixedWindowRoller {
             fs::create_dir_all(parent)?;
         }
 
+        // The log may roll several times in a second, don't overwrite the previous
+        // archives.
+        if Path::new(&archived_log).exists() {
+            archived_log = (1..)
+                .map(|i| format!("{}.{}", archived_log, i))
+                .find(|path| !Path::new(path).exists())
+                .expect("there is always an unused number");
+        }
+
         match fs::rename(cur_log, &archived_log) {
             Ok(()) => return Ok(()),
             Err(ref e) if e.kind() == std::io::ErrorKind::NotFound => return Ok(()),
-- 
2.43.0


From 045f8c9e8051311eb60da21c29c9e9c8556e0139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 09/72] fix: axon-tools: weigh the votes of a proof like the
 node does

---
 devtools/axon-tools/src/proof.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/devtools/axon-tools/src/proof.rs b/devtools/axon-tools/src/proof.rs
index 2c7d796..44f30d8 100644
--- a/devtools/axon-tools/src/proof.rs
+++ b/devtools/axon-tools/src/proof.rs
@@ -83,7 +83,11 @@ fn extract_pks(
 
     let bit_map = BitVec::from_bytes(&proof.bitmap);
     let mut pks = Vec::with_capacity(validator_list.len());
-    let mut count = 0usize;
+    let total_weight: u64 = validator_list
+        .iter()
+        .map(|v| u64::from(v.vote_weight))
+        .sum();
+    let mut signed_weight = 0u64;
 
     for (v, bit) in validator_list.iter().zip(bit_map.iter()) {
         if !bit {
@@ -91,10 +95,10 @@ fn extract_pks(
         }
 
         pks.push(PublicKey::from_bytes(&v.bls_pub_key.as_bytes())?);
-        count += 1;
+        signed_weight += u64::from(v.vote_weight);
     }
 
-    if count * 3 <= validator_list.len() * 2 {
+    if signed_weight * 3 <= total_weight * 2 {
         return Err(Error::NotEnoughSignatures);
     }
 
-- 
2.43.0


From 02e154c25bb800f51a63edcdd26eba72fc8bc7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 10/72] fix: axon-tools: refuse malformed and over-range hex
 numbers

---
 devtools/axon-tools/src/types.rs | 52 +++++++-------------------------
 1 file changed, 11 insertions(+), 41 deletions(-)

diff --git a/devtools/axon-tools/src/types.rs b/devtools/axon-tools/src/types.rs
index 11e6fc7..84d5a47 100644
--- a/devtools/axon-tools/src/types.rs
+++ b/devtools/axon-tools/src/types.rs
@@ -632,28 +632,17 @@ mod encode {
 
 #[cfg(all(feature = "impl-serde", feature = "std"))]
 mod decode {
-    use ethereum_types::U256;
     use serde::de::{Deserialize, Deserializer};
 
-    pub fn from_hex(hex: &str) -> Result<Vec<u8>, &'static str> {
-        let mut bytes = Vec::with_capacity((hex.len() + 1) / 2);
-
-        let mut start_i = 0;
-        if hex.len() % 2 != 0 {
-            let byte =
-                u8::from_str_radix(&hex[0..1], 16).map_err(|_| "Failed to parse hex string")?;
-            bytes.push(byte);
-            start_i = 1;
-        }
-
-        for i in (start_i..hex.len()).step_by(2) {
-            let end_i = if i + 2 > hex.len() { i + 1 } else { i + 2 };
-            let byte =
-                u8::from_str_radix(&hex[i..end_i], 16).map_err(|_| "Failed to parse hex string")?;
-            bytes.push(byte);
+    fn parse_hex(hex: &str) -> Result<u64, &'static str> {
+        match hex.strip_prefix("0x") {
+            Some("") => Ok(0),
+            Some(digits) if digits.bytes().all(|b| b.is_ascii_hexdigit()) => {
+                u64::from_str_radix(digits, 16).map_err(|_| "Number is too large")
+            }
+            Some(_) => Err("Failed to parse hex string"),
+            None => Err("Invalid format"),
         }
-
-        Ok(bytes)
     }
 
     pub fn deserialize_hex_u32<'de, D>(deserializer: D) -> Result<u32, D::Error>
@@ -661,17 +650,8 @@ mod decode {
         D: Deserializer<'de>,
     {
         let s = String::deserialize(deserializer)?;
-        if s == "0x0" {
-            return Ok(0);
-        }
-
-        if s.len() >= 2 && &s[0..2] == "0x" {
-            let bytes = from_hex(&s[2..]).map_err(serde::de::Error::custom)?;
-            let val = U256::from_big_endian(&bytes);
-            Ok(val.low_u32())
-        } else {
-            Err(serde::de::Error::custom("Invalid format"))
-        }
+        let val = parse_hex(&s).map_err(serde::de::Error::custom)?;
+        u32::try_from(val).map_err(serde::de::Error::custom)
     }
 
     pub fn deserialize_hex_u64<'de, D>(deserializer: D) -> Result<u64, D::Error>
@@ -679,17 +659,7 @@ mod decode {
         D: Deserializer<'de>,
     {
         let s = String::deserialize(deserializer)?;
-        if s == "0x0" {
-            return Ok(0);
-        }
-
-        if s.len() >= 2 && &s[0..2] == "0x" {
-            let bytes = from_hex(&s[2..]).map_err(serde::de::Error::custom)?;
-            let val = U256::from_big_endian(&bytes);
-            Ok(val.low_u64())
-        } else {
-            Err(serde::de::Error::custom("Invalid format"))
-        }
+        parse_hex(&s).map_err(serde::de::Error::custom)
     }
 
     #[cfg(test)]
-- 
2.43.0


From 1b9b848b579b8355e4123e8b3a10b00936d5864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 11/72] fix: axon-tools: reject a hex text with a doubled 0x
 prefix

---
 devtools/axon-tools/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/devtools/axon-tools/src/types.rs b/devtools/axon-tools/src/types.rs
index 84d5a47..d3fb74a 100644
--- a/devtools/axon-tools/src/types.rs
+++ b/devtools/axon-tools/src/types.rs
@@ -99,7 +99,7 @@ impl FromStr for Hex {
             return Err(crate::Error::HexPrefix);
         }
 
-        Ok(Hex(hex_decode(&s[2..])?.into()))
+        Ok(Hex(hex_decode(s)?.into()))
     }
 }
 
-- 
2.43.0


From ac81b8b42bee3955902cd529ccc8844c22bc060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 12/72] fix: axon-tools: write the numbers of the metadata in
 the form they are read

---
 devtools/axon-tools/src/types.rs | 70 +++++++++++++++++++++++++-------
 1 file changed, 56 insertions(+), 14 deletions(-)

diff --git a/devtools/axon-tools/src/types.rs b/devtools/axon-tools/src/types.rs
index d3fb74a..7f30bbe 100644
--- a/devtools/axon-tools/src/types.rs
+++ b/devtools/axon-tools/src/types.rs
@@ -392,12 +392,18 @@ impl Vote {
 pub struct MetadataVersion {
     #[cfg_attr(
         all(feature = "impl-serde", feature = "std"),
-        serde(deserialize_with = "decode::deserialize_hex_u64")
+        serde(
+            serialize_with = "encode::serialize_uint",
+            deserialize_with = "decode::deserialize_hex_u64"
+        )
     )]
     pub start: BlockNumber,
     #[cfg_attr(
         all(feature = "impl-serde", feature = "std"),
-        serde(deserialize_with = "decode::deserialize_hex_u64")
+        serde(
+            serialize_with = "encode::serialize_uint",
+            deserialize_with = "decode::deserialize_hex_u64"
+        )
     )]
     pub end:   BlockNumber,
 }
@@ -426,7 +432,10 @@ pub struct Metadata {
     pub version:          MetadataVersion,
     #[cfg_attr(
         all(feature = "impl-serde", feature = "std"),
-        serde(deserialize_with = "decode::deserialize_hex_u64")
+        serde(
+            serialize_with = "encode::serialize_uint",
+            deserialize_with = "decode::deserialize_hex_u64"
+        )
     )]
     pub epoch:            u64,
     pub verifier_list:    Vec<ValidatorExtend>,
@@ -447,49 +456,73 @@ pub struct Metadata {
 pub struct ConsensusConfig {
     #[cfg_attr(
         all(feature = "impl-serde", feature = "std"),
-        serde(deserialize_with = "decode::deserialize_hex_u64")
+        serde(
+            serialize_with = "encode::serialize_uint",
+            deserialize_with = "decode::deserialize_hex_u64"
+        )
     )]
     pub gas_limit: u64,
 
     #[cfg_attr(
         all(feature = "impl-serde", feature = "std"),
-        serde(deserialize_with = "decode::deserialize_hex_u64")
+        serde(
+            serialize_with = "encode::serialize_uint",
+            deserialize_with = "decode::deserialize_hex_u64"
+        )
     )]
     pub interval: u64,
 
     #[cfg_attr(
         all(feature = "impl-serde", feature = "std"),
-        serde(deserialize_with = "decode::deserialize_hex_u64")
+        serde(
+            serialize_with = "encode::serialize_uint",
+            deserialize_with = "decode::deserialize_hex_u64"
+        )
     )]
     pub propose_ratio: u64,
 
     #[cfg_attr(
         all(feature = "impl-serde", feature = "std"),
-        serde(deserialize_with = "decode::deserialize_hex_u64")
+        serde(
+            serialize_with = "encode::serialize_uint",
+            deserialize_with = "decode::deserialize_hex_u64"
+        )
     )]
     pub prevote_ratio: u64,
 
     #[cfg_attr(
         all(feature = "impl-serde", feature = "std"),
-        serde(deserialize_with = "decode::deserialize_hex_u64")
+        serde(
+            serialize_with = "encode::serialize_uint",
+            deserialize_with = "decode::deserialize_hex_u64"
+        )
     )]
     pub precommit_ratio: u64,
 
     #[cfg_attr(
         all(feature = "impl-serde", feature = "std"),
-        serde(deserialize_with = "decode::deserialize_hex_u64")
+        serde(
+            serialize_with = "encode::serialize_uint",
+            deserialize_with = "decode::deserialize_hex_u64"
+        )
     )]
     pub brake_ratio: u64,
 
     #[cfg_attr(
         all(feature = "impl-serde", feature = "std"),
-        serde(deserialize_with = "decode::deserialize_hex_u64")
+        serde(
+            serialize_with = "encode::serialize_uint",
+            deserialize_with = "decode::deserialize_hex_u64"
+        )
     )]
     pub tx_num_limit: u64,
 
     #[cfg_attr(
         all(feature = "impl-serde", feature = "std"),
-        serde(deserialize_with = "decode::deserialize_hex_u64")
+        serde(
+            serialize_with = "encode::serialize_uint",
+            deserialize_with = "decode::deserialize_hex_u64"
+        )
     )]
     pub max_tx_size: u64,
 }
@@ -501,7 +534,10 @@ pub struct ProposeCount {
     pub address: H160,
     #[cfg_attr(
         all(feature = "impl-serde", feature = "std"),
-        serde(deserialize_with = "decode::deserialize_hex_u64")
+        serde(
+            serialize_with = "encode::serialize_uint",
+            deserialize_with = "decode::deserialize_hex_u64"
+        )
     )]
     pub count:   u64,
 }
@@ -521,12 +557,18 @@ pub struct ValidatorExtend {
     pub address:        H160,
     #[cfg_attr(
         all(feature = "impl-serde", feature = "std"),
-        serde(deserialize_with = "decode::deserialize_hex_u32")
+        serde(
+            serialize_with = "encode::serialize_uint",
+            deserialize_with = "decode::deserialize_hex_u32"
+        )
     )]
     pub propose_weight: u32,
     #[cfg_attr(
         all(feature = "impl-serde", feature = "std"),
-        serde(deserialize_with = "decode::deserialize_hex_u32")
+        serde(
+            serialize_with = "encode::serialize_uint",
+            deserialize_with = "decode::deserialize_hex_u32"
+        )
     )]
     pub vote_weight:    u32,
 }
-- 
2.43.0


From 72fc4a86e8cc8cd207b2048ed6f68ac58e2338cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 13/72] fix: axon-tools: add the contract size limit to the
 consensus config

---
 devtools/axon-tools/src/rlp_codec.rs | 23 ++++++++++++++++++++++-
 devtools/axon-tools/src/types.rs     | 20 ++++++++++++++++----
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/devtools/axon-tools/src/rlp_codec.rs b/devtools/axon-tools/src/rlp_codec.rs
index 91da088..f0e82c7 100644
--- a/devtools/axon-tools/src/rlp_codec.rs
+++ b/devtools/axon-tools/src/rlp_codec.rs
@@ -1,4 +1,4 @@
-use crate::types::BlockVersion;
+use crate::types::{default_max_contract_limit, BlockVersion, ConsensusConfig};
 #[cfg(feature = "proof")]
 use crate::types::{Proposal, Vote};
 use rlp::{Decodable, DecoderError, Encodable, Rlp, RlpStream};
@@ -18,6 +18,27 @@ impl Decodable for BlockVersion {
     }
 }
 
+impl Decodable for ConsensusConfig {
+    fn decode(r: &Rlp) -> Result<Self, DecoderError> {
+        Ok(ConsensusConfig {
+            gas_limit:          r.val_at(0)?,
+            interval:           r.val_at(1)?,
+            propose_ratio:      r.val_at(2)?,
+            prevote_ratio:      r.val_at(3)?,
+            precommit_ratio:    r.val_at(4)?,
+            brake_ratio:        r.val_at(5)?,
+            tx_num_limit:       r.val_at(6)?,
+            max_tx_size:        r.val_at(7)?,
+            // Not there before the hardfork that introduced it.
+            max_contract_limit: if r.item_count()? > 8 {
+                r.val_at(8)?
+            } else {
+                default_max_contract_limit()
+            },
+        })
+    }
+}
+
 #[cfg(feature = "proof")]
 impl Encodable for Vote {
     fn rlp_append(&self, s: &mut RlpStream) {
diff --git a/devtools/axon-tools/src/types.rs b/devtools/axon-tools/src/types.rs
index 7f30bbe..f4bddad 100644
--- a/devtools/axon-tools/src/types.rs
+++ b/devtools/axon-tools/src/types.rs
@@ -448,10 +448,7 @@ pub struct Metadata {
 }
 
 #[derive(Default, Clone, Debug, PartialEq, Eq)]
-#[cfg_attr(
-    feature = "impl-rlp",
-    derive(rlp_derive::RlpEncodable, rlp_derive::RlpDecodable)
-)]
+#[cfg_attr(feature = "impl-rlp", derive(rlp_derive::RlpEncodable))]
 #[cfg_attr(feature = "impl-serde", derive(serde::Serialize, serde::Deserialize))]
 pub struct ConsensusConfig {
     #[cfg_attr(
@@ -525,6 +522,21 @@ pub struct ConsensusConfig {
         )
     )]
     pub max_tx_size: u64,
+
+    #[cfg_attr(
+        all(feature = "impl-serde", feature = "std"),
+        serde(
+            default = "default_max_contract_limit",
+            serialize_with = "encode::serialize_uint",
+            deserialize_with = "decode::deserialize_hex_u64"
+        )
+    )]
+    pub max_contract_limit: u64,
+}
+
+#[cfg(any(feature = "impl-rlp", all(feature = "impl-serde", feature = "std")))]
+pub(crate) fn default_max_contract_limit() -> u64 {
+    0x6000
 }
 
 #[derive(Clone, Debug, PartialEq, Eq)]
-- 
2.43.0


From e4ad338f0487ae7d8290022f4017635a98836cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:07 +0000
Subject: [PATCH 14/72] fix: ckb client: return an error for an unexpected
 result instead of panicking

---
 core/rpc-client/src/client.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/rpc-client/src/client.rs b/core/rpc-client/src/client.rs
index 4c31647..17f9cb9 100644
--- a/core/rpc-client/src/client.rs
+++ b/core/rpc-client/src/client.rs
@@ -60,7 +60,8 @@ macro_rules! jsonrpc {
 
             match output {
                 jsonrpc_core::response::Output::Success(success) => {
-                    Ok(serde_json::from_value::<$return>(success.result).unwrap())
+                    serde_json::from_value::<$return>(success.result)
+                        .map_err(|e| ProtocolError::new(ProtocolErrorKind::CkbClient, Box::new(e)))
                 }
                 jsonrpc_core::response::Output::Failure(e) => {
                     Err(ProtocolError::new(ProtocolErrorKind::CkbClient, Box::new(io::Error::new(io::ErrorKind::InvalidData, format!("{:?}", e)))))
-- 
2.43.0


From 03d0516b85446cf83d272590d5b3a44add33edb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:07 +0000
Subject: [PATCH 15/72] fix: ckb client: never use a request id twice

---
 core/rpc-client/src/client.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/rpc-client/src/client.rs b/core/rpc-client/src/client.rs
index 17f9cb9..d1ad5fc 100644
--- a/core/rpc-client/src/client.rs
+++ b/core/rpc-client/src/client.rs
@@ -34,11 +34,10 @@ macro_rules! jsonrpc {
     ($method:expr, $id:expr, $self:ident, $return:ty$(, $params:ident$(,)?)*) => {{
         let data = format!(
             r#"{{"id": {}, "jsonrpc": "2.0", "method": "{}", "params": {}}}"#,
-            $self.id.load(Ordering::Relaxed),
+            $self.id.fetch_add(1, Ordering::Relaxed),
             $method,
             serde_json::to_value(($($params,)*)).unwrap()
         );
-        $self.id.fetch_add(1, Ordering::Relaxed);
 
         let req_json: serde_json::Value = serde_json::from_str(&data).unwrap();
 
-- 
2.43.0


From 1e4399d1066abf406f50f42e1ecfd0b34dbaebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 16/72] fix: count the cycles of CKB-VM programs, so that their
 limit and gas apply

---
 core/interoperation/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/interoperation/src/lib.rs b/core/interoperation/src/lib.rs
index 8267268..1f4ffb3 100644
--- a/core/interoperation/src/lib.rs
+++ b/core/interoperation/src/lib.rs
@@ -2,6 +2,7 @@ use std::error::Error;
 
 use ckb_traits::CellDataProvider;
 use ckb_types::packed;
+use ckb_vm::cost_model::estimate_cycles;
 use ckb_vm::machine::{asm::AsmCoreMachine, DefaultMachineBuilder, SupportMachine, VERSION1};
 use ckb_vm::{Error as VMError, ISA_B, ISA_IMC, ISA_MOP};
 
@@ -53,7 +54,9 @@ impl Interoperation for InteroperationImpl {
             .get_cell_data(&data_cell_dep.out_point())
             .ok_or_else(|| InteroperationError::GetProgram((&data_cell_dep.out_point()).into()))?;
         let mut vm = ckb_vm::machine::asm::AsmMachine::new(
-            DefaultMachineBuilder::new(AsmCoreMachine::new(ISA, VERSION1, max_cycles)).build(),
+            DefaultMachineBuilder::new(AsmCoreMachine::new(ISA, VERSION1, max_cycles))
+                .instruction_cycle_func(Box::new(estimate_cycles))
+                .build(),
         );
         let _ = vm
             .load_program(&program, args)
-- 
2.43.0


From 4662a4b78feb79e11e9c62a2b584c96f6f28e20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 17/72] fix: refuse a cross-chain signature that its CKB-VM
 program rejects

---
 core/mempool/src/adapter/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/mempool/src/adapter/mod.rs b/core/mempool/src/adapter/mod.rs
index 01745c1..0648ccd 100644
--- a/core/mempool/src/adapter/mod.rs
+++ b/core/mempool/src/adapter/mod.rs
@@ -308,7 +308,7 @@ where
 
         // Verify interoperation signature call CKB-VM mode
         let r = rlp::decode::<CellDepWithPubKey>(&signature.r[1..]).map_err(AdapterError::Rlp)?;
-        InteroperationImpl::call_ckb_vm(
+        let res = InteroperationImpl::call_ckb_vm(
             Default::default(),
             &DataProvider::new(root),
             r.cell_dep,
@@ -317,6 +317,14 @@ where
         )
         .map_err(|e| AdapterError::VerifySignature(e.to_string()))?;
 
+        if res.exit_code != 0 {
+            return Err(AdapterError::VerifySignature(format!(
+                "CKB-VM program exits with {}",
+                res.exit_code
+            ))
+            .into());
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From d1f61a8ad25a800ae0c89d17c481c11f6cc1a74d Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 21:13:24 +0000
Subject: [PATCH 18/72] fix: trie proofs: a node that is missing from a proof
 does not mean absence

---
 devtools/axon-tools/src/proof.rs | 47 +++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/devtools/axon-tools/src/proof.rs b/devtools/axon-tools/src/proof.rs
index 44f30d8..adcef03 100644
--- a/devtools/axon-tools/src/proof.rs
+++ b/devtools/axon-tools/src/proof.rs
@@ -1,9 +1,13 @@
 use alloc::vec::Vec;
+#[cfg(all(feature = "proof", feature = "std"))]
+use std::{collections::HashMap, sync::Arc};
 
 use bit_vec::BitVec;
 use blst::min_pk::{AggregatePublicKey, PublicKey, Signature};
 use blst::BLST_ERROR;
 use bytes::Bytes;
+#[cfg(all(feature = "proof", feature = "std"))]
+use cita_trie::{PatriciaTrie, Trie, TrieError, DB};
 use ethereum_types::H256;
 use rlp::Encodable;
 
@@ -14,13 +18,54 @@ use crate::{error::Error, keccak_256};
 
 const DST: &str = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RONUL";
 
+/// The nodes given in a trie proof, by their hashes. A node which is referred
+/// to but not given makes the proof invalid, it is not an empty subtree.
+#[cfg(all(feature = "proof", feature = "std"))]
+struct ProofNodes(HashMap<Vec<u8>, Vec<u8>>);
+
+#[cfg(all(feature = "proof", feature = "std"))]
+impl DB for ProofNodes {
+    type Error = TrieError;
+
+    fn get(&self, key: &[u8]) -> Result<Option<Vec<u8>>, Self::Error> {
+        match self.0.get(key) {
+            Some(node) => Ok(Some(node.clone())),
+            None => Err(TrieError::InvalidProof),
+        }
+    }
+
+    fn contains(&self, key: &[u8]) -> Result<bool, Self::Error> {
+        Ok(self.0.contains_key(key))
+    }
+
+    fn insert(&self, _key: Vec<u8>, _value: Vec<u8>) -> Result<(), Self::Error> {
+        Ok(())
+    }
+
+    fn remove(&self, _key: &[u8]) -> Result<(), Self::Error> {
+        Ok(())
+    }
+
+    fn flush(&self) -> Result<(), Self::Error> {
+        Ok(())
+    }
+}
+
 #[cfg(all(feature = "proof", feature = "std"))]
 pub fn verify_trie_proof(
     root: H256,
     key: &[u8],
     proof: Vec<Vec<u8>>,
 ) -> Result<Option<Vec<u8>>, Error> {
-    let value = cita_trie::verify_proof(&root.0, key, proof, InnerKeccak)?;
+    let nodes = ProofNodes(
+        proof
+            .into_iter()
+            .map(|node| (keccak_256(&node).to_vec(), node))
+            .collect(),
+    );
+    let value = PatriciaTrie::from(Arc::new(nodes), Arc::new(InnerKeccak), &root.0)
+        .and_then(|trie| trie.get(key))
+        .or(Err(TrieError::InvalidProof))?;
     log::debug!("key: {:?}, value: {:?}", key, value);
     Ok(value)
 }
-- 
2.43.0


From e7a3ef6d0c858321b2adef8cfe87f18699f37030 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 21:13:32 +0000
Subject: [PATCH 19/72] fix: ckb merkle proofs: refuse an index without a
 sibling instead of overflowing

---
 core/executor/src/precompiles/ckb_mbt_verify.rs | 5 +++++
 devtools/axon-tools/src/precompile.rs           | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/core/executor/src/precompiles/ckb_mbt_verify.rs b/core/executor/src/precompiles/ckb_mbt_verify.rs
index 5b9c95b..aaff4d5 100644
--- a/core/executor/src/precompiles/ckb_mbt_verify.rs
+++ b/core/executor/src/precompiles/ckb_mbt_verify.rs
@@ -105,6 +105,11 @@ fn inner_verify_proof(payload: VerifyProofPayload) -> Result<(), PrecompileFailu
         witnesses_root
     };
 
+    // The right sibling of a node has the next index, and so needs to have one.
+    if payload.proof.indices.contains(&u32::MAX) {
+        return Err(err!(_, "index out of range"));
+    }
+
     if MerkleProof::new(payload.proof.indices, lemmas).verify(&verifying_root, &leaves) {
         return Ok(());
     }
diff --git a/devtools/axon-tools/src/precompile.rs b/devtools/axon-tools/src/precompile.rs
index ccfe4ca..3bca921 100644
--- a/devtools/axon-tools/src/precompile.rs
+++ b/devtools/axon-tools/src/precompile.rs
@@ -84,6 +84,11 @@ pub fn verify_proof(payload: VerifyProofPayload) -> Result<(), String> {
         witnesses_root
     };
 
+    // The right sibling of a node has the next index, and so needs to have one.
+    if payload.proof.indices.contains(&u32::MAX) {
+        return Err(String::from("index out of range"));
+    }
+
     if MerkleProof::new(payload.proof.indices, lemmas).verify(&verifying_root, &leaves) {
         return Ok(());
     }
-- 
2.43.0


From 78be7c8e33ff6b515081b5a7abe78dc65745265d Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 20/72] fix: executor: do not refund or collect gas that the
 sender could not prepay

---
 core/executor/src/lib.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/core/executor/src/lib.rs b/core/executor/src/lib.rs
index 9c4a803..976726e 100644
--- a/core/executor/src/lib.rs
+++ b/core/executor/src/lib.rs
@@ -313,7 +313,9 @@ impl AxonExecutor {
         let mut account = adapter.get_account(&sender);
         let old_nonce = account.nonce;
 
-        account.balance = account.balance.saturating_sub(prepay_gas);
+        // Only what the sender had can be given back or handed to the validators.
+        let prepaid = account.balance.min(prepay_gas);
+        account.balance -= prepaid;
         adapter.save_account(&sender, &account);
 
         let metadata = StackSubstateMetadata::new(gas_limit, config);
@@ -369,13 +371,11 @@ impl AxonExecutor {
         account.nonce = old_nonce + U256::one();
 
         // Add remain gas
-        if remained_gas != 0 {
-            let remain_gas = U256::from(remained_gas) * tx_gas_price;
-            account.balance = account
-                .balance
-                .checked_add(remain_gas)
-                .unwrap_or_else(U256::max_value);
-        }
+        let charged = prepaid.min(tx_gas_price * U256::from(gas_limit - remained_gas));
+        account.balance = account
+            .balance
+            .checked_add(prepaid - charged)
+            .unwrap_or_else(U256::max_value);
 
         adapter.save_account(&tx.sender, &account);
 
@@ -384,8 +384,8 @@ impl AxonExecutor {
             ret:          res,
             remain_gas:   remained_gas,
             gas_used:     used_gas,
-            fee_cost:     tx_gas_price * U256::from(used_gas), /* used_gas must le transaction
-                                                                * gas_limit */
+            // used_gas must le transaction gas_limit
+            fee_cost:     charged.min(tx_gas_price * U256::from(used_gas)),
             logs:         vec![],
             code_address: code_addr,
             removed:      false,
-- 
2.43.0


From 2d8bc6a97329631b47171d00082ff0f28c0af3e2 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 21/72] fix: modexp: a huge exponent size costs huge gas
 instead of overflowing

---
 core/executor/src/precompiles/modexp.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/executor/src/precompiles/modexp.rs b/core/executor/src/precompiles/modexp.rs
index 814e51b..f9dcc97 100644
--- a/core/executor/src/precompiles/modexp.rs
+++ b/core/executor/src/precompiles/modexp.rs
@@ -200,10 +200,11 @@ fn iterator_count(e_size: Integer, exponent: Integer) -> u64 {
         let bytes: [u8; 32] = [0xFF; 32];
         let max_256_bit_uint = Integer::from_digits(&bytes, Order::MsfBe);
         let a: Integer = 8 * (e_size - 32);
-        a.saturating_as::<usize>()
-            + ((exponent.bitand(max_256_bit_uint))
+        a.saturating_as::<usize>().saturating_add(
+            ((exponent.bitand(max_256_bit_uint))
                 .significant_bits()
-                .saturating_sub(1)) as usize
+                .saturating_sub(1)) as usize,
+        )
     };
 
     iter_count.max(1) as u64
-- 
2.43.0


From 0bfdf9aac59603ed1df2a39837fa257c8e2ff19c Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 22/72] fix: pairing check: refuse input that is not a whole
 number of pairs

---
 core/executor/src/precompiles/ec_pairing.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/executor/src/precompiles/ec_pairing.rs b/core/executor/src/precompiles/ec_pairing.rs
index 70cbc05..9b0d2c4 100644
--- a/core/executor/src/precompiles/ec_pairing.rs
+++ b/core/executor/src/precompiles/ec_pairing.rs
@@ -42,6 +42,10 @@ impl PrecompileContract for EcPairing {
             }
         }
 
+        if input.len() % Self::GROUP_ARGS_LEN != 0 {
+            return err!("Invalid input length");
+        }
+
         let elements = input.len() / Self::GROUP_ARGS_LEN;
         let mut pairs = Vec::with_capacity(elements);
 
-- 
2.43.0


From 40e24e7754dff19a2dea4745ffdf8af96fa5b352 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 23/72] fix: fee allocation: weights that sum to zero or beyond
 32 bits

---
 core/executor/src/utils.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/executor/src/utils.rs b/core/executor/src/utils.rs
index cd5c0b9..4310077 100644
--- a/core/executor/src/utils.rs
+++ b/core/executor/src/utils.rs
@@ -29,7 +29,14 @@ impl FeeAllocate for DefaultFeeAllocator {
             return Vec::new();
         }
 
-        let weight_sum = U256::from(validators.iter().map(|v| v.vote_weight).sum::<u32>());
+        let weight_sum = validators
+            .iter()
+            .map(|v| u64::from(v.vote_weight))
+            .sum::<u64>();
+        if weight_sum == 0 {
+            return Vec::new();
+        }
+        let weight_sum = U256::from(weight_sum);
 
         validators
             .iter()
-- 
2.43.0


From 5bdb21dec3edab7d3ba1c29671a1ee84b11cbefb Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 24/72] fix: revert reason: a length beyond the data is not a
 message

---
 core/executor/src/utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/executor/src/utils.rs b/core/executor/src/utils.rs
index 4310077..d96bf03 100644
--- a/core/executor/src/utils.rs
+++ b/core/executor/src/utils.rs
@@ -69,14 +69,14 @@ pub fn decode_revert_msg(input: &[u8]) -> String {
         return decode_reason(input);
     }
 
-    let end_offset = REVERT_EFFECT_MSG_OFFSET
-        + U256::from_big_endian(&input[REVERT_MSG_LEN_OFFSET..REVERT_EFFECT_MSG_OFFSET]).as_usize();
+    let msg_len = U256::from_big_endian(&input[REVERT_MSG_LEN_OFFSET..REVERT_EFFECT_MSG_OFFSET]);
+    let msg = &input[REVERT_EFFECT_MSG_OFFSET..];
 
-    if input.len() < end_offset {
+    if msg_len > U256::from(msg.len()) {
         return decode_reason(input);
     }
 
-    decode_reason(&input[REVERT_EFFECT_MSG_OFFSET..end_offset])
+    decode_reason(&msg[..msg_len.as_usize()])
 }
 
 #[cfg(test)]
-- 
2.43.0


From a4f2981499f9e27a89a3fab67a159c4f3bd5d8ef Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 25/72] fix: trie store: cache a batch only once it is written

---
 core/executor/src/adapter/trie/db.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/core/executor/src/adapter/trie/db.rs b/core/executor/src/adapter/trie/db.rs
index 3bfaa1f..7ae8bf5 100644
--- a/core/executor/src/adapter/trie/db.rs
+++ b/core/executor/src/adapter/trie/db.rs
@@ -93,16 +93,12 @@ impl trie::DB for RocksTrieDB {
         let mut total_size = 0;
         let mut batch = WriteBatch::default();
 
-        {
-            let mut cache = self.cache.write();
-            for (key, val) in keys.into_iter().zip(values.into_iter()) {
-                total_size += key.len();
-                total_size += val.len();
-
-                let column = self.get_column();
-                db!(batch, put_cf, column, &key, &val);
-                cache.insert(key, val);
-            }
+        for (key, val) in keys.iter().zip(values.iter()) {
+            total_size += key.len();
+            total_size += val.len();
+
+            let column = self.get_column();
+            db!(batch, put_cf, column, key, val);
         }
 
         let inst = Instant::now();
@@ -111,6 +107,11 @@ impl trie::DB for RocksTrieDB {
             .map_err(|e| io::Error::new(io::ErrorKind::Other, format!("rocksdb error: {:?}", e)))?;
         on_storage_put_state(inst.elapsed(), total_size as f64);
 
+        // Only what has been written is cached.
+        self.cache
+            .write()
+            .extend(keys.into_iter().zip(values.into_iter()));
+
         self.flush()
     }
 
-- 
2.43.0


From 9d0162635f2da3425fe81195d9ff688b14de1b48 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 26/72] fix: trie store: a cache of size zero

---
 core/executor/src/adapter/trie/db.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/executor/src/adapter/trie/db.rs b/core/executor/src/adapter/trie/db.rs
index 7ae8bf5..219a766 100644
--- a/core/executor/src/adapter/trie/db.rs
+++ b/core/executor/src/adapter/trie/db.rs
@@ -177,7 +177,7 @@ impl RocksTrieDB {
 }
 
 fn rand_remove_list<T: Clone>(keys: Vec<&T>, num: usize) -> impl Iterator<Item = T> {
-    let mut len = keys.len() - 1;
+    let mut len = keys.len();
     let mut idx_list = (0..len).collect::<Vec<_>>();
     let mut rng = SmallRng::seed_from_u64(RAND_SEED);
     let mut ret = Vec::with_capacity(num);
-- 
2.43.0


From 4544d27e80e259cb44bd4df7ebcfd53e3371bb80 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 27/72] fix: system contracts: a reverted call is not charged,
 so it pays no fee

---
 core/executor/src/system_contract/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/executor/src/system_contract/utils.rs b/core/executor/src/system_contract/utils.rs
index 48d89bd..b7a5947 100644
--- a/core/executor/src/system_contract/utils.rs
+++ b/core/executor/src/system_contract/utils.rs
@@ -16,7 +16,7 @@ pub fn revert_resp(gas_limit: U64) -> TxResp {
         ret:          vec![],
         gas_used:     (gas_limit - 1).low_u64(),
         remain_gas:   1u64,
-        fee_cost:     U256::one(),
+        fee_cost:     U256::zero(),
         logs:         vec![],
         code_address: None,
         removed:      false,
-- 
2.43.0


From 0f8458699ae2d6d634a37aed3508f91e1f99d2f5 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 28/72] fix: signed transactions: refuse bytes that are not the
 transaction's encoding

Items left over in a list, a text where a list belongs or bytes after the end were ignored, but entered the hash, so a peer could send the same signed transaction under any number of hashes.
---
 protocol/src/codec/transaction.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/src/codec/transaction.rs b/protocol/src/codec/transaction.rs
index 6f2bdec..b30ab5d 100644
--- a/protocol/src/codec/transaction.rs
+++ b/protocol/src/codec/transaction.rs
@@ -335,6 +335,9 @@ impl Encodable for SignedTransaction {
 impl Decodable for SignedTransaction {
     fn decode(r: &Rlp) -> Result<Self, DecoderError> {
         let utx = UnverifiedTransaction::decode(&Rlp::new(r.data()?))?;
+        utx.check_hash()
+            .map_err(|_| DecoderError::Custom("Not the encoding of a transaction"))?;
+
         let sig = utx
             .signature
             .as_ref()
-- 
2.43.0


From a4b92502585ecb3d97cef478fbb7fb3fa1124fd6 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 29/72] fix: memory database: walk the entries from the prefix
 on, in order

---
 core/db/src/memory.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/core/db/src/memory.rs b/core/db/src/memory.rs
index 3db9af8..857100c 100644
--- a/core/db/src/memory.rs
+++ b/core/db/src/memory.rs
@@ -1,4 +1,4 @@
-use std::collections::{hash_map, HashMap};
+use std::collections::{btree_map, BTreeMap, HashMap};
 use std::{error::Error, marker::PhantomData, sync::Arc};
 
 use parking_lot::RwLock;
@@ -11,7 +11,7 @@ use protocol::{
     ProtocolResult,
 };
 
-type Category = HashMap<Vec<u8>, Vec<u8>>;
+type Category = BTreeMap<Vec<u8>, Vec<u8>>;
 
 #[derive(Debug)]
 pub struct MemoryAdapter {
@@ -33,7 +33,7 @@ impl Default for MemoryAdapter {
 }
 
 pub struct MemoryIterator<'a, S: StorageSchema> {
-    inner: hash_map::Iter<'a, Vec<u8>, Vec<u8>>,
+    inner: btree_map::Range<'a, Vec<u8>, Vec<u8>>,
     pin_s: PhantomData<S>,
 }
 
@@ -55,8 +55,9 @@ impl<'a, S: StorageSchema> Iterator for MemoryIterator<'a, S> {
 }
 
 pub struct MemoryIntoIterator<'a, S: StorageSchema> {
-    inner: parking_lot::RwLockReadGuard<'a, HashMap<String, Category>>,
-    pin_s: PhantomData<S>,
+    inner:  parking_lot::RwLockReadGuard<'a, HashMap<String, Category>>,
+    prefix: Vec<u8>,
+    pin_s:  PhantomData<S>,
 }
 
 impl<'a, 'b: 'a, S: StorageSchema> IntoIterator for &'b MemoryIntoIterator<'a, S> {
@@ -69,7 +70,7 @@ impl<'a, 'b: 'a, S: StorageSchema> IntoIterator for &'b MemoryIntoIterator<'a, S
                 .inner
                 .get(&S::category().to_string())
                 .expect("impossible, already ensure we have category in prepare_iter")
-                .iter(),
+                .range(self.prefix.clone()..),
             pin_s: PhantomData::<S>,
         })
     }
@@ -93,7 +94,7 @@ impl StorageAdapter for MemoryAdapter {
         let mut db = self.db.write();
         let db = db
             .entry(S::category().to_string())
-            .or_insert_with(HashMap::new);
+            .or_insert_with(BTreeMap::new);
 
         db.insert(key, val);
 
@@ -109,7 +110,7 @@ impl StorageAdapter for MemoryAdapter {
         let mut db = self.db.write();
         let db = db
             .entry(S::category().to_string())
-            .or_insert_with(HashMap::new);
+            .or_insert_with(BTreeMap::new);
 
         let opt_bytes = db.get(&key.to_vec()).cloned();
 
@@ -128,7 +129,7 @@ impl StorageAdapter for MemoryAdapter {
         let mut db = self.db.write();
         let db = db
             .entry(S::category().to_string())
-            .or_insert_with(HashMap::new);
+            .or_insert_with(BTreeMap::new);
 
         db.remove(&key);
 
@@ -141,7 +142,7 @@ impl StorageAdapter for MemoryAdapter {
         let mut db = self.db.write();
         let db = db
             .entry(S::category().to_string())
-            .or_insert_with(HashMap::new);
+            .or_insert_with(BTreeMap::new);
 
         Ok(db.get(&key).is_some())
     }
@@ -171,7 +172,7 @@ impl StorageAdapter for MemoryAdapter {
         let mut db = self.db.write();
         let db = db
             .entry(S::category().to_string())
-            .or_insert_with(HashMap::new);
+            .or_insert_with(BTreeMap::new);
 
         for (key, value) in pairs.into_iter() {
             match value {
@@ -185,18 +186,19 @@ impl StorageAdapter for MemoryAdapter {
 
     fn prepare_iter<'a, 'b: 'a, S: StorageSchema + 'static, P: AsRef<[u8]> + 'a>(
         &'b self,
-        _prefix: &P,
+        prefix: &'a P,
     ) -> ProtocolResult<Box<dyn IntoIteratorByRef<S> + 'a>> {
         {
             self.db
                 .write()
                 .entry(S::category().to_string())
-                .or_insert_with(HashMap::new);
+                .or_insert_with(BTreeMap::new);
         }
 
         Ok(Box::new(MemoryIntoIterator {
-            inner: self.db.read(),
-            pin_s: PhantomData::<S>,
+            inner:  self.db.read(),
+            prefix: prefix.as_ref().to_vec(),
+            pin_s:  PhantomData::<S>,
         }))
     }
 }
-- 
2.43.0


From 271c7a176f8bf6342abea3cec80904a6cd5a6d33 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 30/72] fix: storage: a block is found only by its own hash

---
 core/storage/src/lib.rs | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/core/storage/src/lib.rs b/core/storage/src/lib.rs
index f4a697d..afef654 100644
--- a/core/storage/src/lib.rs
+++ b/core/storage/src/lib.rs
@@ -63,6 +63,12 @@ macro_rules! put_cache {
     }};
 }
 
+macro_rules! drop_cache {
+    ($self_: ident, $key: expr, $category: ident) => {{
+        let _ = $self_.cache.$category.lock().pop($key);
+    }};
+}
+
 macro_rules! get {
     ($self_: ident, $key: expr, $schema: ident) => {{
         let inst = Instant::now();
@@ -105,13 +111,29 @@ impl<Adapter: StorageAdapter> ImplStorage<Adapter> {
         }
     }
 
-    async fn get_block_number_by_hash(&self, hash: &Hash) -> ProtocolResult<Option<u64>> {
+    fn get_number_by_hash(&self, hash: &Hash) -> ProtocolResult<Option<u64>> {
         get_cache!(self, hash, block_numbers);
         let ret = self.adapter.get::<BlockHashNumberSchema>(*hash)?;
         put_cache!(self, hash, ret, block_numbers);
         Ok(ret)
     }
 
+    async fn get_block_number_by_hash(
+        &self,
+        ctx: Context,
+        hash: &Hash,
+    ) -> ProtocolResult<Option<u64>> {
+        let number = match self.get_number_by_hash(hash)? {
+            Some(number) => number,
+            None => return Ok(None),
+        };
+
+        // The category also maps the hashes of transactions to their heights, and
+        // another block may have been stored at that height since.
+        let header = self.get_block_header(ctx, number).await?;
+        Ok(header.filter(|h| &h.hash() == hash).map(|_| number))
+    }
+
     async fn batch_insert_stxs(
         &self,
         stxs: Vec<SignedTransaction>,
@@ -227,8 +249,9 @@ impl<Adapter: StorageAdapter> ReadOnlyStorage for ImplStorage<Adapter> {
         ctx: Context,
         block_hash: &Hash,
     ) -> ProtocolResult<Option<Block>> {
-        if let Some(num) = self.get_block_number_by_hash(block_hash).await? {
-            return self.get_block(ctx, num).await;
+        if let Some(num) = self.get_number_by_hash(block_hash)? {
+            let block = self.get_block(ctx, num).await?;
+            return Ok(block.filter(|b| &b.hash() == block_hash));
         }
 
         Ok(None)
@@ -236,10 +259,10 @@ impl<Adapter: StorageAdapter> ReadOnlyStorage for ImplStorage<Adapter> {
 
     async fn get_block_number_by_hash(
         &self,
-        _ctx: Context,
+        ctx: Context,
         block_hash: &Hash,
     ) -> ProtocolResult<Option<u64>> {
-        self.get_block_number_by_hash(block_hash).await
+        self.get_block_number_by_hash(ctx, block_hash).await
     }
 
     #[trace_span(kind = "storage")]
-- 
2.43.0


From 2fe20591a05edddfae96e9ea68b1d788f81e241b Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 31/72] fix: storage: what is written replaces what is cached

---
 core/storage/src/lib.rs | 62 ++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/core/storage/src/lib.rs b/core/storage/src/lib.rs
index afef654..46976d6 100644
--- a/core/storage/src/lib.rs
+++ b/core/storage/src/lib.rs
@@ -139,7 +139,7 @@ impl<Adapter: StorageAdapter> ImplStorage<Adapter> {
         stxs: Vec<SignedTransaction>,
         block_number: BlockNumber,
     ) -> ProtocolResult<()> {
-        let (hashes, heights) = stxs
+        let (hashes, heights): (Vec<_>, Vec<_>) = stxs
             .iter()
             .map(|item| {
                 (
@@ -159,13 +159,17 @@ impl<Adapter: StorageAdapter> ImplStorage<Adapter> {
             })
             .unzip();
 
-        self.adapter
-            .batch_modify::<TransactionSchema>(keys, batch_stxs)?;
+        let ret = self
+            .adapter
+            .batch_modify::<TransactionSchema>(keys, batch_stxs)
+            .and_then(|_| {
+                self.adapter
+                    .batch_modify::<TxHashNumberSchema>(hashes.clone(), heights)
+            });
 
-        self.adapter
-            .batch_modify::<TxHashNumberSchema>(hashes, heights)?;
+        self.drop_cached_transactions(&hashes);
 
-        Ok(())
+        ret
     }
 
     async fn batch_insert_receipts(
@@ -173,7 +177,7 @@ impl<Adapter: StorageAdapter> ImplStorage<Adapter> {
         receipts: Vec<Receipt>,
         block_number: BlockNumber,
     ) -> ProtocolResult<()> {
-        let (hashes, heights) = receipts
+        let (hashes, heights): (Vec<_>, Vec<_>) = receipts
             .iter()
             .map(|item| (item.tx_hash, StorageBatchModify::Insert(block_number)))
             .unzip();
@@ -188,13 +192,25 @@ impl<Adapter: StorageAdapter> ImplStorage<Adapter> {
             })
             .unzip();
 
-        self.adapter
-            .batch_modify::<ReceiptSchema>(keys, batch_stxs)?;
+        let ret = self
+            .adapter
+            .batch_modify::<ReceiptSchema>(keys, batch_stxs)
+            .and_then(|_| {
+                self.adapter
+                    .batch_modify::<TxHashNumberSchema>(hashes.clone(), heights)
+            });
 
-        self.adapter
-            .batch_modify::<TxHashNumberSchema>(hashes, heights)?;
+        self.drop_cached_transactions(&hashes);
 
-        Ok(())
+        ret
+    }
+
+    /// What is cached for these hashes may have been written anew.
+    fn drop_cached_transactions(&self, hashes: &[Hash]) {
+        for hash in hashes {
+            drop_cache!(self, hash, transactions);
+            drop_cache!(self, hash, receipts);
+        }
     }
 }
 
@@ -513,19 +529,26 @@ impl<Adapter: StorageAdapter> Storage for ImplStorage<Adapter> {
     }
 
     async fn set_block(&self, _ctx: Context, block: Block) -> ProtocolResult<()> {
+        let number = block.header.number;
+        let hash = block.hash();
+
         self.adapter
-            .insert::<BlockSchema>(BlockKey::new(block.header.number), block.clone())?;
-        self.adapter.insert::<BlockHeaderSchema>(
-            BlockKey::new(block.header.number),
-            block.header.clone(),
-        )?;
+            .insert::<BlockSchema>(BlockKey::new(number), block.clone())?;
+        drop_cache!(self, &number, blocks);
+
         self.adapter
-            .insert::<BlockHashNumberSchema>(block.hash(), block.header.number)?;
+            .insert::<BlockHeaderSchema>(BlockKey::new(number), block.header)?;
+        drop_cache!(self, &number, headers);
+
+        self.adapter.insert::<BlockHashNumberSchema>(hash, number)?;
+        drop_cache!(self, &hash, block_numbers);
         Ok(())
     }
 
     async fn remove_block(&self, _ctx: Context, height: u64) -> ProtocolResult<()> {
-        self.adapter.remove::<BlockSchema>(BlockKey::new(height))
+        self.adapter.remove::<BlockSchema>(BlockKey::new(height))?;
+        drop_cache!(self, &height, blocks);
+        Ok(())
     }
 
     async fn set_latest_block(&self, _ctx: Context, block: Block) -> ProtocolResult<()> {
@@ -556,6 +579,7 @@ impl<Adapter: StorageAdapter> Storage for ImplStorage<Adapter> {
         code: Bytes,
     ) -> ProtocolResult<()> {
         self.adapter.insert::<EvmCodeSchema>(code_hash, code)?;
+        drop_cache!(self, &code_hash, codes);
         self.adapter
             .insert::<EvmCodeAddressSchema>(code_address, code_hash)
     }
-- 
2.43.0


From e7356232e53cd7ac5b057e97dcf9266317299f40 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 32/72] fix: storage: answer every mention of a hash in a list

---
 core/storage/src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/storage/src/lib.rs b/core/storage/src/lib.rs
index 46976d6..f908975 100644
--- a/core/storage/src/lib.rs
+++ b/core/storage/src/lib.rs
@@ -325,7 +325,7 @@ impl<Adapter: StorageAdapter> ReadOnlyStorage for ImplStorage<Adapter> {
             }
         }
 
-        let mut found = {
+        let found = {
             if found.len() <= BATCH_VALUE_DECODE_NUMBER {
                 found
                     .drain(..)
@@ -359,7 +359,10 @@ impl<Adapter: StorageAdapter> ReadOnlyStorage for ImplStorage<Adapter> {
             }
         };
 
-        Ok(hashes.iter().map(|h| found.remove(h)).collect::<Vec<_>>())
+        Ok(hashes
+            .iter()
+            .map(|h| found.get(h).cloned())
+            .collect::<Vec<_>>())
     }
 
     async fn get_code_by_hash(&self, _ctx: Context, hash: &Hash) -> ProtocolResult<Option<Bytes>> {
@@ -467,7 +470,7 @@ impl<Adapter: StorageAdapter> ReadOnlyStorage for ImplStorage<Adapter> {
             }
         }
 
-        let mut found = {
+        let found = {
             if found.len() <= BATCH_VALUE_DECODE_NUMBER {
                 found
                     .drain(..)
@@ -501,7 +504,10 @@ impl<Adapter: StorageAdapter> ReadOnlyStorage for ImplStorage<Adapter> {
             }
         };
 
-        Ok(hashes.iter().map(|h| found.remove(h)).collect::<Vec<_>>())
+        Ok(hashes
+            .iter()
+            .map(|h| found.get(h).cloned())
+            .collect::<Vec<_>>())
     }
 
     async fn get_latest_proof(&self, _ctx: Context) -> ProtocolResult<Proof> {
-- 
2.43.0


From 0c8e37102b2d30a4914f7b336c79460371c186f2 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 33/72] fix: storage: a cache of size zero

---
 core/storage/src/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/storage/src/cache.rs b/core/storage/src/cache.rs
index e389d6e..bc4d92d 100644
--- a/core/storage/src/cache.rs
+++ b/core/storage/src/cache.rs
@@ -17,7 +17,7 @@ pub struct StorageCache {
 
 impl StorageCache {
     pub fn new(size: usize) -> Self {
-        let size = NonZeroUsize::new(size).unwrap();
+        let size = NonZeroUsize::new(size.max(1)).unwrap();
         StorageCache {
             blocks:        Mutex::new(LruCache::new(size)),
             block_numbers: Mutex::new(LruCache::new(size)),
-- 
2.43.0


From 89ab009a4ccfceb708e263fed59bc92c0b4ce896 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 34/72] fix: mempool: count all the dropped system transactions

---
 core/mempool/src/pool.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index 69606d8..2538cb1 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -365,8 +365,12 @@ impl BuiltInContractTxBucket {
     pub fn flush(&self, hashes: &[Hash], reduce_len: &mut usize) {
         for hash in hashes.iter() {
             if let Some(data) = self.hash_data_map.remove(hash) {
-                if self.tx_buckets.remove(&data.1).is_some() {
-                    *reduce_len += 1;
+                // The call has been made, drop all the transactions which make it.
+                if let Some((_, txs)) = self.tx_buckets.remove(&data.1) {
+                    txs.keys().for_each(|hash| {
+                        self.hash_data_map.remove(hash);
+                    });
+                    *reduce_len += txs.len();
                 }
             }
         }
-- 
2.43.0


From 546f3568b632bdd310a9caabee7be5b9cadf8a90 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 35/72] fix: mempool: package in nonce order, best price first

---
 core/mempool/src/pool.rs       | 41 ++++++++++++++++++++++++----------
 core/mempool/src/tx_wrapper.rs |  7 +++---
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index 2538cb1..ca60a7b 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -1,4 +1,5 @@
-use std::collections::{hash_map::Entry, BTreeMap, HashMap, HashSet};
+use std::cmp::Reverse;
+use std::collections::{hash_map::Entry, BTreeMap, BinaryHeap, HashMap, HashSet};
 use std::sync::{
     atomic::{AtomicUsize, Ordering},
     Arc,
@@ -165,17 +166,8 @@ impl PriorityPool {
 
         q.sort_unstable();
 
-        hashes.extend(
-            q.iter()
-                .filter_map(|ptr| {
-                    if ptr.is_dropped() {
-                        None
-                    } else {
-                        Some(ptr.hash())
-                    }
-                })
-                .take(limit),
-        );
+        let txs = q.iter().filter(|ptr| !ptr.is_dropped()).collect::<Vec<_>>();
+        hashes.extend(arrange_by_price(&txs, limit));
 
         PackedTxHashes {
             hashes,
@@ -392,6 +384,31 @@ impl BuiltInContractTxBucket {
     }
 }
 
+/// Take the transaction with the highest gas price among the next transactions
+/// of all senders again and again, so that transactions of the same sender stay
+/// in nonce order. The given transactions should be sorted.
+fn arrange_by_price(txs: &[&TxPtr], limit: usize) -> Vec<Hash> {
+    let is_first = |i: usize| i == 0 || txs[i - 1].sender() != txs[i].sender();
+    let entry = |i: usize| (txs[i].gas_price(), Reverse(i));
+
+    let mut heads = (0..txs.len())
+        .filter(|i| is_first(*i))
+        .map(entry)
+        .collect::<BinaryHeap<_>>();
+    let mut hashes = Vec::with_capacity(limit.min(txs.len()));
+    while hashes.len() < limit {
+        let Some((_, Reverse(i))) = heads.pop() else {
+            break;
+        };
+        hashes.push(txs[i].hash());
+        if i + 1 < txs.len() && !is_first(i + 1) {
+            heads.push(entry(i + 1));
+        }
+    }
+
+    hashes
+}
+
 fn pop_all_item<T>(queue: Arc<ArrayQueue<T>>) -> impl Iterator<Item = T> {
     (0..queue.len()).map(move |_| queue.pop().unwrap())
 }
diff --git a/core/mempool/src/tx_wrapper.rs b/core/mempool/src/tx_wrapper.rs
index 08c358c..422fa53 100644
--- a/core/mempool/src/tx_wrapper.rs
+++ b/core/mempool/src/tx_wrapper.rs
@@ -28,10 +28,9 @@ impl From<SignedTransaction> for TxWrapper {
 
 impl Ord for TxWrapper {
     fn cmp(&self, other: &Self) -> Ordering {
-        if self.sender() != other.sender() {
-            return self.gas_price().cmp(&other.gas_price());
-        }
-        self.nonce().cmp(other.nonce())
+        self.sender()
+            .cmp(&other.sender())
+            .then_with(|| self.nonce().cmp(other.nonce()))
     }
 }
 
-- 
2.43.0


From 0e2eb8d594127a76eefd6f7e379978d80c2a1038 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 36/72] fix: mempool: what follows an expired transaction waits
 for the gap to be filled

---
 core/mempool/src/pool.rs       |  6 +++---
 core/mempool/src/tx_wrapper.rs | 15 ++++++++++++++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index ca60a7b..0c1d9d6 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -288,12 +288,12 @@ impl PriorityPool {
 
         timeout_gap.entry(number).or_default().extend(retain_keys);
 
-        q.retain(|ptr| !ptr.is_dropped());
-
         self.pending_queue.retain(|_, v| {
             v.clear_droped();
             !v.need_remove()
-        })
+        });
+
+        q.retain(|ptr| !ptr.is_dropped() && ptr.is_package());
     }
 
     pub fn real_queue_len(&self) -> usize {
diff --git a/core/mempool/src/tx_wrapper.rs b/core/mempool/src/tx_wrapper.rs
index 422fa53..dfad4a2 100644
--- a/core/mempool/src/tx_wrapper.rs
+++ b/core/mempool/src/tx_wrapper.rs
@@ -81,7 +81,11 @@ impl TxWrapper {
         self.state.fetch_or(0x01, AtomicOrdering::AcqRel);
     }
 
-    fn is_package(&self) -> bool {
+    fn unset_package(&self) {
+        self.state.fetch_and(!0x01, AtomicOrdering::AcqRel);
+    }
+
+    pub fn is_package(&self) -> bool {
         self.state.load(AtomicOrdering::Acquire) & 0x01 == 0x01
     }
 }
@@ -152,6 +156,15 @@ impl PendingQueue {
             self.need_remove = true
         }
         self.queue.retain(|_, v| !v.is_dropped());
+
+        // When a transaction expires, the ones after it have to wait until the gap in
+        // the package list is filled again.
+        let mut tip = self.current_tip_nonce;
+        while self.queue.get(&tip).map_or(false, |v| v.is_package()) {
+            tip = tip + 1;
+        }
+        self.queue.range(tip..).for_each(|(_, v)| v.unset_package());
+        self.pop_tip_nonce = tip;
     }
 
     pub fn set_drop_by_nonce_tip(&mut self, nonce: U64) {
-- 
2.43.0


From aef10af213249bacc970f33527211d0631b25a97 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 37/72] fix: mempool: keep the transaction when the queue fills
 meanwhile

---
 core/mempool/src/pool.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index 0c1d9d6..d464a70 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -146,7 +146,12 @@ impl PriorityPool {
             }
             dashmap::mapref::entry::Entry::Vacant(v) => {
                 v.insert(Arc::clone(&ptr));
-                let _ = self.co_queue.push((ptr, check_nonce));
+                let mut item = (ptr, check_nonce);
+                while let Err(rejected) = self.co_queue.push(item) {
+                    // filled by others after the check above
+                    self.flush_to_pending_queue();
+                    item = rejected;
+                }
             }
         }
 
-- 
2.43.0


From dd11cc65744d53735cca428bf6a094c0e8c19eba Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 38/72] fix: mempool: don't hold a system transaction which is
 committed meanwhile

---
 core/mempool/src/lib.rs  |  6 ++++++
 core/mempool/src/pool.rs | 29 ++++++++++++++++++++++++++---
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index 97165c2..4850e8f 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -114,6 +114,12 @@ where
 
             if is_system_script {
                 self.pool.insert_system_script_tx(tx.clone())?;
+                // It doesn't expire, so make sure that the block which contains it isn't
+                // committed after the check above.
+                if let Err(e) = self.adapter.check_storage_exist(ctx.clone(), tx_hash).await {
+                    self.pool.remove_system_script_tx(tx_hash);
+                    return Err(e);
+                }
             } else {
                 self.pool.insert(tx.clone(), true, check_nonce)?;
             }
diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index d464a70..55d3ff8 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -7,7 +7,7 @@ use std::sync::{
 use std::time::Duration;
 
 use crossbeam_queue::ArrayQueue;
-use dashmap::DashMap;
+use dashmap::{mapref, DashMap};
 use parking_lot::{Mutex, RwLock};
 
 use protocol::tokio::{self, time::sleep};
@@ -109,6 +109,13 @@ impl PriorityPool {
         Ok(())
     }
 
+    pub fn remove_system_script_tx(&self, hash: &Hash) {
+        let _flushing = self.flush_lock.read();
+        if self.sys_tx_bucket.remove(hash) {
+            self.stock_len.fetch_sub(1, Ordering::AcqRel);
+        }
+    }
+
     pub fn insert(
         &self,
         stx: SignedTransaction,
@@ -141,10 +148,10 @@ impl PriorityPool {
         let ptr = Arc::new(TxWrapper::from(stx));
 
         match self.tx_map.entry(ptr.hash()) {
-            dashmap::mapref::entry::Entry::Occupied(_) => {
+            mapref::entry::Entry::Occupied(_) => {
                 self.stock_len.fetch_sub(1, Ordering::AcqRel);
             }
-            dashmap::mapref::entry::Entry::Vacant(v) => {
+            mapref::entry::Entry::Vacant(v) => {
                 v.insert(Arc::clone(&ptr));
                 let mut item = (ptr, check_nonce);
                 while let Err(rejected) = self.co_queue.push(item) {
@@ -335,6 +342,22 @@ impl BuiltInContractTxBucket {
             .is_none()
     }
 
+    pub fn remove(&self, hash: &Hash) -> bool {
+        let Some((_, data)) = self.hash_data_map.remove(hash) else {
+            return false;
+        };
+
+        if let mapref::entry::Entry::Occupied(mut bucket) = self.tx_buckets.entry(data) {
+            let removed = bucket.get_mut().remove(hash).is_some();
+            if bucket.get().is_empty() {
+                bucket.remove();
+            }
+            return removed;
+        }
+
+        false
+    }
+
     pub fn package(&self) -> Vec<Hash> {
         self.tx_buckets
             .iter()
-- 
2.43.0


From 1b2781ae630b4d8a2cb93f18aafc0a1d86b1948d Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 39/72] fix: mempool: recovered transactions are held as
 inserted ones

---
 core/mempool/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index 4850e8f..9f0a68f 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -86,10 +86,17 @@ where
     }
 
     async fn initial_insert(&self, ctx: Context, stx: SignedTransaction) -> ProtocolResult<()> {
+        let is_system_script = is_call_system_script(stx.transaction.unsigned.action())?;
+        let check_nonce = self.adapter.check_authorization(ctx.clone(), &stx).await?;
         self.adapter
-            .check_storage_exist(ctx.clone(), &stx.transaction.hash)
+            .check_storage_exist(ctx, &stx.transaction.hash)
             .await?;
-        self.pool.insert(stx, true, U64::zero())
+
+        if is_system_script {
+            self.pool.insert_system_script_tx(stx)
+        } else {
+            self.pool.insert(stx, true, check_nonce)
+        }
     }
 
     async fn insert_tx(
-- 
2.43.0


From c584668e9493c461f995bbc8ed987e904bab6b56 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 40/72] fix: mempool: full transactions in the order of the
 hashes

---
 core/mempool/src/lib.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index 9f0a68f..29f9850 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -263,25 +263,27 @@ where
         let mut full_txs = Vec::with_capacity(len);
 
         for tx_hash in tx_hashes.iter() {
-            if let Some(tx) = self.pool.get_by_hash(tx_hash) {
-                full_txs.push(tx);
-            } else {
+            let tx = self.pool.get_by_hash(tx_hash);
+            if tx.is_none() {
                 missing_hashes.push(*tx_hash);
             }
+            full_txs.push(tx);
         }
 
         // for push txs when local mempool is flushed, but the remote node still fetch
         // full block
         if !missing_hashes.is_empty() {
-            full_txs.extend(
-                self.adapter
-                    .get_transactions_from_storage(ctx, height, &missing_hashes)
-                    .await?
-                    .into_iter()
-                    .flatten(),
-            );
+            let mut stored_txs = self
+                .adapter
+                .get_transactions_from_storage(ctx, height, &missing_hashes)
+                .await?
+                .into_iter();
+            for tx in full_txs.iter_mut().filter(|tx| tx.is_none()) {
+                *tx = stored_txs.next().flatten();
+            }
         }
 
+        let full_txs = full_txs.into_iter().flatten().collect::<Vec<_>>();
         if full_txs.len() != len {
             Err(MemPoolError::MisMatch {
                 require:  len,
-- 
2.43.0


From 63563742b838f20a874f18e5b968e1b3f0acddd5 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 41/72] fix: mempool: a peer answers with the requested
 transactions

---
 core/mempool/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index 29f9850..9f9dba9 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -306,13 +306,18 @@ where
         let unknown_hashes = self.show_unknown_txs(order_tx_hashes).await;
         if !unknown_hashes.is_empty() {
             let unknown_len = unknown_hashes.len();
+            let mut unknown_set = unknown_hashes.iter().copied().collect::<HashSet<_>>();
             let txs = self
                 .adapter
                 .pull_txs(ctx.clone(), height, unknown_hashes)
                 .await?;
 
-            // Make sure response signed_txs is the same size of request hashes.
-            if txs.len() != unknown_len {
+            // Make sure response signed_txs are exactly the requested ones.
+            if txs.len() != unknown_len
+                || !txs
+                    .iter()
+                    .all(|tx| unknown_set.remove(&tx.transaction.hash))
+            {
                 return Err(MemPoolError::EnsureBreak {
                     require:  unknown_len,
                     response: txs.len(),
-- 
2.43.0


From 3cb9c4347222205f5d875824da8bb34f6abe9e74 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 42/72] fix: mempool: a committed transaction outdates those in
 the pool, seen before or not

---
 core/mempool/src/lib.rs  | 23 +++++++++-
 core/mempool/src/pool.rs | 97 ++++++++++++++++++++++++++++++----------
 2 files changed, 94 insertions(+), 26 deletions(-)

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index 9f9dba9..10c9c5a 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -237,7 +237,7 @@ where
 
     async fn flush(
         &self,
-        _ctx: Context,
+        ctx: Context,
         tx_hashes: &[Hash],
         current_number: BlockNumber,
     ) -> ProtocolResult<()> {
@@ -246,7 +246,26 @@ where
             tx_hashes.len(),
         );
         self.adapter.clear_nonce_cache();
-        self.pool.flush(tx_hashes, current_number);
+
+        // The pool may not have seen some of them, e.g. those of a synchronized block.
+        let unknown_hashes = self.show_unknown_txs(tx_hashes).await;
+        let unseen_txs = if unknown_hashes.is_empty() {
+            Vec::new()
+        } else {
+            self.adapter
+                .get_transactions_from_storage(ctx, Some(current_number), &unknown_hashes)
+                .await
+                .unwrap_or_else(|e| {
+                    log::warn!("[core_mempool]: get committed txs failed {:?}", e);
+                    Vec::new()
+                })
+                .into_iter()
+                .flatten()
+                .collect()
+        };
+
+        self.pool
+            .flush_with_unseen(tx_hashes, &unseen_txs, current_number);
         Ok(())
     }
 
diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index 55d3ff8..6f16028 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -16,6 +16,8 @@ use protocol::types::{
 };
 use protocol::{constants::MEMPOOL_REFRESH_TIMEOUT, ProtocolResult};
 
+use core_executor::is_call_system_script;
+
 use crate::tx_wrapper::{PendingQueue, TxPtr, TxWrapper};
 use crate::MemPoolError;
 
@@ -240,41 +242,65 @@ impl PriorityPool {
     }
 
     pub fn flush(&self, hashes: &[Hash], number: BlockNumber) {
+        self.flush_with_unseen(hashes, &[], number)
+    }
+
+    /// The `unseen_txs` are committed transactions which may not be in the pool.
+    pub fn flush_with_unseen(
+        &self,
+        hashes: &[Hash],
+        unseen_txs: &[SignedTransaction],
+        number: BlockNumber,
+    ) {
         let _flushing = self.flush_lock.write();
         self.flush_to_pending_queue();
         let mut reduce_len = 0;
-        self.flush_inner(hashes, &mut reduce_len, number);
-        self.sys_tx_bucket.flush(hashes, &mut reduce_len);
+        self.flush_inner(hashes, unseen_txs, &mut reduce_len, number);
+        self.sys_tx_bucket
+            .flush(hashes, unseen_txs, &mut reduce_len);
 
         if reduce_len != 0 {
             self.stock_len.fetch_sub(reduce_len, Ordering::AcqRel);
         }
     }
 
-    fn flush_inner(&self, hashes: &[Hash], reduce_len: &mut usize, number: BlockNumber) {
+    fn flush_inner(
+        &self,
+        hashes: &[Hash],
+        unseen_txs: &[SignedTransaction],
+        reduce_len: &mut usize,
+        number: BlockNumber,
+    ) {
         let mut q = self.real_queue.lock();
         let mut timeout_gap = self.timeout_gap.lock();
 
         let mut remove_tip_nonce: HashMap<H160, U64> = HashMap::new();
+        let mut remove_up_to = |sender: H160, nonce: U64| match remove_tip_nonce.entry(sender) {
+            Entry::Occupied(mut v) => {
+                if v.get() < &nonce {
+                    v.insert(nonce);
+                }
+            }
+            Entry::Vacant(v) => {
+                v.insert(nonce);
+            }
+        };
         for hash in hashes {
             if let Some((_, ptr)) = self.tx_map.remove(hash) {
-                match remove_tip_nonce.entry(ptr.sender()) {
-                    Entry::Occupied(mut v) => {
-                        if v.get() < ptr.nonce() {
-                            v.insert(*ptr.nonce());
-                        }
-                    }
-                    Entry::Vacant(v) => {
-                        v.insert(*ptr.nonce());
-                    }
-                }
+                remove_up_to(ptr.sender(), *ptr.nonce());
                 *reduce_len += 1;
             }
         }
+        for tx in unseen_txs {
+            // The nonces of the system script transactions are not checked.
+            if let Ok(false) = is_call_system_script(tx.transaction.unsigned.action()) {
+                remove_up_to(tx.sender, *tx.transaction.unsigned.nonce());
+            }
+        }
 
-        for (k, v) in remove_tip_nonce {
-            if let Some(mut value) = self.pending_queue.get_mut(&k) {
-                value.value_mut().set_drop_by_nonce_tip(v);
+        for (k, v) in remove_tip_nonce.iter() {
+            if let Some(mut value) = self.pending_queue.get_mut(k) {
+                value.value_mut().set_drop_by_nonce_tip(*v);
             }
         }
 
@@ -306,6 +332,13 @@ impl PriorityPool {
         });
 
         q.retain(|ptr| !ptr.is_dropped() && ptr.is_package());
+
+        // What comes after an unseen transaction can be packaged now.
+        for k in remove_tip_nonce.keys() {
+            if let Some(mut value) = self.pending_queue.get_mut(k) {
+                value.value_mut().try_search_package_list(&mut q);
+            }
+        }
     }
 
     pub fn real_queue_len(&self) -> usize {
@@ -382,18 +415,34 @@ impl BuiltInContractTxBucket {
         None
     }
 
-    pub fn flush(&self, hashes: &[Hash], reduce_len: &mut usize) {
+    pub fn flush(
+        &self,
+        hashes: &[Hash],
+        unseen_txs: &[SignedTransaction],
+        reduce_len: &mut usize,
+    ) {
         for hash in hashes.iter() {
             if let Some(data) = self.hash_data_map.remove(hash) {
-                // The call has been made, drop all the transactions which make it.
-                if let Some((_, txs)) = self.tx_buckets.remove(&data.1) {
-                    txs.keys().for_each(|hash| {
-                        self.hash_data_map.remove(hash);
-                    });
-                    *reduce_len += txs.len();
-                }
+                self.remove_bucket(&data.1, reduce_len);
             }
         }
+
+        for tx in unseen_txs.iter() {
+            if let Ok(true) = is_call_system_script(tx.transaction.unsigned.action()) {
+                let data: Bytes = tx.transaction.unsigned.data().to_vec().into();
+                self.remove_bucket(&data, reduce_len);
+            }
+        }
+    }
+
+    // The call has been made, drop all the transactions which make it.
+    fn remove_bucket(&self, data: &Bytes, reduce_len: &mut usize) {
+        if let Some((_, txs)) = self.tx_buckets.remove(data) {
+            txs.keys().for_each(|hash| {
+                self.hash_data_map.remove(hash);
+            });
+            *reduce_len += txs.len();
+        }
     }
 
     pub fn contains(&self, hash: &Hash) -> bool {
-- 
2.43.0


From a240a07e29a10d93c2b727d88a1927b8f140a803 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 23:07:34 +0000
Subject: [PATCH 43/72] fix: annotated asynchronous functions of a type's own

---
 common/apm-derive/src/rpc_expand.rs   | 9 +++++++--
 common/apm-derive/src/trace_expand.rs | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/common/apm-derive/src/rpc_expand.rs b/common/apm-derive/src/rpc_expand.rs
index a66fe0b..4649361 100644
--- a/common/apm-derive/src/rpc_expand.rs
+++ b/common/apm-derive/src/rpc_expand.rs
@@ -72,14 +72,19 @@ pub fn expand_rpc_metrics(attr: TokenStream, func: TokenStream) -> TokenStream {
             })
         }
     } else {
+        // The block is a closure or a future, so that leaving it early is counted as well.
+        let call_block = if func_sig.asyncness.is_some() {
+            quote! { async move #func_block.await }
+        } else {
+            quote! { (move || -> #func_ret_ty #func_block)() }
+        };
         quote! {
             let inst = common_apm::Instant::now();
 
             log::debug!(#debug, #fn_name, #( #args, )*);
 
-            // Called as a closure, so that leaving the block early is counted as well.
             #[allow(clippy::redundant_closure_call)]
-            let ret: #func_ret_ty = (move || -> #func_ret_ty #func_block)();
+            let ret: #func_ret_ty = #call_block;
 
             if ret.is_err() {
                 common_apm::metrics::api::API_REQUEST_RESULT_COUNTER_VEC_STATIC
diff --git a/common/apm-derive/src/trace_expand.rs b/common/apm-derive/src/trace_expand.rs
index e11cd88..02ac99c 100644
--- a/common/apm-derive/src/trace_expand.rs
+++ b/common/apm-derive/src/trace_expand.rs
@@ -72,10 +72,15 @@ pub fn expand_trace_span(attr: TokenStream, func: TokenStream) -> TokenStream {
             })
         }
     } else if !func_return.is_ret_pin_box_fut() && is_return_result(func_output) {
+        // The block is a closure or a future, so that leaving it early is traced as well.
+        let call_block = if func_sig.asyncness.is_some() {
+            quote! { async move #func_block.await }
+        } else {
+            quote! { (move || -> #func_ret_ty #func_block)() }
+        };
         quote! {
-            // Called as a closure, so that leaving the block early is traced as well.
             #[allow(clippy::redundant_closure_call)]
-            let ret: #func_ret_ty = (move || -> #func_ret_ty #func_block)();
+            let ret: #func_ret_ty = #call_block;
 
             match span.as_mut() {
                 Some(span) => {
-- 
2.43.0


From 4ca6808d4aa1652713a4cf279541531e92a250f2 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 23:20:23 +0000
Subject: [PATCH 44/72] fix: consensus: a proposal is of the height asked for
 and has the hash given along

---
 core/consensus/src/engine.rs | 27 ++++++++++++++++++++-------
 core/consensus/src/lib.rs    | 12 ++++++++++++
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 37c7a28..992ea51 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -159,14 +159,31 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<Proposal> for ConsensusEngine<A
     ) -> Result<(), Box<dyn Error + Send>> {
         let time = Instant::now();
 
-        if proposal.number != proposal.proof.number + 1 {
+        if proposal.number != next_number {
+            return Err(ProtocolError::from(ConsensusError::InvalidNumber {
+                expect: next_number,
+                actual: proposal.number,
+            })
+            .into());
+        }
+
+        if proposal.proof.number.checked_add(1) != Some(proposal.number) {
             return Err(ProtocolError::from(ConsensusError::InvalidProof {
-                expect: proposal.number - 1,
+                expect: proposal.number.saturating_sub(1),
                 actual: proposal.proof.number,
             })
             .into());
         }
 
+        // What is voted on is the hash, so it has to be the one of the proposal.
+        let proposal_hash = proposal.hash();
+        if hash.as_ref() != proposal_hash.as_bytes() {
+            return Err(ProtocolError::from(ConsensusError::InvalidProposalHash(
+                proposal_hash,
+            ))
+            .into());
+        }
+
         if let Some(t) = proposal.extra_data.get(0) {
             match HardforkInfoInner::decode(&t.inner) {
                 Ok(data) => {
@@ -196,11 +213,7 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<Proposal> for ConsensusEngine<A
 
         let tx_hashes = proposal.tx_hashes.clone();
         let tx_hashes_len = tx_hashes.len();
-        let exemption = {
-            self.exemption_hash
-                .read()
-                .contains(&Hash::from_slice(hash.as_ref()))
-        };
+        let exemption = self.exemption_hash.read().contains(&proposal_hash);
 
         gauge_txs_len(&proposal);
 
diff --git a/core/consensus/src/lib.rs b/core/consensus/src/lib.rs
index 429b4fc..db13ce6 100644
--- a/core/consensus/src/lib.rs
+++ b/core/consensus/src/lib.rs
@@ -124,6 +124,18 @@ pub enum ConsensusError {
     )]
     InvalidProof { expect: u64, actual: u64 },
 
+    /// The proposal is of another height.
+    #[display(
+        fmt = "Invalid proposal block number, expect {}, actual {}",
+        expect,
+        actual
+    )]
+    InvalidNumber { expect: u64, actual: u64 },
+
+    /// The proposal comes along with the hash of something else.
+    #[display(fmt = "Invalid proposal hash, expect {:#x}", _0)]
+    InvalidProposalHash(Hash),
+
     /// Consensus missed the pill.
     #[display(fmt = "Consensus missed pill cooresponding {:#x}", _0)]
     MissingPill(Hash),
-- 
2.43.0


From c07376dbd24dd13d721369a511d1ad217354db3d Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 23:20:23 +0000
Subject: [PATCH 45/72] fix: consensus: a proposal starts from the state of the
 previous block

---
 core/consensus/src/engine.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 992ea51..02d4193 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -576,6 +576,16 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
             .get_block_by_number(ctx.clone(), proposal.number - 1)
             .await?;
 
+        // The state root is left out of the header, the next proof can only be verified
+        // with the one of the previous block.
+        if proposal.prev_state_root != previous_block.header.state_root {
+            return Err(ConsensusError::InvalidStateRoot {
+                expect: previous_block.header.state_root,
+                actual: proposal.prev_state_root,
+            }
+            .into());
+        }
+
         // verify block timestamp.
         if !validate_timestamp(
             current_timestamp,
-- 
2.43.0


From dc9a5d20ae092dfa388ba3c1f8024581fe1b2d23 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 46/72] fix: consensus: the settings of a block are those of
 the state before it

---
 core/consensus/src/engine.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 02d4193..ab45f3d 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -730,31 +730,31 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
             self.adapter.remove_hardfork_proposal(ctx.clone()).await?;
         }
 
+        let metadata = self
+            .adapter
+            .get_metadata_by_block_number(block_number + 1)
+            .await?;
+
         if self
             .adapter
             .is_last_block_in_current_epoch(block_number)
             .await?
         {
-            let metadata = self
-                .adapter
-                .get_metadata_by_block_number(block_number + 1)
-                .await?;
             let pub_keys = metadata
                 .verifier_list
                 .iter()
                 .map(|v| v.pub_key.as_bytes())
                 .collect();
             self.adapter.tag_consensus(ctx.clone(), pub_keys)?;
-            self.update_overlord_crypto(metadata)?;
+            self.update_overlord_crypto(metadata.clone())?;
         }
 
-        let last_status = self.status.inner();
         let new_status = CurrentStatus {
             prev_hash:       block_hash,
             last_number:     block_number,
             last_state_root: resp.state_root,
-            max_tx_size:     last_status.max_tx_size,
-            tx_num_limit:    last_status.tx_num_limit,
+            max_tx_size:     metadata.consensus_config.max_tx_size.into(),
+            tx_num_limit:    metadata.consensus_config.tx_num_limit,
             proof:           proof.clone(),
         };
 
@@ -765,7 +765,7 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
             ctx,
             resp.state_root,
             MAX_BLOCK_GAS_LIMIT,
-            last_status.max_tx_size.low_u64(),
+            metadata.consensus_config.max_tx_size,
         );
 
         if block.header.number != proof.number {
-- 
2.43.0


From 777bc959f348e784cfb58de0f05dc605285b3f99 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 47/72] fix: consensus: a node started in between epochs goes
 on with the next validators

---
 core/consensus/src/engine.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index ab45f3d..0cb031a 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -289,6 +289,9 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<Proposal> for ConsensusEngine<A
             .await?;
 
         if current_number == status.last_number {
+            // The node stopped after saving this block, and started with its validators.
+            self.update_validators(ctx, &metadata)?;
+
             return Ok(Status {
                 height:         current_number + 1,
                 interval:       Some(metadata.consensus_config.interval),
@@ -735,19 +738,9 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
             .get_metadata_by_block_number(block_number + 1)
             .await?;
 
-        if self
-            .adapter
-            .is_last_block_in_current_epoch(block_number)
-            .await?
-        {
-            let pub_keys = metadata
-                .verifier_list
-                .iter()
-                .map(|v| v.pub_key.as_bytes())
-                .collect();
-            self.adapter.tag_consensus(ctx.clone(), pub_keys)?;
-            self.update_overlord_crypto(metadata.clone())?;
-        }
+        // Not only at the end of an epoch, the node may just have started with the
+        // validators of the previous block.
+        self.update_validators(ctx.clone(), &metadata)?;
 
         let new_status = CurrentStatus {
             prev_hash:       block_hash,
@@ -779,8 +772,15 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
         Ok(())
     }
 
-    fn update_overlord_crypto(&self, metadata: Metadata) -> ProtocolResult<()> {
-        self.crypto.update(generate_new_crypto_map(metadata)?);
+    fn update_validators(&self, ctx: Context, metadata: &Metadata) -> ProtocolResult<()> {
+        let pub_keys = metadata
+            .verifier_list
+            .iter()
+            .map(|v| v.pub_key.as_bytes())
+            .collect();
+        self.adapter.tag_consensus(ctx, pub_keys)?;
+        self.crypto
+            .update(generate_new_crypto_map(metadata.clone())?);
         Ok(())
     }
 
-- 
2.43.0


From 10e1271b8b87680262b6b0cd43f4901b5345a3c6 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 23:25:45 +0000
Subject: [PATCH 48/72] fix: sync: the latest proof saved is the one of the
 synced block

---
 core/consensus/src/synchronization.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/consensus/src/synchronization.rs b/core/consensus/src/synchronization.rs
index 6ad31ea..1904322 100644
--- a/core/consensus/src/synchronization.rs
+++ b/core/consensus/src/synchronization.rs
@@ -360,6 +360,7 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
             rich_block.txs.clone(),
             receipts,
             rich_block.block.clone(),
+            proof,
         )
         .await?;
 
@@ -455,6 +456,7 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
         txs: Vec<SignedTransaction>,
         receipts: Vec<Receipt>,
         block: Block,
+        proof: Proof,
     ) -> ProtocolResult<()> {
         self.adapter
             .save_signed_txs(ctx.clone(), block.header.number, txs)
@@ -462,9 +464,7 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
         self.adapter
             .save_receipts(ctx.clone(), block.header.number, receipts)
             .await?;
-        self.adapter
-            .save_proof(ctx.clone(), block.header.proof.clone())
-            .await?;
+        self.adapter.save_proof(ctx.clone(), proof).await?;
         self.adapter.save_block(ctx.clone(), block).await?;
         Ok(())
     }
-- 
2.43.0


From 3aa8d97e81024d37e4f30e402e6365c6eb11d722 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 49/72] fix: sync: the settings of a block are those of the
 state before it

---
 core/consensus/src/synchronization.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/core/consensus/src/synchronization.rs b/core/consensus/src/synchronization.rs
index 1904322..cb7b4d3 100644
--- a/core/consensus/src/synchronization.rs
+++ b/core/consensus/src/synchronization.rs
@@ -342,9 +342,18 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
 
         let (receipts, _logs) = rich_block.generate_receipts_and_logs(&resp);
 
+        self.save_chain_data(
+            ctx.clone(),
+            rich_block.txs.clone(),
+            receipts,
+            rich_block.block.clone(),
+            proof.clone(),
+        )
+        .await?;
+
         let metadata = self
             .adapter
-            .get_metadata_by_block_number(block.header.number)
+            .get_metadata_by_block_number(block.header.number + 1)
             .await?;
         let new_status = CurrentStatus {
             prev_hash:       block.hash(),
@@ -352,17 +361,8 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
             last_state_root: resp.state_root,
             tx_num_limit:    metadata.consensus_config.tx_num_limit,
             max_tx_size:     metadata.consensus_config.max_tx_size.into(),
-            proof:           proof.clone(),
-        };
-
-        self.save_chain_data(
-            ctx.clone(),
-            rich_block.txs.clone(),
-            receipts,
-            rich_block.block.clone(),
             proof,
-        )
-        .await?;
+        };
 
         status_agent.swap(new_status);
 
-- 
2.43.0


From e8a9fb5610ed5e70d2de04955cee659341999b7e Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 50/72] fix: sync: what a header says of the execution is
 verified

---
 core/consensus/src/adapter.rs         | 11 ++++++++++-
 core/consensus/src/lib.rs             |  9 +++++++++
 core/consensus/src/synchronization.rs | 17 +++++++++++------
 3 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/core/consensus/src/adapter.rs b/core/consensus/src/adapter.rs
index 4b87158..3683fa2 100644
--- a/core/consensus/src/adapter.rs
+++ b/core/consensus/src/adapter.rs
@@ -13,6 +13,7 @@ use core_network::{PeerId, PeerIdExt};
 use protocol::constants::endpoints::{
     BROADCAST_HEIGHT, RPC_SYNC_PULL_BLOCK, RPC_SYNC_PULL_PROOF, RPC_SYNC_PULL_TXS,
 };
+use protocol::constants::BASE_FEE_PER_GAS;
 use protocol::traits::{
     CommonConsensusAdapter, ConsensusAdapter, Context, Executor, Gossip, MemPool, MessageTarget,
     Network, PeerTrust, Priority, Rpc, Storage, SynchronizationAdapter,
@@ -26,7 +27,7 @@ use protocol::{async_trait, tokio::task, trie, ProtocolResult};
 
 use crate::consensus::gen_overlord_status;
 use crate::util::{convert_hex_to_bls_pubkeys, OverlordCrypto};
-use crate::BlockHeaderField::{PreviousBlockHash, Version};
+use crate::BlockHeaderField::{BaseFeePerGas, ChainId, PreviousBlockHash, Version};
 use crate::BlockProofField::{BitMap, HashMismatch, HeightMismatch, Signature, WeightNotFound};
 use crate::{types::PullTxsRequest, BlockProofField, ConsensusError};
 
@@ -433,6 +434,14 @@ where
             return Err(ConsensusError::VerifyBlockHeader(proposal.number, Version).into());
         }
 
+        // Neither is part of the proposal hash.
+        if previous_block.header.chain_id != proposal.chain_id {
+            return Err(ConsensusError::VerifyBlockHeader(proposal.number, ChainId).into());
+        }
+        if proposal.base_fee_per_gas != BASE_FEE_PER_GAS.into() {
+            return Err(ConsensusError::VerifyBlockHeader(proposal.number, BaseFeePerGas).into());
+        }
+
         let previous_block_hash = previous_block.hash();
 
         if previous_block_hash != proposal.prev_hash {
diff --git a/core/consensus/src/lib.rs b/core/consensus/src/lib.rs
index db13ce6..57c0a10 100644
--- a/core/consensus/src/lib.rs
+++ b/core/consensus/src/lib.rs
@@ -94,6 +94,9 @@ pub enum ConsensusError {
         actual: MerkleRoot,
     },
 
+    #[display(fmt = "The header of block {} mismatches the execution", _0)]
+    InvalidExecResult(u64),
+
     #[display(
         fmt = "Check invalid order signed transactions hash, expect {:#x} get {:#x}",
         expect,
@@ -232,6 +235,12 @@ pub enum BlockHeaderField {
 
     #[display(fmt = "The block version")]
     Version,
+
+    #[display(fmt = "The chain id mismatch the previous block")]
+    ChainId,
+
+    #[display(fmt = "The base fee per gas")]
+    BaseFeePerGas,
 }
 
 #[derive(Debug, Display)]
diff --git a/core/consensus/src/synchronization.rs b/core/consensus/src/synchronization.rs
index cb7b4d3..dc38fcb 100644
--- a/core/consensus/src/synchronization.rs
+++ b/core/consensus/src/synchronization.rs
@@ -309,17 +309,17 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
         status_agent: StatusAgent,
     ) -> ProtocolResult<()> {
         let block = &rich_block.block;
-        let block_hash = block.hash();
+        let proposal = Proposal::new_with_state_root(
+            &block.header,
+            self.status.inner().last_state_root,
+            block.tx_hashes.clone(),
+        );
         let resp = self
             .adapter
             .exec(
                 ctx.clone(),
                 status_agent.inner().last_state_root,
-                &Proposal::new_with_state_root(
-                    &block.header,
-                    self.status.inner().last_state_root,
-                    block.tx_hashes.clone(),
-                ),
+                &proposal,
                 &rich_block.txs,
             )
             .await?;
@@ -340,6 +340,11 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
             .into());
         }
 
+        // The rest of the header is not covered by the proof either.
+        if Block::new(proposal, resp.clone()) != *block {
+            return Err(ConsensusError::InvalidExecResult(block.header.number).into());
+        }
+
         let (receipts, _logs) = rich_block.generate_receipts_and_logs(&resp);
 
         self.save_chain_data(
-- 
2.43.0


From 7e0ae6d15fe940c30626758a32ae3361bd9d2475 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 23:29:44 +0000
Subject: [PATCH 51/72] fix: sync: validators and the pool follow a synced
 block

---
 core/consensus/src/adapter.rs         | 12 ++++++++++++
 core/consensus/src/synchronization.rs | 10 ++++++++++
 protocol/src/traits/consensus.rs      |  5 +++++
 3 files changed, 27 insertions(+)

diff --git a/core/consensus/src/adapter.rs b/core/consensus/src/adapter.rs
index 3683fa2..1f01166 100644
--- a/core/consensus/src/adapter.rs
+++ b/core/consensus/src/adapter.rs
@@ -26,6 +26,7 @@ use protocol::types::{
 use protocol::{async_trait, tokio::task, trie, ProtocolResult};
 
 use crate::consensus::gen_overlord_status;
+use crate::engine::generate_new_crypto_map;
 use crate::util::{convert_hex_to_bls_pubkeys, OverlordCrypto};
 use crate::BlockHeaderField::{BaseFeePerGas, ChainId, PreviousBlockHash, Version};
 use crate::BlockProofField::{BitMap, HashMismatch, HeightMismatch, Signature, WeightNotFound};
@@ -163,6 +164,17 @@ where
         Ok(())
     }
 
+    fn update_validators(&self, ctx: Context, metadata: Metadata) -> ProtocolResult<()> {
+        let pub_keys = metadata
+            .verifier_list
+            .iter()
+            .map(|v| v.pub_key.as_bytes())
+            .collect();
+        self.tag_consensus(ctx, pub_keys)?;
+        self.crypto.update(generate_new_crypto_map(metadata)?);
+        Ok(())
+    }
+
     /// Pull some blocks from other nodes from `begin` to `end`.
     #[trace_span(kind = "consensus.adapter")]
     async fn get_block_from_remote(&self, ctx: Context, number: u64) -> ProtocolResult<Block> {
diff --git a/core/consensus/src/synchronization.rs b/core/consensus/src/synchronization.rs
index dc38fcb..bb656cf 100644
--- a/core/consensus/src/synchronization.rs
+++ b/core/consensus/src/synchronization.rs
@@ -6,6 +6,7 @@ use parking_lot::RwLock;
 use common_apm::Instant;
 use common_apm_derive::trace_span;
 use protocol::tokio::{sync::Mutex, time::sleep};
+use protocol::constants::MAX_BLOCK_GAS_LIMIT;
 use protocol::traits::{Context, Synchronization, SynchronizationAdapter};
 use protocol::types::{Block, Proof, Proposal, Receipt, RichBlock, SignedTransaction, U256};
 use protocol::{async_trait, ProtocolResult};
@@ -515,6 +516,15 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
             .get_metadata_by_block_number(sync_status.last_number + 1)
             .await?;
 
+        self.adapter
+            .update_validators(ctx.clone(), metadata.clone())?;
+        self.adapter.set_args(
+            ctx.clone(),
+            sync_status.last_state_root,
+            MAX_BLOCK_GAS_LIMIT,
+            metadata.consensus_config.max_tx_size,
+        );
+
         self.adapter.update_status(
             ctx,
             sync_status.last_number,
diff --git a/protocol/src/traits/consensus.rs b/protocol/src/traits/consensus.rs
index 2783434..b954b25 100644
--- a/protocol/src/traits/consensus.rs
+++ b/protocol/src/traits/consensus.rs
@@ -76,6 +76,11 @@ pub trait SynchronizationAdapter: CommonConsensusAdapter + Send + Sync {
         validators: Vec<ConsensusValidator>,
     ) -> ProtocolResult<()>;
 
+    /// From now on the votes of the validators in the given metadata count.
+    fn update_validators(&self, _ctx: Context, _metadata: Metadata) -> ProtocolResult<()> {
+        Ok(())
+    }
+
     /// Pull some blocks from other nodes from `begin` to `end`.
     async fn get_block_from_remote(
         &self,
-- 
2.43.0


From 6f34ce047ce35f15ebb3bd93bbff148a8a3016e1 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 23:43:32 +0000
Subject: [PATCH 52/72] fix: a batch that was cut short or garbled is no batch
 of fewer items

---
 protocol/src/types/batch.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/protocol/src/types/batch.rs b/protocol/src/types/batch.rs
index a4c93e0..a506976 100644
--- a/protocol/src/types/batch.rs
+++ b/protocol/src/types/batch.rs
@@ -12,9 +12,21 @@ macro_rules! batch_msg_type {
             }
 
             fn decode_msg(bytes: Bytes) -> crate::ProtocolResult<Self> {
-                let inner: Vec<$ty> = rlp::Rlp::new(bytes.as_ref())
-                    .as_list()
-                    .map_err(|e| crate::codec::error::CodecError::Rlp(e.to_string()))?;
+                let err = |e: rlp::DecoderError| crate::codec::error::CodecError::Rlp(e.to_string());
+                let list = rlp::Rlp::new(bytes.as_ref());
+
+                // The iterator of a list ends at the first thing that is not an item, be it
+                // the end of the list or not.
+                let info = list.payload_info().map_err(err)?;
+                let read: usize = list.iter().map(|item| item.as_raw().len()).sum();
+                if !list.is_list() {
+                    return Err(err(rlp::DecoderError::RlpExpectedToBeList).into());
+                }
+                if info.total() != bytes.len() || info.value_len != read {
+                    return Err(err(rlp::DecoderError::RlpInconsistentLengthAndData).into());
+                }
+
+                let inner: Vec<$ty> = list.as_list().map_err(err)?;
                 Ok(Self(inner))
             }
         }
-- 
2.43.0


From 286136cac1a5a5a7702d373677dfa02d878c52cd Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 23:43:32 +0000
Subject: [PATCH 53/72] fix: consensus: a record of a round that was cut short
 does not stop the node from starting

---
 core/consensus/src/wal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/consensus/src/wal.rs b/core/consensus/src/wal.rs
index ed533d9..31a42f0 100644
--- a/core/consensus/src/wal.rs
+++ b/core/consensus/src/wal.rs
@@ -277,12 +277,14 @@ impl ConsensusWal {
             let mut file = fs::File::open(&log_path).map_err(ConsensusError::WALErr)?;
             let res = file.read_to_end(&mut read_buf);
             if res.is_err() {
+                index += 1;
                 continue;
             }
 
             let mut info = Bytes::from(read_buf);
 
             if info.len() < Hash::default().as_bytes().len() {
+                index += 1;
                 continue;
             }
 
-- 
2.43.0


From 05aa0d68db0e4ad16f119053c2337931086a9d4b Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Thu, 19 Nov 2026 23:43:32 +0000
Subject: [PATCH 54/72] fix: consensus: the record of the last round is found
 although the clock was set back

---
 core/consensus/src/wal.rs | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/core/consensus/src/wal.rs b/core/consensus/src/wal.rs
index 31a42f0..20c145b 100644
--- a/core/consensus/src/wal.rs
+++ b/core/consensus/src/wal.rs
@@ -177,23 +177,17 @@ impl ConsensusWal {
         content.put(check_sum.as_bytes());
         content.put(info);
 
-        let (data_path, timestamp) = {
-            loop {
-                let timestamp = SystemTime::now()
-                    .duration_since(SystemTime::UNIX_EPOCH)
-                    .map_err(ConsensusError::SystemTime)?;
-
-                let timestamp = timestamp.as_millis();
-
-                let mut data_path = dir_path.clone();
-
-                data_path.push(timestamp.to_string());
-
-                if !data_path.exists() {
-                    break (data_path, timestamp);
-                }
-            }
-        };
+        // The name is later than those of all records there are, whatever became of the
+        // clock since they were written.
+        let now = SystemTime::now()
+            .duration_since(SystemTime::UNIX_EPOCH)
+            .map_err(ConsensusError::SystemTime)?
+            .as_millis();
+        let timestamp = fs::read_dir(&dir_path)
+            .map_err(ConsensusError::WALErr)?
+            .filter_map(|item| u128::from_str(item.ok()?.file_name().to_str()?).ok())
+            .fold(now, |latest, name| latest.max(name.saturating_add(1)));
+        let data_path = dir_path.join(timestamp.to_string());
 
         let mut data_file = match fs::OpenOptions::new()
             .read(true)
-- 
2.43.0


From e75baad3b1b1714736129d6ca5b563812551bc7d Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Fri, 20 Nov 2026 01:18:29 +0000
Subject: [PATCH 55/72] fix: subscribers were never sent anything

---
 core/api/src/jsonrpc/ws_subscription.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/api/src/jsonrpc/ws_subscription.rs b/core/api/src/jsonrpc/ws_subscription.rs
index 46b197a..e3e8a29 100644
--- a/core/api/src/jsonrpc/ws_subscription.rs
+++ b/core/api/src/jsonrpc/ws_subscription.rs
@@ -134,7 +134,7 @@ where
                 let msg = SubscriptionMessage::from_json(&web3_header).unwrap();
 
                 for hub in self.header_hubs.iter_mut() {
-                    let _ignore = hub.sink.send(msg.clone());
+                    let _ignore = hub.sink.send(msg.clone()).await;
                 }
             }
 
@@ -142,7 +142,7 @@ where
             let msg = SubscriptionMessage::from_json(&latest_web3_header).unwrap();
 
             for hub in self.header_hubs.iter_mut() {
-                let _ignore = hub.sink.send(msg.clone());
+                let _ignore = hub.sink.send(msg.clone()).await;
             }
         }
 
@@ -153,7 +153,7 @@ where
 
             for hub in self.sync_hubs.iter_mut() {
                 // unbound sender can ignore it's return
-                let _ignore = hub.sink.send(msg.clone());
+                let _ignore = hub.sink.send(msg.clone()).await;
             }
         }
 
@@ -198,7 +198,7 @@ where
                         for log in logs.drain(..) {
                             let msg = SubscriptionMessage::from_json(&log).unwrap();
                             // unbound sender can ignore it's return
-                            let _ignore = hub.sink.send(msg);
+                            let _ignore = hub.sink.send(msg).await;
                         }
                     }
                     index += log_len;
-- 
2.43.0


From 709c366f1a5a03c1fe41c8fe00a7a6ca1e31f015 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Fri, 20 Nov 2026 01:18:29 +0000
Subject: [PATCH 56/72] fix: one request could end the filters of all clients

---
 core/api/src/jsonrpc/error.rs       |  4 ++--
 core/api/src/jsonrpc/impl/filter.rs | 15 +++++++--------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/core/api/src/jsonrpc/error.rs b/core/api/src/jsonrpc/error.rs
index ba0701c..7106830 100644
--- a/core/api/src/jsonrpc/error.rs
+++ b/core/api/src/jsonrpc/error.rs
@@ -1,6 +1,6 @@
 use jsonrpsee::types::{error::ErrorObject, ErrorObjectOwned};
 
-use protocol::types::{ExitReason, TxResp};
+use protocol::types::{ExitReason, TxResp, U256};
 use protocol::{codec::hex_encode, Display};
 
 use core_executor::decode_revert_msg;
@@ -48,7 +48,7 @@ pub enum RpcError {
     #[display(fmt = "Invalid from block number and to block number union")]
     InvalidFromBlockAndToBlockUnion,
     #[display(fmt = "Invalid filter id {}", _0)]
-    CannotFindFilterId(u64),
+    CannotFindFilterId(U256),
     #[display(fmt = "Not allow to call system contract address")]
     CallSystemContract,
 
diff --git a/core/api/src/jsonrpc/impl/filter.rs b/core/api/src/jsonrpc/impl/filter.rs
index bd9e727..303baa6 100644
--- a/core/api/src/jsonrpc/impl/filter.rs
+++ b/core/api/src/jsonrpc/impl/filter.rs
@@ -212,7 +212,8 @@ where
                 }
 
                 self.logs_hub.insert(id, (filter, Instant::now()));
-                sender.send(id).unwrap()
+                // The one who asked may be gone.
+                let _ignore = sender.send(id);
             }
             Command::NewBlocks(sender) => {
                 let id = random_id();
@@ -223,13 +224,13 @@ where
                     .unwrap()
                     .unwrap();
                 self.blocks_hub.insert(id, (header.number, Instant::now()));
-                sender.send(id).unwrap()
+                let _ignore = sender.send(id);
             }
             Command::FilterRequest((id, sender)) => self.impl_filter(id, sender).await,
             Command::Uninstall((id, sender)) => {
                 let removed =
                     self.blocks_hub.remove(&id).is_some() || self.logs_hub.remove(&id).is_some();
-                sender.send(removed).unwrap()
+                let _ignore = sender.send(removed);
             }
         }
     }
@@ -237,17 +238,15 @@ where
     async fn impl_filter(&mut self, id: U256, sender: oneshot::Sender<RpcResult<FilterChanges>>) {
         if self.blocks_hub.contains_key(&id) {
             let res = Ok(FilterChanges::Blocks(self.filter_block(&id).await));
-            sender.send(res).unwrap()
+            let _ignore = sender.send(res);
         } else if self.logs_hub.contains_key(&id) {
             let res = self.filter_logs(&id).await.map(FilterChanges::Logs);
             if res.is_err() {
                 self.logs_hub.remove(&id);
             }
-            sender.send(res).unwrap()
+            let _ignore = sender.send(res);
         } else {
-            sender
-                .send(Err(RpcError::CannotFindFilterId(id.as_u64()).into()))
-                .unwrap()
+            let _ignore = sender.send(Err(RpcError::CannotFindFilterId(id).into()));
         }
     }
 
-- 
2.43.0


From 7f63b23a9dd0bb692b04c85e7810e16b8b4f9f97 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Fri, 20 Nov 2026 01:18:29 +0000
Subject: [PATCH 57/72] fix: a transaction position above 64 bits panicked

---
 core/api/src/jsonrpc/error.rs     | 2 +-
 core/api/src/jsonrpc/impl/web3.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/api/src/jsonrpc/error.rs b/core/api/src/jsonrpc/error.rs
index 7106830..b4ed80b 100644
--- a/core/api/src/jsonrpc/error.rs
+++ b/core/api/src/jsonrpc/error.rs
@@ -40,7 +40,7 @@ pub enum RpcError {
     #[display(fmt = "Invalid newest block {:?}", _0)]
     InvalidNewestBlock(BlockId),
     #[display(fmt = "Invalid position {}", _0)]
-    InvalidPosition(u64),
+    InvalidPosition(U256),
     #[display(fmt = "Cannot find the block")]
     CannotFindBlock,
     #[display(fmt = "Invalid reward percentiles {} {}", _0, _1)]
diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 79361f8..8612260 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -910,7 +910,7 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
         position: U256,
     ) -> RpcResult<Option<Web3Transaction>> {
         if position > U256::from(usize::MAX) {
-            return Err(RpcError::InvalidPosition(position.as_u64()).into());
+            return Err(RpcError::InvalidPosition(position).into());
         }
 
         let mut raw = [0u8; 32];
@@ -941,7 +941,7 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
         position: U256,
     ) -> RpcResult<Option<Web3Transaction>> {
         if position > U256::from(usize::MAX) {
-            return Err(RpcError::InvalidPosition(position.as_u64()).into());
+            return Err(RpcError::InvalidPosition(position).into());
         }
 
         let mut raw = [0u8; 32];
-- 
2.43.0


From 4c2c08d5445925955db3280724264ad655095cf6 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 58/72] fix: logs were given the wrong index in their block

---
 core/api/src/jsonrpc/impl/web3.rs       | 2 +-
 core/api/src/jsonrpc/web3_types.rs      | 2 +-
 core/api/src/jsonrpc/ws_subscription.rs | 5 +----
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 8612260..65047cf 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -1164,7 +1164,7 @@ pub fn from_receipt_to_web3_log(
                 block_number:      Some(receipt.block_number.into()),
                 transaction_hash:  Some(receipt.tx_hash),
                 transaction_index: Some(index.into()),
-                log_index:         Some(log_idex.into()),
+                log_index:         Some((receipt.log_index as usize + log_idex).into()),
                 removed:           false,
             };
             logs.push(web3_log);
diff --git a/core/api/src/jsonrpc/web3_types.rs b/core/api/src/jsonrpc/web3_types.rs
index 07ed454..88c7a40 100644
--- a/core/api/src/jsonrpc/web3_types.rs
+++ b/core/api/src/jsonrpc/web3_types.rs
@@ -206,7 +206,7 @@ impl Web3Receipt {
                 block_hash:        receipt.block_hash,
                 transaction_hash:  receipt.tx_hash,
                 transaction_index: Some(receipt.tx_index.into()),
-                log_index:         idx.into(),
+                log_index:         (receipt.log_index as usize + idx).into(),
                 removed:           false,
             })
             .collect::<Vec<_>>();
diff --git a/core/api/src/jsonrpc/ws_subscription.rs b/core/api/src/jsonrpc/ws_subscription.rs
index e3e8a29..0d0fa95 100644
--- a/core/api/src/jsonrpc/ws_subscription.rs
+++ b/core/api/src/jsonrpc/ws_subscription.rs
@@ -182,10 +182,8 @@ where
                     .await
                     .unwrap();
 
-                let mut index = 0;
                 let mut logs = Vec::new();
-                for receipt in receipts.into_iter().flatten() {
-                    let log_len = receipt.logs.len();
+                for (index, receipt) in receipts.into_iter().flatten().enumerate() {
                     for hub in self.log_hubs.iter_mut() {
                         from_receipt_to_web3_log(
                             index,
@@ -201,7 +199,6 @@ where
                             let _ignore = hub.sink.send(msg).await;
                         }
                     }
-                    index += log_len;
                 }
             }
         }
-- 
2.43.0


From 2e7575d098b5695eb30c503eaf315a3871ffedfb Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 59/72] fix: receipts were given the gas used for the price and
 for the sum of the block

---
 core/api/src/jsonrpc/impl/web3.rs  | 26 ++++++++++++++++++++++++--
 core/api/src/jsonrpc/web3_types.rs | 10 +++++++---
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 65047cf..2ecb626 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -91,6 +91,27 @@ impl<Adapter: APIAdapter> Web3RpcImpl<Adapter> {
             .await
     }
 
+    // The gas used in the block up to and including the transaction.
+    async fn cumulative_gas_used(&self, ctx: Context, receipt: &Receipt) -> Result<U64, RpcError> {
+        let tx_hashes = self
+            .adapter
+            .get_block_by_number(ctx.clone(), Some(receipt.block_number))
+            .await
+            .map_err(|e| RpcError::Internal(e.to_string()))?
+            .map(|block| block.tx_hashes)
+            .unwrap_or_default();
+
+        Ok(self
+            .adapter
+            .get_receipts_by_hashes(ctx, receipt.block_number, &tx_hashes)
+            .await
+            .map_err(|e| RpcError::Internal(e.to_string()))?
+            .into_iter()
+            .flatten()
+            .filter(|r| r.tx_index < receipt.tx_index)
+            .fold(receipt.used_gas, |sum, r| sum + r.used_gas))
+    }
+
     async fn calculate_rewards(
         &self,
         block_number: u64,
@@ -541,11 +562,12 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
         if let Some(stx) = res {
             if let Some(receipt) = self
                 .adapter
-                .get_receipt_by_tx_hash(ctx, hash)
+                .get_receipt_by_tx_hash(ctx.clone(), hash)
                 .await
                 .map_err(|e| RpcError::Internal(e.to_string()))?
             {
-                return Ok(Some(Web3Receipt::new(receipt, stx)));
+                let cumulative_gas_used = self.cumulative_gas_used(ctx, &receipt).await?;
+                return Ok(Some(Web3Receipt::new(receipt, stx, cumulative_gas_used)));
             }
         }
 
diff --git a/core/api/src/jsonrpc/web3_types.rs b/core/api/src/jsonrpc/web3_types.rs
index 88c7a40..47ed7d3 100644
--- a/core/api/src/jsonrpc/web3_types.rs
+++ b/core/api/src/jsonrpc/web3_types.rs
@@ -193,7 +193,11 @@ pub struct Web3ReceiptLog {
 }
 
 impl Web3Receipt {
-    pub fn new(receipt: Receipt, stx: SignedTransaction) -> Web3Receipt {
+    pub fn new(
+        receipt: Receipt,
+        stx: SignedTransaction,
+        cumulative_gas_used: U64,
+    ) -> Web3Receipt {
         let logs_list = receipt
             .logs
             .iter()
@@ -215,8 +219,8 @@ impl Web3Receipt {
             block_number:        receipt.block_number.into(),
             block_hash:          receipt.block_hash,
             contract_address:    receipt.code_address.map(Into::into),
-            cumulative_gas_used: receipt.used_gas,
-            effective_gas_price: receipt.used_gas,
+            cumulative_gas_used,
+            effective_gas_price: stx.transaction.unsigned.gas_price(),
             from:                receipt.sender,
             status:              receipt.status(),
             gas_used:            receipt.used_gas,
-- 
2.43.0


From 813a6834ea8b5e8f28796b90d383a16776a2cbd1 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 60/72] fix: every dynamic-fee transaction was given the same
 maximum fee

---
 core/api/src/jsonrpc/web3_types.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/core/api/src/jsonrpc/web3_types.rs b/core/api/src/jsonrpc/web3_types.rs
index 47ed7d3..54955e7 100644
--- a/core/api/src/jsonrpc/web3_types.rs
+++ b/core/api/src/jsonrpc/web3_types.rs
@@ -6,8 +6,8 @@ use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
 use protocol::codec::ProtocolCodec;
 use protocol::types::{
-    AccessList, Block, Bloom, Bytes, Hash, Header, Hex, Public, Receipt, SignedTransaction, H160,
-    H256, H64, MAX_PRIORITY_FEE_PER_GAS, U256, U64,
+    AccessList, Block, Bloom, Bytes, Hash, Header, Hex, Public, Receipt, SignedTransaction,
+    UnsignedTransaction, H160, H256, H64, U256, U64,
 };
 
 pub const EMPTY_UNCLE_HASH: H256 = H256([
@@ -106,10 +106,9 @@ impl From<SignedTransaction> for Web3Transaction {
             public_key:               stx.public,
             gas:                      *stx.transaction.unsigned.gas_limit(),
             gas_price:                stx.transaction.unsigned.gas_price(),
-            max_fee_per_gas:          if is_eip1559 {
-                Some(U64::from(MAX_PRIORITY_FEE_PER_GAS))
-            } else {
-                None
+            max_fee_per_gas:          match &stx.transaction.unsigned {
+                UnsignedTransaction::Eip1559(tx) => Some(tx.gas_price),
+                _ => None,
             },
             max_priority_fee_per_gas: if is_eip1559 {
                 Some(*stx.transaction.unsigned.max_priority_fee_per_gas())
-- 
2.43.0


From 4ee0bae729ed1a022013b045b7b021e0a908556b Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 61/72] fix: a filter of more than four topics matched as one
 of four

---
 core/api/src/jsonrpc/impl/filter.rs     | 1 -
 core/api/src/jsonrpc/impl/web3.rs       | 1 -
 core/api/src/jsonrpc/ws_subscription.rs | 1 -
 3 files changed, 3 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/filter.rs b/core/api/src/jsonrpc/impl/filter.rs
index 303baa6..57717be 100644
--- a/core/api/src/jsonrpc/impl/filter.rs
+++ b/core/api/src/jsonrpc/impl/filter.rs
@@ -46,7 +46,6 @@ impl From<RawLoggerFilter> for LoggerFilter {
                 .topics
                 .unwrap_or_default()
                 .into_iter()
-                .take(4)
                 .map(Into::<Option<Vec<Option<H256>>>>::into)
                 .collect(),
         }
diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 2ecb626..6dea609 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -593,7 +593,6 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
             .topics
             .map(|s| {
                 s.into_iter()
-                    .take(4)
                     .map(Into::<Option<Vec<Option<H256>>>>::into)
                     .collect()
             })
diff --git a/core/api/src/jsonrpc/ws_subscription.rs b/core/api/src/jsonrpc/ws_subscription.rs
index 0d0fa95..42433c4 100644
--- a/core/api/src/jsonrpc/ws_subscription.rs
+++ b/core/api/src/jsonrpc/ws_subscription.rs
@@ -282,7 +282,6 @@ impl From<RawLoggerFilter> for LoggerFilter {
                 .topics
                 .unwrap_or_default()
                 .into_iter()
-                .take(4)
                 .map(Into::<Option<Vec<Option<H256>>>>::into)
                 .collect(),
         }
-- 
2.43.0


From 2a1248e89595e7bff260eb088a34cd5627d7e955 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 62/72] fix: questions about an unknown block were answered
 from the latest

---
 core/api/src/jsonrpc/impl/web3.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 6dea609..b8c7467 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -47,11 +47,13 @@ impl<Adapter: APIAdapter> Web3RpcImpl<Adapter> {
         block_id: Option<BlockId>,
     ) -> Result<Option<BlockNumber>, RpcError> {
         match block_id {
-            Some(BlockId::Hash(ref hash)) => Ok(self
+            Some(BlockId::Hash(ref hash)) => self
                 .adapter
                 .get_block_number_by_hash(Context::new(), *hash)
                 .await
-                .map_err(|e| RpcError::Internal(e.to_string()))?),
+                .map_err(|e| RpcError::Internal(e.to_string()))?
+                .map(Some)
+                .ok_or(RpcError::InvalidBlockHash),
             _ => Ok(block_id.unwrap_or_default().into()),
         }
     }
@@ -392,12 +394,10 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
                     .map(|account| account.nonce + pending_tx_count)
                     .unwrap_or_default())
             }
-            BlockId::Hash(ref hash) => {
+            BlockId::Hash(hash) => {
                 let number = self
-                    .adapter
-                    .get_block_number_by_hash(Context::new(), *hash)
-                    .await
-                    .map_err(|e| RpcError::Internal(e.to_string()))?;
+                    .get_block_number_by_id(Some(BlockId::Hash(hash)))
+                    .await?;
                 Ok(self
                     .adapter
                     .get_account(Context::new(), address, number)
@@ -493,10 +493,7 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
             }
         }
 
-        let num = match number {
-            Some(BlockId::Num(n)) => Some(n.low_u64()),
-            _ => None,
-        };
+        let num = self.get_block_number_by_id(number).await?;
         let data_bytes = req
             .data
             .as_ref()
-- 
2.43.0


From 7d15abb8f3969fb3f273f9fc7d261b3eb4cf17cb Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 63/72] fix: the fee history left out block 0 and was not what
 it is documented to be

---
 core/api/src/jsonrpc/impl/web3.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index b8c7467..3e2042d 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -170,8 +170,8 @@ impl<Adapter: APIAdapter> Web3RpcImpl<Adapter> {
 
         let latest_block_number = latest_block.header.number;
         let oldest_block_number = latest_block_number
-            .saturating_sub(block_count.as_u64())
-            .saturating_add(1);
+            .saturating_add(1)
+            .saturating_sub(block_count.as_u64());
 
         let mut bash_fee_per_gases: Vec<U64> = Vec::new();
         let mut gas_used_ratios: Vec<f64> = Vec::new();
@@ -190,7 +190,6 @@ impl<Adapter: APIAdapter> Web3RpcImpl<Adapter> {
             let gas_used_ratio = calculate_gas_used_ratio(&block);
             gas_used_ratios.push(gas_used_ratio);
             bash_fee_per_gases.push(block.header.base_fee_per_gas);
-            bash_fee_per_gases.push(next_block_base_fee_per_gas());
 
             if let Some(reward_percentiles) = reward_percentiles.clone() {
                 let txs = block.tx_hashes;
@@ -204,6 +203,7 @@ impl<Adapter: APIAdapter> Web3RpcImpl<Adapter> {
                 .await?;
             }
         }
+        bash_fee_per_gases.push(next_block_base_fee_per_gas());
 
         Ok((
             oldest_block_number,
@@ -1075,24 +1075,21 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
 // 1. checks for rewardPercentile's sorted-ness
 // 2. check if any of rewardPercentile is greater than 100 or less than 0
 fn check_reward_percentiles(reward_percentiles: &Option<Vec<f64>>) -> RpcResult<()> {
-    reward_percentiles
-        .as_ref()
-        .and_then(|percentiles| {
-            percentiles
-                .windows(2)
-                .enumerate()
-                .find(|(_, window)| window[0] >= window[1] || window[0] < 0.0 || window[0] > 100.0)
-                .map(|(_, vec)| vec)
-        })
-        .map(|vec| Err(RpcError::InvalidRewardPercentiles(vec[0], vec[1]).into()))
-        .unwrap_or(Ok(()))
+    let percentiles = reward_percentiles.as_deref().unwrap_or_default();
+    if let Some(vec) = percentiles.windows(2).find(|vec| vec[0] >= vec[1]) {
+        return Err(RpcError::InvalidRewardPercentiles(vec[0], vec[1]).into());
+    }
+    if let Some(p) = percentiles.iter().find(|p| !(0.0..=100.0).contains(*p)) {
+        return Err(RpcError::InvalidRewardPercentiles(*p, *p).into());
+    }
+    Ok(())
 }
 
 // Calculates the gas used ratio for the block.
 fn calculate_gas_used_ratio(block: &Block) -> f64 {
     (block.header.gas_limit != U64::zero())
         .then(|| {
-            block.header.gas_used.low_u64() as f64 / block.header.gas_limit.as_u64() as f64 * 100f64
+            block.header.gas_used.low_u64() as f64 / block.header.gas_limit.as_u64() as f64
         })
         .unwrap_or(0f64)
 }
-- 
2.43.0


From 6d5af03f57eb2f7900e48e8294869e9b01bf8966 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Fri, 20 Nov 2026 01:33:01 +0000
Subject: [PATCH 64/72] fix: eth_submitWork could not be called

The method was registered under a name that ends with a space.
---
 core/api/src/jsonrpc/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/api/src/jsonrpc/mod.rs b/core/api/src/jsonrpc/mod.rs
index d1b9585..e2e879d 100644
--- a/core/api/src/jsonrpc/mod.rs
+++ b/core/api/src/jsonrpc/mod.rs
@@ -200,7 +200,7 @@ pub trait AxonNodeRpc {
     #[method(name = "eth_hashrate")]
     fn hashrate(&self) -> RpcResult<U256>;
 
-    #[method(name = "eth_submitWork ")]
+    #[method(name = "eth_submitWork")]
     fn submit_work(&self, _nc: U256, _hash: H256, _summary: Hex) -> RpcResult<bool>;
 
     #[method(name = "eth_submitHashrate")]
-- 
2.43.0


From f8cd463b391915b95a9dec2094f52035b95ae2d1 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Fri, 20 Nov 2026 02:07:18 +0000
Subject: [PATCH 65/72] fix: a malformed tracing header of a peer's message no
 longer panics

trace_id() unwrapped the parse error and span_id() sliced the first eight
bytes of whatever was sent; both run on every routed message. A header of
another shape is now ignored.
---
 core/network/src/message/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/core/network/src/message/mod.rs b/core/network/src/message/mod.rs
index 43647f7..e871cb9 100644
--- a/core/network/src/message/mod.rs
+++ b/core/network/src/message/mod.rs
@@ -53,16 +53,15 @@ impl NetworkMessage {
         self.headers.get("trace_id").and_then(|id| {
             String::from_utf8(id.to_owned())
                 .ok()
-                .map(|s| AxonTracer::str_to_trace(&s).unwrap())
+                .and_then(|s| AxonTracer::str_to_trace(&s).ok())
         })
     }
 
     pub fn span_id(&self) -> Option<u64> {
-        self.headers.get("span_id").map(|id| {
-            let mut buf = [0u8; 8];
-            buf.copy_from_slice(&id[..8]);
-            u64::from_be_bytes(buf)
-        })
+        self.headers
+            .get("span_id")
+            .and_then(|id| id.as_slice().try_into().ok())
+            .map(u64::from_be_bytes)
     }
 
     pub fn encode(self) -> Result<Bytes, NetworkError> {
-- 
2.43.0


From f976a32b198cb946c3a7e80504ae8ecb9c9784e7 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Fri, 20 Nov 2026 02:15:47 +0000
Subject: [PATCH 66/72] fix: connection limits and bans apply to new sessions

always_allow() was true for every address that is not banned, so the
limits turned nobody away, and a banned peer was let in while there was
room. It now holds for bootstrap and consensus peers only, and a session
from a banned address is closed.
---
 core/network/src/peer_manager/mod.rs | 1 -
 core/network/src/service.rs          | 6 +++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index 82f5fdc..e1b639a 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -232,7 +232,6 @@ impl PeerManager {
         let peer_id = extract_peer_id(addr).unwrap();
         self.bootstraps.contains_key(&peer_id)
             || self.consensus_list.read().contains(&peer_id)
-            || self.with_peer_store(|peer_store| !peer_store.is_addr_banned(addr))
     }
 
     pub fn local_listen_addrs(&self) -> Vec<Multiaddr> {
diff --git a/core/network/src/service.rs b/core/network/src/service.rs
index ac8c027..fec9105 100644
--- a/core/network/src/service.rs
+++ b/core/network/src/service.rs
@@ -666,7 +666,11 @@ impl ServiceHandle for ServiceHandler {
                         }
                     };
 
-                if disable && !self.peer_store.always_allow(&session_context.address) {
+                let banned = self
+                    .peer_store
+                    .with_peer_store(|store| store.is_addr_banned(&session_context.address));
+
+                if (disable || banned) && !self.peer_store.always_allow(&session_context.address) {
                     let _ignore = control.disconnect(session_context.id).await;
                 } else {
                     self.peer_store.register(PeerInfo::new(session_context))
-- 
2.43.0


From bf67d8189ac22126f3273692d95e97097e949f9c Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Fri, 20 Nov 2026 02:15:47 +0000
Subject: [PATCH 67/72] fix: banning a connected peer by its tag disconnects it

ban_id() never returned the session of the peer it banned, so the
disconnection in NetworkServiceHandle::tag() was never reached.
---
 core/network/src/peer_manager/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index e1b639a..5bf8c1e 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -251,7 +251,8 @@ impl PeerManager {
         if let Some(info) = self.online.read().peers.get(peer_id) {
             self.peer_store
                 .write()
-                .ban_addr(&info.addr, timeout, ban_reason)
+                .ban_addr(&info.addr, timeout, ban_reason);
+            return Some(info.session_id);
         }
         None
     }
-- 
2.43.0


From d73eee347c40887bd08f83cdb1eda36e778b2fce Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Fri, 20 Nov 2026 02:16:15 +0000
Subject: [PATCH 68/72] fix: the addresses we are observed at are dialed

process_observed() created the dial futures but never awaited them, so no
observed address was ever dialed, and none could prove to be ours and be
told to other peers.
---
 core/network/src/protocols/identify/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/core/network/src/protocols/identify/mod.rs b/core/network/src/protocols/identify/mod.rs
index 7206f17..25014db 100644
--- a/core/network/src/protocols/identify/mod.rs
+++ b/core/network/src/protocols/identify/mod.rs
@@ -186,9 +186,9 @@ impl IdentifyProtocol {
         }
     }
 
-    fn process_observed(
+    async fn process_observed(
         &mut self,
-        context: &mut ProtocolContextMutRef,
+        context: &mut ProtocolContextMutRef<'_>,
         observed: Option<Multiaddr>,
     ) -> MisbehaveResult {
         if observed.is_none() {
@@ -241,10 +241,14 @@ impl IdentifyProtocol {
             .chain(::std::iter::once(source_addr));
 
         for addr in observed_addrs_iter {
-            let _ignore = context.dial(
-                addr,
-                TargetProtocol::Single(crate::protocols::SupportProtocols::Identify.protocol_id()),
-            );
+            let _ignore = context
+                .dial(
+                    addr,
+                    TargetProtocol::Single(
+                        crate::protocols::SupportProtocols::Identify.protocol_id(),
+                    ),
+                )
+                .await;
         }
 
         MisbehaveResult::Continue
@@ -351,6 +355,7 @@ impl ServiceProtocol for IdentifyProtocol {
                             .is_disconnect()
                         || self
                             .process_observed(&mut context, addr_info.observed_addr())
+                            .await
                             .is_disconnect()
                     {
                         let _ = context.disconnect(session.id).await;
-- 
2.43.0


From a08af0a85533bc37d3c70d75839c0fb14a222e19 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Fri, 20 Nov 2026 02:22:44 +0000
Subject: [PATCH 69/72] fix: removing an address forgets it under the peer it
 was known for

Manager::remove dropped the index entry of the peer id of its argument. When
another peer had been heard of at the same ip and port, the entry of the stored
address stayed behind and the next look-up by that peer id panicked.
---
 core/network/src/peer_manager/peer_store/addr_manager.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/network/src/peer_manager/peer_store/addr_manager.rs b/core/network/src/peer_manager/peer_store/addr_manager.rs
index e87e120..bd5f4ad 100644
--- a/core/network/src/peer_manager/peer_store/addr_manager.rs
+++ b/core/network/src/peer_manager/peer_store/addr_manager.rs
@@ -107,13 +107,15 @@ impl Manager {
                 self.swap_random_id(random_id_pos, self.random_ids.len() - 1);
                 self.random_ids.pop();
 
-                if let Some(peer_id) = extract_peer_id(multiaddr) {
+                let info = self.id_to_info.remove(&id);
+                // the given address may carry another peer id than the stored one
+                if let Some(peer_id) = info.as_ref().and_then(|i| extract_peer_id(&i.addr)) {
                     self.peer_id_to_id
                         .get_mut(&peer_id)
                         .map(|set| set.remove(&id));
                 }
 
-                self.id_to_info.remove(&id)
+                info
             })
         })
     }
-- 
2.43.0


From 39bb903cdb6b85ad718702a8c6cc0cb393bc6709 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Fri, 20 Nov 2026 02:37:42 +0000
Subject: [PATCH 70/72] fix: free outbound slots are counted by outbound
 connections

try_dial_peers subtracted the number of inbound connections from the outbound
slots, so a node with many inbound peers dialed nobody, and one with all its
outbound slots taken went on dialing.
---
 core/network/src/service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/network/src/service.rs b/core/network/src/service.rs
index fec9105..311b412 100644
--- a/core/network/src/service.rs
+++ b/core/network/src/service.rs
@@ -430,7 +430,7 @@ where
             .peer_mgr_handle
             .with_registry(|reg| reg.connection_status());
         let count = (self.config.max_connections - self.config.inbound_conn_limit)
-            .saturating_sub(status.inbound);
+            .saturating_sub(status.outbound);
         if count == 0 {
             self.try_identify_count = 0;
             return;
-- 
2.43.0


From b2a23b7e408cee7eea79fbdf01cb5fb886110e63 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Fri, 20 Nov 2026 02:37:42 +0000
Subject: [PATCH 71/72] fix: the configured limit of inbound connections is
 used

network.inbound_conn_limit was read from the configuration and ignored.
---
 core/network/src/config.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/core/network/src/config.rs b/core/network/src/config.rs
index bd74b1d..363de84 100644
--- a/core/network/src/config.rs
+++ b/core/network/src/config.rs
@@ -116,19 +116,28 @@ impl NetworkConfig {
             .listen_addr(config.network.listening_address.clone())
             .secio_keypair(config.net_privkey.as_ref())?
             .chain_id(chain_id)
+            .inbound_conn_limit(config.network.inbound_conn_limit)
             .max_connections(config.network.max_connected_peers)
     }
 
     pub fn max_connections(mut self, max: Option<usize>) -> ProtocolResult<Self> {
         if let Some(max) = max {
-            if max <= self.inbound_conn_limit {
-                return Err(NetworkError::InboundLimitEqualOrSmallerThanMaxConn.into());
-            }
             self.max_connections = max;
         }
+        if self.max_connections <= self.inbound_conn_limit {
+            return Err(NetworkError::InboundLimitEqualOrSmallerThanMaxConn.into());
+        }
         Ok(self)
     }
 
+    pub fn inbound_conn_limit(mut self, limit: Option<usize>) -> Self {
+        if let Some(limit) = limit {
+            self.inbound_conn_limit = limit;
+        }
+
+        self
+    }
+
     pub fn listen_addr(mut self, addr: Multiaddr) -> Self {
         self.default_listen = addr;
         self
-- 
2.43.0


From 767e193cc9d64ba460e2869ceff6993e9d17fe23 Mon Sep 17 00:00:00 2001
From: mc <a@b>
Date: Fri, 20 Nov 2026 03:35:14 +0000
Subject: [PATCH 72/72] fix: start the consensus with the validators of the
 next block

A node that is restarted at the last block of an epoch took the metadata of
that block, and ran the first height of the new epoch with the validators of
the old one. Use the metadata of the next block, as a commit does.
---
 core/run/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/run/src/lib.rs b/core/run/src/lib.rs
index 0c5763e..0bde713 100644
--- a/core/run/src/lib.rs
+++ b/core/run/src/lib.rs
@@ -200,7 +200,7 @@ async fn start<K: KeyProvider>(
     )
     .await;
 
-    // Get the validator list from current metadata for consensus initialization
+    // Get the validator list of the next block for consensus initialization
     let metadata_root = AxonExecutorReadOnlyAdapter::from_root(
         current_state_root,
         Arc::clone(&trie_db),
@@ -212,7 +212,7 @@ async fn start<K: KeyProvider>(
     let metadata_handle = MetadataHandle::new(metadata_root);
     metadata_handle.init_hardfork(current_block.header.number)?;
 
-    let metadata = metadata_handle.get_metadata_by_block_number(current_block.header.number)?;
+    let metadata = metadata_handle.get_metadata_by_block_number(current_block.header.number + 1)?;
     let validators: Vec<ConsensusValidator> =
         metadata.verifier_list.iter().map(Into::into).collect();
 
-- 
2.43.0

