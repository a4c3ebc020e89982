From 69ff8ed78158add7d3f89f27fef6b1d290a357e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:54 +0000
Subject: [PATCH 01/21] fix: do not reserve memory from an untrusted length
 prefix

---
 sia/src/encoding/v1.rs | 3 ++-
 sia/src/encoding/v2.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sia/src/encoding/v1.rs b/sia/src/encoding/v1.rs
index 59ece0d..d927737 100644
--- a/sia/src/encoding/v1.rs
+++ b/sia/src/encoding/v1.rs
@@ -116,7 +116,8 @@ where
 {
     fn decode_v1<R: Read>(r: &mut R) -> Result<Self> {
         let len = usize::decode_v1(r)?;
-        let mut vec = Vec::with_capacity(len);
+        // the length is not trusted: it only bounds the initial reservation
+        let mut vec = Vec::with_capacity(len.min(1024));
         for _ in 0..len {
             vec.push(T::decode_v1(r)?);
         }
diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index db53b28..5d05d67 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -162,7 +162,8 @@ where
 {
     fn decode<R: Read>(r: &mut R) -> Result<Self> {
         let len = usize::decode(r)?;
-        let mut vec = Vec::with_capacity(len);
+        // the length is not trusted: it only bounds the initial reservation
+        let mut vec = Vec::with_capacity(len.min(1024));
         for _ in 0..len {
             vec.push(T::decode(r)?);
         }
-- 
2.43.0


From 465b3323ba08e270d2f5afea7da6fefa5354c10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:54 +0000
Subject: [PATCH 02/21] fix: return an error for an out-of-range timestamp
 instead of panicking

---
 sia/src/encoding/v2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index 5d05d67..3b86454 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -67,7 +67,7 @@ impl SiaEncodable for OffsetDateTime {
 impl SiaDecodable for OffsetDateTime {
     fn decode<R: Read>(r: &mut R) -> Result<Self> {
         let timestamp = i64::decode(r)?;
-        Ok(OffsetDateTime::from_unix_timestamp(timestamp).unwrap())
+        OffsetDateTime::from_unix_timestamp(timestamp).map_err(|_| Error::InvalidTimestamp)
     }
 }
 
-- 
2.43.0


From 88298152e2454115b95f9e73fcbc02ef5e1e7e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:54 +0000
Subject: [PATCH 03/21] fix: carry the accumulated node when adding a leaf to
 the accumulator

---
 sia/src/merkle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/merkle.rs b/sia/src/merkle.rs
index 1b1d4f5..3dc8d90 100644
--- a/sia/src/merkle.rs
+++ b/sia/src/merkle.rs
@@ -31,7 +31,7 @@ impl Accumulator {
         let mut i = 0;
         let mut node = *h;
         while self.has_tree_at_height(i) {
-            node = sum_node(&self.params, &self.trees[i], h);
+            node = sum_node(&self.params, &self.trees[i], &node);
             i += 1;
         }
         self.trees[i] = node;
-- 
2.43.0


From 5daab74522d905d3a6ff9af3d9274a8950ccd22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:54 +0000
Subject: [PATCH 04/21] fix: hash every segment of a sector exactly once

---
 sia/src/rhp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sia/src/rhp.rs b/sia/src/rhp.rs
index bfaf2bd..ac43764 100644
--- a/sia/src/rhp.rs
+++ b/sia/src/rhp.rs
@@ -22,8 +22,10 @@ pub fn sector_root(sector: &[u8]) -> Hash256 {
             let mut inputs = [[0u8; SEGMENT_SIZE + 1]; 4];
             for (j, input) in inputs.iter_mut().enumerate() {
                 input[0] = LEAF_HASH_PREFIX[0];
-                input[1..]
-                    .copy_from_slice(&sector[SEGMENT_SIZE * (i + j)..SEGMENT_SIZE * (i + j + 1)]);
+                let segment = i * 4 + j;
+                input[1..].copy_from_slice(
+                    &sector[SEGMENT_SIZE * segment..SEGMENT_SIZE * (segment + 1)],
+                );
             }
 
             // hash them
-- 
2.43.0


From 32f4e8ec15df7a0eec8159355ee662e5ca9e687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:54 +0000
Subject: [PATCH 05/21] fix: propagate writer errors when encoding the chain
 state

---
 sia/src/consensus.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sia/src/consensus.rs b/sia/src/consensus.rs
index 537736b..10e58ef 100644
--- a/sia/src/consensus.rs
+++ b/sia/src/consensus.rs
@@ -380,10 +380,9 @@ impl SiaEncodable for State {
         } else {
             11
         };
-        self.prev_timestamps
-            .iter()
-            .take(timestamps_count)
-            .for_each(|ts| ts.encode(w).unwrap());
+        for ts in self.prev_timestamps.iter().take(timestamps_count) {
+            ts.encode(w)?;
+        }
         self.depth.encode(w)?;
         self.child_target.encode(w)?;
         self.siafund_pool.encode(w)?;
-- 
2.43.0


From f89b7d25e48eb4850dafe87719f8f97562f58f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:54 +0000
Subject: [PATCH 06/21] fix: do not overflow computing the child height of a
 decoded index

---
 sia/src/types/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/types/common.rs b/sia/src/types/common.rs
index de8e37f..2797666 100644
--- a/sia/src/types/common.rs
+++ b/sia/src/types/common.rs
@@ -154,7 +154,7 @@ pub struct ChainIndex {
 
 impl ChainIndex {
     pub fn child_height(&self) -> u64 {
-        self.height + 1
+        self.height.wrapping_add(1)
     }
 }
 
-- 
2.43.0


From 341993490c75eee7ccdde308b9319977ba1f6719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:54 +0000
Subject: [PATCH 07/21] fix: use the full distinguishers for v2 contract output
 and renewal IDs

---
 sia/src/types/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sia/src/types/common.rs b/sia/src/types/common.rs
index 2797666..5777500 100644
--- a/sia/src/types/common.rs
+++ b/sia/src/types/common.rs
@@ -97,8 +97,8 @@ impl_hash_id!(FileContractID);
 
 impl FileContractID {
     const PROOF_OUTPUT_ID_PREFIX: Specifier = specifier!("storage proof");
-    const V2_PROOF_OUTPUT_ID_PREFIX: &'static str = "id/v2filecontractoutput";
-    const V2_FILE_CONTRACT_RENEWAL_PREFIX: &'static str = "id/v2filecontractrenewal";
+    const V2_PROOF_OUTPUT_ID_PREFIX: &'static str = "sia/id/v2filecontractoutput|";
+    const V2_FILE_CONTRACT_RENEWAL_PREFIX: &'static str = "sia/id/v2filecontractrenewal|";
 
     fn derive_proof_output_id<T: From<blake2b_simd::Hash>>(&self, valid: bool, i: usize) -> T {
         let mut state = Params::new().hash_length(32).to_state();
-- 
2.43.0


From 053aabe7978a3eac0ab2b29319ab5afbc64889dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:54 +0000
Subject: [PATCH 08/21] fix: reject thresholds with more than 255 sub-policies
 instead of truncating

---
 sia/src/types/spendpolicy.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sia/src/types/spendpolicy.rs b/sia/src/types/spendpolicy.rs
index 3b36001..250a737 100644
--- a/sia/src/types/spendpolicy.rs
+++ b/sia/src/types/spendpolicy.rs
@@ -237,6 +237,9 @@ impl<'de> Deserialize<'de> for SpendPolicy {
                         }
                         let thresh: ThreshPolicy =
                             serde_json::from_value(policy_value).map_err(de::Error::custom)?;
+                        if thresh.of.len() > u8::MAX as usize {
+                            return Err(de::Error::custom("too many sub-policies"));
+                        }
                         Ok(SpendPolicy::Threshold(thresh.n, thresh.of))
                     }
                     POLICY_OPAQUE_STR => {
@@ -327,7 +330,9 @@ impl SiaEncodable for SpendPolicy {
                 SpendPolicy::Hash(hash) => hash.encode(w),
                 SpendPolicy::Threshold(of, policies) => {
                     of.encode(w)?;
-                    (policies.len() as u8).encode(w)?;
+                    u8::try_from(policies.len())
+                        .map_err(|_| encoding::Error::InvalidLength)?
+                        .encode(w)?;
                     for policy in policies {
                         encode_policy(policy, w)?;
                     }
-- 
2.43.0


From 3f78d5749a8a09d7381b8781049b4322bff28b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:54 +0000
Subject: [PATCH 09/21] fix: bound the number of nested policies when decoding

---
 sia/src/types/spendpolicy.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/sia/src/types/spendpolicy.rs b/sia/src/types/spendpolicy.rs
index 250a737..ee88996 100644
--- a/sia/src/types/spendpolicy.rs
+++ b/sia/src/types/spendpolicy.rs
@@ -21,6 +21,10 @@ const POLICY_OPAQUE_PREFIX: u8 = 6;
 #[deprecated]
 const POLICY_UNLOCK_CONDITIONS_PREFIX: u8 = 7;
 
+// the maximum number of (sub-)policies in an encoded policy, bounds the
+// recursion when decoding
+const MAX_POLICIES: usize = 1024;
+
 const POLICY_ABOVE_STR: &str = "above";
 const POLICY_AFTER_STR: &str = "after";
 const POLICY_PUBLIC_KEY_STR: &str = "pk";
@@ -351,7 +355,10 @@ impl SiaEncodable for SpendPolicy {
 impl SiaDecodable for SpendPolicy {
     fn decode<R: std::io::Read>(r: &mut R) -> encoding::Result<Self> {
         // helper to recursively decode policies
-        fn decode_policy<R: std::io::Read>(r: &mut R) -> encoding::Result<SpendPolicy> {
+        fn decode_policy<R: std::io::Read>(
+            r: &mut R,
+            total: &mut usize,
+        ) -> encoding::Result<SpendPolicy> {
             let policy_type = u8::decode(r)?;
             match policy_type {
                 POLICY_ABOVE_PREFIX => Ok(SpendPolicy::Above(u64::decode(r)?)),
@@ -368,9 +375,13 @@ impl SiaDecodable for SpendPolicy {
                 POLICY_THRESHOLD_PREFIX => {
                     let of: u8 = u8::decode(r)?;
                     let n = u8::decode(r)?;
+                    *total += n as usize;
+                    if *total > MAX_POLICIES {
+                        return Err(encoding::Error::Custom("policy is too complex".to_string()));
+                    }
                     let mut policies = Vec::with_capacity(n as usize);
                     while policies.len() < n as usize {
-                        policies.push(decode_policy(r)?);
+                        policies.push(decode_policy(r, total)?);
                     }
                     Ok(SpendPolicy::Threshold(of, policies))
                 }
@@ -388,7 +399,7 @@ impl SiaDecodable for SpendPolicy {
                 "invalid policy version".to_string(),
             ));
         }
-        decode_policy(r)
+        decode_policy(r, &mut 1)
     }
 }
 
-- 
2.43.0


From d308f49049433d46f74dee0b60bac2a40df23a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:54 +0000
Subject: [PATCH 10/21] fix: signature verification under an invalid public key
 fails instead of panicking

---
 sia/src/signing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sia/src/signing.rs b/sia/src/signing.rs
index 5a41db7..12aa564 100644
--- a/sia/src/signing.rs
+++ b/sia/src/signing.rs
@@ -48,7 +48,9 @@ impl PublicKey {
     }
 
     pub fn verify(&self, sig_hash: &Hash256, signature: &Signature) -> bool {
-        let pk = VerifyingKey::from_bytes(&self.0).unwrap();
+        let Ok(pk) = VerifyingKey::from_bytes(&self.0) else {
+            return false; // not a valid curve point
+        };
         pk.verify(
             sig_hash.as_ref(),
             &ED25519Signature::from_bytes(signature.as_ref()),
-- 
2.43.0


From c5acfa7499a8220b01ae3ba963364f3719c593c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:54 +0000
Subject: [PATCH 11/21] fix: do not print private keys in debug output

---
 sia/src/signing.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sia/src/signing.rs b/sia/src/signing.rs
index 12aa564..4db680f 100644
--- a/sia/src/signing.rs
+++ b/sia/src/signing.rs
@@ -66,9 +66,15 @@ impl AsRef<[u8]> for PublicKey {
 }
 
 /// An ed25519 private key that can be used to sign a hash
-#[derive(Debug, PartialEq, Clone)]
+#[derive(PartialEq, Clone)]
 pub struct PrivateKey([u8; 64]);
 
+impl fmt::Debug for PrivateKey {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        f.write_str("PrivateKey(..)") // never print the key
+    }
+}
+
 impl PrivateKey {
     pub fn from_seed(seed: &[u8; 32]) -> Self {
         let sk = SigningKey::from_bytes(seed);
-- 
2.43.0


From 8ec3f337170d7a65fd2c6b9c5f86db94ca627020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:54 +0000
Subject: [PATCH 12/21] fix: wipe secrets with stores that cannot be optimized
 away

---
 sia/src/seed.rs    | 4 +++-
 sia/src/signing.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sia/src/seed.rs b/sia/src/seed.rs
index e61e948..b6d70e6 100644
--- a/sia/src/seed.rs
+++ b/sia/src/seed.rs
@@ -66,8 +66,10 @@ impl Drop for Seed {
     fn drop(&mut self) {
         // Zero out the private key
         for byte in self.0.iter_mut() {
-            *byte = 0;
+            // a plain store to a dying value may be optimized away
+            unsafe { core::ptr::write_volatile(byte, 0) };
         }
+        core::sync::atomic::compiler_fence(core::sync::atomic::Ordering::SeqCst);
     }
 }
 
diff --git a/sia/src/signing.rs b/sia/src/signing.rs
index 4db680f..30fa46a 100644
--- a/sia/src/signing.rs
+++ b/sia/src/signing.rs
@@ -113,8 +113,10 @@ impl Drop for PrivateKey {
     fn drop(&mut self) {
         // Zero out the private key
         for byte in self.0.iter_mut() {
-            *byte = 0;
+            // a plain store to a dying value may be optimized away
+            unsafe { core::ptr::write_volatile(byte, 0) };
         }
+        core::sync::atomic::compiler_fence(core::sync::atomic::Ordering::SeqCst);
     }
 }
 
-- 
2.43.0


From f99e3b549728bae964a40eb9b719ec89756476cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:54 +0000
Subject: [PATCH 13/21] fix: deserialize hash IDs from the compact form they
 serialize to

---
 sia/src/macros.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sia/src/macros.rs b/sia/src/macros.rs
index 0f86d3e..ba9df36 100644
--- a/sia/src/macros.rs
+++ b/sia/src/macros.rs
@@ -29,6 +29,9 @@ macro_rules! impl_hash_id {
             where
                 D: serde::Deserializer<'de>,
             {
+                if !deserializer.is_human_readable() {
+                    return Ok(Self(<[u8; 32]>::deserialize(deserializer)?));
+                }
                 let s = String::deserialize(deserializer)?;
                 $name::parse_string(&s).map_err(|e| serde::de::Error::custom(format!("{:?}", e)))
             }
-- 
2.43.0


From f15e89c51202d58b38b856e05883607257b601b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:54 +0000
Subject: [PATCH 14/21] fix: serialize unlock keys to the compact form they
 deserialize from

---
 sia/src/types/v1.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sia/src/types/v1.rs b/sia/src/types/v1.rs
index fb82e24..1c61f75 100644
--- a/sia/src/types/v1.rs
+++ b/sia/src/types/v1.rs
@@ -37,7 +37,11 @@ pub struct UnlockKey {
 
 impl Serialize for UnlockKey {
     fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        String::serialize(&self.to_string(), serializer)
+        if serializer.is_human_readable() {
+            String::serialize(&self.to_string(), serializer)
+        } else {
+            (&self.algorithm, &self.key).serialize(serializer)
+        }
     }
 }
 
-- 
2.43.0


From 33b7f475f90782167086f3cd0432870d8795cc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:54 +0000
Subject: [PATCH 15/21] fix: reject currency text that overflows or has too
 many fractional digits

---
 sia/src/types/currency.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/sia/src/types/currency.rs b/sia/src/types/currency.rs
index d9be540..fb8c556 100644
--- a/sia/src/types/currency.rs
+++ b/sia/src/types/currency.rs
@@ -199,12 +199,25 @@ impl Currency {
             0
         };
 
-        let frac_digits = parts.get(1).map_or(0, |frac| frac.len() as i32);
-        let integer = integer_part * 10u128.pow((SIACOIN_PRECISION_I32 + scaling_factor) as u32);
+        let exponent = (SIACOIN_PRECISION_I32 + scaling_factor) as u32;
+        let frac_digits = parts.get(1).map_or(0, |frac| frac.len());
+        if frac_digits > exponent as usize {
+            return Err(CurrencyParseError::InvalidFormat(
+                "too many fractional digits".to_string(),
+            ));
+        }
+        let overflow = || CurrencyParseError::InvalidFormat("value too large".to_string());
+        let integer = integer_part
+            .checked_mul(10u128.pow(exponent))
+            .ok_or_else(overflow)?;
         let fraction = fraction_part
-            * 10u128.pow((SIACOIN_PRECISION_I32 - frac_digits + scaling_factor) as u32);
+            .checked_mul(10u128.pow(exponent - frac_digits as u32))
+            .ok_or_else(overflow)?;
 
-        Ok(Currency::new(integer + fraction))
+        integer
+            .checked_add(fraction)
+            .map(Currency::new)
+            .ok_or_else(overflow)
     }
 
     /// Converts a given amount of Siacoins into the `Currency` type.
-- 
2.43.0


From 77833fa272a64dfc6ce43bc3b330ed2d88bf2cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:54 +0000
Subject: [PATCH 16/21] fix: currency arithmetic panics instead of wrapping in
 release builds

---
 sia/src/types/currency.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sia/src/types/currency.rs b/sia/src/types/currency.rs
index fb8c556..b1be48b 100644
--- a/sia/src/types/currency.rs
+++ b/sia/src/types/currency.rs
@@ -234,7 +234,10 @@ impl Currency {
     ///
     /// Returns a `Currency` instance representing the specified amount of Siacoins.
     pub const fn siacoins(n: u64) -> Self {
-        Currency::new((n as u128) * 10u128.pow(SIACOIN_PRECISION_U32))
+        match (n as u128).checked_mul(10u128.pow(SIACOIN_PRECISION_U32)) {
+            Some(hastings) => Currency::new(hastings),
+            None => panic!("currency overflow"),
+        }
     }
 
     pub fn checked_add(self, other: Currency) -> Option<Self> {
@@ -262,7 +265,7 @@ impl Add for Currency {
     type Output = Self;
 
     fn add(self, other: Self) -> Self {
-        Self(self.0 + other.0)
+        self.checked_add(other).expect("currency overflow")
     }
 }
 
@@ -270,7 +273,7 @@ impl Sub for Currency {
     type Output = Self;
 
     fn sub(self, other: Self) -> Self {
-        Self(self.0 - other.0)
+        self.checked_sub(other).expect("currency overflow")
     }
 }
 
@@ -278,7 +281,7 @@ impl Mul for Currency {
     type Output = Self;
 
     fn mul(self, other: Self) -> Self {
-        Self(self.0 * other.0)
+        self.checked_mul(other).expect("currency overflow")
     }
 }
 
-- 
2.43.0


From 3d26bf3bf10c234d489e4d2f9dfd7fb97e00a070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:54 +0000
Subject: [PATCH 17/21] fix: printing a specifier that is not UTF-8 does not
 fail

---
 sia/src/types/specifier.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sia/src/types/specifier.rs b/sia/src/types/specifier.rs
index e80f69b..4ba28a4 100644
--- a/sia/src/types/specifier.rs
+++ b/sia/src/types/specifier.rs
@@ -2,7 +2,7 @@ use crate::encoding::{
     SiaDecodable, SiaDecode, SiaEncodable, SiaEncode, V1SiaDecodable, V1SiaDecode, V1SiaEncodable,
     V1SiaEncode,
 };
-use core::{fmt, str};
+use core::fmt;
 use serde::{Deserialize, Serialize};
 
 pub const SPECIFIER_SIZE: usize = 16;
@@ -51,8 +51,8 @@ impl fmt::Display for Specifier {
             .rev()
             .position(|&x| x != 0)
             .map_or(0, |pos| SPECIFIER_SIZE - pos);
-        let str = str::from_utf8(&self.0[..index]).map_err(|_| fmt::Error)?;
-        write!(f, "{}", str)
+        // a decoded specifier may hold any bytes
+        write!(f, "{}", String::from_utf8_lossy(&self.0[..index]))
     }
 }
 
-- 
2.43.0


From 5cf6e5cf37c7924e006fa8839499d0711ecf8e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:54 +0000
Subject: [PATCH 18/21] fix: reject integers that do not fit their type instead
 of truncating

---
 sia/src/encoding/v1.rs | 6 +++++-
 sia/src/encoding/v2.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/sia/src/encoding/v1.rs b/sia/src/encoding/v1.rs
index d927737..ab20071 100644
--- a/sia/src/encoding/v1.rs
+++ b/sia/src/encoding/v1.rs
@@ -88,7 +88,11 @@ macro_rules! impl_sia_numeric {
                 fn decode_v1<R: Read>(r: &mut R) -> Result<Self> {
                     let mut buf = [0u8; 8];
                     r.read_exact(&mut buf)?;
-                    Ok(u64::from_le_bytes(buf) as Self)
+                    let v = u64::from_le_bytes(buf);
+                    if v as Self as u64 != v {
+                        return Err(Error::InvalidValue); // does not fit
+                    }
+                    Ok(v as Self)
                 }
             }
         )*
diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index 3b86454..6863dd7 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -134,7 +134,11 @@ macro_rules! impl_sia_numeric {
                 fn decode<R: Read>(r: &mut R) -> Result<Self> {
                     let mut buf = [0u8; 8];
                     r.read_exact(&mut buf)?;
-                    Ok(u64::from_le_bytes(buf) as Self)
+                    let v = u64::from_le_bytes(buf);
+                    if v as Self as u64 != v {
+                        return Err(Error::InvalidValue); // does not fit
+                    }
+                    Ok(v as Self)
                 }
             }
         )*
-- 
2.43.0


From 42312d45b414c5849c40af0ff7a2593f9e39c12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:54 +0000
Subject: [PATCH 19/21] fix: reject durations that do not fit their encoding
 instead of truncating

---
 sia/src/encoding/v2.rs | 5 ++++-
 sia/src/types/utils.rs | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index 6863dd7..be72d84 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -73,7 +73,10 @@ impl SiaDecodable for OffsetDateTime {
 
 impl SiaEncodable for Duration {
     fn encode<W: Write>(&self, w: &mut W) -> Result<()> {
-        (self.whole_nanoseconds() as u64).encode(w)
+        let ns = i64::try_from(self.whole_nanoseconds()).map_err(|_| Error::InvalidValue)?;
+        u64::try_from(ns)
+            .map_err(|_| Error::InvalidValue)?
+            .encode(w)
     }
 }
 
diff --git a/sia/src/types/utils.rs b/sia/src/types/utils.rs
index 39e1c83..aa2cbee 100644
--- a/sia/src/types/utils.rs
+++ b/sia/src/types/utils.rs
@@ -108,11 +108,13 @@ pub(crate) mod nano_second_duration {
     use time::Duration;
 
     pub fn serialize<S: Serializer>(v: &Duration, s: S) -> Result<S::Ok, S::Error> {
-        s.serialize_u64(v.whole_nanoseconds() as u64)
+        let nanos = i64::try_from(v.whole_nanoseconds()).map_err(serde::ser::Error::custom)?;
+        s.serialize_u64(u64::try_from(nanos).map_err(serde::ser::Error::custom)?)
     }
 
     pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Duration, D::Error> {
         let nanos = u64::deserialize(d)?;
-        Ok(Duration::nanoseconds(nanos as i64))
+        let nanos = i64::try_from(nanos).map_err(serde::de::Error::custom)?;
+        Ok(Duration::nanoseconds(nanos))
     }
 }
-- 
2.43.0


From 95d5cd6d4d901c7f19cfda0543a197659050c32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:54 +0000
Subject: [PATCH 20/21] fix: pay the Foundation subsidy per block of the month,
 to the current address

---
 sia/src/consensus.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sia/src/consensus.rs b/sia/src/consensus.rs
index 10e58ef..1bdd11b 100644
--- a/sia/src/consensus.rs
+++ b/sia/src/consensus.rs
@@ -496,11 +496,11 @@ impl ChainState {
         let subsidy_per_block = Currency::siacoins(30000);
         Some(SiacoinOutput {
             value: if self.child_height() == self.network.hardfork_foundation.height {
-                subsidy_per_block * Currency::new(12)
+                subsidy_per_block * Currency::new(12 * blocks_per_month as u128)
             } else {
-                subsidy_per_block
+                subsidy_per_block * Currency::new(blocks_per_month as u128)
             },
-            address: self.network.hardfork_foundation.primary_address.clone(),
+            address: self.state.foundation_primary_address.clone(),
         })
     }
 
-- 
2.43.0


From 0905f58bab342a0e5e8b8f7aad5eb88dc2076ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:54 +0000
Subject: [PATCH 21/21] fix: reject a timestamp history with fewer than 11
 entries

---
 sia/src/types/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sia/src/types/utils.rs b/sia/src/types/utils.rs
index aa2cbee..ec68206 100644
--- a/sia/src/types/utils.rs
+++ b/sia/src/types/utils.rs
@@ -70,6 +70,9 @@ pub(crate) mod timestamp_array {
                     .map_err(serde::de::Error::custom)?;
                     idx += 1;
                 }
+                if idx != timestamps.len() {
+                    return Err(serde::de::Error::invalid_length(idx, &self));
+                }
                 Ok(timestamps)
             }
         }
-- 
2.43.0

