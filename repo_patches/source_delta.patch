From 2cd2cc81cab186a914628ce7615552618136c17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 01/20] fix: keep the last digit when plaintext bits divide the
 element size

bytes_from_u32_slice took zero bits from the last digit when the element
size is a multiple of the plaintext bits, so decoded elements lost it.
---
 src/utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 0d389d5..53d1c06 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -230,7 +230,10 @@ pub mod format {
     entry_bit_len: usize,
     total_bit_len: usize,
   ) -> Vec<u8> {
-    let remainder = total_bit_len % entry_bit_len;
+    let remainder = match total_bit_len % entry_bit_len {
+      0 => entry_bit_len,
+      r => r,
+    };
     let mut bits = Vec::with_capacity(entry_bit_len * v.len());
     for i in 0..v.len() {
       // We extract either the full amount of bits, or the remainder from
-- 
2.43.0


From 68ccaf0152c689e583aa44e77e5d86e3e5f29eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 02/20] fix: never refuse an index query because its LWE sample
 wraps

Queries live modulo 2^32: refusing them when adding the scaling factor
overflows failed with probability 2^-plaintext_bits, and revealed the row
through the refusal. Wrap instead, as the keyword query does.
---
 src/api.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index 4fc5465..211a06d 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -9,9 +9,7 @@ pub use crate::db::{BaseParams, CommonParams, DatabaseMatrix};
 use crate::db::{FilterParams, KVDatabase, KVParams, KeyValue};
 use crate::db::{IndexDatabase, IndexParams};
 
-use crate::errors::{
-  ErrorOverflownAdd, ErrorQueryParamsReused, ResultBoxedError,
-};
+use crate::errors::{ErrorQueryParamsReused, ResultBoxedError};
 pub use crate::utils::format::*;
 use crate::utils::lwe::*;
 use crate::utils::matrices::*;
@@ -284,12 +282,7 @@ impl QueryParams<IndexDatabase, EmptyAuxParams> {
     let query_indicator = get_rounding_factor(self.plaintext_bits);
     let mut lhs = Vec::new();
     lhs.clone_from(&self.lhs.clone());
-    let (result, check) = lhs[row_index].overflowing_add(query_indicator);
-    if !check {
-      lhs[row_index] = result;
-    } else {
-      return Err(Box::new(ErrorOverflownAdd {}));
-    }
+    lhs[row_index] = lhs[row_index].wrapping_add(query_indicator);
     Ok(Query(lhs))
   }
 
-- 
2.43.0


From ae79c48422b30b3459efbc000e80b61ffefe013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 03/20] fix: draw a new filter seed when a keyword database
 cannot use the first

A binary fuse filter cannot be built for every seed (1 in 64 for two
keys). The same seed was tried 100000 times and the failure unwrapped;
draw a fresh one instead.
---
 bff-modp/src/bfusep32.rs |  8 +++++---
 src/db/kv.rs             | 41 ++++++++++++++++++++++++++--------------
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/bff-modp/src/bfusep32.rs b/bff-modp/src/bfusep32.rs
index e9351ab..e5051e6 100644
--- a/bff-modp/src/bfusep32.rs
+++ b/bff-modp/src/bfusep32.rs
@@ -73,18 +73,20 @@ impl Filter<u64> for BinaryFuseP32 {
 }
 
 impl BinaryFuseP32 {
-    /// Creates a new `BinaryFuseP32` filter from the specified `keys` (as a slice), `data`, `ptxt_mod`
+    /// Creates a new `BinaryFuseP32` filter from the specified `keys` (as a slice), `data`, `ptxt_mod`.
+    /// The outcome depends on the `seed` alone, so a failed construction is not repeated with it: use
+    /// another one.
     pub fn from_slice(seed: [u8; 32], keys: &[[u64; 4]], data: &[u32], label: u64, ptxt_mod: u64) -> Result<Self, &'static str> {
         if data.len() != keys.len() {
             return Err("The data should correspond to the number of keys");
         }
-        bfusep_from_impl!(seed, keys, data, ptxt_mod, label, max iter 100_000)
+        bfusep_from_impl!(seed, keys, data, ptxt_mod, label, max iter 1)
     }
 
     /// Creates a new `BinaryFuseP32` filter from the specified `keys` (as a vector), `data`, `ptxt_mod`
     pub fn from_vec(seed: [u8; 32], keys: Vec<[u64; 4]>, data: &[u32], label: u64, ptxt_mod: u64) -> Result<Self, &'static str> {
         let slice = keys.as_slice();
-        bfusep_from_impl!(seed, slice, data, ptxt_mod, label, max iter 100_000)
+        bfusep_from_impl!(seed, slice, data, ptxt_mod, label, max iter 1)
     }
 
     /// Retrieves the `data` modulo the plaintext modulus for a given `key`
diff --git a/src/db/kv.rs b/src/db/kv.rs
index 6badfc3..e9d8d5b 100644
--- a/src/db/kv.rs
+++ b/src/db/kv.rs
@@ -32,6 +32,9 @@ impl KeyValue {
   }
 }
 
+/// Number of filter seeds tried before giving up on a set of keys
+const MAX_SEED_ATTEMPTS: usize = 1000;
+
 #[derive(Clone, Debug, Serialize, Deserialize)]
 struct StorageFilters {
   filters: Vec<BinaryFuseP32>,
@@ -49,20 +52,30 @@ impl StorageFilters {
   ) -> ResultBoxedError<StorageFilters> {
     let keys: Vec<[u64; 4]> = kvs.iter().map(|kv| kv.key).collect();
     let mut seed = [0u8; 32];
-    OsRng.fill_bytes(&mut seed);
-    let filters: Vec<BinaryFuseP32> = (0..row_width)
-      .map(|i| {
-        let column: Vec<u32> = kvs.iter().map(|kv| kv.value[i]).collect();
-        BinaryFuseP32::from_slice(
-          seed,
-          &keys,
-          &column,
-          i as u64,
-          2u64.pow(plaintext_bits as u32),
-        )
-        .unwrap()
-      })
-      .collect();
+    // Whether the keys can be mapped depends on the seed alone: draw a new
+    // one when it cannot be used.
+    let mut attempt = 0;
+    let filters: Vec<BinaryFuseP32> = loop {
+      OsRng.fill_bytes(&mut seed);
+      let res: Result<Vec<BinaryFuseP32>, &'static str> = (0..row_width)
+        .map(|i| {
+          let column: Vec<u32> = kvs.iter().map(|kv| kv.value[i]).collect();
+          BinaryFuseP32::from_slice(
+            seed,
+            &keys,
+            &column,
+            i as u64,
+            2u64.pow(plaintext_bits as u32),
+          )
+        })
+        .collect();
+      attempt += 1;
+      match res {
+        Ok(filters) => break filters,
+        Err(_) if attempt < MAX_SEED_ATTEMPTS => continue,
+        Err(e) => return Err(e.into()),
+      }
+    };
     Ok(StorageFilters {
       filters: filters.clone(),
       seed,
-- 
2.43.0


From ff4a1d54d36b91a9fb62b45368775171f59ef77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 04/20] fix: make the 256-bit key hash depend on the order of
 the words

The words' hashes were summed, so keys holding the same words in another
order collided under every seed: their values were mixed up or the filter
could not be built.
---
 bff-modp/src/prelude/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bff-modp/src/prelude/mod.rs b/bff-modp/src/prelude/mod.rs
index a524363..6834172 100644
--- a/bff-modp/src/prelude/mod.rs
+++ b/bff-modp/src/prelude/mod.rs
@@ -58,7 +58,7 @@ pub fn mix256<'a>(key: &[u64; 4], seed: &[u8]) -> u64 {
             }
             mixed
         })
-        .fold(0, |acc, r| acc.overflowing_add(r).0)
+        .fold(0, |acc, r| murmur3::mix64(acc.overflowing_add(r).0))
 }
 
 /// Computes a fingerprint.
-- 
2.43.0


From f119a8cc9ef8d9db8509e0eff3148d860d811e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 05/20] fix: write complete parameters to the params file

Only the seed and the hint were written, under other names than the
struct's, so IndexParams::load failed on every file written.
---
 src/db/mod.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index 0a76fbc..abac3f3 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -4,7 +4,6 @@ mod kv;
 use std::fs;
 
 use serde::{Deserialize, Serialize};
-use serde_json::json;
 
 use crate::errors::ResultBoxedError;
 use crate::utils::matrices::*;
@@ -48,12 +47,11 @@ pub trait BaseParams {
       .collect()
   }
   /// Writes the params struct as JSON to file
-  fn write_to_file(&self, path: &str) -> ResultBoxedError<()> {
-    let json = json!({
-      "lhs_seed": self.get_public_seed(),
-      "rhs": self.get_rhs(),
-    });
-    Ok(serde_json::to_writer(&fs::File::create(path)?, &json)?)
+  fn write_to_file(&self, path: &str) -> ResultBoxedError<()>
+  where
+    Self: Serialize,
+  {
+    Ok(serde_json::to_writer(&fs::File::create(path)?, self)?)
   }
   /// Computes s*(A*DB) using the RHS of the public parameters
   fn mult_right(&self, s: &[u32]) -> ResultBoxedError<Vec<u32>> {
-- 
2.43.0


From 19dbea7da1ea5eaf4b5dd3cb7dc654a8ddbd6e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 06/20] fix: compute mod-p filters modulo the given modulus

Sums were reduced modulo 2^32 first, which is wrong unless the modulus is
a power of two, and a modulus of 2^32 was truncated to 0.
---
 bff-modp/src/bfusep32.rs       |  2 +-
 bff-modp/src/prelude/bfusep.rs | 19 ++++++++++---------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/bff-modp/src/bfusep32.rs b/bff-modp/src/bfusep32.rs
index e5051e6..db9fc4d 100644
--- a/bff-modp/src/bfusep32.rs
+++ b/bff-modp/src/bfusep32.rs
@@ -96,7 +96,7 @@ impl BinaryFuseP32 {
 
     /// Returns the `fingerprints`, of the filter, but modulo the plaintetx modulus
     pub fn get_fingerprints_mod(&self) -> Vec<u32> {
-        self.fingerprints.into_iter().map(|f| f % (self.ptxt_mod as u32)).collect()
+        self.fingerprints.into_iter().map(|f| (*f as u64 % self.ptxt_mod) as u32).collect()
     }
 
     /// Static function that retrieves the hash function evaluations for a given storage filter
diff --git a/bff-modp/src/prelude/bfusep.rs b/bff-modp/src/prelude/bfusep.rs
index 0b85325..f8120eb 100644
--- a/bff-modp/src/prelude/bfusep.rs
+++ b/bff-modp/src/prelude/bfusep.rs
@@ -206,12 +206,13 @@ macro_rules! bfusep_from_impl(
 		            h012[2] = index3;
 		            h012[3] = h012[0];
 		            h012[4] = h012[1];
-		        let entry =
-                (data % ($ptxt_mod as u32))
-                .wrapping_sub(fingerprints[h012[found + 1] as usize])
-                .wrapping_sub(fingerprints[h012[found + 2] as usize]) % ($ptxt_mod as u32);
-                let mask = (mix(hash, $label) % $ptxt_mod) as u32;
-                fingerprints[h012[found] as usize] = entry.wrapping_sub(mask) % ($ptxt_mod as u32);
+		            let ptxt_mod: u64 = $ptxt_mod;
+		            let mask = mix(hash, $label) % ptxt_mod;
+		            let entry = (*data as u64 % ptxt_mod) + 3 * ptxt_mod
+                    - (fingerprints[h012[found + 1] as usize] as u64 % ptxt_mod)
+                    - (fingerprints[h012[found + 2] as usize] as u64 % ptxt_mod)
+                    - mask;
+                fingerprints[h012[found] as usize] = (entry % ptxt_mod) as u32;
             }
 
             Ok(Self {
@@ -242,9 +243,9 @@ macro_rules! bfusep_retrieve_impl(
             };
             let hash = mix256($key, &$self.seed);
             let (h0, h1, h2) = hash_of_hash(hash, $self.segment_length, $self.segment_length_mask, $self.segment_count_length);
-            let data = $self.fingerprints[h0 as usize].wrapping_add($self.fingerprints[h1 as usize]).wrapping_add($self.fingerprints[h2 as usize]);
-            let mask = (mix(hash, $label) % $self.ptxt_mod) as u32;
-            data.wrapping_add(mask) % ($self.ptxt_mod as u32)
+            let data = $self.fingerprints[h0 as usize] as u64 + $self.fingerprints[h1 as usize] as u64 + $self.fingerprints[h2 as usize] as u64;
+            let mask = mix(hash, $label) % $self.ptxt_mod;
+            ((data + mask) % $self.ptxt_mod) as u32
         }
     };
 );
-- 
2.43.0


From 224178a5d9980aa1f7e74794e215c250860d29fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 07/20] fix: BinaryFuseP32::from_vec refuses data that does not
 match the keys

---
 bff-modp/src/bfusep32.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bff-modp/src/bfusep32.rs b/bff-modp/src/bfusep32.rs
index db9fc4d..e297ac6 100644
--- a/bff-modp/src/bfusep32.rs
+++ b/bff-modp/src/bfusep32.rs
@@ -85,8 +85,7 @@ impl BinaryFuseP32 {
 
     /// Creates a new `BinaryFuseP32` filter from the specified `keys` (as a vector), `data`, `ptxt_mod`
     pub fn from_vec(seed: [u8; 32], keys: Vec<[u64; 4]>, data: &[u32], label: u64, ptxt_mod: u64) -> Result<Self, &'static str> {
-        let slice = keys.as_slice();
-        bfusep_from_impl!(seed, slice, data, ptxt_mod, label, max iter 1)
+        Self::from_slice(seed, keys.as_slice(), data, label, ptxt_mod)
     }
 
     /// Retrieves the `data` modulo the plaintext modulus for a given `key`
-- 
2.43.0


From e48dca578e009702e8d9d66aa27d64502ce32db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 08/20] fix: report unreadable or malformed database files as
 errors

from_json_file returns a Result but panicked on a missing file or invalid
JSON.
---
 src/api.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index 211a06d..89c72c5 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -33,9 +33,8 @@ impl Shard {
     elem_size: usize,
     plaintext_bits: usize,
   ) -> ResultBoxedError<Self> {
-    let file_contents: String =
-      fs::read_to_string(file_path).unwrap().parse().unwrap();
-    let elements: Vec<String> = serde_json::from_str(&file_contents).unwrap();
+    let file_contents: String = fs::read_to_string(file_path)?.parse()?;
+    let elements: Vec<String> = serde_json::from_str(&file_contents)?;
     Shard::from_base64_strings(&elements, lwe_dim, m, elem_size, plaintext_bits)
   }
 
@@ -151,9 +150,8 @@ impl KVShard {
     elem_size: usize,
     plaintext_bits: usize,
   ) -> ResultBoxedError<Self> {
-    let file_contents: String =
-      fs::read_to_string(file_path).unwrap().parse().unwrap();
-    let enc_kvs: Vec<EncodedKV> = serde_json::from_str(&file_contents).unwrap();
+    let file_contents: String = fs::read_to_string(file_path)?.parse()?;
+    let enc_kvs: Vec<EncodedKV> = serde_json::from_str(&file_contents)?;
     let keys: Vec<String> = enc_kvs.iter().map(|e| e.key.clone()).collect();
     let values: Vec<String> = enc_kvs.iter().map(|e| e.value.clone()).collect();
     KVShard::from_base64_strings(
-- 
2.43.0


From 0de9ca1a2ce3ecd6fa8189a5bb19c811b12e9f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 09/20] fix: reject database input that cannot be served

Elements or values of the wrong size, missing rows, no pairs, duplicate
keys, digits outside the plaintext space and impossible encodings either
panicked or were silently stored as something else.
---
 src/db/index.rs | 12 ++++++++++--
 src/db/kv.rs    | 29 ++++++++++++++++++++++++++---
 src/db/mod.rs   | 39 ++++++++++++++++++++++++++++++++++++++-
 3 files changed, 74 insertions(+), 6 deletions(-)

diff --git a/src/db/index.rs b/src/db/index.rs
index e20a4c1..5972581 100644
--- a/src/db/index.rs
+++ b/src/db/index.rs
@@ -4,7 +4,7 @@ use std::io::BufReader;
 use serde::{Deserialize, Serialize};
 use serde_json::json;
 
-use crate::db::{BaseParams, DatabaseMatrix};
+use crate::db::{check_element, check_encoding, BaseParams, DatabaseMatrix};
 use crate::errors::ResultBoxedError;
 use crate::utils::format::*;
 use crate::utils::matrices::*;
@@ -24,6 +24,12 @@ impl IndexDatabase {
     elem_size: usize,
     plaintext_bits: usize,
   ) -> ResultBoxedError<Self> {
+    check_encoding(elem_size, plaintext_bits)?;
+    if m == 0 || m > elements.len() {
+      return Err(
+        format!("Cannot use {} rows of {} elements", m, elements.len()).into(),
+      );
+    }
     Ok(Self {
       entries: swap_matrix_fmt(&construct_rows(
         elements,
@@ -174,11 +180,13 @@ impl BaseParams for IndexParams {
 
 fn construct_row(
   element: &str,
+  elem_size: usize,
   plaintext_bits: usize,
   row_width: usize,
 ) -> ResultBoxedError<Vec<u32>> {
   let mut row = Vec::with_capacity(row_width);
   let bytes = base64::decode(element)?;
+  check_element(&bytes, elem_size)?;
   let bits = bytes_to_bits_le(&bytes);
   for i in 0..row_width {
     let end_bound = (i + 1) * plaintext_bits;
@@ -200,7 +208,7 @@ fn construct_rows(
   let row_width = IndexDatabase::get_row_width(elem_size, plaintext_bits);
 
   let result = (0..m).map(|i| -> ResultBoxedError<Vec<u32>> {
-    construct_row(&elements[i], plaintext_bits, row_width)
+    construct_row(&elements[i], elem_size, plaintext_bits, row_width)
   });
 
   result.collect()
diff --git a/src/db/kv.rs b/src/db/kv.rs
index e9d8d5b..ab4dc29 100644
--- a/src/db/kv.rs
+++ b/src/db/kv.rs
@@ -1,12 +1,13 @@
+use std::collections::HashSet;
 use std::fs;
 
 use rand_core::{OsRng, RngCore};
 use serde::{Deserialize, Serialize};
 use serde_json::json;
 
-use crate::db::{BaseParams, DatabaseMatrix};
+use crate::db::{check_element, check_encoding, BaseParams, DatabaseMatrix};
 
-use crate::errors::ResultBoxedError;
+use crate::errors::{ErrorUnexpectedInputSize, ResultBoxedError};
 use crate::utils::format::*;
 use crate::utils::matrices::*;
 use crate::utils::random::generate_seed;
@@ -137,7 +138,27 @@ impl KVDatabase {
     elem_size: usize,
     plaintext_bits: usize,
   ) -> ResultBoxedError<Self> {
-    let row_width = kvs[0].value.len();
+    check_encoding(elem_size, plaintext_bits)?;
+    if kvs.is_empty() {
+      return Err("No key-value pairs given".into());
+    }
+    let row_width = KVDatabase::get_row_width(elem_size, plaintext_bits);
+    let mut keys = HashSet::with_capacity(kvs.len());
+    for kv in kvs {
+      if kv.value.len() != row_width {
+        return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+          "value of {} digits, expected {}",
+          kv.value.len(),
+          row_width
+        ))));
+      }
+      if kv.value.iter().any(|v| v >> plaintext_bits != 0) {
+        return Err("A value has digits outside the plaintext space".into());
+      }
+      if !keys.insert(kv.key) {
+        return Err("The keys are not distinct".into());
+      }
+    }
     let filters = StorageFilters::from_kvs(kvs, row_width, plaintext_bits)?;
 
     Ok(Self {
@@ -260,9 +281,11 @@ fn construct_row(
   plaintext_bits: usize,
   elem_size: usize,
 ) -> ResultBoxedError<Vec<u32>> {
+  check_encoding(elem_size, plaintext_bits)?;
   let row_width = KVDatabase::get_row_width(elem_size, plaintext_bits);
   let mut row = Vec::with_capacity(row_width);
   let bytes = base64::decode(element)?;
+  check_element(&bytes, elem_size)?;
   let bits = bytes_to_bits_le(&bytes);
   for i in 0..row_width {
     let end_bound = (i + 1) * plaintext_bits;
diff --git a/src/db/mod.rs b/src/db/mod.rs
index abac3f3..87a35b7 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -5,7 +5,7 @@ use std::fs;
 
 use serde::{Deserialize, Serialize};
 
-use crate::errors::ResultBoxedError;
+use crate::errors::{ErrorUnexpectedInputSize, ResultBoxedError};
 use crate::utils::matrices::*;
 
 pub trait DatabaseMatrix {
@@ -23,6 +23,43 @@ pub trait DatabaseMatrix {
 pub use index::IndexDatabase;
 pub use kv::KVDatabase;
 
+/// Checks the parameters that describe how elements are encoded
+fn check_encoding(
+  elem_size: usize,
+  plaintext_bits: usize,
+) -> ResultBoxedError<()> {
+  if !(1..=31).contains(&plaintext_bits) {
+    return Err(
+      format!("Unsupported number of plaintext bits: {}", plaintext_bits)
+        .into(),
+    );
+  }
+  if elem_size == 0 {
+    return Err("The element size must not be zero".into());
+  }
+  Ok(())
+}
+
+/// Checks that an element (or value) consists of exactly `elem_size` bits,
+/// stored in as few bytes as possible
+fn check_element(bytes: &[u8], elem_size: usize) -> ResultBoxedError<()> {
+  let len = (elem_size + 7) / 8;
+  if bytes.len() != len {
+    return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+      "element of {} bytes, expected {}",
+      bytes.len(),
+      len
+    ))));
+  }
+  if elem_size % 8 != 0 && bytes[len - 1] >> (elem_size % 8) != 0 {
+    return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+      "element has bits beyond the element size of {} bits",
+      elem_size
+    ))));
+  }
+  Ok(())
+}
+
 pub trait BaseParams {
   /// Generates the RHS of the params using the database and the seed
   /// for the LHS
-- 
2.43.0


From a28c1438503d94b75aa42948bfe74f75eef31b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 10/20] fix: answer unusable queries, rows and responses with
 an error

A query of the wrong length, a row outside of the database, a matrix too
short for the filter and a keyword response of the wrong length panicked
or were accepted, although the functions return a Result.
---
 src/api.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index 89c72c5..49eea89 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -9,11 +9,24 @@ pub use crate::db::{BaseParams, CommonParams, DatabaseMatrix};
 use crate::db::{FilterParams, KVDatabase, KVParams, KeyValue};
 use crate::db::{IndexDatabase, IndexParams};
 
-use crate::errors::{ErrorQueryParamsReused, ResultBoxedError};
+use crate::errors::{
+  ErrorQueryParamsReused, ErrorUnexpectedInputSize, ResultBoxedError,
+};
 pub use crate::utils::format::*;
 use crate::utils::lwe::*;
 use crate::utils::matrices::*;
 
+/// Refuses messages that do not have the expected number of words
+fn check_len(what: &str, len: usize, expected: usize) -> ResultBoxedError<()> {
+  if len != expected {
+    return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+      "{} of {} words, expected {}",
+      what, len, expected
+    ))));
+  }
+  Ok(())
+}
+
 /// A `Shard` is an instance of a database, where each row corresponds
 /// to a single element, that has been preprocessed by the server.
 #[derive(Clone, Debug, Serialize, Deserialize)]
@@ -67,6 +80,7 @@ impl Shard {
   /// client query
   pub fn respond(&self, q: &Query) -> ResultBoxedError<Vec<u8>> {
     let q = q.as_slice();
+    check_len("query", q.len(), self.db.get_matrix_height())?;
     let resp = Response(
       (0..self.db.get_row_width_self())
         .map(|i| self.db.vec_mult(q, i))
@@ -212,6 +226,7 @@ impl KVShard {
   /// Produces a serialized response (base64-encoded) to a serialized
   /// client query
   pub fn respond(&self, q: &Query) -> ResultBoxedError<Vec<u8>> {
+    check_len("query", q.as_slice().len(), self.db.get_matrix_height())?;
     let resp = Response(
       (0..self.db.get_row_width_self())
         .map(|i| self.db.vec_mult(q.as_slice(), i))
@@ -276,6 +291,11 @@ impl QueryParams<IndexDatabase, EmptyAuxParams> {
     if self.used {
       return Err(Box::new(ErrorQueryParamsReused {}));
     }
+    if row_index >= self.lhs.len() {
+      return Err(
+        format!("Row {} is outside of the database", row_index).into(),
+      );
+    }
     self.used = true;
     let query_indicator = get_rounding_factor(self.plaintext_bits);
     let mut lhs = Vec::new();
@@ -349,6 +369,9 @@ impl QueryParams<KVDatabase, FilterParams> {
     }
     let indices = self.extra_params.as_ref().unwrap().get_hash_evals(key);
     for row_index in indices {
+      if row_index >= lhs.len() {
+        return Err("The query matrix does not fit the filter".into());
+      }
       lhs[row_index] = lhs[row_index].wrapping_add(query_indicator);
     }
     Ok(Query(lhs))
@@ -370,10 +393,13 @@ impl QueryParams<KVDatabase, FilterParams> {
       return Err("No filter parameters set for KV QueryParams".into());
     }
     let fp = self.extra_params.as_ref().unwrap();
+    let row_width =
+      KVDatabase::get_row_width(self.elem_size, self.plaintext_bits);
+    check_len("response", resp.0.len(), row_width)?;
 
     // perform division and rounding
     Ok(
-      (0..KVDatabase::get_row_width(self.elem_size, self.plaintext_bits))
+      (0..row_width)
         .map(|i| {
           let left = resp.0[i];
           let right = self.rhs[i];
-- 
2.43.0


From 4be4fd1634ac6df4c7f4c9e2352694bc6bd55b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 11/20] fix: fuse filters of too few keys fail with an error

Below 90 keys the table is empty: construction panicked, and a filter of
no keys panicked on its first lookup.
---
 bff-modp/src/prelude/fuse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bff-modp/src/prelude/fuse.rs b/bff-modp/src/prelude/fuse.rs
index fcaf571..4caf3a7 100644
--- a/bff-modp/src/prelude/fuse.rs
+++ b/bff-modp/src/prelude/fuse.rs
@@ -90,6 +90,10 @@ macro_rules! fuse_from_impl(
             let capacity = (FUSE_OVERHEAD * num_keys as f64) as usize;
             let capacity = capacity / SLOTS * SLOTS;
             let segment_length = capacity / SLOTS;
+            if segment_length == 0 {
+                // Too few keys to fill the segments.
+                return Err("Failed to construct fuse filter.");
+            }
 
             #[allow(non_snake_case)]
             let mut H: Box<[HSet]> = make_block!(with capacity sets);
-- 
2.43.0


From 407fe63943405a6743a12f3575aac11a4813deab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 12/20] fix: count more than 63 keys per slot in binary fuse
 filters

The per-slot counter overflowed its byte when 64 keys mapped to one slot,
which panicked or kept the construction from ever ending.
---
 bff-modp/src/prelude/bfuse.rs  | 8 ++++----
 bff-modp/src/prelude/bfusep.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/bff-modp/src/prelude/bfuse.rs b/bff-modp/src/prelude/bfuse.rs
index a2f2430..77650ef 100644
--- a/bff-modp/src/prelude/bfuse.rs
+++ b/bff-modp/src/prelude/bfuse.rs
@@ -106,7 +106,7 @@ macro_rules! bfuse_from_impl(
             let mut seed = splitmix64(&mut rng);
             let capacity = fingerprints.len();
             let mut alone: Box<[u32]> = make_block!(with capacity sets);
-            let mut t2count: Box<[u8]> = make_block!(with capacity sets);
+            let mut t2count: Box<[u32]> = make_block!(with capacity sets);
             let mut t2hash: Box<[u64]> = make_block!(with capacity sets);
             let mut reverse_h: Box<[u8]> = make_block!(with size sets);
             let size_plus_1: usize = size + 1;
@@ -194,7 +194,7 @@ macro_rules! bfuse_from_impl(
                     let index = alone[qsize] as usize;
                     if (t2count[index] >> 2) == 1 {
                         let hash = t2hash[index];
-                        let found: u8 = t2count[index] & 3;
+                        let found: u8 = (t2count[index] & 3) as u8;
                         reverse_h[stack_size] = found;
                         reverse_order[stack_size] = hash;
                         stack_size += 1;
@@ -212,7 +212,7 @@ macro_rules! bfuse_from_impl(
                             qsize += 1;
                         }
                         t2count[other_index1] -= 4;
-                        t2count[other_index1] ^= mod3(found + 1);
+                        t2count[other_index1] ^= mod3(found + 1) as u32;
                         t2hash[other_index1] ^= hash;
 
                         let other_index2 = h012[(found + 2) as usize] as usize;
@@ -221,7 +221,7 @@ macro_rules! bfuse_from_impl(
                             qsize += 1;
                         }
                         t2count[other_index2] -= 4;
-                        t2count[other_index2] ^= mod3(found + 2);
+                        t2count[other_index2] ^= mod3(found + 2) as u32;
                         t2hash[other_index2] ^= hash;
                     }
                 }
diff --git a/bff-modp/src/prelude/bfusep.rs b/bff-modp/src/prelude/bfusep.rs
index f8120eb..f74a87f 100644
--- a/bff-modp/src/prelude/bfusep.rs
+++ b/bff-modp/src/prelude/bfusep.rs
@@ -53,7 +53,7 @@ macro_rules! bfusep_from_impl(
 
             let capacity = fingerprints.len();
             let mut alone: Box<[u32]> = make_block!(with capacity sets);
-            let mut t2count: Box<[u8]> = make_block!(with capacity sets);
+            let mut t2count: Box<[u32]> = make_block!(with capacity sets);
             let mut t2hash: Box<[u64]> = make_block!(with capacity sets);
             let mut reverse_h: Box<[u8]> = make_block!(with size sets);
             let size_plus_1: usize = size + 1;
@@ -143,7 +143,7 @@ macro_rules! bfusep_from_impl(
                     let index = alone[qsize] as usize;
                     if (t2count[index] >> 2) == 1 {
                         let hash = t2hash[index];
-                        let found: u8 = t2count[index] & 3;
+                        let found: u8 = (t2count[index] & 3) as u8;
                         reverse_h[stack_size] = found;
                         reverse_order[stack_size] = hash;
                         stack_size += 1;
@@ -161,7 +161,7 @@ macro_rules! bfusep_from_impl(
                             qsize += 1;
                         }
                         t2count[other_index1] -= 4;
-                        t2count[other_index1] ^= mod3(found + 1);
+                        t2count[other_index1] ^= mod3(found + 1) as u32;
                         t2hash[other_index1] ^= hash;
 
                         let other_index2 = h012[(found + 2) as usize] as usize;
@@ -170,7 +170,7 @@ macro_rules! bfusep_from_impl(
                             qsize += 1;
                         }
                         t2count[other_index2] -= 4;
-                        t2count[other_index2] ^= mod3(found + 2);
+                        t2count[other_index2] ^= mod3(found + 2) as u32;
                         t2hash[other_index2] ^= hash;
                     }
                 }
-- 
2.43.0


From 59258409a06f027a69b021ab5936294975b0a80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 13/20] fix: sample ternary values exactly uniformly

The first interval held one value more than the others.
---
 src/utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 53d1c06..264fdf8 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -107,17 +107,17 @@ pub mod matrices {
     // that rounding is performed to the next _lowest_ integer.
     let mut val = OsRng.next_u32();
     // If the value sampled sits in the interval:
-    //                `interval*3 < val < U32::MAX`
+    //                `interval*3 <= val <= U32::MAX`
     // then we need to reject it and resample until it firs below `interval*3`
-    while val > TERNARY_REJECTION_SAMPLING_MAX {
+    while val >= TERNARY_REJECTION_SAMPLING_MAX {
       val = OsRng.next_u32();
     }
     // Now we return {0,1,-1} depending on whether the sampled value
     // sits in the first, second or third sampling interval
     let mut tern = 0;
-    if val > TERNARY_INTERVAL_SIZE && val <= TERNARY_INTERVAL_SIZE * 2 {
+    if val >= TERNARY_INTERVAL_SIZE && val < TERNARY_INTERVAL_SIZE * 2 {
       tern = 1;
-    } else if val > TERNARY_INTERVAL_SIZE * 2 {
+    } else if val >= TERNARY_INTERVAL_SIZE * 2 {
       tern = u32::MAX;
     }
     tern
-- 
2.43.0


From 81b2e3c7f79c3933c843e20867c6281f65716b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 14/20] fix: refuse exponents that do not fit instead of
 wrapping

2^32 and above became 0 in release builds, although usize holds them.
---
 pi-rs-cli-utils/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pi-rs-cli-utils/src/lib.rs b/pi-rs-cli-utils/src/lib.rs
index 8ac37cc..a7e84ef 100644
--- a/pi-rs-cli-utils/src/lib.rs
+++ b/pi-rs-cli-utils/src/lib.rs
@@ -92,7 +92,7 @@ pub fn parse_from_env() -> CLIFlags {
 
 pub fn parse_exp_to_usize(v: String) -> usize {
   let exp: u32 = v.parse().unwrap();
-  let res = 2_u32.pow(exp) as usize;
+  let res = 2_usize.checked_pow(exp).expect("exponent too large");
   res
 }
 
-- 
2.43.0


From 8a0816b9994cc64a84adb7473fac2e0731d8d758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 15/20] fix: HashProxy copes with keys whose hashes coincide

Building the underlying filter from repeated values never ends.
---
 bff-modp/src/hash_proxy.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bff-modp/src/hash_proxy.rs b/bff-modp/src/hash_proxy.rs
index f1d203c..611a8c6 100644
--- a/bff-modp/src/hash_proxy.rs
+++ b/bff-modp/src/hash_proxy.rs
@@ -124,7 +124,10 @@ where
     F: Filter<u64> + From<Vec<u64>>,
 {
     fn from(keys: &[T]) -> Self {
-        let keys: Vec<u64> = keys.iter().map(hash::<T, H>).collect();
+        let mut keys: Vec<u64> = keys.iter().map(hash::<T, H>).collect();
+        // Distinct keys may have the same hash; filters need distinct values.
+        keys.sort_unstable();
+        keys.dedup();
         Self {
             filter: F::from(keys),
             _hasher: core::marker::PhantomData,
-- 
2.43.0


From 130254fac7c21407785629a50ffbd6d7e36d5afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 16/20] fix: keys whose hashes coincide cannot share a mod-p
 filter

---
 bff-modp/src/prelude/bfusep.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bff-modp/src/prelude/bfusep.rs b/bff-modp/src/prelude/bfusep.rs
index f74a87f..6e0f362 100644
--- a/bff-modp/src/prelude/bfusep.rs
+++ b/bff-modp/src/prelude/bfusep.rs
@@ -86,7 +86,10 @@ macro_rules! bfusep_from_impl(
                         segment_index &= (1 << block_bits) - 1;
                     }
                     reverse_order[start_pos[segment_index as usize] as usize] = hash;
-                    hm_keys.insert(hash, $data[i]);
+                    if hm_keys.insert(hash, $data[i]).is_some() {
+                        // Only one of the keys could be retrieved.
+                        return Err("Two keys have the same hash with this seed.");
+                    }
                     start_pos[segment_index as usize] += 1;
                 }
 
-- 
2.43.0


From 471a95557782b22e2c3848b8129dd523e4e5f306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 17/20] fix: reject elements of the wrong size before
 allocating their row

A huge declared element size made the build of a database allocate the row
(or overflow) before the elements were compared with it: a panic or abort
instead of the error.
---
 src/db/index.rs | 2 +-
 src/db/kv.rs    | 2 +-
 src/db/mod.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/db/index.rs b/src/db/index.rs
index 5972581..ee50ed0 100644
--- a/src/db/index.rs
+++ b/src/db/index.rs
@@ -184,9 +184,9 @@ fn construct_row(
   plaintext_bits: usize,
   row_width: usize,
 ) -> ResultBoxedError<Vec<u32>> {
-  let mut row = Vec::with_capacity(row_width);
   let bytes = base64::decode(element)?;
   check_element(&bytes, elem_size)?;
+  let mut row = Vec::with_capacity(row_width);
   let bits = bytes_to_bits_le(&bytes);
   for i in 0..row_width {
     let end_bound = (i + 1) * plaintext_bits;
diff --git a/src/db/kv.rs b/src/db/kv.rs
index ab4dc29..bb56dba 100644
--- a/src/db/kv.rs
+++ b/src/db/kv.rs
@@ -283,9 +283,9 @@ fn construct_row(
 ) -> ResultBoxedError<Vec<u32>> {
   check_encoding(elem_size, plaintext_bits)?;
   let row_width = KVDatabase::get_row_width(elem_size, plaintext_bits);
-  let mut row = Vec::with_capacity(row_width);
   let bytes = base64::decode(element)?;
   check_element(&bytes, elem_size)?;
+  let mut row = Vec::with_capacity(row_width);
   let bits = bytes_to_bits_le(&bytes);
   for i in 0..row_width {
     let end_bound = (i + 1) * plaintext_bits;
diff --git a/src/db/mod.rs b/src/db/mod.rs
index 87a35b7..15f793a 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -43,7 +43,7 @@ fn check_encoding(
 /// Checks that an element (or value) consists of exactly `elem_size` bits,
 /// stored in as few bytes as possible
 fn check_element(bytes: &[u8], elem_size: usize) -> ResultBoxedError<()> {
-  let len = (elem_size + 7) / 8;
+  let len = elem_size / 8 + usize::from(elem_size % 8 != 0);
   if bytes.len() != len {
     return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
       "element of {} bytes, expected {}",
-- 
2.43.0


From 2a1e2a2dd2dbd2094c3761ca6d4cf18fc0f29dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:33 +0000
Subject: [PATCH 18/20] fix: generate elements of the requested number of bits

The Makefile passes the element size in bits, which the generator ignored:
it read an exponent nothing sets, and took it for a number of bytes.
---
 data/generate_db.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/data/generate_db.py b/data/generate_db.py
index f1aba8b..0bea659 100644
--- a/data/generate_db.py
+++ b/data/generate_db.py
@@ -2,27 +2,32 @@ import os
 import base64
 import json
 
-def get_random(length):
-  buf = os.urandom(length)
+def encode(buf, bits):
+  # bits beyond the element size are zero
+  if bits % 8 != 0:
+    buf = buf[:-1] + bytes([buf[-1] & ((1 << (bits % 8)) - 1)])
   return base64.b64encode(buf).decode("utf-8")
 
-def get_all_ones(length):
-  buf = b"\xFF"*length
-  return base64.b64encode(buf).decode("utf-8")
+def get_random(bits):
+  return encode(os.urandom((bits + 7) // 8), bits)
+
+def get_all_ones(bits):
+  return encode(b"\xFF" * ((bits + 7) // 8), bits)
 
 if __name__ == "__main__":
   all_ones = os.getenv("DB_ALL_ONES")
   number_of_entries_exp = os.getenv("DB_NUM_ENTRIES_EXP") or 16
-  element_size = os.getenv("DB_ELEMENT_SIZE_EXP") or 13
+  element_size_exp = os.getenv("DB_ELEMENT_SIZE_EXP") or 13
+  element_size = int(os.getenv("DB_ELEMENT_SIZE_BITS") or pow(2, int(element_size_exp)))
   v = int(number_of_entries_exp)
   num_entries = pow(2, v)
   out = []
   if all_ones == "0":
     for i in range(num_entries):
-      out.append(get_random(pow(2, int(element_size))))
+      out.append(get_random(element_size))
   else:
     for i in range(num_entries):
-      out.append(get_all_ones(pow(2, int(element_size))))
+      out.append(get_all_ones(element_size))
   file_name = os.getenv("DB_OUTPUT_PATH")
   if not file_name:
     file_name = "rand_db.json"
-- 
2.43.0


From 39cd8e1eafb0e0f7992e17f37d6256821067365b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:16 +0000
Subject: [PATCH 19/20] fix: binary-fuse-modp without binary-fuse did not
 compile

The mod-p filter uses the sizes and hashes of the binary fuse filter, whose
module was only there with the feature binary-fuse.
---
 bff-modp/src/prelude/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bff-modp/src/prelude/mod.rs b/bff-modp/src/prelude/mod.rs
index 6834172..622f2c0 100644
--- a/bff-modp/src/prelude/mod.rs
+++ b/bff-modp/src/prelude/mod.rs
@@ -1,6 +1,6 @@
 //! Common methods for xor filters.
 
-#[cfg(feature = "binary-fuse")]
+#[cfg(any(feature = "binary-fuse", feature = "binary-fuse-modp"))]
 pub mod bfuse;
 #[cfg(feature = "binary-fuse-modp")]
 pub mod bfusep;
-- 
2.43.0


From 3290af746fdc51fb3beeeb6922c4144a475cc4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:01 +0000
Subject: [PATCH 20/20] fix: refuse public parameters that cannot belong to a
 database

A client given parameters whose plaintext bits, hint or filter contradict
the declared sizes panicked (or drew a secret of any declared length)
instead of getting an error.
---
 src/api.rs    |  5 +++++
 src/db/kv.rs  | 17 +++++++++++++++++
 src/db/mod.rs | 24 ++++++++++++++++++++++++
 3 files changed, 46 insertions(+)

diff --git a/src/api.rs b/src/api.rs
index 49eea89..ae6beb9 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -271,6 +271,7 @@ pub struct QueryParams<DB, EP> {
 impl QueryParams<IndexDatabase, EmptyAuxParams> {
   /// Generates `QueryParams` for a `Database` that is not KV
   fn new(cp: &CommonParams, params: &IndexParams) -> ResultBoxedError<Self> {
+    params.check()?;
     let s = random_ternary_vector(params.get_dim());
     Ok(Self {
       lhs: cp.mult_left(&s)?,
@@ -343,6 +344,10 @@ impl QueryParams<IndexDatabase, EmptyAuxParams> {
 impl QueryParams<KVDatabase, FilterParams> {
   /// Generates `QueryParams` for a `Database` that is KV
   fn new(cp: &CommonParams, params: &KVParams) -> ResultBoxedError<Self> {
+    params.check()?;
+    params
+      .get_filter_params()
+      .check(params.get_total_records())?;
     let s = random_ternary_vector(params.get_dim());
     Ok(Self {
       lhs: cp.mult_left(&s)?,
diff --git a/src/db/kv.rs b/src/db/kv.rs
index bb56dba..ff44899 100644
--- a/src/db/kv.rs
+++ b/src/db/kv.rs
@@ -103,6 +103,23 @@ pub struct FilterParams {
   pub segment_count_length: u32,
 }
 impl FilterParams {
+  /// Checks that the positions of every key lie within the given number of
+  /// rows, in three different segments
+  pub fn check(&self, rows: usize) -> ResultBoxedError<()> {
+    let length = self.segment_length;
+    let end = u64::from(self.segment_count_length) + 2 * u64::from(length);
+    if !length.is_power_of_two()
+      || self.segment_length_mask != length - 1
+      || self.segment_count_length == 0
+      || self.segment_count_length % length != 0
+      || end != rows as u64
+      || end > u64::from(u32::MAX)
+    {
+      return Err("The filter parameters do not fit the database".into());
+    }
+    Ok(())
+  }
+
   pub fn get_hash_evals(&self, key: &[u64; 4]) -> Vec<usize> {
     BinaryFuseP32::hash_eval(
       key,
diff --git a/src/db/mod.rs b/src/db/mod.rs
index 15f793a..0c17506 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -97,6 +97,30 @@ pub trait BaseParams {
       .map(|i| vec_mult_u32_u32(s, &cols[i]))
       .collect()
   }
+  /// Checks that the parameters can be those of a database: the encoding is
+  /// supported and the RHS has one column of the LWE dimension per digit
+  fn check(&self) -> ResultBoxedError<()> {
+    let (elem_size, bits) = (self.get_elem_size(), self.get_plaintext_bits());
+    check_encoding(elem_size, bits)?;
+    let width = elem_size / bits + usize::from(elem_size % bits != 0);
+    if self.get_rhs().len() != width {
+      return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+        "parameters of {} columns, expected {}",
+        self.get_rhs().len(),
+        width
+      ))));
+    }
+    for col in self.get_rhs() {
+      if col.len() != self.get_dim() {
+        return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+          "parameters with a column of {} words, expected {}",
+          col.len(),
+          self.get_dim()
+        ))));
+      }
+    }
+    Ok(())
+  }
   fn get_total_records(&self) -> usize;
   fn get_dim(&self) -> usize;
   fn get_elem_size(&self) -> usize;
-- 
2.43.0

