From df7d255387e27950a9c034db40337bf886e08205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:05 +0000
Subject: [PATCH 01/10] fix: read 8 byte words when resuming SHA-512 from a
 midstate

---
 src/sha512.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sha512.rs b/src/sha512.rs
index 7c73967..36480e1 100644
--- a/src/sha512.rs
+++ b/src/sha512.rs
@@ -124,8 +124,8 @@ impl HashEngine for Engine {
         assert!(length % BLOCK_SIZE == 0, "length is no multiple of the block size");
 
         let mut ret = [0; 8];
-        for (ret_val, midstate_bytes) in ret.iter_mut().zip(midstate[..].chunks_exact(4)) {
-            *ret_val = u64::from_be_bytes(midstate_bytes.try_into().expect("4 byte slice"));
+        for (ret_val, midstate_bytes) in ret.iter_mut().zip(midstate[..].chunks_exact(8)) {
+            *ret_val = u64::from_be_bytes(midstate_bytes.try_into().expect("8 byte slice"));
         }
 
         Engine { buffer: [0; BLOCK_SIZE], h: ret, length }
-- 
2.43.0


From a66dedbc511341c5292c751f7a7a6cee34ab2425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:05 +0000
Subject: [PATCH 02/10] fix: read little-endian words when resuming RIPEMD-160
 from a midstate

---
 src/ripemd160.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ripemd160.rs b/src/ripemd160.rs
index e064084..2794c4f 100644
--- a/src/ripemd160.rs
+++ b/src/ripemd160.rs
@@ -92,7 +92,7 @@ impl HashEngine for Engine {
 
         let mut ret = [0; 5];
         for (ret_val, midstate_bytes) in ret.iter_mut().zip(midstate[..].chunks_exact(4)) {
-            *ret_val = u32::from_be_bytes(midstate_bytes.try_into().expect("4 byte slice"));
+            *ret_val = u32::from_le_bytes(midstate_bytes.try_into().expect("4 byte slice"));
         }
 
         Engine { buffer: [0; BLOCK_SIZE], h: ret, length }
-- 
2.43.0


From b33752664660d7e1375e4c52a0ac59f689bf5230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:05 +0000
Subject: [PATCH 03/10] fix: resume the outer HMAC engine with its own length

---
 src/hmac.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hmac.rs b/src/hmac.rs
index 8aa4470..fcb34f9 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -266,7 +266,11 @@ impl<E: HashEngine> HashEngine for Engine<E> {
     fn from_midstate(midstate: Midstate<E>, length: usize) -> Self {
         Engine {
             iengine: E::from_midstate(midstate.inner, length),
-            oengine: E::from_midstate(midstate.outer, length),
+            // The outer engine has only absorbed the padded key so far.
+            oengine: E::from_midstate(
+                midstate.outer,
+                E::default().n_bytes_hashed() + E::BLOCK_SIZE,
+            ),
         }
     }
 }
-- 
2.43.0


From f8a8a281bb966925c94f8eda27b12f58c099a589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:05 +0000
Subject: [PATCH 04/10] fix: keep the length when resuming SipHash from a
 midstate

---
 src/siphash24.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siphash24.rs b/src/siphash24.rs
index 2f93fe8..64164d0 100644
--- a/src/siphash24.rs
+++ b/src/siphash24.rs
@@ -199,8 +199,8 @@ impl HashEngine for Engine {
     fn midstate(&self) -> State { self.state.clone() }
 
     #[inline]
-    fn from_midstate(midstate: Self::Midstate, _length: usize) -> Engine {
-        Engine { state: midstate, ..Default::default() }
+    fn from_midstate(midstate: Self::Midstate, length: usize) -> Engine {
+        Engine { state: midstate, length, ..Default::default() }
     }
 }
 
-- 
2.43.0


From 116aac4cd866c75c626d8a768d43e3d4b99dd5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:05 +0000
Subject: [PATCH 05/10] fix: build with alloc or schemars but without std

---
 src/hmac.rs            | 11 ++++++-----
 src/internal_macros.rs | 11 ++++++-----
 src/lib.rs             |  2 +-
 src/sha256t.rs         | 11 ++++++-----
 4 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/hmac.rs b/src/hmac.rs
index fcb34f9..b8dec89 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -77,7 +77,7 @@ impl<const N: usize> Hash<N> {
 
     /// Copies the underlying bytes into a new `Vec`.
     #[cfg(feature = "alloc")]
-    pub fn to_bytes(&self) -> Vec<u8> { self.0.to_vec() }
+    pub fn to_bytes(&self) -> alloc::vec::Vec<u8> { self.0.to_vec() }
 
     /// Returns an all zero hash.
     ///
@@ -89,14 +89,15 @@ impl<const N: usize> Hash<N> {
 
 #[cfg(feature = "schemars")]
 impl<const N: usize> schemars::JsonSchema for Hash<N> {
-    fn schema_name() -> std::string::String { "Hash".to_owned() }
+    fn schema_name() -> alloc::string::String { "Hash".into() }
 
     fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
-        let mut schema: schemars::schema::SchemaObject = <String>::json_schema(gen).into();
-        schema.string = Some(Box::new(schemars::schema::StringValidation {
+        let mut schema: schemars::schema::SchemaObject =
+            <alloc::string::String>::json_schema(gen).into();
+        schema.string = Some(alloc::boxed::Box::new(schemars::schema::StringValidation {
             max_length: Some(N as u32 * 2), // FIXME: Remove cast.
             min_length: Some(N as u32 * 2),
-            pattern: Some("[0-9a-fA-F]+".to_owned()),
+            pattern: Some("[0-9a-fA-F]+".into()),
         }));
         schema.into()
     }
diff --git a/src/internal_macros.rs b/src/internal_macros.rs
index cc36cc2..46e7afd 100644
--- a/src/internal_macros.rs
+++ b/src/internal_macros.rs
@@ -213,7 +213,7 @@ macro_rules! hash_type {
             /// Copies the underlying bytes into a new `Vec`.
             #[cfg(feature = "alloc")]
             #[inline]
-            pub fn to_bytes(&self) -> Vec<u8> { self.0.to_vec() }
+            pub fn to_bytes(&self) -> alloc::vec::Vec<u8> { self.0.to_vec() }
 
             /// Returns an all zero hash.
             ///
@@ -225,15 +225,16 @@ macro_rules! hash_type {
 
         #[cfg(feature = "schemars")]
         impl schemars::JsonSchema for Hash {
-            fn schema_name() -> String { "Hash".to_owned() }
+            fn schema_name() -> alloc::string::String { "Hash".into() }
 
             fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
                 let len = $bits / 8;
-                let mut schema: schemars::schema::SchemaObject = <String>::json_schema(gen).into();
-                schema.string = Some(Box::new(schemars::schema::StringValidation {
+                let mut schema: schemars::schema::SchemaObject =
+                    <alloc::string::String>::json_schema(gen).into();
+                schema.string = Some(alloc::boxed::Box::new(schemars::schema::StringValidation {
                     max_length: Some(len * 2),
                     min_length: Some(len * 2),
-                    pattern: Some("[0-9a-fA-F]+".to_owned()),
+                    pattern: Some("[0-9a-fA-F]+".into()),
                 }));
                 schema.into()
             }
diff --git a/src/lib.rs b/src/lib.rs
index 4caa767..148e418 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -83,7 +83,7 @@
 #![allow(clippy::manual_range_contains)] // More readable than clippy's format.
 #![allow(clippy::needless_borrows_for_generic_args)] // https://github.com/rust-lang/rust-clippy/issues/12454
 
-#[cfg(all(feature = "alloc", not(feature = "std")))]
+#[cfg(any(feature = "alloc", feature = "schemars"))]
 extern crate alloc;
 #[cfg(any(test, feature = "std"))]
 extern crate core;
diff --git a/src/sha256t.rs b/src/sha256t.rs
index 798c111..3247bc5 100644
--- a/src/sha256t.rs
+++ b/src/sha256t.rs
@@ -118,7 +118,7 @@ impl<T: Tag> Hash<T> {
 
     /// Copies the underlying bytes into a new `Vec`.
     #[cfg(feature = "alloc")]
-    pub fn to_bytes(&self) -> Vec<u8> { self.0.to_vec() }
+    pub fn to_bytes(&self) -> alloc::vec::Vec<u8> { self.0.to_vec() }
 
     /// Returns an all zero hash.
     ///
@@ -130,14 +130,15 @@ impl<T: Tag> Hash<T> {
 
 #[cfg(feature = "schemars")]
 impl<T: Tag> schemars::JsonSchema for Hash<T> {
-    fn schema_name() -> String { "Hash".to_owned() }
+    fn schema_name() -> alloc::string::String { "Hash".into() }
 
     fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
-        let mut schema: schemars::schema::SchemaObject = <String>::json_schema(gen).into();
-        schema.string = Some(Box::new(schemars::schema::StringValidation {
+        let mut schema: schemars::schema::SchemaObject =
+            <alloc::string::String>::json_schema(gen).into();
+        schema.string = Some(alloc::boxed::Box::new(schemars::schema::StringValidation {
             max_length: Some(32 * 2),
             min_length: Some(32 * 2),
-            pattern: Some("[0-9a-fA-F]+".to_owned()),
+            pattern: Some("[0-9a-fA-F]+".into()),
         }));
         schema.into()
     }
-- 
2.43.0


From 47aee057c4ba148599177038be420292adabaf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:05 +0000
Subject: [PATCH 06/10] fix: build SHA-256 with cfg(hashes_fuzz)

---
 src/sha256.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sha256.rs b/src/sha256.rs
index b089486..c8b9d4c 100644
--- a/src/sha256.rs
+++ b/src/sha256.rs
@@ -73,8 +73,8 @@ impl HashEngine for Engine {
     }
 
     #[cfg(hashes_fuzz)]
-    fn finalize(mut self) -> Self::Digest {
-        let mut hash = e.midstate().to_byte_array();
+    fn finalize(self) -> Self::Digest {
+        let mut hash = self.midstate().to_byte_array();
         if hash == [0; 32] {
             // Assume sha256 is secure and never generate 0-hashes (which represent invalid
             // secp256k1 secret keys, causing downstream application breakage).
-- 
2.43.0


From a9a9e09e1e8e01551c0ccced52801e09439ea244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:05 +0000
Subject: [PATCH 07/10] fix: encode the whole 128 bit SHA-512 message length

---
 src/sha512.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sha512.rs b/src/sha512.rs
index 36480e1..4da1f4c 100644
--- a/src/sha512.rs
+++ b/src/sha512.rs
@@ -77,7 +77,7 @@ impl HashEngine for Engine {
     #[inline]
     fn finalize(mut self) -> Self::Digest {
         // pad buffer with a single 1-bit then all 0s, until there are exactly 16 bytes remaining
-        let data_len = self.length as u64;
+        let data_len = self.length as u128;
 
         let zeroes = [0; BLOCK_SIZE - 16];
         self.input(&[0x80]);
@@ -88,7 +88,6 @@ impl HashEngine for Engine {
         self.input(&zeroes[..pad_length]);
         debug_assert_eq!(self.length % BLOCK_SIZE, zeroes.len());
 
-        self.input(&[0; 8]);
         self.input(&(8 * data_len).to_be_bytes());
         debug_assert_eq!(self.length % BLOCK_SIZE, 0);
 
-- 
2.43.0


From bbae2a079bd0ece13c67fa3a7891bcbafe0a97db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:05 +0000
Subject: [PATCH 08/10] fix: do not share one JSON schema definition between
 all hash types

---
 src/hmac.rs            | 3 +++
 src/internal_macros.rs | 3 +++
 src/sha256t.rs         | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/hmac.rs b/src/hmac.rs
index b8dec89..061e1f0 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -91,6 +91,9 @@ impl<const N: usize> Hash<N> {
 impl<const N: usize> schemars::JsonSchema for Hash<N> {
     fn schema_name() -> alloc::string::String { "Hash".into() }
 
+    // The name is shared by all hash types so it must not be used as a reference.
+    fn is_referenceable() -> bool { false }
+
     fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
         let mut schema: schemars::schema::SchemaObject =
             <alloc::string::String>::json_schema(gen).into();
diff --git a/src/internal_macros.rs b/src/internal_macros.rs
index 46e7afd..4572cb0 100644
--- a/src/internal_macros.rs
+++ b/src/internal_macros.rs
@@ -227,6 +227,9 @@ macro_rules! hash_type {
         impl schemars::JsonSchema for Hash {
             fn schema_name() -> alloc::string::String { "Hash".into() }
 
+            // The name is shared by all hash types so it must not be used as a reference.
+            fn is_referenceable() -> bool { false }
+
             fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
                 let len = $bits / 8;
                 let mut schema: schemars::schema::SchemaObject =
diff --git a/src/sha256t.rs b/src/sha256t.rs
index 3247bc5..b118fe3 100644
--- a/src/sha256t.rs
+++ b/src/sha256t.rs
@@ -132,6 +132,9 @@ impl<T: Tag> Hash<T> {
 impl<T: Tag> schemars::JsonSchema for Hash<T> {
     fn schema_name() -> alloc::string::String { "Hash".into() }
 
+    // The name is shared by all hash types so it must not be used as a reference.
+    fn is_referenceable() -> bool { false }
+
     fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
         let mut schema: schemars::schema::SchemaObject =
             <alloc::string::String>::json_schema(gen).into();
-- 
2.43.0


From 76cd51c48d4a225a77f587b4b1ebba0ca7af0795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:39 +0000
Subject: [PATCH 09/10] fix: honour precision and case when formatting HMAC
 values

---
 src/hmac.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/hmac.rs b/src/hmac.rs
index 061e1f0..3c14777 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -85,6 +85,23 @@ impl<const N: usize> Hash<N> {
     /// create it, however it is used in various places in Bitcoin e.g., the Bitcoin genesis
     /// block's previous blockhash and the coinbase transaction's outpoint txid.
     pub fn all_zeros() -> Self { Self([0x00; N]) }
+
+    /// Formats the hash as hex digits, honouring all formatting options.
+    fn fmt_hex(&self, f: &mut fmt::Formatter, case: hex::Case) -> fmt::Result {
+        // Large enough for all the hash functions in this crate.
+        const MAX_LEN: usize = 64;
+
+        if N <= MAX_LEN {
+            let mut encoder = hex::buf_encoder::BufEncoder::<{ MAX_LEN * 2 }>::new();
+            encoder.put_bytes(self.0.iter(), case);
+            f.pad(encoder.as_str())
+        } else {
+            match case {
+                hex::Case::Lower => fmt::LowerHex::fmt(&self.0.as_hex(), f),
+                hex::Case::Upper => fmt::UpperHex::fmt(&self.0.as_hex(), f),
+            }
+        }
+    }
 }
 
 #[cfg(feature = "schemars")]
@@ -127,14 +144,14 @@ impl<const N: usize> fmt::Debug for Hash<N> {
 impl<const N: usize> fmt::LowerHex for Hash<N> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         // FIXME: Can't use hex_fmt_exact because of N.
-        fmt::LowerHex::fmt(&self.0.as_hex(), f)
+        self.fmt_hex(f, hex::Case::Lower)
     }
 }
 
 impl<const N: usize> fmt::UpperHex for Hash<N> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         // FIXME: Can't use hex_fmt_exact because of N.
-        fmt::UpperHex::fmt(&self.0.as_hex(), f)
+        self.fmt_hex(f, hex::Case::Upper)
     }
 }
 impl<const N: usize> ops::Index<usize> for Hash<N> {
-- 
2.43.0


From 805b40ed243192184447517281635183d6c35b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:20 +0000
Subject: [PATCH 10/10] fix: derive the SipHash load pointer from the whole
 slice

---
 src/siphash24.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siphash24.rs b/src/siphash24.rs
index 64164d0..132a85c 100644
--- a/src/siphash24.rs
+++ b/src/siphash24.rs
@@ -43,7 +43,7 @@ macro_rules! load_int_le {
         debug_assert!($i + mem::size_of::<$int_ty>() <= $buf.len());
         let mut data = 0 as $int_ty;
         ptr::copy_nonoverlapping(
-            $buf.get_unchecked($i),
+            $buf.as_ptr().add($i),
             &mut data as *mut _ as *mut u8,
             mem::size_of::<$int_ty>(),
         );
-- 
2.43.0

