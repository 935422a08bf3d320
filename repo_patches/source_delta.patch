From 56c0bd060d13d365f977ead56776c45688c526f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 1/9] fix: Poly1305 tag when the final accumulator is at least
 2^130-5

After adding 5 + 252 * 2^128 in freeze, h[16] reaches 256 exactly when the
accumulator is not fully reduced. h[16] >> 7 is then 2 rather than 0 or 1, so
the selection mask became 0xfffffffe and mixed the two candidate values.
Only bit 7 tells whether the subtraction went negative.
---
 src/poly1305.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/poly1305.rs b/src/poly1305.rs
index fce0a06..76ce071 100644
--- a/src/poly1305.rs
+++ b/src/poly1305.rs
@@ -209,7 +209,7 @@ impl PolyFunction {
             &[5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
             252,
         );
-        let negative = (self.h[16] >> 7).wrapping_neg();
+        let negative = ((self.h[16] >> 7) & 1).wrapping_neg();
         for (h_j, &h_orig_j) in self.h.iter_mut().zip(h_orig.iter()) {
             *h_j ^= negative & (h_orig_j ^ *h_j);
         }
-- 
2.43.0


From 8228838d387185070e48d0ea9e2a943b1793c5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 2/9] fix: HKDF expand overflowing its block counter on the
 longest outputs

(1..) over u8 steps past 255 when the 255th block is requested, which
panics in builds with overflow checks although up to 255 blocks are allowed.
---
 src/hkdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hkdf.rs b/src/hkdf.rs
index c5ec08e..839f31b 100644
--- a/src/hkdf.rs
+++ b/src/hkdf.rs
@@ -40,7 +40,7 @@ pub fn expand<H: HashFunction>(prk: &[u8], info: &[u8], okm: &mut [u8]) {
     assert!(digest_size <= prk.len());
     assert!(255 * digest_size >= okm.len());
     let mut hmac: Hmac<H> = Hmac::new(prk);
-    for (i, chunk) in (1..).zip(okm.chunks_mut(digest_size)) {
+    for (i, chunk) in (1..=255).zip(okm.chunks_mut(digest_size)) {
         hmac.update(info);
         hmac.update(&[i]);
         let tag = hmac.tag();
-- 
2.43.0


From 4f34d90022f8113821ffb120bf5a4ff06c0b8070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 3/9] fix: GCM block counter overflow on the longest allowed
 messages

(2..) over u32 steps past 2^32-1 when the last block counters are requested,
which panics in builds with overflow checks for messages within the documented
limit of 2^36-32 bytes.
---
 src/gcm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gcm.rs b/src/gcm.rs
index 5136370..6bd954d 100644
--- a/src/gcm.rs
+++ b/src/gcm.rs
@@ -87,7 +87,7 @@ impl<E: BlockCipher> Processor<E> {
 
     fn process(&self, counter: &mut [u8; 16], input: &[u8], output: &mut [u8]) {
         for (i, (input_chunk, output_chunk)) in
-            (2..).zip(input.chunks(16).zip(output.chunks_mut(16)))
+            (2..=u32::MAX).zip(input.chunks(16).zip(output.chunks_mut(16)))
         {
             let block = self.block(counter, i);
             for (block_byte, (input_byte, output_byte)) in
-- 
2.43.0


From 51627acfcd54d4d053c4b0d2dee2579bacc8653a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 4/9] fix: ChaCha20-Poly1305 accepting messages longer than its
 counter allows

Messages above 2^38 - 64 bytes (RFC 8439, 2.8) wrapped the 32-bit block counter:
keystream was reused and the block that keys Poly1305 was used for encryption.
Refuse them, as GCM does, and do not step the counter past its last value.
---
 src/poly1305.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/poly1305.rs b/src/poly1305.rs
index 76ce071..a95ce1d 100644
--- a/src/poly1305.rs
+++ b/src/poly1305.rs
@@ -26,9 +26,11 @@ impl AeadCipher for ChaCha20Poly1305 {
     ///
     /// # Panics
     ///
-    /// Panics if `input.len()` is not equal to `output.len()` or `nonce.len()` is not equal to 12.
+    /// Panics if `input.len()` is not equal to `output.len()`, `nonce.len()` is not equal to 12, or
+    /// `input.len()` is greater than 2^38 - 64.
     fn encrypt(&self, input: &[u8], nonce: &[u8], data: &[u8], output: &mut [u8]) -> [u8; 16] {
         assert_eq!(input.len(), output.len());
+        assert!((1 << 38) - 64 >= input.len() as u64);
         let cipher = &ChaCha20::new(&self.key, nonce);
         self.process(cipher, input, output);
         self.tag(cipher, output, data)
@@ -38,7 +40,8 @@ impl AeadCipher for ChaCha20Poly1305 {
     ///
     /// # Panics
     ///
-    /// Panics if `input.len()` is not equal to `output.len()` or `nonce.len()` is not equal to 12.
+    /// Panics if `input.len()` is not equal to `output.len()`, `nonce.len()` is not equal to 12, or
+    /// `input.len()` is greater than 2^38 - 64.
     fn decrypt(
         &self,
         input: &[u8],
@@ -48,6 +51,7 @@ impl AeadCipher for ChaCha20Poly1305 {
         output: &mut [u8],
     ) -> bool {
         assert_eq!(output.len(), input.len());
+        assert!((1 << 38) - 64 >= input.len() as u64);
         let cipher = &ChaCha20::new(&self.key, nonce);
         let expected_tag = self.tag(cipher, input, data);
         if util::verify_16(&expected_tag, tag) {
@@ -62,7 +66,7 @@ impl AeadCipher for ChaCha20Poly1305 {
 impl ChaCha20Poly1305 {
     fn process(&self, cipher: &ChaCha20, input: &[u8], output: &mut [u8]) {
         for (i, (input_chunk, output_chunk)) in
-            (1..).zip(input.chunks(64).zip(output.chunks_mut(64)))
+            (1..=u32::MAX).zip(input.chunks(64).zip(output.chunks_mut(64)))
         {
             let block = cipher.block(i);
             for (block_byte, (input_byte, output_byte)) in
-- 
2.43.0


From 7b89c258332b0cba076de6ce2d0d521505445a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 5/9] fix: Ed25519 verification accepting S that is not below
 the group order

Only the top three bits of S were checked, so adding the group order to S of a
valid signature gave a second valid signature (RFC 8032, 5.1.7 step 1 requires
S in the range 0 <= S < L).
---
 src/ed25519.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ed25519.rs b/src/ed25519.rs
index 1353faf..8e202b1 100644
--- a/src/ed25519.rs
+++ b/src/ed25519.rs
@@ -70,7 +70,7 @@ pub fn sign(message: &[u8], secret_key: &[u8]) -> [u8; 64] {
 /// Panics if `public_key.len()` is not equal to 32.
 pub fn verify(message: &[u8], signature: &[u8], public_key: &[u8]) -> bool {
     assert_eq!(32, public_key.len());
-    if signature.len() != 64 || (signature[63] & 224 != 0) {
+    if signature.len() != 64 || !sc_is_canonical(&signature[32..]) {
         return false;
     }
     let a = match GeP3::from_bytes_negate_vartime(public_key) {
@@ -335,6 +335,17 @@ impl Fe {
     }
 }
 
+/// The group order in little-endian form.
+const L: [u8; 32] = [
+    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
+];
+
+/// Checks whether a scalar is less than the group order.
+fn sc_is_canonical(s: &[u8]) -> bool {
+    s.iter().rev().lt(L.iter().rev())
+}
+
 fn sc_muladd(s: &mut [u8], a: &[u8; 64], b: &[u8; 64], c: &[u8; 64]) {
     assert_eq!(32, s.len());
     let a0 = 2097151 & load_3(a) as i64;
-- 
2.43.0


From b3c12868dc630a3d2977d21c8b234d1d171566f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 6/9] fix: Ed25519 verification accepting non-canonical public
 keys

RFC 8032, 5.1.3 decoding fails when y is not below 2^255-19 and when x is 0
with the sign bit set. Such keys were reduced or had the sign bit ignored.
---
 src/ed25519.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ed25519.rs b/src/ed25519.rs
index 8e202b1..5dd6e3c 100644
--- a/src/ed25519.rs
+++ b/src/ed25519.rs
@@ -1347,6 +1347,12 @@ impl GeP3 {
         let check = &mut Fe::default();
 
         h.y.assign_from_bytes(s);
+        let canonical = &mut [0; 32];
+        h.y.write_bytes(canonical);
+        canonical[31] |= s[31] & 0x80;
+        if verify_32(canonical, s) != 0 {
+            return None;
+        }
         h.z.assign_one();
         u.assign_square(&h.y);
         v.assign_product(u, &Fe::from(D));
@@ -1374,6 +1380,9 @@ impl GeP3 {
             h.x *= &Fe::from(SQRTM1);
         }
 
+        if s[31] >> 7 == 1 && h.x.is_nonzero() == 0 {
+            return None;
+        }
         if h.x.is_negative() == i32::from(s[31] >> 7) {
             h.x.neg();
         }
-- 
2.43.0


From 6d363b52588abd0a5662c11473dfa97fa7d6e647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 7/9] fix: Poly1305 reducing its final value with a branch on
 secret data

The previous repair of freeze made its selection mask provably 0 or all ones,
which lets LLVM turn the selection into a branch on the accumulator at
opt-level 3. Subtract the excess multiple of 2^130-5 arithmetically instead.
---
 src/poly1305.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/poly1305.rs b/src/poly1305.rs
index a95ce1d..8084639 100644
--- a/src/poly1305.rs
+++ b/src/poly1305.rs
@@ -207,16 +207,13 @@ impl PolyFunction {
     }
 
     fn freeze(&mut self) {
-        let h_orig = self.h;
-        add(
-            &mut self.h,
-            &[5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
-            252,
-        );
-        let negative = ((self.h[16] >> 7) & 1).wrapping_neg();
-        for (h_j, &h_orig_j) in self.h.iter_mut().zip(h_orig.iter()) {
-            *h_j ^= negative & (h_orig_j ^ *h_j);
-        }
+        // 1 if the value is at least 2^130 - 5, otherwise 0
+        let carry = self.h[..16].iter().fold(5, |u, &h_j| (u + h_j) >> 8);
+        let excess = (self.h[16] + carry) >> 2;
+        let mut c = [0; 16];
+        c[0] = 5 * excess as u8;
+        add(&mut self.h, &c, 0);
+        self.h[16] &= 3;
     }
 }
 
-- 
2.43.0


From 06e6e34a3869c7f9a1192f0abb4e903fdfb1303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:27 +0000
Subject: [PATCH 8/9] fix: check the GCM length limits in 64-bit arithmetic

On targets with 32-bit addresses 1 << 36 and 1 << 61 overflow usize: the crate
did not compile there, or every GCM call panicked.
---
 src/gcm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gcm.rs b/src/gcm.rs
index 6bd954d..62b800e 100644
--- a/src/gcm.rs
+++ b/src/gcm.rs
@@ -127,8 +127,8 @@ fn counter(nonce: &[u8]) -> [u8; 16] {
 fn check_bounds(message: &[u8], ciphertext: &[u8], nonce: &[u8], data: &[u8]) {
     assert_eq!(12, nonce.len());
     assert_eq!(message.len(), ciphertext.len());
-    assert!(1 << 36 > message.len() + 32);
-    assert!(1 << 61 > data.len());
+    assert!((1 << 36) - 32 > message.len() as u64);
+    assert!(1 << 61 > data.len() as u64);
 }
 
 #[cfg(test)]
-- 
2.43.0


From 048b4c1a330286a59ca2e069a6a0085314dd7178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:40 +0000
Subject: [PATCH 9/9] fix: do not link std when the std feature is off

Without the std feature the crate still declared extern crate std for every
build, so it could not be used on targets that have no standard library. Only
the tests need it.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 83dc000..64bed13 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,7 +2,7 @@
 #[cfg(feature = "std")]
 extern crate core;
 
-#[cfg(not(feature = "std"))]
+#[cfg(all(test, not(feature = "std")))]
 #[macro_use]
 pub(crate) extern crate std;
 
-- 
2.43.0

