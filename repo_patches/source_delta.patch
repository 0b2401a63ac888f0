From 9ce1ceaaf2c4277bbe761b20eebb5b9d8b53cad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 1/4] fix: keep the chacha20 SSE2 backend within SSE2

_mm_extract_epi32 is an SSE4.1 instruction, but the function calling it only
enables (and the caller only checks for) SSE2. Read the high counter word with
a byte shift instead.
---
 chacha20/src/backends/sse2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chacha20/src/backends/sse2.rs b/chacha20/src/backends/sse2.rs
index f6479a1..928c870 100644
--- a/chacha20/src/backends/sse2.rs
+++ b/chacha20/src/backends/sse2.rs
@@ -51,7 +51,7 @@ where
 
     state[12] = _mm_cvtsi128_si32(backend.v[3]) as u32;
     if size_of::<V::Counter>() == 8 {
-        state[13] = _mm_extract_epi32(backend.v[3], 1) as u32;
+        state[13] = _mm_cvtsi128_si32(_mm_srli_si128(backend.v[3], 4)) as u32;
     }
 }
 
@@ -130,7 +130,7 @@ where
     backend.gen_ks_blocks(buffer);
 
     core.state[12] = _mm_cvtsi128_si32(backend.v[3]) as u32;
-    core.state[13] = _mm_extract_epi32(backend.v[3], 1) as u32;
+    core.state[13] = _mm_cvtsi128_si32(_mm_srli_si128(backend.v[3], 4)) as u32;
 }
 
 #[cfg(feature = "rng")]
-- 
2.43.0


From e29dd555ad9741027fe26213732d977414816bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 2/4] fix: ChaCha RNG get_block_pos after the block counter
 wrapped

The 64-bit block counter wraps around, so after it did the subtraction of the
buffered blocks underflowed and panicked when overflow checks are enabled.
---
 chacha20/src/rng.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chacha20/src/rng.rs b/chacha20/src/rng.rs
index d8c2824..6d31489 100644
--- a/chacha20/src/rng.rs
+++ b/chacha20/src/rng.rs
@@ -252,7 +252,9 @@ macro_rules! impl_chacha_rng {
                 let counter = self.core.core.get_block_pos();
                 let offset = self.core.word_offset();
                 if offset != 0 {
-                    counter - u64::from(BUF_BLOCKS) + offset as u64 / u64::from(BLOCK_WORDS)
+                    counter
+                        .wrapping_sub(u64::from(BUF_BLOCKS))
+                        .wrapping_add(offset as u64 / u64::from(BLOCK_WORDS))
                 } else {
                     counter
                 }
-- 
2.43.0


From 33853fa7c8e4c2d301ae0a9cb79fccecba40d1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 3/4] fix: salsa20 last keystream block with overflow checks
 enabled

Generating the block at the maximum block position is valid (the counter then
wraps to its initial value), e.g. in try_apply_keystream_partial, but panicked
when overflow checks are enabled.
---
 salsa20/src/backends/soft.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salsa20/src/backends/soft.rs b/salsa20/src/backends/soft.rs
index caf2693..7c3c0fd 100644
--- a/salsa20/src/backends/soft.rs
+++ b/salsa20/src/backends/soft.rs
@@ -22,7 +22,7 @@ impl<R: Unsigned> StreamCipherBackend for Backend<'_, R> {
     fn gen_ks_block(&mut self, block: &mut Block<Self>) {
         let res = run_rounds::<R>(&self.0.state);
 
-        self.0.set_block_pos(self.0.get_block_pos() + 1);
+        self.0.set_block_pos(self.0.get_block_pos().wrapping_add(1));
 
         for (chunk, val) in block.chunks_exact_mut(4).zip(res.iter()) {
             chunk.copy_from_slice(&val.to_le_bytes());
-- 
2.43.0


From ab2bd8fa0dead816c9dab78b02aec630dfdc2d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:11 +0000
Subject: [PATCH 4/4] fix: keep the 32-bit counter out of the nonce when a
 ChaChaCore<_, Ietf> is used as an RNG core

from_seed passed an 8-byte IV, which always panicked for the 12-byte IV
variant, and generate() carried the 32-bit counter into the first nonce
word on the portable, SSE2 and AVX2 backends.
---
 chacha20/src/backends/avx2.rs | 26 ++++++++++++++++++++++----
 chacha20/src/backends/soft.rs |  4 +++-
 chacha20/src/backends/sse2.rs |  4 +++-
 chacha20/src/rng.rs           |  3 ++-
 4 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/chacha20/src/backends/avx2.rs b/chacha20/src/backends/avx2.rs
index 2d7c3f5..a64b949 100644
--- a/chacha20/src/backends/avx2.rs
+++ b/chacha20/src/backends/avx2.rs
@@ -93,11 +93,19 @@ where
         _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(2))),
     ];
     let mut c = _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(3)));
-    c = _mm256_add_epi64(c, _mm256_set_epi64x(0, 1, 0, 0));
+    c = match size_of::<V::Counter>() {
+        4 => _mm256_add_epi32(c, _mm256_set_epi32(0, 0, 0, 1, 0, 0, 0, 0)),
+        8 => _mm256_add_epi64(c, _mm256_set_epi64x(0, 1, 0, 0)),
+        _ => unreachable!(),
+    };
     let mut ctr = [c; N];
     for i in 0..N {
         ctr[i] = c;
-        c = _mm256_add_epi64(c, _mm256_set_epi64x(0, 2, 0, 2));
+        c = match size_of::<V::Counter>() {
+            4 => _mm256_add_epi32(c, _mm256_set_epi32(0, 0, 0, 2, 0, 0, 0, 2)),
+            8 => _mm256_add_epi64(c, _mm256_set_epi64x(0, 2, 0, 2)),
+            _ => unreachable!(),
+        };
     }
     let mut backend = Backend::<R, V> {
         v,
@@ -108,7 +116,11 @@ where
     backend.rng_gen_par_ks_blocks(buffer);
 
     core.state[12] = _mm256_extract_epi32(backend.ctr[0], 0) as u32;
-    core.state[13] = _mm256_extract_epi32(backend.ctr[0], 1) as u32;
+    match size_of::<V::Counter>() {
+        4 => {}
+        8 => core.state[13] = _mm256_extract_epi32(backend.ctr[0], 1) as u32,
+        _ => unreachable!(),
+    }
 }
 
 struct Backend<R: Rounds, V: Variant> {
@@ -188,7 +200,13 @@ impl<R: Rounds, V: Variant> Backend<R, V> {
 
             let pb = PAR_BLOCKS as i32;
             for c in self.ctr.iter_mut() {
-                *c = _mm256_add_epi64(*c, _mm256_set_epi64x(0, i64::from(pb), 0, i64::from(pb)));
+                *c = match size_of::<V::Counter>() {
+                    4 => _mm256_add_epi32(*c, _mm256_set_epi32(0, 0, 0, pb, 0, 0, 0, pb)),
+                    8 => {
+                        _mm256_add_epi64(*c, _mm256_set_epi64x(0, i64::from(pb), 0, i64::from(pb)))
+                    }
+                    _ => unreachable!(),
+                }
             }
 
             let mut block_ptr = blocks.as_mut_ptr().cast::<__m128i>();
diff --git a/chacha20/src/backends/soft.rs b/chacha20/src/backends/soft.rs
index ed448d4..cb6294b 100644
--- a/chacha20/src/backends/soft.rs
+++ b/chacha20/src/backends/soft.rs
@@ -54,7 +54,9 @@ impl<R: Rounds, V: Variant> Backend<'_, R, V> {
             let mut ctr = (u64::from(self.0.state[13]) << 32) | u64::from(self.0.state[12]);
             ctr = ctr.wrapping_add(1);
             self.0.state[12] = ctr as u32;
-            self.0.state[13] = (ctr >> 32) as u32;
+            if size_of::<V::Counter>() == 8 {
+                self.0.state[13] = (ctr >> 32) as u32;
+            }
 
             buffer[block * BLOCK_WORDS as usize..(block + 1) * BLOCK_WORDS as usize]
                 .copy_from_slice(&res);
diff --git a/chacha20/src/backends/sse2.rs b/chacha20/src/backends/sse2.rs
index 928c870..148dca2 100644
--- a/chacha20/src/backends/sse2.rs
+++ b/chacha20/src/backends/sse2.rs
@@ -130,7 +130,9 @@ where
     backend.gen_ks_blocks(buffer);
 
     core.state[12] = _mm_cvtsi128_si32(backend.v[3]) as u32;
-    core.state[13] = _mm_cvtsi128_si32(_mm_srli_si128(backend.v[3], 4)) as u32;
+    if size_of::<V::Counter>() == 8 {
+        core.state[13] = _mm_cvtsi128_si32(_mm_srli_si128(backend.v[3], 4)) as u32;
+    }
 }
 
 #[cfg(feature = "rng")]
diff --git a/chacha20/src/rng.rs b/chacha20/src/rng.rs
index 6d31489..477477b 100644
--- a/chacha20/src/rng.rs
+++ b/chacha20/src/rng.rs
@@ -37,7 +37,8 @@ impl<R: Rounds, V: Variant> SeedableRng for ChaChaCore<R, V> {
 
     #[inline]
     fn from_seed(seed: Self::Seed) -> Self {
-        ChaChaCore::new_internal(&seed, &[0u8; 8])
+        let iv_size = 16 - size_of::<V::Counter>();
+        ChaChaCore::new_internal(&seed, &[0u8; 12][..iv_size])
     }
 }
 
-- 
2.43.0

