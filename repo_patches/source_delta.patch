From 26af50ab1f4a0d9c36ffdc4bb33d0d1b768b8fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:06 +0000
Subject: [PATCH 1/3] hook: cfg(vsimd_mc) cap on the detected instruction set

---
 crates/vsimd/src/isa.rs | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/crates/vsimd/src/isa.rs b/crates/vsimd/src/isa.rs
index 95dba94..73fc4ed 100644
--- a/crates/vsimd/src/isa.rs
+++ b/crates/vsimd/src/isa.rs
@@ -92,9 +92,42 @@ unsafe impl InstructionSet for Fallback {
     }
 }
 
+// Model-checking hook: with `--cfg vsimd_mc`, `CAP` limits the instruction sets reported as available.
+#[allow(unexpected_cfgs, dead_code)]
+#[doc(hidden)]
+pub mod mc {
+    /// 0: fallback, 1: sse2, 2: ssse3, 3: sse4.1, 4: avx2
+    #[cfg(vsimd_mc)]
+    pub static CAP: core::sync::atomic::AtomicU8 = core::sync::atomic::AtomicU8::new(u8::MAX);
+
+    #[inline(always)]
+    #[must_use]
+    pub(crate) fn is_allowed(feature: &str) -> bool {
+        #[cfg(vsimd_mc)]
+        {
+            let level = match feature {
+                "sse2" => 1,
+                "ssse3" => 2,
+                "sse4.1" => 3,
+                "avx2" => 4,
+                _ => 0,
+            };
+            level <= CAP.load(core::sync::atomic::Ordering::Relaxed)
+        }
+        #[cfg(not(vsimd_mc))]
+        {
+            let _ = feature;
+            true
+        }
+    }
+}
+
 #[allow(unused_macros)]
 macro_rules! is_feature_detected {
-    ($feature:tt) => {{
+    ($feature:tt) => {
+        $crate::isa::mc::is_allowed($feature) && is_feature_detected!(@raw $feature)
+    };
+    (@raw $feature:tt) => {{
         #[cfg(target_feature = $feature)]
         {
             true
-- 
2.43.0


From 666e05380054829e9a630d6c4e06225da5c68bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:10 +0000
Subject: [PATCH 2/3] fix: par_encode returns Err instead of panicking when dst
 is too short

---
 crates/base64-simd/src/parallel.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/base64-simd/src/parallel.rs b/crates/base64-simd/src/parallel.rs
index 285860e..08c6c9a 100644
--- a/crates/base64-simd/src/parallel.rs
+++ b/crates/base64-simd/src/parallel.rs
@@ -21,8 +21,10 @@ impl Base64 {
         }
 
         let encoded_len = encoded_length_unchecked(src.len(), self.config);
+        ensure!(dst.len() >= encoded_len);
+
         let dst = unsafe { dst.into_uninit_slice() };
-        let dst = &mut dst[..encoded_len]; // panic?
+        let dst = &mut dst[..encoded_len];
 
         let chunks = (b + p) / p;
 
-- 
2.43.0


From 2848f6aa3ac9fff0a5544c090f22bdab8d7476a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:09 +0000
Subject: [PATCH 3/3] fix: byte swap needs only SSSE3, do not panic on SSSE3
 CPUs

utf16_swap_endianness and utf32_swap_endianness are dispatched to SSSE3, but
u16x8_bswap, u32x4_bswap and u64x2_bswap only matched SSE4.1 and reached
unreachable!() on x86 CPUs without AVX2.
---
 crates/vsimd/src/simd128.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/crates/vsimd/src/simd128.rs b/crates/vsimd/src/simd128.rs
index 867eca3..4fb20b9 100644
--- a/crates/vsimd/src/simd128.rs
+++ b/crates/vsimd/src/simd128.rs
@@ -1,13 +1,10 @@
 #![allow(clippy::missing_transmute_annotations)]
 
-use crate::isa::{NEON, SSE2, SSE41, WASM128};
+use crate::isa::{NEON, SSE2, SSE41, SSSE3, WASM128};
 use crate::unified;
 use crate::vector::V128;
 use crate::SIMD64;
 
-#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
-use crate::isa::SSSE3;
-
 #[cfg(any(
     any(target_arch = "x86", target_arch = "x86_64"),
     any(all(feature = "unstable", target_arch = "arm"), target_arch = "aarch64"),
@@ -643,10 +640,10 @@ pub unsafe trait SIMD128: SIMD64 {
         }
     }
 
-    /// T1: SSE41, NEON, WASM128
+    /// T1: SSSE3, NEON, WASM128
     #[inline(always)]
     fn u16x8_bswap(self, a: V128) -> V128 {
-        if matches_isa!(Self, SSE41 | WASM128) {
+        if matches_isa!(Self, SSSE3 | WASM128) {
             return self.u8x16_swizzle(a, crate::bswap::SHUFFLE_U16X8);
         }
 
@@ -661,10 +658,10 @@ pub unsafe trait SIMD128: SIMD64 {
         }
     }
 
-    /// T1: SSE41, NEON, WASM128
+    /// T1: SSSE3, NEON, WASM128
     #[inline(always)]
     fn u32x4_bswap(self, a: V128) -> V128 {
-        if matches_isa!(Self, SSE41 | WASM128) {
+        if matches_isa!(Self, SSSE3 | WASM128) {
             return self.u8x16_swizzle(a, crate::bswap::SHUFFLE_U32X4);
         }
 
@@ -679,10 +676,10 @@ pub unsafe trait SIMD128: SIMD64 {
         }
     }
 
-    /// T1: SSE41, NEON, WASM128
+    /// T1: SSSE3, NEON, WASM128
     #[inline(always)]
     fn u64x2_bswap(self, a: V128) -> V128 {
-        if matches_isa!(Self, SSE41 | WASM128) {
+        if matches_isa!(Self, SSSE3 | WASM128) {
             return self.u8x16_swizzle(a, crate::bswap::SHUFFLE_U64X2);
         }
 
-- 
2.43.0

