From fe9a5763d8b6dc358c268d64e77e29be10f66745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 01/16] fix: use the U and V strides when reading the second
 row of 4:4:4 chroma

---
 src/formats/i444/read.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/formats/i444/read.rs b/src/formats/i444/read.rs
index e495f0d..944b2cc 100644
--- a/src/formats/i444/read.rs
+++ b/src/formats/i444/read.rs
@@ -45,10 +45,10 @@ impl<P: Primitive> I444Src for I444Reader<'_, P> {
         let y10_offset = ((y + 1) * self.y_stride) + x * P::SIZE;
 
         let u00_offset = (y * self.u_stride) + x * P::SIZE;
-        let u10_offset = ((y + 1) * self.y_stride) + x * P::SIZE;
+        let u10_offset = ((y + 1) * self.u_stride) + x * P::SIZE;
 
         let v00_offset = (y * self.v_stride) + x * P::SIZE;
-        let v10_offset = ((y + 1) * self.y_stride) + x * P::SIZE;
+        let v10_offset = ((y + 1) * self.v_stride) + x * P::SIZE;
 
         // Load Y pixels
         let y00 = P::load::<V>(&self.y[y00_offset..]);
-- 
2.43.0


From e5cfc6207e9862742fd7fbc514468fa7c6a8b03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 02/16] fix: correct the green luma coefficient of BT.2020

---
 src/color/space.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/color/space.rs b/src/color/space.rs
index 286f6e6..d3a06ad 100644
--- a/src/color/space.rs
+++ b/src/color/space.rs
@@ -290,7 +290,7 @@ macro_rules! make_matrices {
 make_matrices! {
     BT601_YUV_TO_RGB, BT601_RGB_TO_YUV: 0.299,  0.587,  0.114;
     BT709_YUV_TO_RGB, BT709_RGB_TO_YUV: 0.2126, 0.7152, 0.0722;
-    BT2020_YUV_TO_RGB, BT2020_RGB_TO_YUV: 0.2627, 0.322, 0.0593;
+    BT2020_YUV_TO_RGB, BT2020_RGB_TO_YUV: 0.2627, 0.678, 0.0593;
 }
 
 type BT2100ConvertFn<V> = unsafe fn(ColorTransfer, &[[f32; 3]; 3], V, V, V) -> (V, V, V);
-- 
2.43.0


From fdce780fa15f96d98041865cb44b1a3460276e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 03/16] fix: average the chroma of all four pixels when
 converting to subsampled ICtCp

---
 src/color/space.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/color/space.rs b/src/color/space.rs
index d3a06ad..459b791 100644
--- a/src/color/space.rs
+++ b/src/color/space.rs
@@ -337,11 +337,12 @@ unsafe fn bt2100_rgbx4_to_yx4_uv<V: Vector>(
     let yuv10 = f(transfer, rgb_to_xyz, r[2], g[2], b[2]);
     let yuv11 = f(transfer, rgb_to_xyz, r[3], g[3], b[3]);
 
-    let u = yuv00.1.vadd(yuv01.1).vadd(yuv00.1).vadd(yuv00.1);
-    let v = yuv00.2.vadd(yuv01.2).vadd(yuv00.2).vadd(yuv00.2);
+    // Add the upper and lower pixels, then the neighbouring columns of every 2x2 block
+    let (u0, u1) = yuv00.1.vadd(yuv10.1).unzip(yuv01.1.vadd(yuv11.1));
+    let (v0, v1) = yuv00.2.vadd(yuv10.2).unzip(yuv01.2.vadd(yuv11.2));
 
-    let u = u.vdivf(4.0);
-    let v = v.vdivf(4.0);
+    let u = u0.vadd(u1).vdivf(4.0);
+    let v = v0.vadd(v1).vdivf(4.0);
 
     ([yuv00.0, yuv01.0, yuv10.0, yuv11.0], u, v)
 }
-- 
2.43.0


From 152da1bc7004ed87b0e5ec487f7509a928df01dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 04/16] fix: make the SDR EOTF the inverse of the SDR OETF

---
 src/color/transfer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/color/transfer.rs b/src/color/transfer.rs
index 319602c..dacd52e 100644
--- a/src/color/transfer.rs
+++ b/src/color/transfer.rs
@@ -176,8 +176,8 @@ mod sdr {
         // a = i / 4.5
         let a = i.vdivf(4.5);
 
-        // b = ((i + 0.0993) / 1.099).powf(1.0 / 0.45)
-        let b = i.vaddf(0.0993).vdivf(1.099).vpowf(1.0 / 0.45);
+        // b = ((i + 0.099) / 1.099).powf(1.0 / 0.45)
+        let b = i.vaddf(0.099).vdivf(1.099).vpowf(1.0 / 0.45);
 
         V::select(a, b, mask)
     }
-- 
2.43.0


From ff2a2dde63f708cfef1f3137d0d987ef0046cade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 05/16] fix: avoid NaN from the pure gamma transfer functions
 for negative inputs

---
 src/color/transfer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/color/transfer.rs b/src/color/transfer.rs
index dacd52e..8320825 100644
--- a/src/color/transfer.rs
+++ b/src/color/transfer.rs
@@ -114,12 +114,14 @@ mod gamma {
 
     #[inline(always)]
     pub(super) unsafe fn linear_to_scaled<const GAMMA: u32, V: Vector>(i: V) -> V {
-        i.vpowf(1.0 / (GAMMA as f32 / 10.0))
+        // Avoid producing NaN for negative numbers
+        i.vmaxf(0.0).vpowf(1.0 / (GAMMA as f32 / 10.0))
     }
 
     #[inline(always)]
     pub(super) unsafe fn scaled_to_linear<const GAMMA: u32, V: Vector>(i: V) -> V {
-        i.vpowf(GAMMA as f32 / 10.0)
+        // Avoid producing NaN for negative numbers
+        i.vmaxf(0.0).vpowf(GAMMA as f32 / 10.0)
     }
 }
 
-- 
2.43.0


From f4ba9eba0dd3419e56a2f720c680d9b48dcfda9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 06/16] fix: round when storing from the scalar fallback like
 the SIMD paths do

---
 src/vector/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index cdbd172..5831a0d 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -236,44 +236,46 @@ unsafe impl Vector for f32 {
 
     #[inline(always)]
     unsafe fn write_u8(self, ptr: *mut u8) {
-        ptr.write(self as u8)
+        ptr.write(self.round_ties_even() as u8)
     }
     #[inline(always)]
     unsafe fn write_u8_2x(v0: Self, v1: Self, ptr: *mut u8) {
-        ptr.cast::<[u8; 2]>().write_unaligned([v0 as u8, v1 as u8]);
+        ptr.cast::<[u8; 2]>()
+            .write_unaligned([v0, v1].map(|v| v.round_ties_even() as u8));
     }
     #[inline(always)]
     unsafe fn write_u16(self, ptr: *mut u8) {
-        ptr.cast::<u16>().write_unaligned(self as u16);
+        ptr.cast::<u16>()
+            .write_unaligned(self.round_ties_even() as u16);
     }
     #[inline(always)]
     unsafe fn write_u16_2x(v0: Self, v1: Self, ptr: *mut u8) {
         ptr.cast::<[u16; 2]>()
-            .write_unaligned([v0 as u16, v1 as u16]);
+            .write_unaligned([v0, v1].map(|v| v.round_ties_even() as u16));
     }
 
     #[inline(always)]
     unsafe fn write_interleaved_3x_2x_u8(this: [[Self; 3]; 2], ptr: *mut u8) {
         ptr.cast::<[[u8; 3]; 2]>()
-            .write_unaligned(this.map(|f| f.map(|f| f as u8)));
+            .write_unaligned(this.map(|f| f.map(|f| f.round_ties_even() as u8)));
     }
 
     #[inline(always)]
     unsafe fn write_interleaved_3x_2x_u16(this: [[Self; 3]; 2], ptr: *mut u8) {
         ptr.cast::<[[u16; 3]; 2]>()
-            .write_unaligned(this.map(|f| f.map(|f| f as u16)));
+            .write_unaligned(this.map(|f| f.map(|f| f.round_ties_even() as u16)));
     }
 
     #[inline(always)]
     unsafe fn write_interleaved_4x_2x_u8(this: [[Self; 4]; 2], ptr: *mut u8) {
         ptr.cast::<[[u8; 4]; 2]>()
-            .write_unaligned(this.map(|f| f.map(|f| f as u8)));
+            .write_unaligned(this.map(|f| f.map(|f| f.round_ties_even() as u8)));
     }
 
     #[inline(always)]
     unsafe fn write_interleaved_4x_2x_u16(this: [[Self; 4]; 2], ptr: *mut u8) {
         ptr.cast::<[[u16; 4]; 2]>()
-            .write_unaligned(this.map(|f| f.map(|f| f as u16)));
+            .write_unaligned(this.map(|f| f.map(|f| f.round_ties_even() as u16)));
     }
 
     #[inline(always)]
-- 
2.43.0


From 676fe39850eecdd1f4778ab2c6025c8f0b8bab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 07/16] fix: saturate very large values when storing from AVX2
 vectors

---
 src/vector/avx2.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/vector/avx2.rs b/src/vector/avx2.rs
index 4d9fcf4..405605c 100644
--- a/src/vector/avx2.rs
+++ b/src/vector/avx2.rs
@@ -280,10 +280,18 @@ unsafe fn deinterleave_4x(
     (a, b, c, d)
 }
 
+/// Limit values to `max`, so they are never too large for the integer conversion and packing instructions.
+///
+/// NaN is passed through, which is later converted to 0
+#[inline(always)]
+unsafe fn limit(v: __m256, max: f32) -> __m256 {
+    _mm256_min_ps(_mm256_set1_ps(max), v)
+}
+
 #[inline(always)]
 unsafe fn f32x8x2_to_u8x16(l: __m256, h: __m256) -> [u8; 16] {
-    let l = _mm256_cvtps_epi32(l);
-    let h = _mm256_cvtps_epi32(h);
+    let l = _mm256_cvtps_epi32(limit(l, 255.0));
+    let h = _mm256_cvtps_epi32(limit(h, 255.0));
 
     let v = _mm256_packus_epi32(l, h);
     let v = _mm256_packus_epi16(v, v);
@@ -295,8 +303,8 @@ unsafe fn f32x8x2_to_u8x16(l: __m256, h: __m256) -> [u8; 16] {
 
 #[inline(always)]
 unsafe fn f32x8x2_to_u16x16(l: __m256, h: __m256) -> [u16; 16] {
-    let l = _mm256_cvtps_epi32(l);
-    let h = _mm256_cvtps_epi32(h);
+    let l = _mm256_cvtps_epi32(limit(l, 65535.0));
+    let h = _mm256_cvtps_epi32(limit(h, 65535.0));
 
     let v = _mm256_packus_epi32(l, h);
     let v = _mm256_permutevar8x32_epi32(v, _mm256_setr_epi32(0, 1, 4, 5, 2, 3, 6, 7));
@@ -306,7 +314,7 @@ unsafe fn f32x8x2_to_u16x16(l: __m256, h: __m256) -> [u16; 16] {
 
 #[inline(always)]
 unsafe fn f32x8_to_u8x8(v: __m256) -> [u8; 8] {
-    let v = _mm256_cvtps_epi32(v);
+    let v = _mm256_cvtps_epi32(limit(v, 255.0));
     let v = _mm256_packus_epi32(v, v);
     let v = _mm256_packus_epi16(v, v);
 
@@ -318,7 +326,7 @@ unsafe fn f32x8_to_u8x8(v: __m256) -> [u8; 8] {
 
 #[inline(always)]
 unsafe fn f32x8_to_u16x8(v: __m256) -> [u16; 8] {
-    let v = _mm256_cvtps_epi32(v);
+    let v = _mm256_cvtps_epi32(limit(v, 65535.0));
     let v = _mm256_packus_epi32(v, v);
 
     let a = _mm256_extract_epi64(v, 0);
@@ -331,17 +339,22 @@ unsafe fn f32x8_to_u16x8(v: __m256) -> [u16; 8] {
 
 #[inline(always)]
 unsafe fn interleave_f32x8x4_to_u8x32(r: __m256, g: __m256, b: __m256, a: __m256) -> __m256i {
-    let [rgba_lo, rgba_hi] = interleave_f32x8x4_to_u16x32(r, g, b, a);
+    let [rgba_lo, rgba_hi] = interleave_f32x8x4_to_u16x32(
+        limit(r, 255.0),
+        limit(g, 255.0),
+        limit(b, 255.0),
+        limit(a, 255.0),
+    );
 
     _mm256_packus_epi16(rgba_lo, rgba_hi)
 }
 
 #[inline(always)]
 unsafe fn interleave_f32x8x4_to_u16x32(r: __m256, g: __m256, b: __m256, a: __m256) -> [__m256i; 2] {
-    let r = _mm256_cvtps_epi32(r);
-    let g = _mm256_cvtps_epi32(g);
-    let b = _mm256_cvtps_epi32(b);
-    let a = _mm256_cvtps_epi32(a);
+    let r = _mm256_cvtps_epi32(limit(r, 65535.0));
+    let g = _mm256_cvtps_epi32(limit(g, 65535.0));
+    let b = _mm256_cvtps_epi32(limit(b, 65535.0));
+    let a = _mm256_cvtps_epi32(limit(a, 65535.0));
 
     let rb = _mm256_packus_epi32(r, b);
     let ga = _mm256_packus_epi32(g, a);
-- 
2.43.0


From 35d9414583e9ff079ff14bf1b4e775d8e205eb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 08/16] fix: saturate instead of wrapping around when storing
 from AVX-512 vectors

---
 src/vector/avx512.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/vector/avx512.rs b/src/vector/avx512.rs
index 24ee33b..e6b0d16 100644
--- a/src/vector/avx512.rs
+++ b/src/vector/avx512.rs
@@ -294,10 +294,19 @@ unsafe fn deinterleave_4x(
     (r, g, b, a)
 }
 
+/// Limit values to the range `0..=max` that is representable by the integer type they're stored as
+#[inline(always)]
+unsafe fn limit(v: __m512, max: f32) -> __m512 {
+    // NaN becomes 0
+    let v = _mm512_max_ps(v, _mm512_setzero_ps());
+
+    _mm512_min_ps(v, _mm512_set1_ps(max))
+}
+
 #[inline(always)]
 pub(crate) unsafe fn f32x16x2_to_u8x32(l: __m512, h: __m512) -> [u8; 32] {
-    let l = _mm512_cvtps_epi32(l);
-    let h = _mm512_cvtps_epi32(h);
+    let l = _mm512_cvtps_epi32(limit(l, 255.0));
+    let h = _mm512_cvtps_epi32(limit(h, 255.0));
 
     let l = _mm512_cvtepi32_epi8(l);
     let h = _mm512_cvtepi32_epi8(h);
@@ -307,8 +316,8 @@ pub(crate) unsafe fn f32x16x2_to_u8x32(l: __m512, h: __m512) -> [u8; 32] {
 
 #[inline(always)]
 pub(crate) unsafe fn f32x16x2_to_u16x32(l: __m512, h: __m512) -> [u16; 32] {
-    let l = _mm512_cvtps_epi32(l);
-    let h = _mm512_cvtps_epi32(h);
+    let l = _mm512_cvtps_epi32(limit(l, 65535.0));
+    let h = _mm512_cvtps_epi32(limit(h, 65535.0));
 
     let l = _mm512_cvtepi32_epi16(l);
     let h = _mm512_cvtepi32_epi16(h);
@@ -318,12 +327,12 @@ pub(crate) unsafe fn f32x16x2_to_u16x32(l: __m512, h: __m512) -> [u16; 32] {
 
 #[inline(always)]
 pub(crate) unsafe fn f32x16_to_u8x16(v: __m512) -> [u8; 16] {
-    transmute(_mm512_cvtepi32_epi8(_mm512_cvtps_epi32(v)))
+    transmute(_mm512_cvtepi32_epi8(_mm512_cvtps_epi32(limit(v, 255.0))))
 }
 
 #[inline(always)]
 pub(crate) unsafe fn f32x16_to_u16x16(v: __m512) -> [u16; 16] {
-    transmute(_mm512_cvtepi32_epi16(_mm512_cvtps_epi32(v)))
+    transmute(_mm512_cvtepi32_epi16(_mm512_cvtps_epi32(limit(v, 65535.0))))
 }
 
 #[inline(always)]
@@ -333,7 +342,12 @@ pub(crate) unsafe fn interleave_f32x16x4_to_u8x64(
     b: __m512,
     a: __m512,
 ) -> __m512i {
-    let [rgba_lo, rgba_hi] = interleave_f32x16x4_to_u16x64(r, g, b, a);
+    let [rgba_lo, rgba_hi] = interleave_f32x16x4_to_u16x64(
+        limit(r, 255.0),
+        limit(g, 255.0),
+        limit(b, 255.0),
+        limit(a, 255.0),
+    );
 
     _mm512_packus_epi16(rgba_lo, rgba_hi)
 }
@@ -345,10 +359,10 @@ pub(crate) unsafe fn interleave_f32x16x4_to_u16x64(
     b: __m512,
     a: __m512,
 ) -> [__m512i; 2] {
-    let r = _mm512_cvtps_epi32(r);
-    let g = _mm512_cvtps_epi32(g);
-    let b = _mm512_cvtps_epi32(b);
-    let a = _mm512_cvtps_epi32(a);
+    let r = _mm512_cvtps_epi32(limit(r, 65535.0));
+    let g = _mm512_cvtps_epi32(limit(g, 65535.0));
+    let b = _mm512_cvtps_epi32(limit(b, 65535.0));
+    let a = _mm512_cvtps_epi32(limit(a, 65535.0));
 
     let rb = _mm512_packus_epi32(r, b);
     let ga = _mm512_packus_epi32(g, a);
-- 
2.43.0


From 270640c40b7fb8abb35570b062c6fb741fe1fb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 09/16] fix: never write samples larger than the bit depth of
 the YUV format allows

---
 src/formats/i420/write.rs | 12 ++++++------
 src/formats/i422/write.rs | 16 ++++++++--------
 src/formats/i444/write.rs | 28 ++++++++++++++--------------
 src/vector/mod.rs         |  8 ++++++++
 4 files changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/formats/i420/write.rs b/src/formats/i420/write.rs
index dec3cef..46af128 100644
--- a/src/formats/i420/write.rs
+++ b/src/formats/i420/write.rs
@@ -74,13 +74,13 @@ where
             v,
         } = self.i420_src.read::<V>(x, y);
 
-        let y00 = y00.vmulf(self.max_value);
-        let y01 = y01.vmulf(self.max_value);
-        let y10 = y10.vmulf(self.max_value);
-        let y11 = y11.vmulf(self.max_value);
+        let y00 = y00.vmulf(self.max_value).vminf(self.max_value);
+        let y01 = y01.vmulf(self.max_value).vminf(self.max_value);
+        let y10 = y10.vmulf(self.max_value).vminf(self.max_value);
+        let y11 = y11.vmulf(self.max_value).vminf(self.max_value);
 
-        let u = u.vmulf(self.max_value);
-        let v = v.vmulf(self.max_value);
+        let u = u.vmulf(self.max_value).vminf(self.max_value);
+        let v = v.vmulf(self.max_value).vminf(self.max_value);
 
         let y00_offset = y * self.y_stride + x * P::SIZE;
         let y10_offset = (y + 1) * self.y_stride + x * P::SIZE;
diff --git a/src/formats/i422/write.rs b/src/formats/i422/write.rs
index 6cee11b..4592ef6 100644
--- a/src/formats/i422/write.rs
+++ b/src/formats/i422/write.rs
@@ -76,14 +76,14 @@ where
             v1,
         } = self.i422_src.read::<V>(x, y);
 
-        let y00 = y00.vmulf(self.max_value);
-        let y01 = y01.vmulf(self.max_value);
-        let y10 = y10.vmulf(self.max_value);
-        let y11 = y11.vmulf(self.max_value);
-        let u0 = u0.vmulf(self.max_value);
-        let u1 = u1.vmulf(self.max_value);
-        let v0 = v0.vmulf(self.max_value);
-        let v1 = v1.vmulf(self.max_value);
+        let y00 = y00.vmulf(self.max_value).vminf(self.max_value);
+        let y01 = y01.vmulf(self.max_value).vminf(self.max_value);
+        let y10 = y10.vmulf(self.max_value).vminf(self.max_value);
+        let y11 = y11.vmulf(self.max_value).vminf(self.max_value);
+        let u0 = u0.vmulf(self.max_value).vminf(self.max_value);
+        let u1 = u1.vmulf(self.max_value).vminf(self.max_value);
+        let v0 = v0.vmulf(self.max_value).vminf(self.max_value);
+        let v1 = v1.vmulf(self.max_value).vminf(self.max_value);
 
         let y00_offset = y * self.y_stride + x * P::SIZE;
         let y10_offset = (y + 1) * self.y_stride + x * P::SIZE;
diff --git a/src/formats/i444/write.rs b/src/formats/i444/write.rs
index c685fb7..76524c5 100644
--- a/src/formats/i444/write.rs
+++ b/src/formats/i444/write.rs
@@ -74,20 +74,20 @@ where
             px11,
         } = block;
 
-        let y00 = px00.y.vmulf(self.max_value);
-        let y01 = px01.y.vmulf(self.max_value);
-        let y10 = px10.y.vmulf(self.max_value);
-        let y11 = px11.y.vmulf(self.max_value);
-
-        let u00 = px00.u.vmulf(self.max_value);
-        let u01 = px01.u.vmulf(self.max_value);
-        let u10 = px10.u.vmulf(self.max_value);
-        let u11 = px11.u.vmulf(self.max_value);
-
-        let v00 = px00.v.vmulf(self.max_value);
-        let v01 = px01.v.vmulf(self.max_value);
-        let v10 = px10.v.vmulf(self.max_value);
-        let v11 = px11.v.vmulf(self.max_value);
+        let y00 = px00.y.vmulf(self.max_value).vminf(self.max_value);
+        let y01 = px01.y.vmulf(self.max_value).vminf(self.max_value);
+        let y10 = px10.y.vmulf(self.max_value).vminf(self.max_value);
+        let y11 = px11.y.vmulf(self.max_value).vminf(self.max_value);
+
+        let u00 = px00.u.vmulf(self.max_value).vminf(self.max_value);
+        let u01 = px01.u.vmulf(self.max_value).vminf(self.max_value);
+        let u10 = px10.u.vmulf(self.max_value).vminf(self.max_value);
+        let u11 = px11.u.vmulf(self.max_value).vminf(self.max_value);
+
+        let v00 = px00.v.vmulf(self.max_value).vminf(self.max_value);
+        let v01 = px01.v.vmulf(self.max_value).vminf(self.max_value);
+        let v10 = px10.v.vmulf(self.max_value).vminf(self.max_value);
+        let v11 = px11.v.vmulf(self.max_value).vminf(self.max_value);
 
         let y00_offset = y * self.y_stride + x * P::SIZE;
         let y10_offset = (y + 1) * self.y_stride + x * P::SIZE;
diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 5831a0d..9a36126 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -52,6 +52,14 @@ pub(crate) unsafe trait Vector: Debug + Copy + 'static {
         self.vmax(Self::splat(other))
     }
 
+    /// Limit all elements in the vector to the given maximum value, NaN is kept as is
+    #[inline(always)]
+    unsafe fn vminf(self, max: f32) -> Self {
+        let max = Self::splat(max);
+
+        Self::select(max, self, max.lt(self))
+    }
+
     /// Compare all element in self to other and return a mask with the results a < b
     unsafe fn lt(self, other: Self) -> Self::Mask;
     unsafe fn ltf(self, other: f32) -> Self::Mask {
-- 
2.43.0


From 5e3e090190a7755fbfffb13bbcf08d3987907f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 10/16] fix: do not scale the stride by the sample size when
 cropping, it is already in bytes

---
 src/crop.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crop.rs b/src/crop.rs
index a43448b..80e015f 100644
--- a/src/crop.rs
+++ b/src/crop.rs
@@ -93,7 +93,7 @@ fn crop_planes<'a, S: AnySlice + 'a>(
                 let y = plane_desc.height_op.op(window.y);
 
                 // First trim the bytes byte "in front" of the window
-                let split_at = (y * stride + x) * plane_desc.bytes_per_primitive;
+                let split_at = y * stride + x * plane_desc.bytes_per_primitive;
                 let (_, slice) = slice.slice_split_at(split_at);
 
                 // Trim the bytes at the end of the window
-- 
2.43.0


From 3bc75014144edcc0592f9a554e8b7ceab3798e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 11/16] fix: only copy and resize the rows that belong to the
 image

---
 src/copy.rs   | 14 +++++++++++---
 src/resize.rs | 13 +++++++++----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/copy.rs b/src/copy.rs
index de1a71a..abc4900 100644
--- a/src/copy.rs
+++ b/src/copy.rs
@@ -16,10 +16,18 @@ pub(crate) fn copy_impl(src: &dyn ImageRef, dst: &mut dyn ImageMut) -> Result<()
     for (desc, ((src_plane, src_stride), (dst_plane, dst_stride))) in
         desc.iter().zip(planes.zip(planes_mut))
     {
-        let n = desc.width_op.op(src.width()) * desc.bytes_per_primitive;
+        let n = desc.packed_stride(src.width());
 
-        let src_rows = src_plane.chunks_exact(src_stride);
-        let dst_rows = dst_plane.chunks_exact_mut(dst_stride);
+        if n == 0 {
+            continue;
+        }
+
+        // Only copy rows of the image, anything that comes after is not part of it.
+        // The last row might not be padded to the stride.
+        let rows = desc.height_op.op(src.height());
+
+        let src_rows = src_plane.chunks(src_stride).take(rows);
+        let dst_rows = dst_plane.chunks_mut(dst_stride).take(rows);
 
         for (src_row, dst_row) in src_rows.zip(dst_rows) {
             dst_row[..n].copy_from_slice(&src_row[..n]);
diff --git a/src/resize.rs b/src/resize.rs
index 624ce29..b8e6ff9 100644
--- a/src/resize.rs
+++ b/src/resize.rs
@@ -58,6 +58,9 @@ impl Resizer {
         let src_width = src.width();
         let dst_width = dst.width();
 
+        let src_height = src.height();
+        let dst_height = dst.height();
+
         let src_planes: Vec<(&[u8], usize)> = src.planes().collect();
         let dst_planes: Vec<(&mut [u8], usize)> = dst.planes_mut().collect();
 
@@ -78,8 +81,8 @@ impl Resizer {
                     let dst_fir_width = plane_desc.width_op.op(dst_width)
                         / (plane_desc.pixel_type.size() / plane_desc.bytes_per_primitive);
 
-                    let src_height = src_plane.len() / src_stride;
-                    let dst_height = dst_plane.len() / dst_stride;
+                    let src_height = plane_desc.height_op.op(src_height);
+                    let dst_height = plane_desc.height_op.op(dst_height);
 
                     let src = FirAdapterIntoImageView {
                         pixel_type: plane_desc.pixel_type,
@@ -209,7 +212,8 @@ unsafe impl<T: AsRef<[u8]> + Send + Sync, P: InnerPixel> fir::ImageView
     fn iter_rows(&self, start_row: u32) -> impl Iterator<Item = &[Self::Pixel]> {
         self.plane
             .as_ref()
-            .chunks_exact(self.stride)
+            .chunks(self.stride)
+            .take(self.height)
             .skip(start_row as usize)
             .map(|row| {
                 let row = &row[..self.width * P::pixel_type().size()];
@@ -231,7 +235,8 @@ unsafe impl<T: AsRef<[u8]> + AsMut<[u8]> + Send + Sync, P: InnerPixel> fir::Imag
     fn iter_rows_mut(&mut self, start_row: u32) -> impl Iterator<Item = &mut [Self::Pixel]> {
         self.plane
             .as_mut()
-            .chunks_exact_mut(self.stride)
+            .chunks_mut(self.stride)
+            .take(self.height)
             .skip(start_row as usize)
             .map(|row| {
                 let row = &mut row[..self.width * P::pixel_type().size()];
-- 
2.43.0


From 41f389e15d042ae334f57b02fbab94c5765442e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 12/16] fix: support crop windows which touch the bottom but
 not the left edge of the image

---
 src/crop.rs         |  2 ++
 src/multi_thread.rs |  5 ++++-
 src/pixel_format.rs |  2 +-
 src/plane_decs.rs   | 10 ++++++++++
 src/planes.rs       | 14 ++++++++++++--
 5 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/crop.rs b/src/crop.rs
index 80e015f..cbcb779 100644
--- a/src/crop.rs
+++ b/src/crop.rs
@@ -97,7 +97,9 @@ fn crop_planes<'a, S: AnySlice + 'a>(
                 let (_, slice) = slice.slice_split_at(split_at);
 
                 // Trim the bytes at the end of the window
+                // (a window touching the bottom of the image might not have a full last row)
                 let split_at = plane_desc.height_op.op(window.height) * stride;
+                let split_at = split_at.min(slice.slice_len());
                 let (slice, _) = slice.slice_split_at(split_at);
 
                 (slice, stride)
diff --git a/src/multi_thread.rs b/src/multi_thread.rs
index 91e9bcb..efe277d 100644
--- a/src/multi_thread.rs
+++ b/src/multi_thread.rs
@@ -106,7 +106,10 @@ pub(crate) fn split_planes<S: AnySlice>(
         let mut out = vec![];
 
         for (plane_desc, (slice, stride)) in plane_decs.iter().zip(&mut planes) {
-            let split_at = stride.strict_mul_(plane_desc.height_op.op(h));
+            // The last row of the plane might not be padded to the stride
+            let split_at = stride
+                .strict_mul_(plane_desc.height_op.op(h))
+                .min(slice.slice_len());
 
             let (prev, rem) = take(slice).slice_split_at(split_at);
             *slice = rem;
diff --git a/src/pixel_format.rs b/src/pixel_format.rs
index e7203a2..2bdb0c9 100644
--- a/src/pixel_format.rs
+++ b/src/pixel_format.rs
@@ -113,7 +113,7 @@ impl PixelFormat {
                 }
 
                 // Ensure slice is large enough
-                let min_len = stride.strict_mul_(plane.height_op.op(height));
+                let min_len = plane.min_len(stride, width, height);
 
                 if min_len > slice.len() {
                     return Err(BoundsCheckError::InvalidPlaneSize {
diff --git a/src/plane_decs.rs b/src/plane_decs.rs
index bdbff76..9eccfb2 100644
--- a/src/plane_decs.rs
+++ b/src/plane_decs.rs
@@ -23,6 +23,16 @@ impl PlaneDesc {
             .op(width)
             .strict_mul_(self.bytes_per_primitive)
     }
+
+    /// Smallest number of bytes the plane must have, the last row doesn't need to be padded to the stride
+    pub(crate) fn min_len(&self, stride: usize, width: usize, height: usize) -> usize {
+        match self.height_op.op(height).checked_sub(1) {
+            Some(rows) => stride
+                .strict_mul_(rows)
+                .strict_add_(self.packed_stride(width)),
+            None => 0,
+        }
+    }
 }
 
 /// Plane's number of primitives in relation to width / height
diff --git a/src/planes.rs b/src/planes.rs
index 7d5c899..bd82656 100644
--- a/src/planes.rs
+++ b/src/planes.rs
@@ -94,8 +94,18 @@ fn infer_impl<const N: usize, S: AnySlice>(
 
     let mut out: [MaybeUninit<S>; N] = [const { MaybeUninit::uninit() }; N];
 
-    for ((desc, stride), out) in plane_decs.into_iter().zip(strides).zip(out.iter_mut()) {
-        let split_at = desc.height_op.op(height).strict_mul_(stride);
+    for (i, ((desc, stride), out)) in plane_decs
+        .into_iter()
+        .zip(strides)
+        .zip(out.iter_mut())
+        .enumerate()
+    {
+        let mut split_at = desc.height_op.op(height).strict_mul_(stride);
+
+        // The last row of the last plane might not be padded to the stride
+        if i.strict_add_(1) == N && buf.slice_len() >= desc.min_len(stride, width, height) {
+            split_at = split_at.min(buf.slice_len());
+        }
 
         let (prev, rem) = buf.slice_split_at(split_at);
 
-- 
2.43.0


From 7f2f9b19e398320be7eb1005619ae503b03e0997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 13/16] fix: return errors instead of panicking in
 convert_multi_thread

---
 src/multi_thread.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/multi_thread.rs b/src/multi_thread.rs
index efe277d..30dd310 100644
--- a/src/multi_thread.rs
+++ b/src/multi_thread.rs
@@ -4,7 +4,7 @@ use rayon::iter::{IndexedParallelIterator, IntoParallelIterator, ParallelIterato
 
 use crate::{
     convert, convert_same_color_and_pixel_format, plane_decs::PlaneDesc, verify_input_windows,
-    AnySlice, ConvertError, Image, ImageMut, ImageRef, StrictApi,
+    AnySlice, ConvertError, Image, ImageMut, ImageRef, ImageRefExt, StrictApi,
 };
 
 /// Parallelizes [`convert`] using as many threads as there are CPU cores.
@@ -20,10 +20,14 @@ pub fn convert_multi_thread(
 
     let threads = num_cpus::get();
 
-    if threads == 1 {
+    if threads == 1 || src.width() == 0 || src.height() == 0 {
         return convert(src, dst);
     }
 
+    // Images must be large enough to be split up
+    src.bounds_check()?;
+    dst.bounds_check()?;
+
     let width = src.width();
     let height = src.height();
 
-- 
2.43.0


From ccd80fe5c90f8c1b55ef35bc4f426fe0ceb5d2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 14/16] fix: return an error from Image::from_buffer for
 buffers which are too small

---
 src/image.rs | 52 +++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 07ef233..b9ebd4c 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -1,4 +1,7 @@
-use crate::{infer, BoundsCheckError, ColorInfo, ImageMut, ImageRef, ImageRefExt, PixelFormat};
+use crate::{
+    infer, BoundsCheckError, ColorInfo, ImageMut, ImageRef, ImageRefExt,
+    InvalidNumberOfPlanesError, PixelFormat, StrictApi as _,
+};
 
 /// Basic wrapper around any image, implementing the [`ImageRef`] and [`ImageMut`] trait
 #[derive(Debug, Clone)]
@@ -41,10 +44,7 @@ impl Image<Vec<u8>> {
     }
 }
 
-impl<S> Image<S>
-where
-    Image<S>: ImageRef,
-{
+impl<S: AsRef<[u8]>> Image<S> {
     pub fn from_buffer(
         format: PixelFormat,
         buffer: S,
@@ -81,6 +81,10 @@ where
 
         let strides = strides.unwrap_or_else(|| format.packed_strides(width));
 
+        if let Buffer::Whole(buffer) = &buffer {
+            whole_buffer_check(format, buffer.as_ref().len(), &strides, width, height)?;
+        }
+
         let this = Self {
             format,
             buffer,
@@ -96,6 +100,44 @@ where
     }
 }
 
+/// Check that a buffer can be split up into the planes of an image
+fn whole_buffer_check(
+    format: PixelFormat,
+    mut len: usize,
+    strides: &[usize],
+    width: usize,
+    height: usize,
+) -> Result<(), BoundsCheckError> {
+    let planes = format.plane_desc();
+
+    if strides.len() != planes.len() {
+        return Err(InvalidNumberOfPlanesError {
+            expected: planes.len(),
+            got: strides.len(),
+        }
+        .into());
+    }
+
+    for (i, (plane, &stride)) in planes.iter().zip(strides).enumerate() {
+        // Only the last plane may omit the padding of its last row
+        let minimum = if i + 1 == planes.len() {
+            plane.min_len(stride, width, height)
+        } else {
+            stride.strict_mul_(plane.height_op.op(height))
+        };
+
+        len = len
+            .checked_sub(minimum)
+            .ok_or(BoundsCheckError::InvalidPlaneSize {
+                plane: i,
+                minimum,
+                got: len,
+            })?;
+    }
+
+    Ok(())
+}
+
 unsafe impl<S: AsRef<[u8]>> ImageRef for Image<S> {
     fn format(&self) -> PixelFormat {
         self.format
-- 
2.43.0


From 8b2db57c55385a104c207608439499e5f4dcdbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:32 +0000
Subject: [PATCH 15/16] fix: use the SMPTE ST 240 chromaticity of the red
 primary (0.630, 0.340)

---
 src/color/primaries.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/color/primaries.rs b/src/color/primaries.rs
index 3c12bfa..26ff851 100644
--- a/src/color/primaries.rs
+++ b/src/color/primaries.rs
@@ -73,14 +73,14 @@ pub(crate) unsafe fn xyz_to_rgb<V: Vector>(bw: &[[f32; 3]; 3], x: V, y: V, z: V)
 
 mod generated_consts {
     pub(super) const ST240_RGB_TO_XYZ: [[f32; 3]; 3] = [
-        [0.39031416, 0.20383073, 0.025401404],
-        [0.3700937, 0.71034116, 0.11341577],
-        [0.19004808, 0.08582816, 0.95024043],
+        [0.3935209, 0.21237636, 0.018739091],
+        [0.36525807, 0.7010599, 0.111933924],
+        [0.19167694, 0.08656378, 0.95838475],
     ];
     pub(super) const ST240_XYZ_TO_RGB: [[f32; 3]; 3] = [
-        [3.506003, -1.0092703, 0.026740361],
-        [-1.7397907, 1.9292052, -0.18375263],
-        [-0.5440582, 0.027603257, 1.0636142],
+        [3.5060034, -1.0690476, 0.056306593],
+        [-1.7397907, 1.9777789, -0.19697565],
+        [-0.54405826, 0.03517142, 1.0499524],
     ];
 
     pub(super) const BT709_RGB_TO_XYZ: [[f32; 3]; 3] = [
-- 
2.43.0


From 8794cf37ae971eb6278b30fe5d985255c2f521b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 16/16] fix: planes of a crop window without rows below the
 last row of the image

---
 src/crop.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/crop.rs b/src/crop.rs
index cbcb779..def0373 100644
--- a/src/crop.rs
+++ b/src/crop.rs
@@ -91,14 +91,20 @@ fn crop_planes<'a, S: AnySlice + 'a>(
             .map(move |(plane_desc, (slice, stride))| {
                 let x = plane_desc.width_op.op(window.x);
                 let y = plane_desc.height_op.op(window.y);
+                let rows = plane_desc.height_op.op(window.height);
 
                 // First trim the bytes byte "in front" of the window
-                let split_at = y * stride + x * plane_desc.bytes_per_primitive;
+                // (a window without any rows might lie behind the last row of the plane)
+                let split_at = if rows == 0 {
+                    0
+                } else {
+                    y * stride + x * plane_desc.bytes_per_primitive
+                };
                 let (_, slice) = slice.slice_split_at(split_at);
 
                 // Trim the bytes at the end of the window
                 // (a window touching the bottom of the image might not have a full last row)
-                let split_at = plane_desc.height_op.op(window.height) * stride;
+                let split_at = rows * stride;
                 let split_at = split_at.min(slice.slice_len());
                 let (slice, _) = slice.slice_split_at(split_at);
 
-- 
2.43.0

