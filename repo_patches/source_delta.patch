From aa3a5df03e286108cf80222c93dbc36a903c2048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:41 +0000
Subject: [PATCH 01/45] fix: rgb16_to_p216/rgba16_to_p216 produce 4:2:2, not
 4:2:0

---
 src/rgb_to_nv_p16.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rgb_to_nv_p16.rs b/src/rgb_to_nv_p16.rs
index dfb28b7..371b553 100644
--- a/src/rgb_to_nv_p16.rs
+++ b/src/rgb_to_nv_p16.rs
@@ -611,7 +611,7 @@ d_cnv!(
 d_cnv!(
     rgba16_to_p216,
     YuvSourceChannels::Rgba,
-    YuvChromaSubsampling::Yuv420,
+    YuvChromaSubsampling::Yuv422,
     "P216",
     "RGBA",
     16,
@@ -620,7 +620,7 @@ d_cnv!(
 d_cnv!(
     rgb16_to_p216,
     YuvSourceChannels::Rgb,
-    YuvChromaSubsampling::Yuv420,
+    YuvChromaSubsampling::Yuv422,
     "P216",
     "RGB",
     16,
-- 
2.43.0


From 5e9a812d50e3f19e6f688cdd7d23755fce6222ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 02/45] fix: last luma sample of odd width second rows in RGB
 to P010 4:2:0

---
 src/rgb_to_nv_p16.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rgb_to_nv_p16.rs b/src/rgb_to_nv_p16.rs
index 371b553..2241d99 100644
--- a/src/rgb_to_nv_p16.rs
+++ b/src/rgb_to_nv_p16.rs
@@ -189,6 +189,7 @@ where
             let rgba1 = &rgba1[0..channels];
             let uv_dst = uv_dst.chunks_exact_mut(2).last().unwrap();
             let y_dst0 = y_dst0.chunks_exact_mut(2).into_remainder();
+            let y_dst1 = y_dst1.chunks_exact_mut(2).into_remainder();
 
             let r0 = rgba0[src_chans.get_r_channel_offset()] as i32;
             let g0 = rgba0[src_chans.get_g_channel_offset()] as i32;
-- 
2.43.0


From a586dbdc9a8404555cdfee4bc2075081f3a64b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:25 +0000
Subject: [PATCH 03/45] fix: 4:2:2 and 4:4:4 rows with padding in YUV high bit
 depth with alpha to 8-bit RGBA

---
 src/yuv_p16_rgba_alpha.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/yuv_p16_rgba_alpha.rs b/src/yuv_p16_rgba_alpha.rs
index 52178d2..7d36835 100644
--- a/src/yuv_p16_rgba_alpha.rs
+++ b/src/yuv_p16_rgba_alpha.rs
@@ -295,6 +295,10 @@ fn yuv_p16_to_image_alpha_ant<
         }
         iter.for_each(|((((rgba, y_plane), a_plane), u_plane), v_plane)| {
             let y_plane = &y_plane[0..image.width as usize];
+            let u_plane = &u_plane[0..image.width as usize];
+            let v_plane = &v_plane[0..image.width as usize];
+            let a_plane = &a_plane[0..image.width as usize];
+            let rgba = &mut rgba[0..image.width as usize * channels];
             let cx = process_wide_row(y_plane, u_plane, v_plane, a_plane, rgba);
 
             for ((((rgba, &y_src), &u_src), &v_src), &a_src) in rgba
@@ -344,7 +348,13 @@ fn yuv_p16_to_image_alpha_ant<
                 .zip(image.v_plane.chunks_exact(image.v_stride as usize));
         }
         iter.for_each(|((((rgba, y_plane), a_plane), u_plane), v_plane)| {
-            process_halved_chroma_row(y_plane, u_plane, v_plane, a_plane, rgba);
+            process_halved_chroma_row(
+                &y_plane[0..image.width as usize],
+                &u_plane[0..(image.width as usize).div_ceil(2)],
+                &v_plane[0..(image.width as usize).div_ceil(2)],
+                &a_plane[0..image.width as usize],
+                &mut rgba[0..image.width as usize * channels],
+            );
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv420 {
         let iter;
-- 
2.43.0


From 58c4619eb64c53fcbe17aeb2a05bc53a3fe8fd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 04/45] fix: SSE YUV high bit depth with alpha to 8-bit RGBA
 wrote past the end of the row

---
 src/sse/yuv_p16_to_rgb8_alpha.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/yuv_p16_to_rgb8_alpha.rs b/src/sse/yuv_p16_to_rgb8_alpha.rs
index 8dec168..e7455e1 100644
--- a/src/sse/yuv_p16_to_rgb8_alpha.rs
+++ b/src/sse/yuv_p16_to_rgb8_alpha.rs
@@ -33,7 +33,7 @@ use std::arch::x86::*;
 use std::arch::x86_64::*;
 
 use crate::internals::ProcessedOffset;
-use crate::sse::{_mm_from_msb_epi16, _mm_store_interleave_rgb_for_yuv, _mm_store_shr_epi16_epi8};
+use crate::sse::{_mm_from_msb_epi16, _mm_store_interleave_half_rgb_for_yuv, _mm_store_shr_epi16_epi8};
 use crate::yuv_support::{
     CbCrInverseTransform, YuvBytesPacking, YuvChromaRange, YuvChromaSubsampling, YuvEndianness,
     YuvSourceChannels,
@@ -217,7 +217,7 @@ unsafe fn sse_yuv_p16_to_rgba8_alpha_row_impl<
             _mm_setzero_si128(),
         );
 
-        _mm_store_interleave_rgb_for_yuv::<DESTINATION_CHANNELS>(
+        _mm_store_interleave_half_rgb_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
             r_values,
             g_values,
-- 
2.43.0


From 1cf192de523099cabffea8e1ff2190ba13667072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 05/45] fix: AVX2 YUV high bit depth with alpha to 8-bit RGBA
 repeated the alpha of the first 16 pixels

---
 src/avx2/yuv_p16_to_rgb8_alpha.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avx2/yuv_p16_to_rgb8_alpha.rs b/src/avx2/yuv_p16_to_rgb8_alpha.rs
index 6bdbc80..6dc8084 100644
--- a/src/avx2/yuv_p16_to_rgb8_alpha.rs
+++ b/src/avx2/yuv_p16_to_rgb8_alpha.rs
@@ -258,7 +258,7 @@ unsafe fn avx_yuv_p16_to_rgba8_row_alpha_impl<
                 a_plane.get_unchecked(cx..).as_ptr() as *const __m256i,
             )),
             _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(_mm256_loadu_si256(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m256i,
+                a_plane.get_unchecked((cx + 16)..).as_ptr() as *const __m256i,
             )),
         );
 
-- 
2.43.0


From 168bb156872f3d123f8710f7a91184d4a9d2ab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:00 +0000
Subject: [PATCH 06/45] fix: bias of the AVX-512 VNNI fast RGB to YUV
 4:4:4/4:2:2 was also added in the high halves

---
 src/avx512bw/rgba_to_yuv_fast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avx512bw/rgba_to_yuv_fast.rs b/src/avx512bw/rgba_to_yuv_fast.rs
index 8715b4c..3ec1908 100644
--- a/src/avx512bw/rgba_to_yuv_fast.rs
+++ b/src/avx512bw/rgba_to_yuv_fast.rs
@@ -593,8 +593,8 @@ unsafe fn avx512_rgba_to_yuv_dot_rgba_impl_dot_impl<
         source_channels == YuvSourceChannels::Rgb || source_channels == YuvSourceChannels::Bgr;
 
     const A_E: u32 = 7;
-    let y_bias = _mm512_set1_epi16(range.bias_y as i16 * (1 << A_E) + (1 << (A_E - 1)) - 1);
-    let uv_bias = _mm512_set1_epi16(range.bias_uv as i16 * (1 << A_E) + (1 << (A_E - 1)) - 1);
+    let y_bias = _mm512_set1_epi32(range.bias_y as i32 * (1 << A_E) + (1 << (A_E - 1)) - 1);
+    let uv_bias = _mm512_set1_epi32(range.bias_uv as i32 * (1 << A_E) + (1 << (A_E - 1)) - 1);
 
     let y_weights = if is_rgbx {
         _mm512_set4r_epi8(
-- 
2.43.0


From eefd710909b174c3038b13c98ae27296c2abca0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:53 +0000
Subject: [PATCH 07/45] fix: chroma of the last columns was dropped by AVX-512
 16-bit RGB to planar YUV

---
 src/avx512bw/rgb_to_yuv_p16.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/avx512bw/rgb_to_yuv_p16.rs b/src/avx512bw/rgb_to_yuv_p16.rs
index 84adfe3..9ea1092 100644
--- a/src/avx512bw/rgb_to_yuv_p16.rs
+++ b/src/avx512bw/rgb_to_yuv_p16.rs
@@ -307,8 +307,6 @@ unsafe fn avx_rgba_to_yuv_impl<
         let diff = width - cx;
         assert!(diff <= 32);
         let mut src_buffer: [u16; 32 * 4] = [0; 32 * 4];
-        let mut u_buffer: [u16; 32] = [0; 32];
-        let mut v_buffer: [u16; 32] = [0; 32];
 
         // Replicate last item to one more position for subsampling
         if chroma_subsampling != YuvChromaSubsampling::Yuv444 && diff % 2 != 0 {
@@ -378,8 +376,16 @@ unsafe fn avx_rgba_to_yuv_impl<
                 cr_vl = _mm512_shuffle_epi8(cr_vl, big_endian_shuffle_flag);
             }
 
-            _mm512_mask_storeu_epi16(u_buffer.as_mut_ptr() as *mut _, mask, cb_vl);
-            _mm512_mask_storeu_epi16(v_buffer.as_mut_ptr() as *mut _, mask, cr_vl);
+            _mm512_mask_storeu_epi16(
+                u_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                mask,
+                cb_vl,
+            );
+            _mm512_mask_storeu_epi16(
+                v_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                mask,
+                cr_vl,
+            );
         } else {
             let r_values = _mm512_havg_epi16_epi32(r_values);
             let g_values = _mm512_havg_epi16_epi32(g_values);
@@ -408,8 +414,16 @@ unsafe fn avx_rgba_to_yuv_impl<
 
             let halved_mask = 0xffff_ffffu32 >> (32 - diff.div_ceil(2) as u32);
 
-            _mm512_mask_storeu_epi16(u_buffer.as_mut_ptr() as *mut _, halved_mask, cb_s);
-            _mm512_mask_storeu_epi16(v_buffer.as_mut_ptr() as *mut _, halved_mask, cr_s);
+            _mm512_mask_storeu_epi16(
+                u_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                halved_mask,
+                cb_s,
+            );
+            _mm512_mask_storeu_epi16(
+                v_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                halved_mask,
+                cr_s,
+            );
         }
 
         cx += diff;
-- 
2.43.0


From e92b2907aa2d94be3b61aec22e45a3be698c4501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:53 +0000
Subject: [PATCH 08/45] fix: bottom right luma of a 2x2 block in scalar 16-bit
 RGB to 4:2:0

---
 src/rgb16_to_yuv_p16.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rgb16_to_yuv_p16.rs b/src/rgb16_to_yuv_p16.rs
index ccd974d..c9a618e 100644
--- a/src/rgb16_to_yuv_p16.rs
+++ b/src/rgb16_to_yuv_p16.rs
@@ -642,7 +642,7 @@ fn rgbx_to_yuv_ant<
             let r11 = rgba11[src_chans.get_r_channel_offset()] as i32;
             let g11 = rgba11[src_chans.get_g_channel_offset()] as i32;
             let b11 = rgba11[src_chans.get_b_channel_offset()] as i32;
-            let y_11 = (r01 * transform.yr + g01 * transform.yg + b01 * transform.yb + bias_y)
+            let y_11 = (r11 * transform.yr + g11 * transform.yg + b11 * transform.yb + bias_y)
                 >> PRECISION;
             y_dst1[1] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_11);
 
-- 
2.43.0


From dde0731a2aca2bf9d52e344cfc40e8b5f40086b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:53 +0000
Subject: [PATCH 09/45] fix: 4:2:2 and 4:4:4 rows with padding in 16-bit RGB to
 planar YUV

---
 src/rgb16_to_yuv_p16.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rgb16_to_yuv_p16.rs b/src/rgb16_to_yuv_p16.rs
index c9a618e..8bed6d6 100644
--- a/src/rgb16_to_yuv_p16.rs
+++ b/src/rgb16_to_yuv_p16.rs
@@ -722,6 +722,9 @@ fn rgbx_to_yuv_ant<
         }
         iter.for_each(|(((y_dst, u_plane), v_plane), rgba)| {
             let y_dst = &mut y_dst[0..image.width as usize];
+            let u_plane = &mut u_plane[0..image.width as usize];
+            let v_plane = &mut v_plane[0..image.width as usize];
+            let rgba = &rgba[0..image.width as usize * channels];
             let processed_offset = handler.handle_row(
                 y_dst,
                 u_plane,
@@ -780,7 +783,12 @@ fn rgbx_to_yuv_ant<
         }
 
         iter.for_each(|(((y_plane, u_plane), v_plane), rgba)| {
-            process_halved_chroma_row(y_plane, u_plane, v_plane, rgba);
+            process_halved_chroma_row(
+                &mut y_plane[0..image.width as usize],
+                &mut u_plane[0..(image.width as usize).div_ceil(2)],
+                &mut v_plane[0..(image.width as usize).div_ceil(2)],
+                &rgba[0..image.width as usize * channels],
+            );
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv420 {
         let iter;
-- 
2.43.0


From e6f27012f8000de107607edf8e1625ae24870b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:49 +0000
Subject: [PATCH 10/45] fix: packed 4:2:2 to planar left V rows untrimmed and
 skipped too many columns

---
 src/yuy2_to_yuv.rs     | 12 ++++++------
 src/yuy2_to_yuv_p16.rs |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/yuy2_to_yuv.rs b/src/yuy2_to_yuv.rs
index d565919..0423995 100644
--- a/src/yuy2_to_yuv.rs
+++ b/src/yuy2_to_yuv.rs
@@ -146,7 +146,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..planar_image.width as usize];
-            let u_dst = &mut u_dst[0..planar_image.width as usize];
+            let v_dst = &mut v_dst[0..planar_image.width as usize];
 
             let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2_src);
 
@@ -155,7 +155,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 .zip(u_dst.chunks_exact_mut(2))
                 .zip(v_dst.chunks_exact_mut(2))
                 .zip(yuy2_src.chunks_exact(4))
-                .skip(p_offset.cx)
+                .skip(p_offset.cx / 2)
             {
                 let first_y_position = yuy2[yuy2_target.get_first_y_position()];
                 let second_y_position = yuy2[yuy2_target.get_second_y_position()];
@@ -210,7 +210,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-            let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+            let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
 
             let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2_src);
 
@@ -219,7 +219,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 .zip(u_dst.iter_mut())
                 .zip(v_dst.iter_mut())
                 .zip(yuy2_src.chunks_exact(4))
-                .skip(p_offset.cx)
+                .skip(p_offset.cx / 2)
             {
                 let first_y_position = yuy2[yuy2_target.get_first_y_position()];
                 let second_y_position = yuy2[yuy2_target.get_second_y_position()];
@@ -277,7 +277,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 let yuy2 = &yuy2[0..yuy2_width];
                 let y_dst = &mut y_dst[0..planar_image.width as usize];
                 let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-                let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+                let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
 
                 let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2);
 
@@ -288,7 +288,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                     .zip(u_dst.iter_mut())
                     .zip(v_dst.iter_mut())
                     .zip(yuy2.chunks_exact(4))
-                    .skip(p_offset.cx)
+                    .skip(p_offset.cx / 2)
                 {
                     let first_y_position = yuy2[yuy2_target.get_first_y_position()];
                     let second_y_position = yuy2[yuy2_target.get_second_y_position()];
diff --git a/src/yuy2_to_yuv_p16.rs b/src/yuy2_to_yuv_p16.rs
index 225bd28..8d4074e 100644
--- a/src/yuy2_to_yuv_p16.rs
+++ b/src/yuy2_to_yuv_p16.rs
@@ -90,7 +90,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..planar_image.width as usize];
-            let u_dst = &mut u_dst[0..planar_image.width as usize];
+            let v_dst = &mut v_dst[0..planar_image.width as usize];
 
             for (((y_dst, u_dst), v_dst), yuy2) in y_dst
                 .chunks_exact_mut(2)
@@ -151,7 +151,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-            let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+            let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
 
             for (((y_dst, u_dst), v_dst), yuy2) in y_dst
                 .chunks_exact_mut(2)
@@ -215,7 +215,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 let yuy2 = &yuy2[0..yuy2_width];
                 let y_dst = &mut y_dst[0..planar_image.width as usize];
                 let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-                let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+                let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
 
                 let process_chroma = y & 1 == 0;
 
-- 
2.43.0


From c6425190e9950da0db61cfa8329826b8035e764a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:49 +0000
Subject: [PATCH 11/45] fix: last column of odd width packed 4:2:2 to 4:2:0 was
 taken from the wrong place

---
 src/yuy2_to_yuv.rs     | 2 +-
 src/yuy2_to_yuv_p16.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yuy2_to_yuv.rs b/src/yuy2_to_yuv.rs
index 0423995..bfcd99a 100644
--- a/src/yuy2_to_yuv.rs
+++ b/src/yuy2_to_yuv.rs
@@ -304,7 +304,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
 
                 if width & 1 != 0 {
                     let y_dst = y_dst.last_mut().unwrap();
-                    let yuy2 = yuy2_src.chunks_exact(4).last().unwrap();
+                    let yuy2 = yuy2.chunks_exact(4).last().unwrap();
                     let yuy2 = &yuy2[0..4];
                     *y_dst = yuy2[yuy2_target.get_first_y_position()];
                     if process_chroma {
diff --git a/src/yuy2_to_yuv_p16.rs b/src/yuy2_to_yuv_p16.rs
index 8d4074e..f1974ce 100644
--- a/src/yuy2_to_yuv_p16.rs
+++ b/src/yuy2_to_yuv_p16.rs
@@ -239,7 +239,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
 
                 if width & 1 != 0 {
                     let y_dst = y_dst.last_mut().unwrap();
-                    let yuy2 = yuy2_src.chunks_exact(4).last().unwrap();
+                    let yuy2 = yuy2.chunks_exact(4).last().unwrap();
                     let yuy2 = &yuy2[0..4];
                     *y_dst = yuy2[yuy2_target.get_first_y_position()];
                     if process_chroma {
-- 
2.43.0


From 1c2e1f31b28ba8835951ae94584043bcac24fcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 12/45] fix: formatting of the SSE alpha fix

---
 src/sse/yuv_p16_to_rgb8_alpha.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sse/yuv_p16_to_rgb8_alpha.rs b/src/sse/yuv_p16_to_rgb8_alpha.rs
index e7455e1..6ef5e18 100644
--- a/src/sse/yuv_p16_to_rgb8_alpha.rs
+++ b/src/sse/yuv_p16_to_rgb8_alpha.rs
@@ -33,7 +33,9 @@ use std::arch::x86::*;
 use std::arch::x86_64::*;
 
 use crate::internals::ProcessedOffset;
-use crate::sse::{_mm_from_msb_epi16, _mm_store_interleave_half_rgb_for_yuv, _mm_store_shr_epi16_epi8};
+use crate::sse::{
+    _mm_from_msb_epi16, _mm_store_interleave_half_rgb_for_yuv, _mm_store_shr_epi16_epi8,
+};
 use crate::yuv_support::{
     CbCrInverseTransform, YuvBytesPacking, YuvChromaRange, YuvChromaSubsampling, YuvEndianness,
     YuvSourceChannels,
-- 
2.43.0


From fd6ab0545915dcca5ce32bc5145e255a7dbac36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 13/45] fix: last row of odd height packed 4:2:2 to 4:2:0 was
 not written

---
 src/yuy2_to_yuv.rs     | 110 ++++++++++++++++++++++++-----------------
 src/yuy2_to_yuv_p16.rs | 104 ++++++++++++++++++++++----------------
 2 files changed, 125 insertions(+), 89 deletions(-)

diff --git a/src/yuy2_to_yuv.rs b/src/yuy2_to_yuv.rs
index bfcd99a..bc680b4 100644
--- a/src/yuy2_to_yuv.rs
+++ b/src/yuy2_to_yuv.rs
@@ -243,6 +243,56 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             }
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv420 {
+        let process_rows =
+            |y_dst: &mut [u8], u_dst: &mut [u8], v_dst: &mut [u8], yuy2_src: &[u8]| {
+                for (y, (y_dst, yuy2)) in y_dst
+                    .chunks_exact_mut(y_stride as usize)
+                    .zip(yuy2_src.chunks_exact(packed_image.yuy_stride as usize))
+                    .enumerate()
+                {
+                    let yuy2 = &yuy2[0..yuy2_width];
+                    let y_dst = &mut y_dst[0..planar_image.width as usize];
+                    let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+                    let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
+
+                    let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2);
+
+                    let process_chroma = y & 1 == 0;
+
+                    for (((y_dst, u_dst), v_dst), yuy2) in y_dst
+                        .chunks_exact_mut(2)
+                        .zip(u_dst.iter_mut())
+                        .zip(v_dst.iter_mut())
+                        .zip(yuy2.chunks_exact(4))
+                        .skip(p_offset.cx / 2)
+                    {
+                        let first_y_position = yuy2[yuy2_target.get_first_y_position()];
+                        let second_y_position = yuy2[yuy2_target.get_second_y_position()];
+                        y_dst[0] = first_y_position;
+                        y_dst[1] = second_y_position;
+                        if process_chroma {
+                            let u_value = yuy2[yuy2_target.get_u_position()];
+                            let v_value = yuy2[yuy2_target.get_v_position()];
+                            *u_dst = u_value;
+                            *v_dst = v_value;
+                        }
+                    }
+
+                    if width & 1 != 0 {
+                        let y_dst = y_dst.last_mut().unwrap();
+                        let yuy2 = yuy2.chunks_exact(4).last().unwrap();
+                        let yuy2 = &yuy2[0..4];
+                        *y_dst = yuy2[yuy2_target.get_first_y_position()];
+                        if process_chroma {
+                            let u_dst = u_dst.last_mut().unwrap();
+                            let v_dst = v_dst.last_mut().unwrap();
+                            *u_dst = yuy2[yuy2_target.get_u_position()];
+                            *v_dst = yuy2[yuy2_target.get_v_position()];
+                        }
+                    }
+                }
+            };
+
         let iter;
         #[cfg(feature = "rayon")]
         {
@@ -269,53 +319,21 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 );
         }
         iter.for_each(|(((y_dst, u_dst), v_dst), yuy2_src)| {
-            for (y, (y_dst, yuy2)) in y_dst
-                .chunks_exact_mut(y_stride as usize)
-                .zip(yuy2_src.chunks_exact(packed_image.yuy_stride as usize))
-                .enumerate()
-            {
-                let yuy2 = &yuy2[0..yuy2_width];
-                let y_dst = &mut y_dst[0..planar_image.width as usize];
-                let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-                let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
-
-                let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2);
-
-                let process_chroma = y & 1 == 0;
-
-                for (((y_dst, u_dst), v_dst), yuy2) in y_dst
-                    .chunks_exact_mut(2)
-                    .zip(u_dst.iter_mut())
-                    .zip(v_dst.iter_mut())
-                    .zip(yuy2.chunks_exact(4))
-                    .skip(p_offset.cx / 2)
-                {
-                    let first_y_position = yuy2[yuy2_target.get_first_y_position()];
-                    let second_y_position = yuy2[yuy2_target.get_second_y_position()];
-                    y_dst[0] = first_y_position;
-                    y_dst[1] = second_y_position;
-                    if process_chroma {
-                        let u_value = yuy2[yuy2_target.get_u_position()];
-                        let v_value = yuy2[yuy2_target.get_v_position()];
-                        *u_dst = u_value;
-                        *v_dst = v_value;
-                    }
-                }
-
-                if width & 1 != 0 {
-                    let y_dst = y_dst.last_mut().unwrap();
-                    let yuy2 = yuy2.chunks_exact(4).last().unwrap();
-                    let yuy2 = &yuy2[0..4];
-                    *y_dst = yuy2[yuy2_target.get_first_y_position()];
-                    if process_chroma {
-                        let u_dst = u_dst.last_mut().unwrap();
-                        let v_dst = v_dst.last_mut().unwrap();
-                        *u_dst = yuy2[yuy2_target.get_u_position()];
-                        *v_dst = yuy2[yuy2_target.get_v_position()];
-                    }
-                }
-            }
+            process_rows(y_dst, u_dst, v_dst, yuy2_src);
         });
+
+        if planar_image.height & 1 != 0 {
+            let rem_y = y_plane
+                .chunks_exact_mut(y_stride as usize * 2)
+                .into_remainder();
+            let rem_yuy = packed_image
+                .yuy
+                .chunks_exact(packed_image.yuy_stride as usize * 2)
+                .remainder();
+            let last_u = u_plane.chunks_exact_mut(u_stride as usize).last().unwrap();
+            let last_v = v_plane.chunks_exact_mut(v_stride as usize).last().unwrap();
+            process_rows(rem_y, last_u, last_v, rem_yuy);
+        }
     }
 
     Ok(())
diff --git a/src/yuy2_to_yuv_p16.rs b/src/yuy2_to_yuv_p16.rs
index f1974ce..ec48361 100644
--- a/src/yuy2_to_yuv_p16.rs
+++ b/src/yuy2_to_yuv_p16.rs
@@ -181,6 +181,53 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             }
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv420 {
+        let process_rows =
+            |y_dst: &mut [u16], u_dst: &mut [u16], v_dst: &mut [u16], yuy2_src: &[u16]| {
+                for (y, (y_dst, yuy2)) in y_dst
+                    .chunks_exact_mut(y_stride as usize)
+                    .zip(yuy2_src.chunks_exact(packed_image.yuy_stride as usize))
+                    .enumerate()
+                {
+                    let yuy2 = &yuy2[0..yuy2_width];
+                    let y_dst = &mut y_dst[0..planar_image.width as usize];
+                    let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+                    let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
+
+                    let process_chroma = y & 1 == 0;
+
+                    for (((y_dst, u_dst), v_dst), yuy2) in y_dst
+                        .chunks_exact_mut(2)
+                        .zip(u_dst.iter_mut())
+                        .zip(v_dst.iter_mut())
+                        .zip(yuy2.chunks_exact(4))
+                    {
+                        let first_y_position = yuy2[yuy2_target.get_first_y_position()];
+                        let second_y_position = yuy2[yuy2_target.get_second_y_position()];
+                        y_dst[0] = first_y_position;
+                        y_dst[1] = second_y_position;
+                        if process_chroma {
+                            let u_value = yuy2[yuy2_target.get_u_position()];
+                            let v_value = yuy2[yuy2_target.get_v_position()];
+                            *u_dst = u_value;
+                            *v_dst = v_value;
+                        }
+                    }
+
+                    if width & 1 != 0 {
+                        let y_dst = y_dst.last_mut().unwrap();
+                        let yuy2 = yuy2.chunks_exact(4).last().unwrap();
+                        let yuy2 = &yuy2[0..4];
+                        *y_dst = yuy2[yuy2_target.get_first_y_position()];
+                        if process_chroma {
+                            let u_dst = u_dst.last_mut().unwrap();
+                            let v_dst = v_dst.last_mut().unwrap();
+                            *u_dst = yuy2[yuy2_target.get_u_position()];
+                            *v_dst = yuy2[yuy2_target.get_v_position()];
+                        }
+                    }
+                }
+            };
+
         let iter;
         #[cfg(feature = "rayon")]
         {
@@ -207,50 +254,21 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 );
         }
         iter.for_each(|(((y_dst, u_dst), v_dst), yuy2_src)| {
-            for (y, (y_dst, yuy2)) in y_dst
-                .chunks_exact_mut(y_stride as usize)
-                .zip(yuy2_src.chunks_exact(packed_image.yuy_stride as usize))
-                .enumerate()
-            {
-                let yuy2 = &yuy2[0..yuy2_width];
-                let y_dst = &mut y_dst[0..planar_image.width as usize];
-                let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-                let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
-
-                let process_chroma = y & 1 == 0;
-
-                for (((y_dst, u_dst), v_dst), yuy2) in y_dst
-                    .chunks_exact_mut(2)
-                    .zip(u_dst.iter_mut())
-                    .zip(v_dst.iter_mut())
-                    .zip(yuy2.chunks_exact(4))
-                {
-                    let first_y_position = yuy2[yuy2_target.get_first_y_position()];
-                    let second_y_position = yuy2[yuy2_target.get_second_y_position()];
-                    y_dst[0] = first_y_position;
-                    y_dst[1] = second_y_position;
-                    if process_chroma {
-                        let u_value = yuy2[yuy2_target.get_u_position()];
-                        let v_value = yuy2[yuy2_target.get_v_position()];
-                        *u_dst = u_value;
-                        *v_dst = v_value;
-                    }
-                }
-
-                if width & 1 != 0 {
-                    let y_dst = y_dst.last_mut().unwrap();
-                    let yuy2 = yuy2.chunks_exact(4).last().unwrap();
-                    let yuy2 = &yuy2[0..4];
-                    *y_dst = yuy2[yuy2_target.get_first_y_position()];
-                    if process_chroma {
-                        let u_dst = u_dst.last_mut().unwrap();
-                        let v_dst = v_dst.last_mut().unwrap();
-                        *u_dst = yuy2[yuy2_target.get_u_position()];
-                        *v_dst = yuy2[yuy2_target.get_v_position()];
-                    }
-                }
-            }
+            process_rows(y_dst, u_dst, v_dst, yuy2_src);
         });
+
+        if planar_image.height & 1 != 0 {
+            let rem_y = y_plane
+                .chunks_exact_mut(y_stride as usize * 2)
+                .into_remainder();
+            let rem_yuy = packed_image
+                .yuy
+                .chunks_exact(packed_image.yuy_stride as usize * 2)
+                .remainder();
+            let last_u = u_plane.chunks_exact_mut(u_stride as usize).last().unwrap();
+            let last_v = v_plane.chunks_exact_mut(v_stride as usize).last().unwrap();
+            process_rows(rem_y, last_u, last_v, rem_yuy);
+        }
     }
 
     Ok(())
-- 
2.43.0


From 1582c8da383aaeb1269aa5aba1bfd9190e34aa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:40 +0000
Subject: [PATCH 14/45] fix: packed 4:2:2 images with a stride that does not
 fit their size were accepted

---
 src/yuv_error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yuv_error.rs b/src/yuv_error.rs
index 0f9be9e..8d0a0ed 100644
--- a/src/yuv_error.rs
+++ b/src/yuv_error.rs
@@ -162,7 +162,7 @@ pub(crate) fn check_yuv_packed422<V>(
     } else {
         2 * (width as usize + 1) * height as usize
     };
-    if data.len() != full_size {
+    if data.len() != full_size || stride as usize * height as usize != full_size {
         return Err(YuvError::PackedFrameSizeMismatch(MismatchedSize {
             expected: stride as usize * height as usize,
             received: data.len(),
-- 
2.43.0


From 1eeeb1416502cc8ec64f646f5bc9dde7d8f3b932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:40 +0000
Subject: [PATCH 15/45] fix: planar 4:4:4 to packed 4:2:2 skipped too many
 columns after the SIMD part

---
 src/yuv_to_yuy2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yuv_to_yuy2.rs b/src/yuv_to_yuy2.rs
index 4512b83..cda8390 100644
--- a/src/yuv_to_yuy2.rs
+++ b/src/yuv_to_yuy2.rs
@@ -243,7 +243,7 @@ pub(crate) fn yuv_to_yuy2_impl<
                 .zip(y_src.chunks_exact(2))
                 .zip(u_src.chunks_exact(2))
                 .zip(v_src.chunks_exact(2))
-                .skip(processed)
+                .skip(processed / 2)
             {
                 yuy2[yuy2_target.get_first_y_position()] = y_src[0];
                 yuy2[yuy2_target.get_second_y_position()] = y_src[1];
-- 
2.43.0


From c915ad780d7f27082105ab3d6d753750f7db1d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:05 +0000
Subject: [PATCH 16/45] fix: sizes of high bit depth gray sources and their
 destinations were not checked

---
 src/y_p16_to_rgb16.rs            | 4 ++++
 src/y_p16_with_alpha_to_rgb16.rs | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/y_p16_to_rgb16.rs b/src/y_p16_to_rgb16.rs
index c017ceb..32897d7 100644
--- a/src/y_p16_to_rgb16.rs
+++ b/src/y_p16_to_rgb16.rs
@@ -28,6 +28,7 @@
  */
 #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
 use crate::neon::neon_y_p16_to_rgba16_row;
+use crate::yuv_error::check_rgba_destination;
 use crate::yuv_support::*;
 use crate::{YuvError, YuvGrayImage};
 use num_traits::AsPrimitive;
@@ -141,6 +142,9 @@ where
     let max_colors = (1 << bit_depth) - 1;
 
     let channels = cn.get_channels_count();
+    check_rgba_destination(rgba16, rgba_stride, image.width, image.height, channels)?;
+    image.check_constraints()?;
+
     let chroma_range = get_yuv_range(bit_depth, range);
     let kr_kb = matrix.get_kr_kb();
 
diff --git a/src/y_p16_with_alpha_to_rgb16.rs b/src/y_p16_with_alpha_to_rgb16.rs
index fa62d3b..3c0ced0 100644
--- a/src/y_p16_with_alpha_to_rgb16.rs
+++ b/src/y_p16_with_alpha_to_rgb16.rs
@@ -26,6 +26,7 @@
  * OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
+use crate::yuv_error::check_rgba_destination;
 use crate::yuv_support::*;
 use crate::{YuvError, YuvGrayAlphaImage};
 use num_traits::AsPrimitive;
@@ -58,6 +59,7 @@ where
 
     let channels = cn.get_channels_count();
 
+    check_rgba_destination(rgba16, rgba_stride, image.width, image.height, channels)?;
     image.check_constraints()?;
 
     assert!(
-- 
2.43.0


From 07d0df7214af05a8363838c2ba4a4b5539733aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 17/45] fix: rgba12_to_i212_be produces 4:2:2, not 4:2:0

---
 src/rgb16_to_yuv_p16.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rgb16_to_yuv_p16.rs b/src/rgb16_to_yuv_p16.rs
index 8bed6d6..856c074 100644
--- a/src/rgb16_to_yuv_p16.rs
+++ b/src/rgb16_to_yuv_p16.rs
@@ -1077,7 +1077,7 @@ d_cvn!(
 d_cvn!(
     rgba12_to_i212_be,
     YuvSourceChannels::Rgba,
-    YuvChromaSubsampling::Yuv420,
+    YuvChromaSubsampling::Yuv422,
     "I212",
     "RGBA12",
     "rgba12",
-- 
2.43.0


From ba4583ee18450137e8c038de7b2ac8127c7ccc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 18/45] fix: big endian 4:2:2 with alpha to RGBA10/12/14 read
 little endian

---
 src/yuv_p16_rgba16_alpha.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yuv_p16_rgba16_alpha.rs b/src/yuv_p16_rgba16_alpha.rs
index 936bfaf..29dee22 100644
--- a/src/yuv_p16_rgba16_alpha.rs
+++ b/src/yuv_p16_rgba16_alpha.rs
@@ -521,7 +521,7 @@ d_cnv!(
     i210_alpha_be_to_rgba10,
     YuvSourceChannels::Rgba,
     YuvChromaSubsampling::Yuv422,
-    YuvEndianness::LittleEndian,
+    YuvEndianness::BigEndian,
     "I210ABE",
     "RGBA",
     "rgba",
@@ -607,7 +607,7 @@ d_cnv!(
     i212_be_alpha_to_rgba12,
     YuvSourceChannels::Rgba,
     YuvChromaSubsampling::Yuv422,
-    YuvEndianness::LittleEndian,
+    YuvEndianness::BigEndian,
     "I212ABE",
     "RGBA",
     "rgba",
@@ -628,7 +628,7 @@ d_cnv!(
     i214_be_alpha_to_rgba14,
     YuvSourceChannels::Rgba,
     YuvChromaSubsampling::Yuv422,
-    YuvEndianness::LittleEndian,
+    YuvEndianness::BigEndian,
     "I214ABE",
     "RGBA",
     "rgba",
-- 
2.43.0


From 141a353bbcf94d88c9201838d05b86cebe5168c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 19/45] fix: big endian high bit depth to BGRA wrote RGBA

---
 src/yuv_p10_rgba.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yuv_p10_rgba.rs b/src/yuv_p10_rgba.rs
index ce4bed4..7e4f04a 100644
--- a/src/yuv_p10_rgba.rs
+++ b/src/yuv_p10_rgba.rs
@@ -542,7 +542,7 @@ build_cnv!(
 build_cnv!(
     i010_be_to_bgra,
     YuvChromaSubsampling::Yuv420,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     10,
     "YUV 420 10-bit",
     "BGRA",
@@ -630,7 +630,7 @@ build_cnv!(
 build_cnv!(
     i210_be_to_bgra,
     YuvChromaSubsampling::Yuv422,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     10,
     "YUV 420 10-bit",
     "BGRA",
@@ -718,7 +718,7 @@ build_cnv!(
 build_cnv!(
     i012_be_to_bgra,
     YuvChromaSubsampling::Yuv420,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     12,
     "YUV 420 12-bit",
     "BGRA",
@@ -806,7 +806,7 @@ build_cnv!(
 build_cnv!(
     i212_be_to_bgra,
     YuvChromaSubsampling::Yuv422,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     12,
     "YUV 420 12-bit",
     "BGRA",
-- 
2.43.0


From 644f420e112e9937eb37cf5c95b1707afbe4c81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 20/45] fix: 4:4:4 high bit depth to AR30 wrote into the row
 padding

---
 src/yuv_p16_ar30.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yuv_p16_ar30.rs b/src/yuv_p16_ar30.rs
index f30c8d6..af1a68c 100644
--- a/src/yuv_p16_ar30.rs
+++ b/src/yuv_p16_ar30.rs
@@ -170,6 +170,7 @@ fn yuv_p16_to_image_ar30<
                 .zip(image.v_plane.chunks_exact(image.v_stride as usize));
         }
         iter.for_each(|(((rgba, y_plane), u_plane), v_plane)| {
+            let rgba = &mut rgba[0..image.width as usize * 4];
             for (((rgba, &y_src), &u_src), &v_src) in rgba
                 .chunks_exact_mut(4)
                 .zip(y_plane.iter())
-- 
2.43.0


From 596fd03304dce3996f6d18bf901cb0abf603381c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:29 +0000
Subject: [PATCH 21/45] fix: planar 4:2:0 to packed 4:2:2 read out of bounds
 for odd heights when the planes have spare rows

---
 src/yuv_to_yuy2.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/yuv_to_yuy2.rs b/src/yuv_to_yuy2.rs
index cda8390..0ae980e 100644
--- a/src/yuv_to_yuy2.rs
+++ b/src/yuv_to_yuy2.rs
@@ -449,19 +449,25 @@ pub(crate) fn yuv_to_yuy2_impl<
                 .into_remainder();
             let rem_y = planar_image
                 .y_plane
-                .chunks_exact(planar_image.y_stride as usize * 2)
-                .remainder();
+                .chunks_exact(planar_image.y_stride as usize)
+                .nth(planar_image.height as usize - 1)
+                .unwrap();
             let last_u = planar_image
                 .u_plane
                 .chunks_exact(planar_image.u_stride as usize)
-                .last()
+                .nth(planar_image.height as usize / 2)
                 .unwrap();
             let last_v = planar_image
                 .v_plane
                 .chunks_exact(planar_image.v_stride as usize)
-                .last()
+                .nth(planar_image.height as usize / 2)
                 .unwrap();
 
+            let rem_yuy = &mut rem_yuy[0..yuy2_width];
+            let rem_y = &rem_y[0..image.width as usize];
+            let last_u = &last_u[0..(image.width as usize).div_ceil(2)];
+            let last_v = &last_v[0..(image.width as usize).div_ceil(2)];
+
             let processed = V::process_wide_row::<SAMPLING, YUY2_TARGET>(
                 rem_yuy,
                 rem_y,
@@ -470,11 +476,6 @@ pub(crate) fn yuv_to_yuy2_impl<
                 width as usize,
             );
 
-            let rem_yuy = &mut rem_yuy[0..yuy2_width];
-            let rem_y = &rem_y[0..image.width as usize];
-            let last_u = &last_u[0..(image.width as usize).div_ceil(2)];
-            let last_v = &last_v[0..(image.width as usize).div_ceil(2)];
-
             for (((yuy2, y_src), u_src), v_src) in rem_yuy
                 .chunks_exact_mut(4)
                 .zip(rem_y.chunks_exact(2))
-- 
2.43.0


From 47268e33b702fffa695e233a44769820af213c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 22/45] fix: subtract the luma bias with unsigned saturation in
 the SSE and AVX-512 row kernels

---
 src/avx512bw/y_to_rgb.rs     | 4 ++--
 src/sse/y_to_rgba.rs         | 4 ++--
 src/sse/y_to_rgba_alpha.rs   | 2 +-
 src/sse/yuv_nv_to_rgba.rs    | 4 ++--
 src/sse/yuv_nv_to_rgba420.rs | 8 ++++----
 src/sse/yuv_nv_to_rgba422.rs | 4 ++--
 src/sse/yuv_to_rgba.rs       | 2 +-
 src/sse/yuv_to_rgba422.rs    | 2 +-
 8 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/avx512bw/y_to_rgb.rs b/src/avx512bw/y_to_rgb.rs
index ef3ee28..46e830c 100644
--- a/src/avx512bw/y_to_rgb.rs
+++ b/src/avx512bw/y_to_rgb.rs
@@ -104,7 +104,7 @@ unsafe fn avx512_y_to_rgb_row_impl<const DESTINATION_CHANNELS: u8, const HAS_VBM
     let v_alpha = _mm512_set1_epi8(255u8 as i8);
 
     while cx + 64 < width {
-        let y_s = _mm512_subs_epi8(_mm512_loadu_si512(y_ptr.add(cx) as *const i32), y_corr);
+        let y_s = _mm512_subs_epu8(_mm512_loadu_si512(y_ptr.add(cx) as *const i32), y_corr);
 
         let y10 = _mm512_expand8_unordered_to_10(y_s);
 
@@ -143,7 +143,7 @@ unsafe fn avx512_y_to_rgb_row_impl<const DESTINATION_CHANNELS: u8, const HAS_VBM
             diff,
         );
 
-        let y_s = _mm512_subs_epi8(_mm512_loadu_si512(y_buffer.as_ptr() as *const i32), y_corr);
+        let y_s = _mm512_subs_epu8(_mm512_loadu_si512(y_buffer.as_ptr() as *const i32), y_corr);
 
         let y10 = _mm512_expand8_unordered_to_10(y_s);
 
diff --git a/src/sse/y_to_rgba.rs b/src/sse/y_to_rgba.rs
index e0b899b..9b5a658 100644
--- a/src/sse/y_to_rgba.rs
+++ b/src/sse/y_to_rgba.rs
@@ -101,7 +101,7 @@ unsafe fn sse_y_to_rgba_row_impl<const DESTINATION_CHANNELS: u8>(
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
 
         let v_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
 
@@ -134,7 +134,7 @@ unsafe fn sse_y_to_rgba_row_impl<const DESTINATION_CHANNELS: u8>(
             diff,
         );
 
-        let y_values = _mm_subs_epi8(_mm_loadu_si64(y_buffer.as_ptr()), y_corr);
+        let y_values = _mm_subs_epu8(_mm_loadu_si64(y_buffer.as_ptr()), y_corr);
 
         let v_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
 
diff --git a/src/sse/y_to_rgba_alpha.rs b/src/sse/y_to_rgba_alpha.rs
index 2fad23b..c8ce57d 100644
--- a/src/sse/y_to_rgba_alpha.rs
+++ b/src/sse/y_to_rgba_alpha.rs
@@ -104,7 +104,7 @@ unsafe fn sse_y_to_rgba_alpha_row_impl<const DESTINATION_CHANNELS: u8>(
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
         let a_values = _mm_loadu_si64(a_plane.get_unchecked(cx..).as_ptr());
 
         let v_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
diff --git a/src/sse/yuv_nv_to_rgba.rs b/src/sse/yuv_nv_to_rgba.rs
index deb8fb5..394ffe0 100644
--- a/src/sse/yuv_nv_to_rgba.rs
+++ b/src/sse/yuv_nv_to_rgba.rs
@@ -264,7 +264,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl<
             }
         }
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
         let u_low = _mm_sub_epi16(u_low_u16, uv_corr);
         let v_low = _mm_sub_epi16(v_low_u16, uv_corr);
         let y_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
@@ -383,7 +383,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl<
             }
         }
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
         let u_low = _mm_sub_epi16(u_low_u16, uv_corr);
         let v_low = _mm_sub_epi16(v_low_u16, uv_corr);
         let y_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
diff --git a/src/sse/yuv_nv_to_rgba420.rs b/src/sse/yuv_nv_to_rgba420.rs
index 23240ef..5be0faa 100644
--- a/src/sse/yuv_nv_to_rgba420.rs
+++ b/src/sse/yuv_nv_to_rgba420.rs
@@ -190,8 +190,8 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let uv_values_ = _mm_loadu_si64(uv_ptr.add(uv_x));
 
-        let y_values0 = _mm_subs_epi8(y_vl0, y_corr);
-        let y_values1 = _mm_subs_epi8(y_vl1, y_corr);
+        let y_values0 = _mm_subs_epu8(y_vl0, y_corr);
+        let y_values1 = _mm_subs_epu8(y_vl1, y_corr);
         let (mut u, mut v) = _mm_deinterleave_x2_epi8(uv_values_, zeros);
 
         if order == YuvNVOrder::VU {
@@ -291,8 +291,8 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let uv_values_ = _mm_loadu_si64(uv_buffer.as_ptr());
 
-        let y_values0 = _mm_subs_epi8(y_vl0, y_corr);
-        let y_values1 = _mm_subs_epi8(y_vl1, y_corr);
+        let y_values0 = _mm_subs_epu8(y_vl0, y_corr);
+        let y_values1 = _mm_subs_epu8(y_vl1, y_corr);
         let (mut u, mut v) = _mm_deinterleave_x2_epi8(uv_values_, zeros);
 
         if order == YuvNVOrder::VU {
diff --git a/src/sse/yuv_nv_to_rgba422.rs b/src/sse/yuv_nv_to_rgba422.rs
index 6174767..60520b9 100644
--- a/src/sse/yuv_nv_to_rgba422.rs
+++ b/src/sse/yuv_nv_to_rgba422.rs
@@ -163,7 +163,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl422<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let distribute_shuffle = _mm_setr_epi8(0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3);
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
 
         u = _mm_shuffle_epi8(u, distribute_shuffle);
         v = _mm_shuffle_epi8(v, distribute_shuffle);
@@ -238,7 +238,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl422<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let distribute_shuffle = _mm_setr_epi8(0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3);
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
 
         u = _mm_shuffle_epi8(u, distribute_shuffle);
         v = _mm_shuffle_epi8(v, distribute_shuffle);
diff --git a/src/sse/yuv_to_rgba.rs b/src/sse/yuv_to_rgba.rs
index 32ab642..ea7da7e 100644
--- a/src/sse/yuv_to_rgba.rs
+++ b/src/sse/yuv_to_rgba.rs
@@ -176,7 +176,7 @@ unsafe fn sse_yuv_to_rgba_row_impl<const DESTINATION_CHANNELS: u8, const SAMPLIN
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_xx_load_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_xx_load_si64(y_ptr.add(cx)), y_corr);
 
         let (u_low_u16, v_low_u16);
 
diff --git a/src/sse/yuv_to_rgba422.rs b/src/sse/yuv_to_rgba422.rs
index b7ad4e2..f72f4df 100644
--- a/src/sse/yuv_to_rgba422.rs
+++ b/src/sse/yuv_to_rgba422.rs
@@ -157,7 +157,7 @@ unsafe fn sse_yuv_to_rgba_row_impl422<const DESTINATION_CHANNELS: u8>(
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_xx_load_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_xx_load_si64(y_ptr.add(cx)), y_corr);
 
         let reshuffle = _mm_setr_epi8(0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3);
 
-- 
2.43.0


From 8f4d76b50849b2cd40a7f9a05781ebff6ed55f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 23/45] fix: multiply Cb by the Cb coefficient in the SSE NV
 4:2:0 decoder

---
 src/sse/yuv_nv_to_rgba420.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/yuv_nv_to_rgba420.rs b/src/sse/yuv_nv_to_rgba420.rs
index 5be0faa..bdf5d40 100644
--- a/src/sse/yuv_nv_to_rgba420.rs
+++ b/src/sse/yuv_nv_to_rgba420.rs
@@ -218,7 +218,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
         );
 
         let v_cr_lo = _mm_mulhrs_epi16(v_low, v_cr_coeff);
-        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cr_coeff);
+        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cb_coeff);
 
         let r_low0 = _mm_add_epi16(y_low0, v_cr_lo);
         let b_low0 = _mm_add_epi16(y_low0, v_cb_lo);
@@ -319,7 +319,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
         );
 
         let v_cr_lo = _mm_mulhrs_epi16(v_low, v_cr_coeff);
-        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cr_coeff);
+        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cb_coeff);
 
         let r_low0 = _mm_add_epi16(y_low0, v_cr_lo);
         let b_low0 = _mm_add_epi16(y_low0, v_cb_lo);
-- 
2.43.0


From f2204d6e729f314351afd7e7455500ef794a297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 24/45] fix: clamp narrowed samples to 255 in the scalar high
 bit depth to 8 bit decoders

---
 src/yuv_p10_rgba.rs       | 2 +-
 src/yuv_p16_rgba_alpha.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yuv_p10_rgba.rs b/src/yuv_p10_rgba.rs
index 7e4f04a..e986af5 100644
--- a/src/yuv_p10_rgba.rs
+++ b/src/yuv_p10_rgba.rs
@@ -147,7 +147,7 @@ fn yuv_p16_to_image_ant<
     fn qrshr<const BIT_DEPTH: usize>(val: i32) -> i32 {
         let total_shift = PRECISION + (BIT_DEPTH as i32 - 8);
         let rounding: i32 = 1 << (total_shift - 1);
-        let max_value: i32 = (1 << BIT_DEPTH) - 1;
+        let max_value: i32 = 255;
         ((val + rounding) >> total_shift).min(max_value).max(0)
     }
 
diff --git a/src/yuv_p16_rgba_alpha.rs b/src/yuv_p16_rgba_alpha.rs
index 7d36835..0586c82 100644
--- a/src/yuv_p16_rgba_alpha.rs
+++ b/src/yuv_p16_rgba_alpha.rs
@@ -105,7 +105,7 @@ fn yuv_p16_to_image_alpha_ant<
     fn qrshr<const BIT_DEPTH: usize>(val: i32) -> i32 {
         let total_shift = PRECISION + (BIT_DEPTH as i32 - 8);
         let rounding: i32 = 1 << (total_shift - 1);
-        let max_value: i32 = (1 << BIT_DEPTH) - 1;
+        let max_value: i32 = 255;
         ((val + rounding) >> total_shift).min(max_value).max(0)
     }
 
-- 
2.43.0


From 758d60e9a084966430c98b6a764adfd0c446bef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 25/45] fix: decode byte order and packing of the alpha plane
 in high bit depth to 8 bit decoders

---
 src/avx2/yuv_p16_to_rgb8_alpha.rs | 35 ++++++++++++++++++++-----------
 src/sse/yuv_p16_to_rgb8_alpha.rs  | 12 ++++++++---
 src/yuv_p16_rgba_alpha.rs         | 14 +++++++++----
 3 files changed, 42 insertions(+), 19 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb8_alpha.rs b/src/avx2/yuv_p16_to_rgb8_alpha.rs
index 6dc8084..121eb11 100644
--- a/src/avx2/yuv_p16_to_rgb8_alpha.rs
+++ b/src/avx2/yuv_p16_to_rgb8_alpha.rs
@@ -253,13 +253,21 @@ unsafe fn avx_yuv_p16_to_rgba8_row_alpha_impl<
         let b_vals1 = _mm256_add_epi16(y_vals1, bvl1);
         let g_vals1 = _mm256_add_epi16(_mm256_add_epi16(y_vals1, gvl10), gvl11);
 
+        let mut a_vl0 = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        let mut a_vl1 =
+            _mm256_loadu_si256(a_plane.get_unchecked((cx + 16)..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_vl0 = _mm256_shuffle_epi8(a_vl0, big_endian_shuffle_flag);
+            a_vl1 = _mm256_shuffle_epi8(a_vl1, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_vl0 = _mm256_from_msb_epi16::<BIT_DEPTH>(a_vl0);
+            a_vl1 = _mm256_from_msb_epi16::<BIT_DEPTH>(a_vl1);
+        }
         let a_values0 = avx2_pack_u16(
-            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(_mm256_loadu_si256(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m256i,
-            )),
-            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(_mm256_loadu_si256(
-                a_plane.get_unchecked((cx + 16)..).as_ptr() as *const __m256i,
-            )),
+            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(a_vl0),
+            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(a_vl1),
         );
 
         let r_values0 = avx2_pack_u16(
@@ -379,12 +387,15 @@ unsafe fn avx_yuv_p16_to_rgba8_row_alpha_impl<
         let g_values = avx2_pack_u16(_mm256_store_shr_epi16_epi8::<BIT_DEPTH>(g_vals), zeros);
         let b_values = avx2_pack_u16(_mm256_store_shr_epi16_epi8::<BIT_DEPTH>(b_vals), zeros);
 
-        let a_values = avx2_pack_u16(
-            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(_mm256_loadu_si256(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m256i,
-            )),
-            zeros,
-        );
+        let mut a_vl = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_vl = _mm256_shuffle_epi8(a_vl, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_vl = _mm256_from_msb_epi16::<BIT_DEPTH>(a_vl);
+        }
+        let a_values = avx2_pack_u16(_mm256_store_shr_epi16_epi8::<BIT_DEPTH>(a_vl), zeros);
 
         _mm256_store_interleave_rgb_half_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
diff --git a/src/sse/yuv_p16_to_rgb8_alpha.rs b/src/sse/yuv_p16_to_rgb8_alpha.rs
index 6ef5e18..dae77a8 100644
--- a/src/sse/yuv_p16_to_rgb8_alpha.rs
+++ b/src/sse/yuv_p16_to_rgb8_alpha.rs
@@ -212,10 +212,16 @@ unsafe fn sse_yuv_p16_to_rgba8_alpha_row_impl<
             _mm_setzero_si128(),
         );
 
+        let mut a_vl = _mm_loadu_si128(a_plane.get_unchecked(cx..).as_ptr() as *const __m128i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_vl = _mm_shuffle_epi8(a_vl, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_vl = _mm_from_msb_epi16::<BIT_DEPTH>(a_vl);
+        }
         let a_values = _mm_packus_epi16(
-            _mm_store_shr_epi16_epi8::<BIT_DEPTH>(_mm_loadu_si128(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m128i,
-            )),
+            _mm_store_shr_epi16_epi8::<BIT_DEPTH>(a_vl),
             _mm_setzero_si128(),
         );
 
diff --git a/src/yuv_p16_rgba_alpha.rs b/src/yuv_p16_rgba_alpha.rs
index 0586c82..39b99b0 100644
--- a/src/yuv_p16_rgba_alpha.rs
+++ b/src/yuv_p16_rgba_alpha.rs
@@ -231,7 +231,9 @@ fn yuv_p16_to_image_alpha_ant<
             rgba0[dst_chans.get_r_channel_offset()] = r0 as u8;
             rgba0[dst_chans.get_g_channel_offset()] = g0 as u8;
             rgba0[dst_chans.get_b_channel_offset()] = b0 as u8;
-            rgba0[dst_chans.get_a_channel_offset()] = (a_src[0] >> store_shift).min(255) as u8;
+            rgba0[dst_chans.get_a_channel_offset()] =
+                (to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[0], msb_shift) >> store_shift).min(255)
+                    as u8;
 
             let y_value1 =
                 (to_ne::<ENDIANNESS, BYTES_POSITION>(y_src[1], msb_shift) as i32 - bias_y) * y_coef;
@@ -245,7 +247,9 @@ fn yuv_p16_to_image_alpha_ant<
             rgba1[dst_chans.get_r_channel_offset()] = r1 as u8;
             rgba1[dst_chans.get_g_channel_offset()] = g1 as u8;
             rgba1[dst_chans.get_b_channel_offset()] = b1 as u8;
-            rgba1[dst_chans.get_a_channel_offset()] = (a_src[1] >> store_shift).min(255) as u8;
+            rgba1[dst_chans.get_a_channel_offset()] =
+                (to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[1], msb_shift) >> store_shift).min(255)
+                    as u8;
         }
 
         if image.width & 1 != 0 {
@@ -259,7 +263,7 @@ fn yuv_p16_to_image_alpha_ant<
             let cr_value = to_ne::<ENDIANNESS, BYTES_POSITION>(*v_plane.last().unwrap(), msb_shift)
                 as i32
                 - bias_uv;
-            let a_value = *a_plane.last().unwrap();
+            let a_value = to_ne::<ENDIANNESS, BYTES_POSITION>(*a_plane.last().unwrap(), msb_shift);
             let rgba = rgba.chunks_exact_mut(channels).last().unwrap();
             let rgba0 = &mut rgba[0..channels];
 
@@ -324,7 +328,9 @@ fn yuv_p16_to_image_alpha_ant<
                 rgba[dst_chans.get_r_channel_offset()] = r as u8;
                 rgba[dst_chans.get_g_channel_offset()] = g as u8;
                 rgba[dst_chans.get_b_channel_offset()] = b as u8;
-                rgba[dst_chans.get_a_channel_offset()] = (a_src >> store_shift).min(255) as u8;
+                rgba[dst_chans.get_a_channel_offset()] =
+                    (to_ne::<ENDIANNESS, BYTES_POSITION>(a_src, msb_shift) >> store_shift).min(255)
+                        as u8;
             }
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv422 {
-- 
2.43.0


From fb39ed5a179eab62d2f0242f7c8aa22cdb2b9dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 26/45] fix: use the second row's luma for the second row in
 the SSE 4:2:0 high bit depth encoder

---
 src/sse/rgb_to_yuv_p16_420.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/rgb_to_yuv_p16_420.rs b/src/sse/rgb_to_yuv_p16_420.rs
index a1310b7..244af76 100644
--- a/src/sse/rgb_to_yuv_p16_420.rs
+++ b/src/sse/rgb_to_yuv_p16_420.rs
@@ -126,7 +126,7 @@ unsafe fn sse_rgba_to_yuv_impl<
         let mut y0_vl =
             _mm_affine_v_dot::<PRECISION>(y_bias, r_g_lo0, r_g_hi0, b_lo0, b_hi0, v_yr_yg, v_yb);
 
-        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values0);
+        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values1);
         let b_hi1 = _mm_unpackhi_epi16(b_values1, zeros);
         let b_lo1 = _mm_unpacklo_epi16(b_values1, zeros);
 
@@ -240,7 +240,7 @@ unsafe fn sse_rgba_to_yuv_impl<
         let mut y0_vl =
             _mm_affine_v_dot::<PRECISION>(y_bias, r_g_lo0, r_g_hi0, b_lo0, b_hi0, v_yr_yg, v_yb);
 
-        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values0);
+        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values1);
         let b_hi1 = _mm_unpackhi_epi16(b_values1, zeros);
         let b_lo1 = _mm_unpacklo_epi16(b_values1, zeros);
 
-- 
2.43.0


From c2d08af35c3dde4b1cd69d9aa314156164a29d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 27/45] fix: load the second half of the alpha plane in the
 AVX2 high bit depth alpha decoder

---
 src/avx2/yuv_p16_to_rgb16_alpha.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avx2/yuv_p16_to_rgb16_alpha.rs b/src/avx2/yuv_p16_to_rgb16_alpha.rs
index 4b25b4b..6650012 100644
--- a/src/avx2/yuv_p16_to_rgb16_alpha.rs
+++ b/src/avx2/yuv_p16_to_rgb16_alpha.rs
@@ -270,7 +270,7 @@ unsafe fn avx_yuv_p16_to_rgba_row_alpha_impl<
         let b_values1 = _mm256_min_epu16(zb1, v_max_colors);
 
         let a_values0 = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
-        let a_values1 = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        let a_values1 = _mm256_loadu_si256(a_plane.get_unchecked(cx + 16..).as_ptr() as *const __m256i);
 
         _mm256_store_interleave_rgb16_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
-- 
2.43.0


From d5e6f487cfe8d5d8e6a1a2926f27e88f711e3c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 28/45] fix: keep pixel order in the 16 pixel step of the AVX2
 luma encoder

---
 src/avx2/rgb_to_y.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/avx2/rgb_to_y.rs b/src/avx2/rgb_to_y.rs
index f1d6cb3..e0db704 100644
--- a/src/avx2/rgb_to_y.rs
+++ b/src/avx2/rgb_to_y.rs
@@ -28,8 +28,8 @@
  */
 
 use crate::avx2::avx2_utils::{
-    _mm256_load_deinterleave_half_rgb_for_yuv, _mm256_load_deinterleave_rgb_for_yuv,
-    _mm256_sqrdmlah_dot,
+    _mm256_interleave_epi8, _mm256_load_deinterleave_half_rgb_for_yuv,
+    _mm256_load_deinterleave_rgb_for_yuv, _mm256_sqrdmlah_dot, avx2_pack_u16,
 };
 use crate::yuv_support::{CbCrForwardTransform, YuvChromaRange, YuvSourceChannels};
 #[cfg(target_arch = "x86")]
@@ -111,9 +111,9 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
             ORIGIN_CHANNELS,
         >(rgba.get_unchecked(px..).as_ptr());
 
-        let rl = _mm256_unpacklo_epi8(r_values, r_values);
-        let gl = _mm256_unpacklo_epi8(g_values, g_values);
-        let bl = _mm256_unpacklo_epi8(b_values, b_values);
+        let (rl, _) = _mm256_interleave_epi8(r_values, r_values);
+        let (gl, _) = _mm256_interleave_epi8(g_values, g_values);
+        let (bl, _) = _mm256_interleave_epi8(b_values, b_values);
 
         let r_low = _mm256_srli_epi16::<V_S>(rl);
         let g_low = _mm256_srli_epi16::<V_S>(gl);
@@ -127,7 +127,7 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
 
         let y_l = _mm256_srli_epi16::<A_E>(_mm256_add_epi16(y_bias, _mm256_add_epi16(yrgc, bhy)));
 
-        let y_yuv = _mm256_packus_epi16(y_l, _mm256_setzero_si256());
+        let y_yuv = avx2_pack_u16(y_l, _mm256_setzero_si256());
         _mm_storeu_si128(
             y_plane.get_unchecked_mut(cx..).as_mut_ptr() as *mut __m128i,
             _mm256_castsi256_si128(y_yuv),
@@ -151,9 +151,9 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
         let (r_values, g_values, b_values) =
             _mm256_load_deinterleave_half_rgb_for_yuv::<ORIGIN_CHANNELS>(src_buffer.as_ptr());
 
-        let rl = _mm256_unpacklo_epi8(r_values, r_values);
-        let gl = _mm256_unpacklo_epi8(g_values, g_values);
-        let bl = _mm256_unpacklo_epi8(b_values, b_values);
+        let (rl, _) = _mm256_interleave_epi8(r_values, r_values);
+        let (gl, _) = _mm256_interleave_epi8(g_values, g_values);
+        let (bl, _) = _mm256_interleave_epi8(b_values, b_values);
 
         let r_low = _mm256_srli_epi16::<V_S>(rl);
         let g_low = _mm256_srli_epi16::<V_S>(gl);
@@ -167,7 +167,7 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
 
         let y_l = _mm256_srli_epi16::<A_E>(_mm256_add_epi16(y_bias, _mm256_add_epi16(yrgc, bhy)));
 
-        let y_yuv = _mm256_packus_epi16(y_l, _mm256_setzero_si256());
+        let y_yuv = avx2_pack_u16(y_l, _mm256_setzero_si256());
         _mm_storeu_si128(
             y_buffer.as_mut_ptr() as *mut __m128i,
             _mm256_castsi256_si128(y_yuv),
-- 
2.43.0


From 8097a9bd39dbcd166f73a3f9ae35c59e24214fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 29/45] fix: clamp colours before multiplying them by alpha in
 the premultiplying SIMD decoders

---
 src/avx2/ayuv_to_rgba.rs          | 15 ++++++++++-----
 src/avx2/yuv_to_rgba_alpha.rs     | 16 +++++++++-------
 src/avx512bw/yuv_to_rgba_alpha.rs | 10 ++++++++++
 src/sse/yuv_to_rgba_alpha.rs      | 10 ++++++++++
 4 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/src/avx2/ayuv_to_rgba.rs b/src/avx2/ayuv_to_rgba.rs
index 733eeb3..128635c 100644
--- a/src/avx2/ayuv_to_rgba.rs
+++ b/src/avx2/ayuv_to_rgba.rs
@@ -233,12 +233,21 @@ unsafe fn avx2_ayuv_to_rgba_impl<const DESTINATION_CHANNELS: u8, const PACKED: u
         let b_low = _mm256_add_epi16(y_low, blc);
         let g_low = _mm256_sub_epi16(y_low, _mm256_add_epi16(glc0, glc1));
 
-        let (r_values, g_values, b_values);
+        let mut r_values = _mm256_packus_epi16(r_low, r_high);
+        let mut g_values = _mm256_packus_epi16(g_low, g_high);
+        let mut b_values = _mm256_packus_epi16(b_low, b_high);
 
         if use_premultiply {
             let a_high = _mm256_unpackhi_epi8(a, _mm256_setzero_si256());
             let a_low = _mm256_unpacklo_epi8(a, _mm256_setzero_si256());
 
+            let r_low = _mm256_unpacklo_epi8(r_values, _mm256_setzero_si256());
+            let r_high = _mm256_unpackhi_epi8(r_values, _mm256_setzero_si256());
+            let g_low = _mm256_unpacklo_epi8(g_values, _mm256_setzero_si256());
+            let g_high = _mm256_unpackhi_epi8(g_values, _mm256_setzero_si256());
+            let b_low = _mm256_unpacklo_epi8(b_values, _mm256_setzero_si256());
+            let b_high = _mm256_unpackhi_epi8(b_values, _mm256_setzero_si256());
+
             let (r_l, r_h) = avx2_div_by255_x2(
                 _mm256_mullo_epi16(r_low, a_low),
                 _mm256_mullo_epi16(r_high, a_high),
@@ -255,10 +264,6 @@ unsafe fn avx2_ayuv_to_rgba_impl<const DESTINATION_CHANNELS: u8, const PACKED: u
             r_values = _mm256_packus_epi16(r_l, r_h);
             g_values = _mm256_packus_epi16(g_l, g_h);
             b_values = _mm256_packus_epi16(b_l, b_h);
-        } else {
-            r_values = _mm256_packus_epi16(r_low, r_high);
-            g_values = _mm256_packus_epi16(g_low, g_high);
-            b_values = _mm256_packus_epi16(b_low, b_high);
         }
 
         _mm256_store_interleave_rgb_for_yuv::<DESTINATION_CHANNELS>(
diff --git a/src/avx2/yuv_to_rgba_alpha.rs b/src/avx2/yuv_to_rgba_alpha.rs
index f05995f..7ecbf0e 100644
--- a/src/avx2/yuv_to_rgba_alpha.rs
+++ b/src/avx2/yuv_to_rgba_alpha.rs
@@ -336,13 +336,15 @@ unsafe fn avx2_yuv_to_rgba_alpha_impl<const DESTINATION_CHANNELS: u8, const SAMP
         let (r_values, g_values, b_values);
 
         if use_premultiply {
-            r_high = _mm256_max_epi16(r_high, _mm256_setzero_si256());
-            b_high = _mm256_max_epi16(b_high, _mm256_setzero_si256());
-            g_high = _mm256_max_epi16(g_high, _mm256_setzero_si256());
-
-            r_low = _mm256_max_epi16(r_low, _mm256_setzero_si256());
-            b_low = _mm256_max_epi16(b_low, _mm256_setzero_si256());
-            g_low = _mm256_max_epi16(g_low, _mm256_setzero_si256());
+            // the product with alpha fits 16 bits only for values within 0..=255
+            let v_max = _mm256_set1_epi16(255);
+            r_high = _mm256_min_epi16(_mm256_max_epi16(r_high, _mm256_setzero_si256()), v_max);
+            b_high = _mm256_min_epi16(_mm256_max_epi16(b_high, _mm256_setzero_si256()), v_max);
+            g_high = _mm256_min_epi16(_mm256_max_epi16(g_high, _mm256_setzero_si256()), v_max);
+
+            r_low = _mm256_min_epi16(_mm256_max_epi16(r_low, _mm256_setzero_si256()), v_max);
+            b_low = _mm256_min_epi16(_mm256_max_epi16(b_low, _mm256_setzero_si256()), v_max);
+            g_low = _mm256_min_epi16(_mm256_max_epi16(g_low, _mm256_setzero_si256()), v_max);
 
             let a_high = _mm256_unpackhi_epi8(a_values, _mm256_setzero_si256());
             let a_low = _mm256_unpacklo_epi8(a_values, _mm256_setzero_si256());
diff --git a/src/avx512bw/yuv_to_rgba_alpha.rs b/src/avx512bw/yuv_to_rgba_alpha.rs
index 9930b1c..253a9f6 100644
--- a/src/avx512bw/yuv_to_rgba_alpha.rs
+++ b/src/avx512bw/yuv_to_rgba_alpha.rs
@@ -252,6 +252,16 @@ unsafe fn avx512_yuv_to_rgba_alpha_impl<
         let (r_values, g_values, b_values);
 
         if use_premultiply {
+            // the product with alpha fits 16 bits only for values within 0..=255
+            let zeros = _mm512_setzero_si512();
+            let v_max = _mm512_set1_epi16(255);
+            let r_high = _mm512_min_epi16(_mm512_max_epi16(r_high, zeros), v_max);
+            let g_high = _mm512_min_epi16(_mm512_max_epi16(g_high, zeros), v_max);
+            let b_high = _mm512_min_epi16(_mm512_max_epi16(b_high, zeros), v_max);
+            let r_low = _mm512_min_epi16(_mm512_max_epi16(r_low, zeros), v_max);
+            let g_low = _mm512_min_epi16(_mm512_max_epi16(g_low, zeros), v_max);
+            let b_low = _mm512_min_epi16(_mm512_max_epi16(b_low, zeros), v_max);
+
             let a_high = _mm512_cvtepu8_epi16(_mm512_extracti64x4_epi64::<1>(a_values));
             let a_low = _mm512_cvtepu8_epi16(_mm512_castsi512_si256(a_values));
 
diff --git a/src/sse/yuv_to_rgba_alpha.rs b/src/sse/yuv_to_rgba_alpha.rs
index 05f8158..d5adee9 100644
--- a/src/sse/yuv_to_rgba_alpha.rs
+++ b/src/sse/yuv_to_rgba_alpha.rs
@@ -165,6 +165,16 @@ unsafe fn sse_yuv_to_rgba_alpha_row_impl<const DESTINATION_CHANNELS: u8, const S
         let (r_values, g_values, b_values);
 
         if use_premultiply {
+            // the product with alpha fits 16 bits only for values within 0..=255
+            let zeros = _mm_setzero_si128();
+            let v_max = _mm_set1_epi16(255);
+            let r_high = _mm_min_epi16(_mm_max_epi16(r_high, zeros), v_max);
+            let g_high = _mm_min_epi16(_mm_max_epi16(g_high, zeros), v_max);
+            let b_high = _mm_min_epi16(_mm_max_epi16(b_high, zeros), v_max);
+            let r_low = _mm_min_epi16(_mm_max_epi16(r_low, zeros), v_max);
+            let g_low = _mm_min_epi16(_mm_max_epi16(g_low, zeros), v_max);
+            let b_low = _mm_min_epi16(_mm_max_epi16(b_low, zeros), v_max);
+
             let a_h = _mm_unpackhi_epi8(a_values, _mm_setzero_si128());
             let a_l = _mm_unpacklo_epi8(a_values, _mm_setzero_si128());
             let r_h_16 = sse_div_by255(_mm_mullo_epi16(r_high, a_h));
-- 
2.43.0


From a9394e8d119264996516c73d0c85a92bed455324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 30/45] fix: write opaque 8 bit alpha in the SIMD high bit
 depth to 8 bit decoders

---
 src/avx2/yuv_p16_to_rgb8.rs     | 2 +-
 src/avx512bw/yuv_p16_to_rgb8.rs | 2 +-
 src/sse/yuv_p16_to_rgb8.rs      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb8.rs b/src/avx2/yuv_p16_to_rgb8.rs
index b372277..d9771ec 100644
--- a/src/avx2/yuv_p16_to_rgb8.rs
+++ b/src/avx2/yuv_p16_to_rgb8.rs
@@ -109,7 +109,7 @@ unsafe fn avx_yuv_p16_to_rgba_row8_impl<
 
     let dst_ptr = bgra;
 
-    let v_max_colors = _mm256_set1_epi16((1i16 << BIT_DEPTH as i16) - 1);
+    let v_max_colors = _mm256_set1_epi8(255u8 as i8);
 
     let y_corr = _mm256_set1_epi16(bias_y as i16);
     let uv_corr = _mm256_set1_epi16(bias_uv as i16);
diff --git a/src/avx512bw/yuv_p16_to_rgb8.rs b/src/avx512bw/yuv_p16_to_rgb8.rs
index b1d4f44..df4b568 100644
--- a/src/avx512bw/yuv_p16_to_rgb8.rs
+++ b/src/avx512bw/yuv_p16_to_rgb8.rs
@@ -189,7 +189,7 @@ unsafe fn avx_yuv_p16_to_rgba_row8_impl<
 
     let dst_ptr = bgra;
 
-    let v_max_colors = _mm512_set1_epi16((1i16 << BIT_DEPTH as i16) - 1);
+    let v_max_colors = _mm512_set1_epi8(255u8 as i8);
 
     let y_corr = _mm512_set1_epi16(bias_y as i16);
     let uv_corr = _mm512_set1_epi16(bias_uv as i16);
diff --git a/src/sse/yuv_p16_to_rgb8.rs b/src/sse/yuv_p16_to_rgb8.rs
index da80224..97469b6 100644
--- a/src/sse/yuv_p16_to_rgb8.rs
+++ b/src/sse/yuv_p16_to_rgb8.rs
@@ -108,7 +108,7 @@ unsafe fn sse_yuv_p16_to_rgba8_row_impl<
 
     let dst_ptr = bgra;
 
-    let v_max_colors = _mm_set1_epi16((1i16 << BIT_DEPTH as i16) - 1);
+    let v_max_colors = _mm_set1_epi8(255u8 as i8);
 
     let y_corr = _mm_set1_epi16(bias_y as i16);
     let uv_corr = _mm_set1_epi16(bias_uv as i16);
-- 
2.43.0


From 69d4aba80907d732dc062ef25c6e97f26ac8177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 31/45] fix: write 1.0 as the opaque f16 alpha in the AVX2
 decoder

---
 src/avx2/yuv_p16_to_rgb_f16.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb_f16.rs b/src/avx2/yuv_p16_to_rgb_f16.rs
index 42f3cdc..eb0c63b 100644
--- a/src/avx2/yuv_p16_to_rgb_f16.rs
+++ b/src/avx2/yuv_p16_to_rgb_f16.rs
@@ -120,6 +120,8 @@ unsafe fn avx_yuv_p16_to_rgba_row_impl<
     let v_g_coeff_1 = _mm256_set1_epi32(i32::from_ne_bytes([
         g_trn2[0], g_trn2[1], g_trn1[0], g_trn1[1],
     ]));
+    // 1.0 as binary16
+    let v_alpha = _mm256_set1_epi16(0x3C00);
     let f_multiplier = _mm256_set1_ps(1. / (((1 << BIT_DEPTH) - 1) as f32));
 
     let base_value = _mm256_set1_epi32((1 << (PRECISION - 1)) - 1);
@@ -279,7 +281,7 @@ unsafe fn avx_yuv_p16_to_rgba_row_impl<
             _mm256_setr_m128i(r_lo, r_hi),
             _mm256_setr_m128i(g_lo, g_hi),
             _mm256_setr_m128i(b_lo, b_hi),
-            v_max_colors,
+            v_alpha,
         );
 
         cx += 16;
@@ -466,7 +468,7 @@ unsafe fn avx_yuv_p16_to_rgba_row_impl<
             _mm256_setr_m128i(r_lo, r_hi),
             _mm256_setr_m128i(g_lo, g_hi),
             _mm256_setr_m128i(b_lo, b_hi),
-            v_max_colors,
+            v_alpha,
         );
 
         std::ptr::copy_nonoverlapping(buffer.as_ptr(), dst_ptr.as_mut_ptr(), diff * channels);
-- 
2.43.0


From 6513db0b587163f803a67fff396b97487366fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 32/45] fix: keep the fraction of f16 samples in the AVX2 8 bit
 to f16 converter

---
 src/avx2/f16_converter.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/avx2/f16_converter.rs b/src/avx2/f16_converter.rs
index 85b867f..b24270f 100644
--- a/src/avx2/f16_converter.rs
+++ b/src/avx2/f16_converter.rs
@@ -130,11 +130,8 @@ impl SurfaceU8ToFloat16Avx2 {
             let lc_ps = _mm256_cvtepi32_ps(l_e32);
             let hc_ps = _mm256_cvtepi32_ps(h_e32);
 
-            let mut ls_ps = _mm256_mul_ps(lc_ps, v_scale_h);
-            let mut hs_ps = _mm256_mul_ps(hc_ps, v_scale_h);
-
-            ls_ps = _mm256_round_ps::<0x0>(ls_ps);
-            hs_ps = _mm256_round_ps::<0x0>(hs_ps);
+            let ls_ps = _mm256_mul_ps(lc_ps, v_scale_h);
+            let hs_ps = _mm256_mul_ps(hc_ps, v_scale_h);
 
             let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(ls_ps);
             let hi = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(hs_ps);
@@ -153,8 +150,9 @@ impl SurfaceU8ToFloat16Avx2 {
                 _mm_setzero_si128(),
             );
 
-            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_round_ps::<0x0>(
-                _mm256_mul_ps(_mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)), v_scale_h),
+            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_mul_ps(
+                _mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)),
+                v_scale_h,
             ));
 
             _mm_storeu_si128(dst.as_mut_ptr() as *mut _, lo);
@@ -171,13 +169,14 @@ impl SurfaceU8ToFloat16Avx2 {
 
             std::ptr::copy_nonoverlapping(src_rem.as_ptr(), src_buffer.as_mut_ptr(), src_rem.len());
 
-            let items = _mm_unpacklo_epi16(
+            let items = _mm_unpacklo_epi8(
                 _mm_loadu_si64(src_buffer.as_ptr() as *const _),
                 _mm_setzero_si128(),
             );
 
-            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_round_ps::<0x0>(
-                _mm256_mul_ps(_mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)), v_scale_h),
+            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_mul_ps(
+                _mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)),
+                v_scale_h,
             ));
 
             _mm_storeu_si128(dst_buffer.as_mut_ptr() as *mut _, lo);
-- 
2.43.0


From a4fe4c2735f2233b7d9e1e98b3e2a634300d9dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 33/45] fix: keep sample order in the SIMD planar to packed
 4:2:2 converters

---
 src/avx2/avx2_utils.rs |  8 +-------
 src/sse/yuv_to_yuy2.rs | 10 ++--------
 2 files changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/avx2/avx2_utils.rs b/src/avx2/avx2_utils.rs
index 6f04025..af3289d 100644
--- a/src/avx2/avx2_utils.rs
+++ b/src/avx2/avx2_utils.rs
@@ -336,12 +336,6 @@ pub(crate) unsafe fn avx2_deinterleave_rgb(
 //     _mm256_permute4x64_epi64::<MASK>(v)
 // }
 
-#[inline(always)]
-pub(crate) unsafe fn avx_pairwise_avg_epi16(a: __m256i, b: __m256i) -> __m256i {
-    let sums = _mm256_hadd_epi16(a, b);
-    _mm256_srli_epi16::<1>(_mm256_add_epi16(sums, _mm256_set1_epi16(1)))
-}
-
 #[inline(always)]
 pub(crate) unsafe fn avx_pairwise_avg_epi16_epi8_j(a: __m256i, f: i8) -> __m256i {
     _mm256_maddubs_epi16(a, _mm256_set1_epi8(f))
@@ -470,7 +464,7 @@ pub(crate) unsafe fn _mm256_havg_epu8(a: __m256i, b: __m256i) -> __m256i {
     let lo = _mm256_srli_epi16::<1>(_mm256_add_epi16(sums_lo, ones_16));
     let sums_hi = _mm256_maddubs_epi16(b, ones);
     let hi = _mm256_srli_epi16::<1>(_mm256_add_epi16(sums_hi, ones_16));
-    avx_pairwise_avg_epi16(lo, hi)
+    avx2_pack_u16(lo, hi)
 }
 
 #[inline(always)]
diff --git a/src/sse/yuv_to_yuy2.rs b/src/sse/yuv_to_yuy2.rs
index bca03a6..ffb056c 100644
--- a/src/sse/yuv_to_yuy2.rs
+++ b/src/sse/yuv_to_yuy2.rs
@@ -142,14 +142,8 @@ unsafe fn yuv_to_yuy2_sse_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 let full_u = _mm_loadu_si128(u_plane.as_ptr().add(u_pos) as *const __m128i);
                 let full_v = _mm_loadu_si128(v_plane.as_ptr().add(v_pos) as *const __m128i);
 
-                let low_u = _mm_getlow_epi8(full_u);
-                let high_u = _mm_gethigh_epi8(full_u);
-                u_pixels = _mm_havg_epu8(low_u, high_u);
-
-                let low_v = _mm_getlow_epi8(full_v);
-                let high_v = _mm_gethigh_epi8(full_v);
-
-                v_pixels = _mm_havg_epu8(low_v, high_v);
+                u_pixels = _mm_havg_epu8(full_u, _mm_setzero_si128());
+                v_pixels = _mm_havg_epu8(full_v, _mm_setzero_si128());
             } else {
                 u_pixels = _mm_loadu_si64(u_plane.as_ptr().add(u_pos));
                 v_pixels = _mm_loadu_si64(v_plane.as_ptr().add(v_pos));
-- 
2.43.0


From b2abdb1904daad39ddb6264b4436a9e9fe1ec4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 34/45] fix: keep the even row's chroma of packed 4:2:2 to
 4:2:0 whichever order rows run in

---
 src/yuy2_to_yuv.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yuy2_to_yuv.rs b/src/yuy2_to_yuv.rs
index bc680b4..8a8a177 100644
--- a/src/yuy2_to_yuv.rs
+++ b/src/yuy2_to_yuv.rs
@@ -245,10 +245,12 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv420 {
         let process_rows =
             |y_dst: &mut [u8], u_dst: &mut [u8], v_dst: &mut [u8], yuy2_src: &[u8]| {
+                // The wide row writes chroma of every row: the even row goes last, its chroma stays
                 for (y, (y_dst, yuy2)) in y_dst
                     .chunks_exact_mut(y_stride as usize)
                     .zip(yuy2_src.chunks_exact(packed_image.yuy_stride as usize))
                     .enumerate()
+                    .rev()
                 {
                     let yuy2 = &yuy2[0..yuy2_width];
                     let y_dst = &mut y_dst[0..planar_image.width as usize];
-- 
2.43.0


From 82ff6fc261ddfe35a14f1a64bd98d5c04baac822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 35/45] fix: fall back to scalar when the Cr coefficient
 exceeds the 16 bit lane of the professional NV decoders

---
 src/yuv_nv_to_rgba.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/yuv_nv_to_rgba.rs b/src/yuv_nv_to_rgba.rs
index 8be088e..ce0c1fe 100644
--- a/src/yuv_nv_to_rgba.rs
+++ b/src/yuv_nv_to_rgba.rs
@@ -393,6 +393,10 @@ macro_rules! impl_row_biplanar_inversion_handler {
                 chroma: YuvChromaRange,
                 transform: &CbCrInverseTransform<i32>,
             ) -> ProcessedOffset {
+                // Row handlers hold the Cr coefficient in a signed 16 bit lane
+                if transform.cr_coef > i16::MAX as i32 {
+                    return ProcessedOffset { ux: 0, cx: 0 };
+                }
                 if let Some(handler) = self.handler {
                     unsafe {
                         return handler(
@@ -469,6 +473,10 @@ macro_rules! impl_row_biplanar_inversion_420_handler {
                 chroma: YuvChromaRange,
                 transform: &CbCrInverseTransform<i32>,
             ) -> ProcessedOffset {
+                // Row handlers hold the Cr coefficient in a signed 16 bit lane
+                if transform.cr_coef > i16::MAX as i32 {
+                    return ProcessedOffset { ux: 0, cx: 0 };
+                }
                 if let Some(handler) = self.handler {
                     unsafe {
                         return handler(
-- 
2.43.0


From c51f54bd777da841cffa74489471c3c6fe267083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 36/45] fix: widen chroma per sample in the SSE NV high bit
 depth decoder

---
 src/sse/yuv_nv_p16_to_rgb.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sse/yuv_nv_p16_to_rgb.rs b/src/sse/yuv_nv_p16_to_rgb.rs
index a3d77f3..a9d68a1 100644
--- a/src/sse/yuv_nv_p16_to_rgb.rs
+++ b/src/sse/yuv_nv_p16_to_rgb.rs
@@ -177,8 +177,8 @@ unsafe fn sse_yuv_nv_p16_to_rgba_row_impl<
                 let u_values_c = _mm_sub_epi16(u_vl, uv_corr);
                 let v_values_c = _mm_sub_epi16(v_vl, uv_corr);
 
-                let u_values_32 = _mm_unpacklo_epi32(u_values_c, _mm_setzero_si128());
-                let v_values_32 = _mm_unpacklo_epi32(v_values_c, _mm_setzero_si128());
+                let u_values_32 = _mm_unpacklo_epi16(u_values_c, _mm_setzero_si128());
+                let v_values_32 = _mm_unpacklo_epi16(v_values_c, _mm_setzero_si128());
 
                 u_high = _mm_unpackhi_epi32(u_values_32, u_values_32);
                 v_high = _mm_unpackhi_epi32(v_values_32, v_values_32);
@@ -213,8 +213,8 @@ unsafe fn sse_yuv_nv_p16_to_rgba_row_impl<
                 let v_values_c = _mm_sub_epi16(v_vl, uv_corr_q);
                 u_high = _mm_unpackhi_epi16(u_values_c, zeros);
                 v_high = _mm_unpackhi_epi16(v_values_c, zeros);
-                u_low = _mm_unpacklo_epi32(u_values_c, _mm_setzero_si128());
-                v_low = _mm_unpacklo_epi32(v_values_c, _mm_setzero_si128());
+                u_low = _mm_unpacklo_epi16(u_values_c, _mm_setzero_si128());
+                v_low = _mm_unpacklo_epi16(v_values_c, _mm_setzero_si128());
             }
         }
 
-- 
2.43.0


From 280a88d4219356b9917975b3512c35aa48ff9117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:35 +0000
Subject: [PATCH 37/45] fix: 10 and 12 bit decoders to 8 bit scaled by the bit
 depth instead of the maximum for matrices without prebuilt coefficients

---
 src/yuv_p10_rgba.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yuv_p10_rgba.rs b/src/yuv_p10_rgba.rs
index e986af5..dccd969 100644
--- a/src/yuv_p10_rgba.rs
+++ b/src/yuv_p10_rgba.rs
@@ -83,7 +83,7 @@ fn yuv_p16_to_image_ant<
         stored
     } else {
         let transform = get_inverse_transform(
-            BIT_DEPTH as u32,
+            (1 << BIT_DEPTH) - 1,
             chroma_range.range_y,
             chroma_range.range_uv,
             kr_kb.kr,
-- 
2.43.0


From ad0c8495a9a039e63e9d1be6917be0357e2e944a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:35 +0000
Subject: [PATCH 38/45] fix: YCgCo encoder scaled chroma of 4:4:4 frames and of
 the last odd column with the luma range

---
 src/rgb_to_ycgco.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rgb_to_ycgco.rs b/src/rgb_to_ycgco.rs
index 6a25409..155d186 100644
--- a/src/rgb_to_ycgco.rs
+++ b/src/rgb_to_ycgco.rs
@@ -124,7 +124,7 @@ fn rgbx_to_ycgco<const ORIGIN_CHANNELS: u8, const SAMPLING: u8>(
 
                 *y_last = y_0 as u8;
 
-                r0 *= range_reduction_y as i32;
+                r0 *= range_reduction_uv as i32;
                 g0 *= range_reduction_uv as i32;
                 b0 *= range_reduction_uv as i32;
 
@@ -291,9 +291,9 @@ fn rgbx_to_ycgco<const ORIGIN_CHANNELS: u8, const SAMPLING: u8>(
                     >> PRECISION;
                 *y_dst = y_0 as u8;
 
-                r0 *= range_reduction_y as i32;
-                g0 *= range_reduction_y as i32;
-                b0 *= range_reduction_y as i32;
+                r0 *= range_reduction_uv as i32;
+                g0 *= range_reduction_uv as i32;
+                b0 *= range_reduction_uv as i32;
 
                 let cg = (((g0 >> 1) - ((r0 + b0) >> 2)) + bias_uv) >> PRECISION;
                 let co = (((r0 - b0) >> 1) + bias_uv) >> PRECISION;
-- 
2.43.0


From 6e8a958ea0fe168b3400a83d80f812970bdc9ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:00 +0000
Subject: [PATCH 39/45] fix: rounded luma weights could add up to more than
 one, and white overflowed to black in full range

---
 src/yuv_support.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/yuv_support.rs b/src/yuv_support.rs
index 8c4f39d..e9ec525 100644
--- a/src/yuv_support.rs
+++ b/src/yuv_support.rs
@@ -155,10 +155,15 @@ pub trait ToIntegerTransform {
 impl ToIntegerTransform for CbCrForwardTransform<f32> {
     fn to_integers(&self, precision: u32) -> CbCrForwardTransform<i32> {
         let scale = (1 << precision) as f32;
+        let yr = (self.yr * scale).round() as i32;
+        let yb = (self.yb * scale).round() as i32;
+        // White must stay at the top of the range: rounded one by one, the luma weights may add up to more than
+        // the rounded sum, and luma would overflow
+        let y_sum = ((self.yr + self.yg + self.yb) * scale).round() as i32;
         CbCrForwardTransform::<i32> {
-            yr: (self.yr * scale).round() as i32,
-            yg: (self.yg * scale).round() as i32,
-            yb: (self.yb * scale).round() as i32,
+            yr,
+            yg: y_sum - yr - yb,
+            yb,
             cb_r: (self.cb_r * scale).round() as i32,
             cb_g: (self.cb_g * scale).round() as i32,
             cb_b: (self.cb_b * scale).round() as i32,
-- 
2.43.0


From 5906aa0390f026651d95311b55b67f8c23557b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:40 +0000
Subject: [PATCH 40/45] fix: 16-bit GBR to f16 overflowed to infinity before
 scaling

---
 src/from_identity_alpha_f16.rs | 43 ++++++++++++++++------------------
 src/from_identity_f16.rs       | 39 ++++++++++++++----------------
 2 files changed, 38 insertions(+), 44 deletions(-)

diff --git a/src/from_identity_alpha_f16.rs b/src/from_identity_alpha_f16.rs
index 3e31081..6d1cf7d 100644
--- a/src/from_identity_alpha_f16.rs
+++ b/src/from_identity_alpha_f16.rs
@@ -53,16 +53,13 @@ trait FullRowHandle<V: Copy + 'static + Sized + Debug + Send + Sync + Default +
 }
 
 trait CastableToF16 {
-    fn cast_to_f16<const BIT_DEPTH: usize>(self) -> f16;
+    fn scale_to_f16(self, scale: f32) -> f16;
 }
 
 impl CastableToF16 for u16 {
-    fn cast_to_f16<const BIT_DEPTH: usize>(self) -> f16 {
-        if BIT_DEPTH == 16 {
-            (self as i32) as f16
-        } else {
-            (self as i16) as f16
-        }
+    fn scale_to_f16(self, scale: f32) -> f16 {
+        // 16-bit samples do not fit in f16 before scaling
+        (self as f32 * scale) as f16
     }
 }
 
@@ -87,7 +84,7 @@ macro_rules! exec_cv_full {
     ($dst: expr, $y_src: expr, $u_src: expr, $v_src: expr, $a_src: expr, $cn: expr, $bit_depth: expr) => {
         let max_value = (1 << $bit_depth) - 1;
         let rgb_chunks = $dst.chunks_exact_mut($cn.get_channels_count());
-        let scale = (1f32 / max_value as f32) as f16;
+        let scale = 1f32 / max_value as f32;
 
         for ((((&y_src, &u_src), &v_src), rgb_dst), a_src) in $y_src
             .iter()
@@ -96,10 +93,10 @@ macro_rules! exec_cv_full {
             .zip(rgb_chunks)
             .zip($a_src)
         {
-            rgb_dst[$cn.get_r_channel_offset()] = v_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_g_channel_offset()] = y_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_b_channel_offset()] = u_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_a_channel_offset()] = a_src.cast_to_f16::<$bit_depth>() * scale;
+            rgb_dst[$cn.get_r_channel_offset()] = v_src.scale_to_f16(scale);
+            rgb_dst[$cn.get_g_channel_offset()] = y_src.scale_to_f16(scale);
+            rgb_dst[$cn.get_b_channel_offset()] = u_src.scale_to_f16(scale);
+            rgb_dst[$cn.get_a_channel_offset()] = a_src.scale_to_f16(scale);
         }
     };
 }
@@ -108,7 +105,7 @@ macro_rules! exec_cv_limited {
     ($dst: expr, $y_src: expr, $u_src: expr, $v_src: expr, $a_src: expr, $cn: expr, $bit_depth: expr, $y_bias: expr, $y_coef: expr, $precision: expr) => {
         let max_value = (1 << $bit_depth) - 1;
         let rgb_chunks = $dst.chunks_exact_mut($cn.get_channels_count());
-        let scale = (1f32 / max_value as f32) as f16;
+        let scale = 1f32 / max_value as f32;
 
         for ((((&y_src, &u_src), &v_src), rgb_dst), a_src) in $y_src
             .iter()
@@ -118,18 +115,18 @@ macro_rules! exec_cv_limited {
             .zip($a_src)
         {
             rgb_dst[$cn.get_r_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((v_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((v_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             rgb_dst[$cn.get_g_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((y_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((y_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             rgb_dst[$cn.get_b_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((u_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
-            rgb_dst[$cn.get_a_channel_offset()] = a_src.cast_to_f16::<$bit_depth>() * scale;
+                (qrshr::<$precision, $bit_depth>((u_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
+            rgb_dst[$cn.get_a_channel_offset()] = a_src.scale_to_f16(scale);
         }
     };
 }
diff --git a/src/from_identity_f16.rs b/src/from_identity_f16.rs
index f8febd1..294e663 100644
--- a/src/from_identity_f16.rs
+++ b/src/from_identity_f16.rs
@@ -46,16 +46,13 @@ trait FullRowHandle<V: Copy + 'static + Sized + Debug + Send + Sync + Default +
 }
 
 trait CastableToF16 {
-    fn cast_to_f16<const BIT_DEPTH: usize>(self) -> f16;
+    fn scale_to_f16(self, scale: f32) -> f16;
 }
 
 impl CastableToF16 for u16 {
-    fn cast_to_f16<const BIT_DEPTH: usize>(self) -> f16 {
-        if BIT_DEPTH == 16 {
-            (self as i32) as f16
-        } else {
-            (self as i16) as f16
-        }
+    fn scale_to_f16(self, scale: f32) -> f16 {
+        // 16-bit samples do not fit in f16 before scaling
+        (self as f32 * scale) as f16
     }
 }
 
@@ -80,14 +77,14 @@ macro_rules! exec_cv_full {
         let max_value = (1 << $bit_depth) - 1;
         let max_value_f16 = 1f32 as f16;
         let rgb_chunks = $dst.chunks_exact_mut($cn.get_channels_count());
-        let scale = (1f32 / max_value as f32) as f16;
+        let scale = 1f32 / max_value as f32;
 
         for (((&y_src, &u_src), &v_src), rgb_dst) in
             $y_src.iter().zip($u_src).zip($v_src).zip(rgb_chunks)
         {
-            rgb_dst[$cn.get_r_channel_offset()] = v_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_g_channel_offset()] = y_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_b_channel_offset()] = u_src.cast_to_f16::<$bit_depth>() * scale;
+            rgb_dst[$cn.get_r_channel_offset()] = v_src.scale_to_f16(scale);
+            rgb_dst[$cn.get_g_channel_offset()] = y_src.scale_to_f16(scale);
+            rgb_dst[$cn.get_b_channel_offset()] = u_src.scale_to_f16(scale);
             if $cn.has_alpha() {
                 rgb_dst[$cn.get_a_channel_offset()] = max_value_f16;
             }
@@ -100,23 +97,23 @@ macro_rules! exec_cv_limited {
         let max_value = (1 << $bit_depth) - 1;
         let max_value_f16 = 1f32 as f16;
         let rgb_chunks = $dst.chunks_exact_mut($cn.get_channels_count());
-        let scale = (1f32 / max_value as f32) as f16;
+        let scale = 1f32 / max_value as f32;
 
         for (((&y_src, &u_src), &v_src), rgb_dst) in
             $y_src.iter().zip($u_src).zip($v_src).zip(rgb_chunks)
         {
             rgb_dst[$cn.get_r_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((v_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((v_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             rgb_dst[$cn.get_g_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((y_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((y_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             rgb_dst[$cn.get_b_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((u_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((u_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             if $cn.has_alpha() {
                 rgb_dst[$cn.get_a_channel_offset()] = max_value_f16;
             }
-- 
2.43.0


From c5b69d04fb66fc5648e771477791c286c3255855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:36 +0000
Subject: [PATCH 41/45] fix: alpha plane of big endian high bit depth images
 was copied without swapping bytes

---
 src/avx2/yuv_p16_to_rgb16_alpha.rs  | 27 +++++++++++++++++++---
 src/neon/yuv_p16_to_rgba16_alpha.rs | 36 +++++++++++++++++++++--------
 src/sse/yuv_p16_to_rgb16_alpha.rs   |  9 +++++++-
 src/yuv_p16_rgba16_alpha.rs         |  8 +++----
 4 files changed, 62 insertions(+), 18 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb16_alpha.rs b/src/avx2/yuv_p16_to_rgb16_alpha.rs
index 6650012..3f17001 100644
--- a/src/avx2/yuv_p16_to_rgb16_alpha.rs
+++ b/src/avx2/yuv_p16_to_rgb16_alpha.rs
@@ -269,8 +269,22 @@ unsafe fn avx_yuv_p16_to_rgba_row_alpha_impl<
         let g_values1 = _mm256_min_epu16(zg1, v_max_colors);
         let b_values1 = _mm256_min_epu16(zb1, v_max_colors);
 
-        let a_values0 = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
-        let a_values1 = _mm256_loadu_si256(a_plane.get_unchecked(cx + 16..).as_ptr() as *const __m256i);
+        let mut a_values0 = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_values0 = _mm256_shuffle_epi8(a_values0, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_values0 = _mm256_from_msb_epi16::<BIT_DEPTH>(a_values0);
+        }
+        let mut a_values1 = _mm256_loadu_si256(a_plane.get_unchecked(cx + 16..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_values1 = _mm256_shuffle_epi8(a_values1, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_values1 = _mm256_from_msb_epi16::<BIT_DEPTH>(a_values1);
+        }
 
         _mm256_store_interleave_rgb16_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
@@ -379,7 +393,14 @@ unsafe fn avx_yuv_p16_to_rgba_row_alpha_impl<
         let g_values = _mm256_min_epu16(_mm256_max_epi16(g_vals, zeros), v_max_colors);
         let b_values = _mm256_min_epu16(_mm256_max_epi16(b_vals, zeros), v_max_colors);
 
-        let a_values = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        let mut a_values = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_values = _mm256_shuffle_epi8(a_values, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_values = _mm256_from_msb_epi16::<BIT_DEPTH>(a_values);
+        }
 
         _mm256_store_interleave_rgb16_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
diff --git a/src/neon/yuv_p16_to_rgba16_alpha.rs b/src/neon/yuv_p16_to_rgba16_alpha.rs
index b8239e2..5bafb53 100644
--- a/src/neon/yuv_p16_to_rgba16_alpha.rs
+++ b/src/neon/yuv_p16_to_rgba16_alpha.rs
@@ -204,8 +204,12 @@ pub(crate) unsafe fn neon_yuv_p16_to_rgba16_alpha_row<
         let g_values1 = vminq_u16(vcombine_u16(g_low1, g_high1), v_max_values);
         let b_values1 = vminq_u16(vcombine_u16(b_low1, b_high1), v_max_values);
 
-        let a_values0 = vld1q_u16(a_ld_ptr.get_unchecked(cx..).as_ptr());
-        let a_values1 = vld1q_u16(a_ld_ptr.get_unchecked((cx + 8)..).as_ptr());
+        let a_values0 = vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
+            a_ld_ptr.get_unchecked(cx..).as_ptr(),
+        ));
+        let a_values1 = vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
+            a_ld_ptr.get_unchecked((cx + 8)..).as_ptr(),
+        ));
 
         neon_store_rgb16::<DESTINATION_CHANNELS>(
             rgba.get_unchecked_mut(cx * channels..).as_mut_ptr(),
@@ -236,7 +240,9 @@ pub(crate) unsafe fn neon_yuv_p16_to_rgba16_alpha_row<
     }
 
     while cx + 8 < width as usize {
-        let a_values_l = vld1q_u16(a_ld_ptr.get_unchecked(cx..).as_ptr());
+        let a_values_l = vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
+            a_ld_ptr.get_unchecked(cx..).as_ptr(),
+        ));
 
         let y_values: int16x8_t = vreinterpretq_s16_u16(vqsubq_u16(
             vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
@@ -351,7 +357,7 @@ pub(crate) unsafe fn neon_yuv_p16_to_rgba16_alpha_row<
         std::ptr::copy_nonoverlapping(
             a_ld_ptr.get_unchecked(cx..).as_ptr(),
             a_buffer.as_mut_ptr(),
-            ux_diff,
+            diff,
         );
 
         std::ptr::copy_nonoverlapping(
@@ -366,7 +372,9 @@ pub(crate) unsafe fn neon_yuv_p16_to_rgba16_alpha_row<
             ux_diff,
         );
 
-        let a_values_l = vld1q_u16(a_buffer.as_ptr());
+        let a_values_l = vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
+            a_buffer.as_ptr(),
+        ));
 
         let y_values: int16x8_t = vreinterpretq_s16_u16(vqsubq_u16(
             vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
@@ -594,8 +602,12 @@ pub(crate) unsafe fn neon_yuv_p16_to_rgba16_alpha_row_rdm<
             v_weights,
         );
 
-        let a_values0 = vld1q_u16(a_ld_ptr.get_unchecked(cx..).as_ptr());
-        let a_values1 = vld1q_u16(a_ld_ptr.get_unchecked((cx + 8)..).as_ptr());
+        let a_values0 = vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
+            a_ld_ptr.get_unchecked(cx..).as_ptr(),
+        ));
+        let a_values1 = vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
+            a_ld_ptr.get_unchecked((cx + 8)..).as_ptr(),
+        ));
 
         let rlv0 = vmaxq_s16(r_vals0, zeros);
         let glv0 = vmaxq_s16(g_vals0, zeros);
@@ -641,7 +653,9 @@ pub(crate) unsafe fn neon_yuv_p16_to_rgba16_alpha_row_rdm<
     }
 
     while cx + 8 < width as usize {
-        let a_values_l = vld1q_u16(a_ld_ptr.get_unchecked(cx..).as_ptr());
+        let a_values_l = vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
+            a_ld_ptr.get_unchecked(cx..).as_ptr(),
+        ));
 
         let y_values: int16x8_t = vreinterpretq_s16_u16(vqsubq_u16(
             vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
@@ -752,7 +766,7 @@ pub(crate) unsafe fn neon_yuv_p16_to_rgba16_alpha_row_rdm<
         std::ptr::copy_nonoverlapping(
             a_ld_ptr.get_unchecked(cx..).as_ptr(),
             a_buffer.as_mut_ptr(),
-            ux_diff,
+            diff,
         );
 
         std::ptr::copy_nonoverlapping(
@@ -767,7 +781,9 @@ pub(crate) unsafe fn neon_yuv_p16_to_rgba16_alpha_row_rdm<
             ux_diff,
         );
 
-        let a_values_l = vld1q_u16(a_buffer.as_ptr());
+        let a_values_l = vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
+            a_buffer.as_ptr(),
+        ));
 
         let y_values: int16x8_t = vreinterpretq_s16_u16(vqsubq_u16(
             vreinterpretq_u16_s16(vldq_s16_endian::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(
diff --git a/src/sse/yuv_p16_to_rgb16_alpha.rs b/src/sse/yuv_p16_to_rgb16_alpha.rs
index 4f73c89..05e36cc 100644
--- a/src/sse/yuv_p16_to_rgb16_alpha.rs
+++ b/src/sse/yuv_p16_to_rgb16_alpha.rs
@@ -207,7 +207,14 @@ unsafe fn sse_yuv_p16_to_rgba_alpha_row_impl<
         let g_values = _mm_min_epu16(_mm_max_epi16(g_vals, zeros), v_max_colors);
         let b_values = _mm_min_epu16(_mm_max_epi16(b_vals, zeros), v_max_colors);
 
-        let a_values = _mm_loadu_si128(a_plane.get_unchecked(cx..).as_ptr() as *const __m128i);
+        let mut a_values = _mm_loadu_si128(a_plane.get_unchecked(cx..).as_ptr() as *const __m128i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_values = _mm_shuffle_epi8(a_values, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_values = _mm_from_msb_epi16::<BIT_DEPTH>(a_values);
+        }
 
         _mm_store_interleave_rgb16_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
diff --git a/src/yuv_p16_rgba16_alpha.rs b/src/yuv_p16_rgba16_alpha.rs
index 29dee22..ad2fd04 100644
--- a/src/yuv_p16_rgba16_alpha.rs
+++ b/src/yuv_p16_rgba16_alpha.rs
@@ -247,7 +247,7 @@ fn yuv_p16_to_image_alpha_ant<
             rgba0[dst_chans.get_r_channel_offset()] = r0 as u16;
             rgba0[dst_chans.get_g_channel_offset()] = g0 as u16;
             rgba0[dst_chans.get_b_channel_offset()] = b0 as u16;
-            rgba0[dst_chans.get_a_channel_offset()] = a_src[0];
+            rgba0[dst_chans.get_a_channel_offset()] = to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[0], msb_shift);
 
             let y_value1 =
                 (to_ne::<ENDIANNESS, BYTES_POSITION>(y_src[1], msb_shift) as i32 - bias_y) * y_coef;
@@ -262,7 +262,7 @@ fn yuv_p16_to_image_alpha_ant<
             rgba1[dst_chans.get_r_channel_offset()] = r1 as u16;
             rgba1[dst_chans.get_g_channel_offset()] = g1 as u16;
             rgba1[dst_chans.get_b_channel_offset()] = b1 as u16;
-            rgba1[dst_chans.get_a_channel_offset()] = a_src[1];
+            rgba1[dst_chans.get_a_channel_offset()] = to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[1], msb_shift);
         }
 
         if image.width & 1 != 0 {
@@ -287,7 +287,7 @@ fn yuv_p16_to_image_alpha_ant<
             rgba0[dst_chans.get_r_channel_offset()] = r0 as u16;
             rgba0[dst_chans.get_g_channel_offset()] = g0 as u16;
             rgba0[dst_chans.get_b_channel_offset()] = b0 as u16;
-            rgba0[dst_chans.get_a_channel_offset()] = a_value;
+            rgba0[dst_chans.get_a_channel_offset()] = to_ne::<ENDIANNESS, BYTES_POSITION>(a_value, msb_shift);
         }
     };
 
@@ -340,7 +340,7 @@ fn yuv_p16_to_image_alpha_ant<
                 rgba[dst_chans.get_r_channel_offset()] = r as u16;
                 rgba[dst_chans.get_g_channel_offset()] = g as u16;
                 rgba[dst_chans.get_b_channel_offset()] = b as u16;
-                rgba[dst_chans.get_a_channel_offset()] = a_src;
+                rgba[dst_chans.get_a_channel_offset()] = to_ne::<ENDIANNESS, BYTES_POSITION>(a_src, msb_shift);
             }
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv422 {
-- 
2.43.0


From bf1cd7c3474915138209249f1e4d1b6b2c21668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:28 +0000
Subject: [PATCH 42/45] fix: AR30 decoders of 12 and 14 bit images did not
 narrow samples to 10 bits

---
 src/yuv_nv_p10_to_ar30.rs | 25 ++++++++++++-----------
 src/yuv_p16_ar30.rs       | 43 +++++++++++++++++++++------------------
 2 files changed, 36 insertions(+), 32 deletions(-)

diff --git a/src/yuv_nv_p10_to_ar30.rs b/src/yuv_nv_p10_to_ar30.rs
index eb4e8dc..480ccf3 100644
--- a/src/yuv_nv_p10_to_ar30.rs
+++ b/src/yuv_nv_p10_to_ar30.rs
@@ -171,6 +171,7 @@ fn yuv_nv_p10_to_image_impl_d<
 ) -> Result<(), YuvError> {
     let ar30_layout: Rgb30 = AR30_LAYOUT.into();
     const CN: usize = 4;
+    const AR30_DEPTH: usize = 10;
     let uv_order: YuvNVOrder = NV_ORDER.into();
     let chroma_subsampling: YuvChromaSubsampling = SAMPLING.into();
 
@@ -224,9 +225,9 @@ fn yuv_nv_p10_to_image_impl_d<
                 cb_value -= bias_uv;
                 cr_value -= bias_uv;
 
-                let r_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cr_coef * cr_value);
-                let b_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cb_coef * cb_value);
-                let g_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(
+                let r_p0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value0 + cr_coef * cr_value);
+                let b_p0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value0 + cb_coef * cb_value);
+                let g_p0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(
                     y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
                 );
 
@@ -242,9 +243,9 @@ fn yuv_nv_p10_to_image_impl_d<
 
                 let y_value1: i32 = (y_vl1 - bias_y) * y_coef;
 
-                let r_p1 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value1 + cr_coef * cr_value);
-                let b_p1 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value1 + cb_coef * cb_value);
-                let g_p1 = qrshr::<BACK_SHIFT, BIT_DEPTH>(
+                let r_p1 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value1 + cr_coef * cr_value);
+                let b_p1 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value1 + cb_coef * cb_value);
+                let g_p1 = qrshr::<BACK_SHIFT, AR30_DEPTH>(
                     y_value1 - g_coef_1 * cr_value - g_coef_2 * cb_value,
                 );
 
@@ -277,9 +278,9 @@ fn yuv_nv_p10_to_image_impl_d<
                 cb_value -= bias_uv;
                 cr_value -= bias_uv;
 
-                let r_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cr_coef * cr_value);
-                let b_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cb_coef * cb_value);
-                let g_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(
+                let r_p0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value0 + cr_coef * cr_value);
+                let b_p0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value0 + cb_coef * cb_value);
+                let g_p0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(
                     y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
                 );
 
@@ -347,9 +348,9 @@ fn yuv_nv_p10_to_image_impl_d<
                     cb_value -= bias_uv;
                     cr_value -= bias_uv;
 
-                    let r_p = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value + cr_coef * cr_value);
-                    let b_p = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value + cb_coef * cb_value);
-                    let g_p = qrshr::<BACK_SHIFT, BIT_DEPTH>(
+                    let r_p = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value + cr_coef * cr_value);
+                    let b_p = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value + cb_coef * cb_value);
+                    let g_p = qrshr::<BACK_SHIFT, AR30_DEPTH>(
                         y_value - g_coef_1 * cr_value - g_coef_2 * cb_value,
                     );
 
diff --git a/src/yuv_p16_ar30.rs b/src/yuv_p16_ar30.rs
index af1a68c..80416d1 100644
--- a/src/yuv_p16_ar30.rs
+++ b/src/yuv_p16_ar30.rs
@@ -26,7 +26,7 @@
  * OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
-use crate::numerics::{qrshr, to_ne};
+use crate::numerics::to_ne;
 use crate::yuv_error::check_rgba_destination;
 use crate::yuv_support::{
     get_yuv_range, search_inverse_transform, Rgb30, YuvBytesPacking, YuvChromaSubsampling,
@@ -61,8 +61,17 @@ fn yuv_p16_to_image_ar30<
     check_rgba_destination(rgba, rgba_stride, image.width, image.height, 4)?;
 
     let kr_kb = matrix.get_kr_kb();
-    const AR30_DEPTH: usize = 10;
+    const AR30_DEPTH: i32 = 10;
     const PRECISION: i32 = 14;
+
+    #[inline(always)]
+    /// Saturating rounding shift right that also narrows samples to 10 bits
+    fn to_ar30<const BIT_DEPTH: usize>(val: i32) -> i32 {
+        let total_shift = PRECISION + BIT_DEPTH as i32 - AR30_DEPTH;
+        let rounding: i32 = 1 << (total_shift - 1);
+        let max_value: i32 = (1 << AR30_DEPTH) - 1;
+        ((val + rounding) >> total_shift).min(max_value).max(0)
+    }
     let i_transform = search_inverse_transform(
         PRECISION,
         BIT_DEPTH as u32,
@@ -97,11 +106,9 @@ fn yuv_p16_to_image_ar30<
             let cb_value = to_ne::<ENDIANNESS, BYTES_POSITION>(u_src, msb_shift) as i32 - bias_uv;
             let cr_value = to_ne::<ENDIANNESS, BYTES_POSITION>(v_src, msb_shift) as i32 - bias_uv;
 
-            let r0 = qrshr::<PRECISION, AR30_DEPTH>(y_value0 + cr_coef * cr_value);
-            let b0 = qrshr::<PRECISION, AR30_DEPTH>(y_value0 + cb_coef * cb_value);
-            let g0 = qrshr::<PRECISION, AR30_DEPTH>(
-                y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
-            );
+            let r0 = to_ar30::<BIT_DEPTH>(y_value0 + cr_coef * cr_value);
+            let b0 = to_ar30::<BIT_DEPTH>(y_value0 + cb_coef * cb_value);
+            let g0 = to_ar30::<BIT_DEPTH>(y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value);
 
             let rgba_2 = &mut rgba[0..8];
 
@@ -114,10 +121,9 @@ fn yuv_p16_to_image_ar30<
             let y_value1 =
                 (to_ne::<ENDIANNESS, BYTES_POSITION>(y_src[1], msb_shift) as i32 - bias_y) * y_coef;
 
-            let r1 = qrshr::<PRECISION, BIT_DEPTH>(y_value1 + cr_coef * cr_value);
-            let b1 = qrshr::<PRECISION, BIT_DEPTH>(y_value1 + cb_coef * cb_value);
-            let g1 =
-                qrshr::<PRECISION, BIT_DEPTH>(y_value1 - g_coef_1 * cr_value - g_coef_2 * cb_value);
+            let r1 = to_ar30::<BIT_DEPTH>(y_value1 + cr_coef * cr_value);
+            let b1 = to_ar30::<BIT_DEPTH>(y_value1 + cb_coef * cb_value);
+            let g1 = to_ar30::<BIT_DEPTH>(y_value1 - g_coef_1 * cr_value - g_coef_2 * cb_value);
 
             let pixel1 = ar30_layout.pack::<AR30_STORE>(r1, g1, b1).to_ne_bytes();
             rgba_2[4] = pixel1[0];
@@ -139,10 +145,9 @@ fn yuv_p16_to_image_ar30<
                 - bias_uv;
             let rgba = rgba.chunks_exact_mut(4).last().unwrap();
 
-            let r0 = qrshr::<PRECISION, BIT_DEPTH>(y_value0 + cr_coef * cr_value);
-            let b0 = qrshr::<PRECISION, BIT_DEPTH>(y_value0 + cb_coef * cb_value);
-            let g0 =
-                qrshr::<PRECISION, BIT_DEPTH>(y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value);
+            let r0 = to_ar30::<BIT_DEPTH>(y_value0 + cr_coef * cr_value);
+            let b0 = to_ar30::<BIT_DEPTH>(y_value0 + cb_coef * cb_value);
+            let g0 = to_ar30::<BIT_DEPTH>(y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value);
             let pixel0 = ar30_layout.pack::<AR30_STORE>(r0, g0, b0).to_ne_bytes();
             rgba[0] = pixel0[0];
             rgba[1] = pixel0[1];
@@ -185,11 +190,9 @@ fn yuv_p16_to_image_ar30<
                 let cr_value =
                     to_ne::<ENDIANNESS, BYTES_POSITION>(v_src, msb_shift) as i32 - bias_uv;
 
-                let r = qrshr::<PRECISION, BIT_DEPTH>(y_value + cr_coef * cr_value);
-                let b = qrshr::<PRECISION, BIT_DEPTH>(y_value + cb_coef * cb_value);
-                let g = qrshr::<PRECISION, BIT_DEPTH>(
-                    y_value - g_coef_1 * cr_value - g_coef_2 * cb_value,
-                );
+                let r = to_ar30::<BIT_DEPTH>(y_value + cr_coef * cr_value);
+                let b = to_ar30::<BIT_DEPTH>(y_value + cb_coef * cb_value);
+                let g = to_ar30::<BIT_DEPTH>(y_value - g_coef_1 * cr_value - g_coef_2 * cb_value);
 
                 let pixel0 = ar30_layout.pack::<AR30_STORE>(r, g, b).to_ne_bytes();
                 rgba[0] = pixel0[0];
-- 
2.43.0


From b8dd597d64bc3888c5e29aeac27458273a823658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 43/45] fix: rotation by 90 degrees was garbled where
 fast_transpose uses SIMD blocks

---
 src/geometry.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 08b976b..cecc219 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -53,6 +53,17 @@ pub(crate) fn map_ft_result(result: Result<(), TransposeError>) -> Result<(), Yu
     }
 }
 
+/// Reverses the order of rows.
+///
+/// SIMD blocks of `fast_transpose` are misplaced when transposing without flop,
+/// so rotation by 90 degrees is a plain transpose with rows reversed afterwards.
+fn reverse_rows<T>(data: &mut [T], stride: usize, row_length: usize, rows: usize) {
+    for y in 0..rows / 2 {
+        let (top, bottom) = data.split_at_mut((rows - 1 - y) * stride);
+        top[y * stride..][..row_length].swap_with_slice(&mut bottom[..row_length]);
+    }
+}
+
 /// Rotates RGBA 8 bit image.
 ///
 /// This rotates any 4 channels image, channel order does not matter.
@@ -87,8 +98,9 @@ pub fn rotate_rgba(
             width,
             height,
             FlipMode::NoFlip,
-            FlopMode::NoFlop,
-        ),
+            FlopMode::Flop,
+        )
+        .map(|_| reverse_rows(dst, dst_stride, height * 4, width)),
         RotationMode::Rotate180 => rotate180_rgba(src, src_stride, dst, dst_stride, width, height),
         RotationMode::Rotate270 => transpose_rgba(
             src,
@@ -189,8 +201,9 @@ pub fn rotate_cbcr(
             width,
             height,
             FlipMode::NoFlip,
-            FlopMode::NoFlop,
-        ),
+            FlopMode::Flop,
+        )
+        .map(|_| reverse_rows(dst, dst_stride, height * 2, width)),
         RotationMode::Rotate180 => {
             rotate180_plane_with_alpha(src, src_stride, dst, dst_stride, width, height)
         }
@@ -293,8 +306,9 @@ pub fn rotate_rgba16(
             width,
             height,
             FlipMode::NoFlip,
-            FlopMode::NoFlop,
-        ),
+            FlopMode::Flop,
+        )
+        .map(|_| reverse_rows(dst, dst_stride, height * 4, width)),
         RotationMode::Rotate180 => {
             rotate180_rgba16(src, src_stride, dst, dst_stride, width, height)
         }
@@ -450,8 +464,9 @@ pub fn rotate_plane16(
             width,
             height,
             FlipMode::NoFlip,
-            FlopMode::NoFlop,
-        ),
+            FlopMode::Flop,
+        )
+        .map(|_| reverse_rows(dst, dst_stride, height, width)),
         RotationMode::Rotate180 => {
             rotate180_plane16(src, src_stride, dst, dst_stride, width, height)
         }
-- 
2.43.0


From d41c64d8228683f656d0472d2ed90e46d624f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 44/45] fix: SMPTE 240M luma weights of red and blue were
 swapped

---
 src/built_coefficients.rs | 40 +++++++++++++++++++--------------------
 src/yuv_support.rs        |  4 ++--
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/built_coefficients.rs b/src/built_coefficients.rs
index fe98e8a..76826be 100644
--- a/src/built_coefficients.rs
+++ b/src/built_coefficients.rs
@@ -245,27 +245,27 @@ static FORWARD_BT2020_FULL_12_13PREC: CbCrForwardTransform<i32> = CbCrForwardTra
 };
 
 static FORWARD_SMPTE240_LIMITED_8_13PREC: CbCrForwardTransform<i32> = CbCrForwardTransform {
-    yr: 612,
+    yr: 1492,
     yg: 4932,
-    yb: 1492,
-    cb_r: -397,
-    cb_g: -3201,
+    yb: 612,
+    cb_r: -835,
+    cb_g: -2763,
     cb_b: 3598,
     cr_r: 3598,
-    cr_g: -2763,
-    cr_b: -835,
+    cr_g: -3201,
+    cr_b: -397,
 };
 
 static FORWARD_SMPTE240_FULL_8_13PREC: CbCrForwardTransform<i32> = CbCrForwardTransform {
-    yr: 713,
+    yr: 1737,
     yg: 5743,
-    yb: 1737,
-    cb_r: -452,
-    cb_g: -3644,
+    yb: 713,
+    cb_r: -951,
+    cb_g: -3145,
     cb_b: 4096,
     cr_r: 4096,
-    cr_g: -3145,
-    cr_b: -951,
+    cr_g: -3644,
+    cr_b: -452,
 };
 
 static FORWARD_BT470_FULL_8_13PREC: CbCrForwardTransform<i32> = CbCrForwardTransform {
@@ -416,18 +416,18 @@ static INVERSE_BT2020_FULL_8_PREC13: CbCrInverseTransform<i32> = CbCrInverseTran
 
 static INVERSE_SMPTE240_LIMITED_8_PREC13: CbCrInverseTransform<i32> = CbCrInverseTransform {
     y_coef: 9539,
-    cr_coef: 17029,
-    cb_coef: 14697,
-    g_coeff_1: 2113,
-    g_coeff_2: 4445,
+    cr_coef: 14697,
+    cb_coef: 17029,
+    g_coeff_1: 4445,
+    g_coeff_2: 2113,
 };
 
 static INVERSE_SMPTE240_FULL_8_PREC13: CbCrInverseTransform<i32> = CbCrInverseTransform {
     y_coef: 8192,
-    cr_coef: 14959,
-    cb_coef: 12911,
-    g_coeff_1: 1856,
-    g_coeff_2: 3904,
+    cr_coef: 12911,
+    cb_coef: 14959,
+    g_coeff_1: 3904,
+    g_coeff_2: 1856,
 };
 
 static INVERSE_BT470_LIMITED_8_PREC13: CbCrInverseTransform<i32> = CbCrInverseTransform {
diff --git a/src/yuv_support.rs b/src/yuv_support.rs
index e9ec525..2067379 100644
--- a/src/yuv_support.rs
+++ b/src/yuv_support.rs
@@ -306,8 +306,8 @@ impl YuvStandardMatrix {
                 kb: 0.0593f32,
             },
             YuvStandardMatrix::Smpte240 => YuvBias {
-                kr: 0.087f32,
-                kb: 0.212f32,
+                kr: 0.212f32,
+                kb: 0.087f32,
             },
             YuvStandardMatrix::Bt470_6 => YuvBias {
                 kr: 0.2220f32,
-- 
2.43.0


From 4feb647d189eee257289d9ff1fed140daf8c9c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 45/45] fix: packed 4:2:2 size check multiplied by two after
 its overflow check

---
 src/yuv_error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yuv_error.rs b/src/yuv_error.rs
index 8d0a0ed..b51aa28 100644
--- a/src/yuv_error.rs
+++ b/src/yuv_error.rs
@@ -156,7 +156,7 @@ pub(crate) fn check_yuv_packed422<V>(
         return Err(YuvError::ZeroBaseSize);
     }
     check_overflow_v2(stride as usize, height as usize)?;
-    check_overflow_v2(width as usize, height as usize)?;
+    check_overflow_v3(2, width as usize + width as usize % 2, height as usize)?;
     let full_size = if width % 2 == 0 {
         2 * width as usize * height as usize
     } else {
-- 
2.43.0

