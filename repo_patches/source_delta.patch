From 3c1831cd07c21d61550daeaee88d445d933d136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 1/9] fix: limit custom quantization table values to 1..255

Baseline tables are written with 8 bit precision. Values up to 2048 were used
for quantization but truncated to their low byte in the DQT segment, so files
decoded to garbage (or carried an illegal zero quantizer).
---
 src/quantization.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quantization.rs b/src/quantization.rs
index 93055e6..e84dc02 100644
--- a/src/quantization.rs
+++ b/src/quantization.rs
@@ -250,7 +250,8 @@ impl QuantizationTable {
     fn get_user_table(table: &[u16; 64]) -> [NonZeroU16; 64] {
         let mut q_table = [NonZeroU16::new(1).unwrap(); 64];
         for (i, &v) in table.iter().enumerate() {
-            q_table[i] = match NonZeroU16::new(v.clamp(1, 2 << 10) << 3) {
+            // The table is written with 8 bit precision
+            q_table[i] = match NonZeroU16::new(v.clamp(1, 255) << 3) {
                 Some(v) => v,
                 None => panic!("Invalid quantization table value: {}", v),
             };
-- 
2.43.0


From f34c6c9b763d82305ac43685d9d26db5ac8b2bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 2/9] fix: split the 63 AC coefficients into non-empty
 progressive scans

With 34 or more scans the first AC scan was coefficients 1..0: an illegal
spectral selection that decoders reject.
---
 src/encoder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index eded305..f01fedf 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -892,15 +892,15 @@ impl<W: JfifWrite> Encoder<W> {
         // Phase 2: AC scans
         let scans = scans as usize - 1;
 
-        let values_per_scan = 64 / scans;
+        let values_per_scan = 63 / scans;
 
         for scan in 0..scans {
-            let start = (scan * values_per_scan).max(1);
+            let start = 1 + scan * values_per_scan;
             let end = if scan == scans - 1 {
                 // ensure last scan is always transfers the remaining coefficients
                 64
             } else {
-                (scan + 1) * values_per_scan
+                1 + (scan + 1) * values_per_scan
             };
 
             for (i, component) in self.components.iter().enumerate() {
@@ -1090,15 +1090,15 @@ impl<W: JfifWrite> Encoder<W> {
                     if let Some(scans) = self.progressive_scans {
                         let scans = scans as usize - 1;
 
-                        let values_per_scan = 64 / scans;
+                        let values_per_scan = 63 / scans;
 
                         for scan in 0..scans {
-                            let start = (scan * values_per_scan).max(1);
+                            let start = 1 + scan * values_per_scan;
                             let end = if scan == scans - 1 {
                                 // Due to rounding we might need to transfer more than values_per_scan values in the last scan
                                 64
                             } else {
-                                (scan + 1) * values_per_scan
+                                1 + (scan + 1) * values_per_scan
                             };
 
                             debug_assert!(!blocks[i].is_empty());
-- 
2.43.0


From 965e7c90709af3540f1ad0e33d82bc7f92fc47c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 3/9] fix: count DC differences per restart interval for
 optimized huffman tables

The prediction was carried over restart markers while counting but not while
writing, so the table could lack a code that was needed: the symbol was then
written with zero bits and the file was corrupt.
---
 src/encoder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index f01fedf..730d860 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -1073,7 +1073,14 @@ impl<W: JfifWrite> Encoder<W> {
 
                     debug_assert!(!blocks[i].is_empty());
 
-                    for block in &blocks[i] {
+                    let restart_interval = usize::from(self.restart_interval.unwrap_or(0));
+
+                    for (n, block) in blocks[i].iter().enumerate() {
+                        // The prediction starts over after each restart marker
+                        if restart_interval > 0 && n % restart_interval == 0 {
+                            prev_dc = 0;
+                        }
+
                         let value = block[0];
                         let diff = value - prev_dc;
                         let num_bits = get_num_bits(diff);
-- 
2.43.0


From 0580392544809fcf1a56a35b4eeb0b4b337f2662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 4/9] fix: accept ICC profiles up to the documented 16,707,345
 bytes

255 chunks are allowed; profiles that needed the last one were refused.
---
 src/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 730d860..7dc1afa 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -381,7 +381,7 @@ impl<W: JfifWrite> Encoder<W> {
         let num_chunks = ceil_div(data.len(), MAX_CHUNK_LENGTH);
 
         // Sequence number is stored as a byte and starts with 1
-        if num_chunks >= 255 {
+        if num_chunks > 255 {
             return Err(EncodingError::IccTooLarge(data.len()));
         }
 
-- 
2.43.0


From a89fbaca2ef8a87eb4e9ececc8bc2f1fd1a29c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 5/9] fix: allow more than 32 levels in the unlimited Huffman
 tree

Strongly skewed symbol statistics of a large picture need code lengths beyond
32 before they are limited to 16 bits; building the table panicked.
---
 src/huffman.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/huffman.rs b/src/huffman.rs
index a32debd..83f9e9b 100644
--- a/src/huffman.rs
+++ b/src/huffman.rs
@@ -156,7 +156,8 @@ impl HuffmanTable {
         // Find the number of codes of each size
         // Figure K.2
 
-        let mut bits = [0u8; 33];
+        // Codes can get up to 256 bits long before the length is limited
+        let mut bits = [0u8; 257];
 
         for &size in codesize.iter() {
             if size > 0 {
@@ -167,7 +168,7 @@ impl HuffmanTable {
         // Limiting code lengths to 16 bits
         // Figure K.3
 
-        let mut i = 32;
+        let mut i = 256;
 
         while i > 16 {
             while bits[i] > 0 {
@@ -197,7 +198,7 @@ impl HuffmanTable {
 
         let mut k = 0;
 
-        for i in 1..=32 {
+        for i in 1..=256 {
             for j in 0..=255 {
                 if codesize[j] == i {
                     huffval[k] = j as u8;
-- 
2.43.0


From bc0c15388c630f46e4b57789af736a2ec5d85cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 6/9] fix: reject too short image data on 32 bit targets

The required length could wrap around, so a slice far too small for the given
dimensions passed the check and encoding panicked when reading beyond it.
---
 src/encoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 7dc1afa..60dd9bf 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -410,7 +410,9 @@ impl<W: JfifWrite> Encoder<W> {
         height: u16,
         color_type: ColorType,
     ) -> Result<(), EncodingError> {
-        let required_data_len = width as usize * height as usize * color_type.get_bytes_per_pixel();
+        // Can exceed the address space of 32 bit targets, in which case no slice is ever large enough
+        let required_data_len = (width as usize * height as usize)
+            .saturating_mul(color_type.get_bytes_per_pixel());
 
         if data.len() < required_data_len {
             return Err(EncodingError::BadImageData {
-- 
2.43.0


From 352ee8e468a8f2a9bb8738e278963f307b05d692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 7/9] fix: flush the destination when the image is complete

Data left in the BufWriter of a file encoder was written when it was dropped,
where errors are ignored: encoding reported success although (part of) the file
could not be written.
---
 src/encoder.rs |  3 +++
 src/writer.rs  | 24 ++++++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/encoder.rs b/src/encoder.rs
index 60dd9bf..0c96ab1 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -531,6 +531,9 @@ impl<W: JfifWrite> Encoder<W> {
 
         self.writer.write_marker(Marker::EOI)?;
 
+        // Errors of buffered writers would otherwise be lost when they are dropped
+        self.writer.finish_image()?;
+
         Ok(())
     }
 
diff --git a/src/writer.rs b/src/writer.rs
index e818b67..f87d936 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -38,6 +38,16 @@ pub trait JfifWrite {
     ///
     /// Return an error if the data can't be written
     fn write_all(&mut self, buf: &[u8]) -> Result<(), EncodingError>;
+
+    /// Called once after the last byte of the image. Does nothing by default, writers that keep
+    /// data in an internal buffer must pass it on here. Forwarded to `std::io::Write::flush` if
+    /// the `std` feature is enabled.
+    /// # Errors
+    ///
+    /// Return an error if buffered data can't be written
+    fn finish_image(&mut self) -> Result<(), EncodingError> {
+        Ok(())
+    }
 }
 
 #[cfg(not(feature = "std"))]
@@ -45,6 +55,10 @@ impl<W: JfifWrite + ?Sized> JfifWrite for &mut W {
     fn write_all(&mut self, buf: &[u8]) -> Result<(), EncodingError> {
         (**self).write_all(buf)
     }
+
+    fn finish_image(&mut self) -> Result<(), EncodingError> {
+        (**self).finish_image()
+    }
 }
 
 #[cfg(not(feature = "std"))]
@@ -62,6 +76,12 @@ impl<W: std::io::Write + ?Sized> JfifWrite for W {
         self.write_all(buf)?;
         Ok(())
     }
+
+    #[inline(always)]
+    fn finish_image(&mut self) -> Result<(), EncodingError> {
+        self.flush()?;
+        Ok(())
+    }
 }
 
 pub(crate) struct JfifWriter<W: JfifWrite> {
@@ -84,6 +104,10 @@ impl<W: JfifWrite> JfifWriter<W> {
         self.w.write_all(buf)
     }
 
+    pub fn finish_image(&mut self) -> Result<(), EncodingError> {
+        self.w.finish_image()
+    }
+
     #[inline(always)]
     pub fn write_u8(&mut self, value: u8) -> Result<(), EncodingError> {
         self.w.write_all(&[value])
-- 
2.43.0


From 9fc96d1239ceb4c3242e3dbde3c2f441911b36b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 8/9] fix: round every column in the AVX2 DCT's DC pass

PW_DESCALE_P2X set the rounding addend in 32 bit lanes, so the odd columns of
rows 0 and 4 were truncated instead of rounded and the SIMD build produced other
files than the scalar one.
---
 src/avx2/fdct.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/avx2/fdct.rs b/src/avx2/fdct.rs
index b7caa38..cf1e260 100644
--- a/src/avx2/fdct.rs
+++ b/src/avx2/fdct.rs
@@ -10,7 +10,7 @@
 #[cfg(target_arch = "x86")]
 use core::arch::x86::{
     __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_loadu_si256, _mm256_madd_epi16,
-    _mm256_packs_epi32, _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_set_epi16,
+    _mm256_packs_epi32, _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_set1_epi16, _mm256_set_epi16,
     _mm256_set_epi32, _mm256_sign_epi16, _mm256_slli_epi16, _mm256_srai_epi16, _mm256_srai_epi32,
     _mm256_storeu_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi32,
     _mm256_unpacklo_epi16, _mm256_unpacklo_epi32,
@@ -19,7 +19,7 @@ use core::arch::x86::{
 #[cfg(target_arch = "x86_64")]
 use core::arch::x86_64::{
     __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_loadu_si256, _mm256_madd_epi16,
-    _mm256_packs_epi32, _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_set_epi16,
+    _mm256_packs_epi32, _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_set1_epi16, _mm256_set_epi16,
     _mm256_set_epi32, _mm256_sign_epi16, _mm256_slli_epi16, _mm256_srai_epi16, _mm256_srai_epi32,
     _mm256_storeu_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi32,
     _mm256_unpacklo_epi16, _mm256_unpacklo_epi32,
@@ -188,16 +188,8 @@ unsafe fn fdct_avx2_internal(data: &mut [i16; 64]) {
     #[allow(non_snake_case)]
     #[inline(always)]
     unsafe fn PW_DESCALE_P2X() -> __m256i {
-        _mm256_set_epi32(
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-        )
+        // One addend for each of the 16 words
+        _mm256_set1_epi16(1 << (PASS1_BITS - 1))
     }
 
     // In-place 8x8x16-bit matrix transpose using AVX2 instructions
-- 
2.43.0


From 11e29c738c27ad6f3d8a244e66e0dbd836f7a868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:41 +0000
Subject: [PATCH 9/9] fix: count symbols for optimized huffman tables in 64
 bits

More than 2^32 symbols can fall on one table: 38200x38200 CMYK pixels in
64 progressive scans overflowed the counters (a panic with overflow checks,
tables from wrapped counts without).
---
 src/encoder.rs | 4 ++--
 src/huffman.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 0c96ab1..61a4011 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -1062,9 +1062,9 @@ impl<W: JfifWrite> Encoder<W> {
         let max_tables = self.components.len().min(2) as u8;
 
         for table in 0..max_tables {
-            let mut dc_freq = [0u32; 257];
+            let mut dc_freq = [0u64; 257];
             dc_freq[256] = 1;
-            let mut ac_freq = [0u32; 257];
+            let mut ac_freq = [0u64; 257];
             ac_freq[256] = 1;
 
             let mut had_ac = false;
diff --git a/src/huffman.rs b/src/huffman.rs
index 83f9e9b..558ddcf 100644
--- a/src/huffman.rs
+++ b/src/huffman.rs
@@ -96,7 +96,7 @@ impl HuffmanTable {
 
     /// Generates an optimized huffman table as described in Section K.2
     #[allow(clippy::needless_range_loop)]
-    pub fn new_optimized(mut freq: [u32; 257]) -> HuffmanTable {
+    pub fn new_optimized(mut freq: [u64; 257]) -> HuffmanTable {
         let mut others = [-1i32; 257];
         let mut codesize = [0usize; 257];
 
@@ -104,7 +104,7 @@ impl HuffmanTable {
         // Figure K.1
         loop {
             let mut v1 = None;
-            let mut v1_min = u32::MAX;
+            let mut v1_min = u64::MAX;
 
             // Find the largest value with the least non zero frequency
             for (i, &f) in freq.iter().enumerate() {
@@ -120,7 +120,7 @@ impl HuffmanTable {
             };
 
             let mut v2 = None;
-            let mut v2_min = u32::MAX;
+            let mut v2_min = u64::MAX;
 
             // Find the next largest value with the least non zero frequency
             for (i, &f) in freq.iter().enumerate() {
-- 
2.43.0

