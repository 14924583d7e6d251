From ba6ad78eeb5bdca79d25999f24e4da8f7e70b41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:14 +0000
Subject: [PATCH 01/44] fix: default JxlBitstreamInput::skip must not count
 bytes that were not read

The provided implementation ignored the value returned by read(), so a
short read or the end of the available input was reported as skipped and
the decoder lost its position in the file.
---
 jxl/src/api/input.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jxl/src/api/input.rs b/jxl/src/api/input.rs
index dd4a91f..d827e8e 100644
--- a/jxl/src/api/input.rs
+++ b/jxl/src/api/input.rs
@@ -26,7 +26,10 @@ pub trait JxlBitstreamInput {
         let mut skipped = 0;
         while bytes > 0 {
             let num = bytes.min(BUF_SIZE);
-            self.read(&mut [IoSliceMut::new(&mut skip_buf[..num])])?;
+            let num = self.read(&mut [IoSliceMut::new(&mut skip_buf[..num])])?;
+            if num == 0 {
+                break;
+            }
             bytes -= num;
             skipped += num;
         }
-- 
2.43.0


From a2256782099a32e2cc46b6b1215181a14b84f2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:02 +0000
Subject: [PATCH 02/44] fix: skipping a frame must continue across container
 box boundaries

skip_sections issued a single skip and asked for more input when it was
shorter than the frame, although a skip ends at the end of a codestream
box (or wherever the input decides to stop) with more input available.
---
 .../api/inner/codestream_parser/frame_info.rs | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/jxl/src/api/inner/codestream_parser/frame_info.rs b/jxl/src/api/inner/codestream_parser/frame_info.rs
index 484ccae..78b8320 100644
--- a/jxl/src/api/inner/codestream_parser/frame_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_info.rs
@@ -333,16 +333,19 @@ impl FrameInfo {
         buf: &mut SmallBuffer,
     ) -> Result<()> {
         let total_size = self.section_size;
-        let need_skip = total_size - self.ready_section_data;
-        let skipped = input.skip(need_skip)?;
-        buf.mark_consumed(skipped as u64);
-        self.ready_section_data += skipped;
-        if self.ready_section_data < total_size {
-            Err(Error::OutOfBounds(total_size - self.ready_section_data))
-        } else {
-            self.sections.clear();
-            Ok(())
+        // A single call might skip less than requested (i.e. up to the end of a box) even if
+        // more input is available.
+        while self.ready_section_data < total_size {
+            let need_skip = total_size - self.ready_section_data;
+            let skipped = input.skip(need_skip)?;
+            if skipped == 0 {
+                return Err(Error::OutOfBounds(need_skip));
+            }
+            buf.mark_consumed(skipped as u64);
+            self.ready_section_data += skipped;
         }
+        self.sections.clear();
+        Ok(())
     }
 
     pub fn fill_sections(
-- 
2.43.0


From c8e4253fb38942d2e49137bfde8cffca71debaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:42 +0000
Subject: [PATCH 03/44] fix: BufReader skip must not go past the end of the
 data

Seeking beyond the end of a file succeeds, so a truncated file was
reported as completely skipped; and skipping a box that extends to the
end of the file passed usize::MAX, i.e. a seek by -1.
---
 jxl/src/api/input.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jxl/src/api/input.rs b/jxl/src/api/input.rs
index d827e8e..39e53fc 100644
--- a/jxl/src/api/input.rs
+++ b/jxl/src/api/input.rs
@@ -66,8 +66,10 @@ impl<R: Read + Seek> JxlBitstreamInput for BufReader<R> {
     }
 
     fn skip(&mut self, bytes: usize) -> Result<usize, Error> {
+        // Seeking past the end of the data succeeds, so never skip more than what is there.
+        let bytes = bytes.min(JxlBitstreamInput::available_bytes(self)?);
         let cur = self.stream_position()?;
-        self.seek(SeekFrom::Current(bytes as i64))
-            .map(|x| x.saturating_sub(cur) as usize)
+        self.seek(SeekFrom::Start(cur + bytes as u64))?;
+        Ok(bytes)
     }
 }
-- 
2.43.0


From a6e840839287203532feb0d39babe07115ac19c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:48 +0000
Subject: [PATCH 04/44] fix: BitReader must report missing bytes, not bits, as
 the size hint

---
 jxl/src/bit_reader.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jxl/src/bit_reader.rs b/jxl/src/bit_reader.rs
index 4c2d557..a972cbf 100644
--- a/jxl/src/bit_reader.rs
+++ b/jxl/src/bit_reader.rs
@@ -108,7 +108,9 @@ impl<'a> BitReader<'a> {
 
     pub fn check_for_error(&self) -> Result<(), Error> {
         if self.total_bits_read > self.initial_bits {
-            Err(Error::OutOfBounds(self.total_bits_read - self.initial_bits))
+            Err(Error::OutOfBounds(
+                (self.total_bits_read - self.initial_bits).div_ceil(8),
+            ))
         } else {
             Ok(())
         }
@@ -153,7 +155,7 @@ impl<'a> BitReader<'a> {
         let bits_available = self.data.len() * 8;
         if n > bits_available {
             self.total_bits_read += bits_available;
-            return Err(Error::OutOfBounds(n - bits_available));
+            return Err(Error::OutOfBounds((n - bits_available).div_ceil(8)));
         }
 
         // Skip bytes directly in `data`, then handle leftover bits
@@ -173,7 +175,7 @@ impl<'a> BitReader<'a> {
         self.bit_buf >>= to_consume;
         self.bits_in_buf -= to_consume;
         if n > 0 {
-            Err(Error::OutOfBounds(n))
+            Err(Error::OutOfBounds(n.div_ceil(8)))
         } else {
             Ok(())
         }
-- 
2.43.0


From d345f3175333586704496c5b4e205fb8aab8dbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:55 +0000
Subject: [PATCH 05/44] fix: requests for more input must not exceed what is
 certainly missing

---
 jxl/src/api/inner/codestream_parser/frame_info.rs |  8 ++++----
 jxl/src/api/inner/codestream_parser/image_info.rs | 14 +++++---------
 jxl/src/headers/permutation.rs                    | 10 +---------
 3 files changed, 10 insertions(+), 22 deletions(-)

diff --git a/jxl/src/api/inner/codestream_parser/frame_info.rs b/jxl/src/api/inner/codestream_parser/frame_info.rs
index 78b8320..e58a8a0 100644
--- a/jxl/src/api/inner/codestream_parser/frame_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_info.rs
@@ -165,10 +165,10 @@ impl FrameInfo {
             match toc_parser.read_step(br) {
                 Ok(()) => *bits = br.total_bits_read(),
                 Err(Error::OutOfBounds(c)) => {
-                    // Estimate >= 16 bits per remaining entry to read.
-                    return Err(Error::OutOfBounds(
-                        c + toc_parser.remaining_entries() as usize * 2,
-                    ));
+                    // Each entry after the current one takes at least 12 bits. The hint must not
+                    // exceed what is certainly missing, or the end of the file may be missed.
+                    let later_entries = toc_parser.remaining_entries().saturating_sub(1) as usize;
+                    return Err(Error::OutOfBounds(c + later_entries * 3 / 2));
                 }
                 Err(e) => return Err(e),
             }
diff --git a/jxl/src/api/inner/codestream_parser/image_info.rs b/jxl/src/api/inner/codestream_parser/image_info.rs
index 1a18722..f494248 100644
--- a/jxl/src/api/inner/codestream_parser/image_info.rs
+++ b/jxl/src/api/inner/codestream_parser/image_info.rs
@@ -10,7 +10,7 @@ use crate::api::{
     JxlDataFormat, JxlDecoderOptions, JxlExtraChannel, JxlPixelFormat, ToneMapping,
 };
 use crate::bit_reader::BitReader;
-use crate::error::{Error, Result};
+use crate::error::Result;
 use crate::headers::color_encoding::ColorSpace;
 use crate::headers::{FileHeader, JxlHeader};
 use crate::icc::IncrementalIccReader;
@@ -147,14 +147,10 @@ impl ImageInfo {
             let icc_parser = self.icc_parser.as_mut().unwrap();
             *bits = br.total_bits_read();
             for _ in 0..icc_parser.remaining() {
-                match icc_parser.read_one(br) {
-                    Ok(()) => *bits = br.total_bits_read(),
-                    Err(Error::OutOfBounds(c)) => {
-                        // Estimate >= one bit per remaining character to read.
-                        return Err(Error::OutOfBounds(c + icc_parser.remaining() / 8));
-                    }
-                    Err(e) => return Err(e),
-                }
+                // Note: the remaining characters can take less than one bit each, so the hint of
+                // the failing read cannot be increased by a per-character estimate.
+                icc_parser.read_one(br)?;
+                *bits = br.total_bits_read();
             }
             let icc_result = self.icc_parser.take().unwrap().finalize(br);
             JxlColorProfile::Icc(icc_result?)
diff --git a/jxl/src/headers/permutation.rs b/jxl/src/headers/permutation.rs
index b268e3f..c3ff651 100644
--- a/jxl/src/headers/permutation.rs
+++ b/jxl/src/headers/permutation.rs
@@ -53,15 +53,7 @@ impl Permutation {
 
         let mut prev_val = 0u32;
         for idx in skip..(skip + end) {
-            let val = match read(get_context(prev_val)) {
-                Ok(val) => val,
-                Err(Error::OutOfBounds(_)) => {
-                    // Estimate 1.5 bits for each remaining code
-                    let bits = (((skip + end) - idx) as usize).saturating_mul(3) / 2;
-                    return Err(Error::OutOfBounds(bits));
-                }
-                Err(e) => return Err(e),
-            };
+            let val = read(get_context(prev_val))?;
             if val >= size - idx {
                 return Err(Error::InvalidPermutationLehmerCode {
                     size,
-- 
2.43.0


From 8813f281122bd4b44c732ab95a5b00fb264952b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 06/44] fix: data that was received must not wait for the next
 container box

---
 jxl/src/api/inner/codestream_parser/frame_info.rs | 5 ++++-
 jxl/src/api/inner/codestream_parser/mod.rs        | 6 +++++-
 jxl/src/api/inner/process.rs                      | 8 ++++++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/jxl/src/api/inner/codestream_parser/frame_info.rs b/jxl/src/api/inner/codestream_parser/frame_info.rs
index e58a8a0..c7e6c7a 100644
--- a/jxl/src/api/inner/codestream_parser/frame_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_info.rs
@@ -359,7 +359,10 @@ impl FrameInfo {
             let available_codestream = input.available_bytes();
             let mut available_codestream = match (available_codestream, total) {
                 (Ok(a), _) => a.max(1),
-                (Err(Error::OutOfBounds(_)), t) if t > 0 => return Ok(()),
+                // Sections that were received already must not wait for the next box.
+                (Err(Error::OutOfBounds(_)), t) if t > 0 || self.sections.is_empty() => {
+                    return Ok(());
+                }
                 (Err(e), _) => return Err(e),
             };
             let mut readable_section_data = self.ready_section_data + available_codestream;
diff --git a/jxl/src/api/inner/codestream_parser/mod.rs b/jxl/src/api/inner/codestream_parser/mod.rs
index 47b6cd7..dfb0aa6 100644
--- a/jxl/src/api/inner/codestream_parser/mod.rs
+++ b/jxl/src/api/inner/codestream_parser/mod.rs
@@ -156,7 +156,11 @@ impl CodestreamParser {
         mut do_parse: impl FnMut(&mut Self, &mut CodestreamInput) -> Result<T>,
     ) -> Result<T> {
         loop {
-            let c = self.local_buffer.refill(|buf| input.read(buf))?;
+            let c = match self.local_buffer.refill(|buf| input.read(buf)) {
+                // The buffered data must not wait for the next box.
+                Err(Error::OutOfBounds(_)) if !self.local_buffer.is_empty() => 0,
+                c => c?,
+            };
 
             if let Some(mut need) = self.header_needed_bytes.take() {
                 need = need.saturating_sub(c);
diff --git a/jxl/src/api/inner/process.rs b/jxl/src/api/inner/process.rs
index 7ac7fbb..ac81477 100644
--- a/jxl/src/api/inner/process.rs
+++ b/jxl/src/api/inner/process.rs
@@ -12,7 +12,7 @@ use crate::api::{
     ProcessingResult,
 };
 use crate::bit_reader::BitReader;
-use crate::error::Result;
+use crate::error::{Error, Result};
 
 /// A small buffer, that guarantees to never use more than twice the maximum
 /// amount of bytes that were simultaneously present in it.
@@ -43,7 +43,11 @@ impl SmallBuffer {
             if self.range.len() >= self.buf.len() / 2 {
                 break;
             }
-            let num = get_input(&mut [IoSliceMut::new(&mut self.buf[self.range.end..])])?;
+            let num = match get_input(&mut [IoSliceMut::new(&mut self.buf[self.range.end..])]) {
+                // Report the data read so far; the next refill reports what is missing.
+                Err(Error::OutOfBounds(_)) if total > 0 => 0,
+                num => num?,
+            };
             total += num;
             self.range.end += num;
             if num == 0 {
-- 
2.43.0


From ab07f366ed64d11b1585b3b74ff4b597dadb9986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:26 +0000
Subject: [PATCH 07/44] fix: multiply blending of frames must clamp the new
 frame, not the stored one

---
 jxl/src/features/blending.rs      | 58 ++++++++++++++++++++++++++++---
 jxl/src/features/patches.rs       |  9 +++--
 jxl/src/render/stages/blending.rs |  2 +-
 3 files changed, 61 insertions(+), 8 deletions(-)

diff --git a/jxl/src/features/blending.rs b/jxl/src/features/blending.rs
index 5d432e9..91ff224 100644
--- a/jxl/src/features/blending.rs
+++ b/jxl/src/features/blending.rs
@@ -154,7 +154,9 @@ simd_function!(
 simd_function!(
     mul,
     d: D,
-    fn mul_impl(dst: &mut [f32], src: &[f32], xsize: usize, clamp: bool) {
+    fn mul_impl(dst: &mut [f32], src: &[f32], xsize: usize, cfg: BlendConfig) {
+        let clamp = cfg.clamp;
+        let fg_on_top = cfg.order == BlendOrder::Above;
         let lanes = D::F32Vec::LEN;
         let one = D::F32Vec::splat(d, 1.0);
         let zero = D::F32Vec::zero(d);
@@ -163,8 +165,10 @@ simd_function!(
         let maybe_clamp_vec = |v: D::F32Vec| if clamp { v.max(zero).min(one) } else { v };
         for k in 0..xsize.div_ceil(lanes) {
             let x = k * lanes;
-            let s = maybe_clamp_vec(load_vec(d, src, x));
-            store_vec(d, load_vec(d, dst, x) * s, dst, x);
+            let dst_v = load_vec(d, dst, x);
+            let src_v = load_vec(d, src, x);
+            let (top, bottom) = if fg_on_top { (src_v, dst_v) } else { (dst_v, src_v) };
+            store_vec(d, bottom * maybe_clamp_vec(top), dst, x);
         }
     }
 );
@@ -356,7 +360,28 @@ pub fn perform_blending(
                 }
             }
             PatchBlendMode::Mul => {
-                mul(ec_out, &fg[3 + i][..xsize], xsize, clamp);
+                mul(
+                    ec_out,
+                    &fg[3 + i][..xsize],
+                    xsize,
+                    BlendConfig {
+                        clamp,
+                        alpha_associated: false,
+                        order: BlendOrder::Above,
+                    },
+                );
+            }
+            PatchBlendMode::MulBelow => {
+                mul(
+                    ec_out,
+                    &fg[3 + i][..xsize],
+                    xsize,
+                    BlendConfig {
+                        clamp,
+                        alpha_associated: false,
+                        order: BlendOrder::Below,
+                    },
+                );
             }
             PatchBlendMode::Replace => {
                 ec_out.copy_from_slice(&fg[3 + i][..xsize]);
@@ -458,7 +483,30 @@ pub fn perform_blending(
         }
         PatchBlendMode::Mul => {
             for c in 0..3 {
-                mul(bg_color[c], &fg[c][..xsize], xsize, clamp);
+                mul(
+                    bg_color[c],
+                    &fg[c][..xsize],
+                    xsize,
+                    BlendConfig {
+                        clamp,
+                        alpha_associated: false,
+                        order: BlendOrder::Above,
+                    },
+                );
+            }
+        }
+        PatchBlendMode::MulBelow => {
+            for c in 0..3 {
+                mul(
+                    bg_color[c],
+                    &fg[c][..xsize],
+                    xsize,
+                    BlendConfig {
+                        clamp,
+                        alpha_associated: false,
+                        order: BlendOrder::Below,
+                    },
+                );
             }
         }
         PatchBlendMode::Replace => {
diff --git a/jxl/src/features/patches.rs b/jxl/src/features/patches.rs
index 411ffff..8be284d 100644
--- a/jxl/src/features/patches.rs
+++ b/jxl/src/features/patches.rs
@@ -71,6 +71,9 @@ pub enum PatchBlendMode {
     // For other channels: sample = old + alpha * new
     AlphaWeightedAddAbove = 6,
     AlphaWeightedAddBelow = 7,
+    // Like `Mul`, but new is the original image and old is the patch. This is only used for
+    // blending frames, and cannot be signaled in the patch dictionary.
+    MulBelow = 8,
 }
 
 impl PatchBlendMode {
@@ -119,7 +122,7 @@ impl PatchBlendMode {
     }
 
     pub fn uses_clamp(self) -> bool {
-        self.uses_alpha() || self == Self::Mul
+        self.uses_alpha() || matches!(self, Self::Mul | Self::MulBelow)
     }
 }
 
@@ -566,7 +569,9 @@ impl PatchesDictionary {
                         br,
                         PatchContext::PatchBlendMode as usize,
                     ) as u8;
-                    let blend_mode = match PatchBlendMode::from_u8(maybe_blend_mode) {
+                    let blend_mode = match PatchBlendMode::from_u8(maybe_blend_mode)
+                        .filter(|_| maybe_blend_mode < PatchBlendMode::NUM_BLEND_MODES)
+                    {
                         None => {
                             return Err(Error::PatchesInvalidBlendMode(
                                 maybe_blend_mode,
diff --git a/jxl/src/render/stages/blending.rs b/jxl/src/render/stages/blending.rs
index fbb54ec..517a2a0 100644
--- a/jxl/src/render/stages/blending.rs
+++ b/jxl/src/render/stages/blending.rs
@@ -43,7 +43,7 @@ impl From<&BlendingInfo> for PatchBlending {
         let mode = match info.mode {
             BlendingMode::Replace => PatchBlendMode::None,
             BlendingMode::Add => PatchBlendMode::Add,
-            BlendingMode::Mul => PatchBlendMode::Mul,
+            BlendingMode::Mul => PatchBlendMode::MulBelow,
             BlendingMode::Blend => PatchBlendMode::BlendBelow,
             BlendingMode::AlphaWeightedAdd => PatchBlendMode::AlphaWeightedAddBelow,
         };
-- 
2.43.0


From 4599091b27325437a7fb37e76445d8c00e85d850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 08/44] fix: account for consumed codestream bytes in seek
 checkpoints

A checkpoint for a frame that starts in the middle of a codestream box kept
the full length of the box as remaining codestream, so after seeking to it
the bytes following the box (including the next box header) were read as
codestream.
---
 jxl/src/api/inner/box_parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index 5ed1d9f..bc66ea7 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -105,6 +105,7 @@ impl BoxParser {
             }
             let overflow = codestream_pos - start;
             b.file_position += overflow;
+            b.codestream_left = b.codestream_left.map(|x| x.saturating_sub(overflow));
             b.consumed_codestream = codestream_pos;
             Ok(Some(b))
         }
-- 
2.43.0


From b9e2998d828a114686780d5cc795ebb733b46b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:25 +0000
Subject: [PATCH 09/44] fix: bookkeeping of out-of-order jxlp boxes and short
 reads

- the checkpoint of a buffered jxlp box was made with the remaining length of
  the box before it, and buffered boxes were counted in file order: codestream
  positions after them were wrong, and finishing before the end of the last
  box underflowed
- consecutive buffered boxes, and empty ones, were not handled
- a short read left a gap in the buffered data, or between two read buffers
- data already in the local buffer was not taken into account when buffering
- the file length depended on how much was read past the end of the codestream
---
 jxl/src/api/inner/box_parser.rs | 144 +++++++++++++++++++-------------
 1 file changed, 88 insertions(+), 56 deletions(-)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index bc66ea7..88a0be5 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -42,6 +42,15 @@ struct OOOJxlpBox {
     is_last: bool,
 }
 
+/// Where a codestream box that contributes to the codestream begins.
+#[derive(Debug, Clone, Copy)]
+struct CodestreamBoxStart {
+    checkpoint: BoxParserCheckpoint,
+    // True if the contents of the box come from the ooo jxlp buffer; `file_position`
+    // is then the end of the box that completed the preceding codestream data.
+    is_buffered: bool,
+}
+
 #[derive(Debug, Clone, Copy)]
 pub struct BoxParserCheckpoint {
     box_type: CodestreamBoxType,
@@ -59,7 +68,7 @@ pub(super) struct BoxParser {
     latest_codestream_box: CodestreamBoxType,
     // Map from codestream position at the start of the box
     // to box info
-    codestream_pos_to_box: BTreeMap<u64, BoxParserCheckpoint>,
+    codestream_pos_to_box: BTreeMap<u64, CodestreamBoxStart>,
     allow_checkpoint: bool,
 }
 
@@ -93,11 +102,12 @@ impl BoxParser {
             Ok(None)
         } else {
             // last element with key <= codestream_pos.
-            let (&start, &(mut b)) = self
+            let (&start, b) = self
                 .codestream_pos_to_box
                 .range(..=codestream_pos)
                 .last()
                 .unwrap();
+            let mut b = b.checkpoint;
             if !b.is_valid_checkpoint {
                 // Disallow files that have frame starts in boxes that are not
                 // valid checkpoints.
@@ -112,11 +122,22 @@ impl BoxParser {
     }
 
     pub(super) fn total_bytes_consumed(&self, codestream_bytes_consumed: u64) -> u64 {
-        let (start, b) = self.codestream_pos_to_box.last_key_value().unwrap();
-        b.file_position + (codestream_bytes_consumed - *start)
+        // The box that contains the last consumed byte.
+        let (start, b) = self
+            .codestream_pos_to_box
+            .range(..codestream_bytes_consumed.max(1))
+            .last()
+            .unwrap();
+        if b.is_buffered {
+            b.checkpoint.file_position
+        } else {
+            b.checkpoint.file_position + (codestream_bytes_consumed - *start)
+        }
     }
 
-    fn add_checkpoint(&mut self) {
+    /// Registers the start of a box that contributes the next `codestream_left` bytes
+    /// of codestream.
+    fn add_checkpoint(&mut self, codestream_left: Option<u64>, is_buffered: bool) {
         if !self.allow_checkpoint {
             return;
         }
@@ -124,24 +145,23 @@ impl BoxParser {
         // in-order (i.e. all other logically-preceding jxlp boxes have been seen already)
         // and we must not have seen any future jxlp boxes (which would be stored in the
         // ooo jxlp buffer).
-        let (codestream_left, is_valid_checkpoint) = match self.state {
-            ParseState::Codestream(c) => (c, self.ooo_jxlp_buffer.is_empty()),
-            ParseState::OOOJxlp(_, c) => (c, false),
-            _ => (None, false),
-        };
+        let is_valid_checkpoint = !is_buffered && self.ooo_jxlp_buffer.is_empty();
         let codestream_position = self
             .codestream_pos_to_box
             .last_key_value()
-            .map(|(p, c)| *p + c.codestream_left.unwrap())
+            .map(|(p, c)| *p + c.checkpoint.codestream_left.unwrap())
             .unwrap_or(0);
         self.codestream_pos_to_box.insert(
             codestream_position,
-            BoxParserCheckpoint {
-                file_position: self.local_buffer.consumed(),
-                box_type: self.latest_codestream_box,
-                codestream_left,
-                is_valid_checkpoint,
-                consumed_codestream: 0,
+            CodestreamBoxStart {
+                checkpoint: BoxParserCheckpoint {
+                    file_position: self.local_buffer.consumed(),
+                    box_type: self.latest_codestream_box,
+                    codestream_left,
+                    is_valid_checkpoint,
+                    consumed_codestream: 0,
+                },
+                is_buffered,
             },
         );
     }
@@ -157,8 +177,34 @@ impl BoxParser {
         }
     }
 
+    /// Updates the state at the end of a (direct or buffered) codestream box.
+    fn finish_codestream_box(&mut self) {
+        self.state = ParseState::BoxNeeded(8);
+        loop {
+            match self.latest_codestream_box {
+                CodestreamBoxType::Jxlc | CodestreamBoxType::Jxlp(_, true) => {
+                    self.state = ParseState::Complete;
+                    return;
+                }
+                CodestreamBoxType::Jxlp(j, false) => {
+                    let Some(b) = self.ooo_jxlp_buffer.get(&(j + 1)) else {
+                        return;
+                    };
+                    let len = b.data.len();
+                    self.latest_codestream_box = CodestreamBoxType::Jxlp(j + 1, b.is_last);
+                    self.add_checkpoint(Some(len as u64), true);
+                    if len != 0 {
+                        return;
+                    }
+                    self.ooo_jxlp_buffer.remove(&(j + 1));
+                }
+                CodestreamBoxType::None => unreachable!(),
+            }
+        }
+    }
+
     fn check_ooo_jxlp_done(&mut self) {
-        let CodestreamBoxType::Jxlp(j, is_last) = self.latest_codestream_box else {
+        let CodestreamBoxType::Jxlp(j, _) = self.latest_codestream_box else {
             unreachable!()
         };
         let Some(b) = self.ooo_jxlp_buffer.get_mut(&j) else {
@@ -166,11 +212,7 @@ impl BoxParser {
         };
         if b.consumed == b.data.len() {
             self.ooo_jxlp_buffer.remove(&j);
-            if is_last {
-                self.state = ParseState::Complete;
-            } else if let Some(b) = self.ooo_jxlp_buffer.get(&(j + 1)) {
-                self.latest_codestream_box = CodestreamBoxType::Jxlp(j + 1, b.is_last);
-            }
+            self.finish_codestream_box();
         }
     }
 
@@ -183,20 +225,7 @@ impl BoxParser {
         }
         let new_size = c.unwrap() - n as u64;
         if new_size == 0 {
-            self.state = if matches!(
-                self.latest_codestream_box,
-                CodestreamBoxType::Jxlc | CodestreamBoxType::Jxlp(_, true)
-            ) {
-                ParseState::Complete
-            } else {
-                if let CodestreamBoxType::Jxlp(j, _) = self.latest_codestream_box
-                    && let Some(b) = self.ooo_jxlp_buffer.get(&(j + 1))
-                {
-                    self.latest_codestream_box = CodestreamBoxType::Jxlp(j + 1, b.is_last);
-                    self.add_checkpoint();
-                }
-                ParseState::BoxNeeded(8)
-            }
+            self.finish_codestream_box();
         } else {
             *c = Some(new_size);
         }
@@ -259,8 +288,11 @@ impl BoxParser {
 
     fn advance_to_codestream(&mut self, input: &mut dyn JxlBitstreamInput) -> Result<()> {
         loop {
+            if self.injected_jxlp().is_some() {
+                return Ok(());
+            }
             match self.state {
-                ParseState::Codestream(Some(0)) => self.state = ParseState::BoxNeeded(8),
+                ParseState::Codestream(Some(0)) => self.finish_codestream_box(),
                 ParseState::Complete | ParseState::Codestream(_) => return Ok(()),
                 ParseState::SignatureNeeded => {
                     let codestream_signature_len = JxlSignatureType::Codestream.signature().len();
@@ -270,7 +302,7 @@ impl BoxParser {
                         Some(JxlSignatureType::Codestream) => {
                             self.state = ParseState::Codestream(None);
                             self.latest_codestream_box = CodestreamBoxType::Jxlc;
-                            self.add_checkpoint();
+                            self.add_checkpoint(None, false);
                             return Ok(());
                         }
                         Some(JxlSignatureType::Container) => {
@@ -301,7 +333,8 @@ impl BoxParser {
                     let mut buf = self.ooo_jxlp_buffer.remove(&id).unwrap();
                     let mut total = 0;
                     loop {
-                        let space = buf.data.len().max(1024).min(input.available_bytes()?) as u64;
+                        let available = self.available_bytes_inner(input)?;
+                        let space = buf.data.len().max(1024).min(available) as u64;
                         let space = count.map(|x| (x - total).min(space)).unwrap_or(space) as usize;
                         if space == 0 {
                             break;
@@ -311,6 +344,7 @@ impl BoxParser {
                         buf.data.resize(cur + space, 0);
                         let n =
                             self.read_inner(input, &mut [IoSliceMut::new(&mut buf.data[cur..])])?;
+                        buf.data.truncate(cur + n);
                         if n == 0 {
                             break;
                         }
@@ -391,7 +425,7 @@ impl BoxParser {
                 }
                 self.latest_codestream_box = CodestreamBoxType::Jxlc;
                 self.state = ParseState::Codestream(content_len);
-                self.add_checkpoint();
+                self.add_checkpoint(content_len, false);
             }
             b"jxlp" => {
                 let index = u32::from_be_bytes(self.local_buffer[..4].try_into().unwrap());
@@ -428,16 +462,12 @@ impl BoxParser {
                             is_last: last,
                         },
                     );
-                    // We create a known-invalid checkpoint here to ensure
-                    // that the checks work properly, and to count codestream
-                    // length correctly.
-                    self.add_checkpoint();
                     return Ok(());
                 }
                 // In-order jxlp
                 self.latest_codestream_box = CodestreamBoxType::Jxlp(idx, last);
                 self.state = ParseState::Codestream(content_len);
-                self.add_checkpoint();
+                self.add_checkpoint(content_len, false);
             }
             _ => self.state = ParseState::Skip(content_len),
         }
@@ -462,11 +492,10 @@ impl<'a> CodestreamInput<'a> {
     // The methods below have the same semantics as the methods in JxlBitstreamInput.
 
     pub(super) fn available_bytes(&mut self) -> Result<usize> {
+        self.box_parser.advance_to_codestream(self.input)?;
         if let Some(b) = self.box_parser.injected_jxlp() {
             return Ok(b.data.len() - b.consumed);
         }
-
-        self.box_parser.advance_to_codestream(self.input)?;
         let ParseState::Codestream(r) = self.box_parser.state else {
             return Ok(0);
         };
@@ -476,6 +505,7 @@ impl<'a> CodestreamInput<'a> {
     }
 
     pub(super) fn read(&mut self, buf: &mut [IoSliceMut]) -> Result<usize> {
+        self.box_parser.advance_to_codestream(self.input)?;
         if let Some(b) = self.box_parser.injected_jxlp() {
             let mut r = &b.data[b.consumed..];
             let n = r.read_vectored(buf)?;
@@ -483,8 +513,6 @@ impl<'a> CodestreamInput<'a> {
             self.box_parser.check_ooo_jxlp_done();
             return Ok(n);
         }
-
-        self.box_parser.advance_to_codestream(self.input)?;
         let ParseState::Codestream(r) = self.box_parser.state else {
             return Ok(0);
         };
@@ -501,24 +529,28 @@ impl<'a> CodestreamInput<'a> {
                 upper += 1;
             }
             let n = self.box_parser.read_inner(self.input, &mut buf[..upper])?;
-            let left = (limit - n as u64) as usize;
-            n + self
-                .box_parser
-                .read_inner(self.input, &mut [IoSliceMut::new(&mut buf[upper][..left])])?
+            if (n as u64) < cumsum {
+                // Short read: do not leave a gap before the last buffer.
+                n
+            } else {
+                let left = (limit - cumsum) as usize;
+                n + self
+                    .box_parser
+                    .read_inner(self.input, &mut [IoSliceMut::new(&mut buf[upper][..left])])?
+            }
         };
         self.box_parser.mark_codestream_read(n);
         Ok(n)
     }
 
     pub(super) fn skip(&mut self, amount: usize) -> Result<usize> {
+        self.box_parser.advance_to_codestream(self.input)?;
         if let Some(b) = self.box_parser.injected_jxlp() {
             let n = (b.data.len() - b.consumed).min(amount);
             b.consumed += n;
             self.box_parser.check_ooo_jxlp_done();
             return Ok(n);
         }
-
-        self.box_parser.advance_to_codestream(self.input)?;
         let ParseState::Codestream(r) = self.box_parser.state else {
             return Ok(0);
         };
-- 
2.43.0


From 85a1e0761bce92c2235f2dd7ff9f4f4b810bd970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:43 +0000
Subject: [PATCH 10/44] fix: file length after seeking before the whole file
 was scanned

Boxes that start after the target of a seek were not registered, so the file
length was computed relative to the last box seen before the seek.
---
 jxl/src/api/inner/box_parser.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index 88a0be5..6e6b746 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -90,6 +90,17 @@ impl BoxParser {
         self.ooo_jxlp_buffer.clear();
         self.latest_codestream_box = box_checkpoint.box_type;
         self.state = ParseState::Codestream(box_checkpoint.codestream_left);
+        self.local_buffer
+            .mark_consumed(box_checkpoint.file_position);
+        // Boxes that start after this point might not have been seen yet.
+        self.codestream_pos_to_box.clear();
+        self.codestream_pos_to_box.insert(
+            box_checkpoint.consumed_codestream,
+            CodestreamBoxStart {
+                checkpoint: box_checkpoint,
+                is_buffered: false,
+            },
+        );
         // Do not allow creating new checkpoints after a reset.
         self.allow_checkpoint = false;
     }
@@ -138,9 +149,6 @@ impl BoxParser {
     /// Registers the start of a box that contributes the next `codestream_left` bytes
     /// of codestream.
     fn add_checkpoint(&mut self, codestream_left: Option<u64>, is_buffered: bool) {
-        if !self.allow_checkpoint {
-            return;
-        }
         // For a codestream box to be a valid checkpoint, it needs to be decoded
         // in-order (i.e. all other logically-preceding jxlp boxes have been seen already)
         // and we must not have seen any future jxlp boxes (which would be stored in the
-- 
2.43.0


From 515bc974242d5e74eb2377815c99907d55c6be2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:26 +0000
Subject: [PATCH 11/44] fix: apply dim_shift of extra channels without
 upsampling

The dim_shift of an extra channel was only taken into account in frames with
upsampled color channels, so that the (smaller) coded channel was read with
the full image size.
---
 jxl/src/headers/frame_header.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jxl/src/headers/frame_header.rs b/jxl/src/headers/frame_header.rs
index 9a7a239..011a9d6 100644
--- a/jxl/src/headers/frame_header.rs
+++ b/jxl/src/headers/frame_header.rs
@@ -665,7 +665,7 @@ impl FrameHeader {
     }
 
     pub fn postprocess(&mut self, nonserialized: &FrameHeaderNonserialized) {
-        if self.upsampling > 1 {
+        if !self.has_lf_frame() {
             for i in 0..nonserialized.extra_channel_info.len() {
                 let dim_shift = nonserialized.extra_channel_info[i].dim_shift();
                 self.ec_upsampling[i] <<= dim_shift;
@@ -677,7 +677,7 @@ impl FrameHeader {
     }
 
     fn check(&self, nonserialized: &FrameHeaderNonserialized) -> Result<(), Error> {
-        if self.upsampling > 1
+        if !self.has_lf_frame()
             && let Some((dim_shift, effective_upsampling)) = nonserialized
                 .extra_channel_info
                 .iter()
-- 
2.43.0


From 3deb0f5352f68dfe3dc5ea7e1e7c37b80afae1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:17 +0000
Subject: [PATCH 12/44] fix: fill opaque alpha in the requested byte order

The opaque alpha row of the low memory pipeline was filled with samples in the
output byte order, but the save stage converts row buffers from native order, so
big-endian outputs got byte-swapped alpha.
---
 jxl/src/api/data_types.rs                 | 14 ++++++++++++++
 jxl/src/render/low_memory_pipeline/mod.rs |  4 +++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/jxl/src/api/data_types.rs b/jxl/src/api/data_types.rs
index 01c88f7..b56db29 100644
--- a/jxl/src/api/data_types.rs
+++ b/jxl/src/api/data_types.rs
@@ -110,6 +110,20 @@ impl JxlDataFormat {
         }
     }
 
+    /// Returns the same format with samples in native byte order.
+    pub(crate) fn with_native_endianness(self) -> Self {
+        let native = Endianness::native();
+        match self {
+            Self::U8 { .. } => self,
+            Self::U16 { bit_depth, .. } => Self::U16 {
+                endianness: native,
+                bit_depth,
+            },
+            Self::F16 { .. } => Self::F16 { endianness: native },
+            Self::F32 { .. } => Self::F32 { endianness: native },
+        }
+    }
+
     /// Returns the byte representation of opaque alpha (1.0) for this format.
     pub(crate) fn opaque_alpha_bytes(&self) -> Vec<u8> {
         match self {
diff --git a/jxl/src/render/low_memory_pipeline/mod.rs b/jxl/src/render/low_memory_pipeline/mod.rs
index 780754a..4951cd8 100644
--- a/jxl/src/render/low_memory_pipeline/mod.rs
+++ b/jxl/src/render/low_memory_pipeline/mod.rs
@@ -230,7 +230,9 @@ impl RenderPipeline for LowMemoryRenderPipeline {
                 if s.fill_opaque_alpha {
                     let (dx, _dy) = downsampling_for_stage[i];
                     let row_len = shared.chunk_size >> dx;
-                    let fill_pattern = s.data_format.opaque_alpha_bytes();
+                    // Row buffers hold samples in native byte order; the save stage converts
+                    // them to the byte order of the output.
+                    let fill_pattern = s.data_format.with_native_endianness().opaque_alpha_bytes();
                     let buf =
                         RowBuffer::new_filled(s.data_format.data_type(), row_len, &fill_pattern)?;
                     opaque_alpha_buffers.push(Some(buf));
-- 
2.43.0


From 68f273639a245f154643082c786f35864b4c4b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:09 +0000
Subject: [PATCH 13/44] fix: convert small values to half-float denormals
 correctly

Values below 2^-14 came out halved (and truncated instead of rounded to nearest).
---
 jxl/src/util/float16.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/jxl/src/util/float16.rs b/jxl/src/util/float16.rs
index 711c37c..99efb6b 100644
--- a/jxl/src/util/float16.rs
+++ b/jxl/src/util/float16.rs
@@ -98,14 +98,19 @@ impl f16 {
         } else {
             let unbiased = exp - 127;
 
-            if unbiased < -24 {
+            if unbiased < -25 {
                 // Too small, underflow to zero
                 sign << 15
             } else if unbiased < -14 {
-                // Denormal f16
-                let shift = (-14 - unbiased) as u32;
-                let m = ((mant | 0x0080_0000) >> (shift + 14)) as u16;
-                (sign << 15) | m
+                // Denormal f16: the unit in the last place is 2^-24
+                let shift = (-1 - unbiased) as u32;
+                let full = mant | 0x0080_0000;
+                let h_mant = (full >> shift) as u16;
+                // Round to nearest, ties to even (may round up to the smallest normal value)
+                let half = 1 << (shift - 1);
+                let rest = full & ((1 << shift) - 1);
+                let round_up = rest > half || (rest == half && (h_mant & 1) == 1);
+                (sign << 15) | (h_mant + round_up as u16)
             } else if unbiased > 15 {
                 // Overflow to infinity
                 (sign << 15) | (0x1F << 10)
-- 
2.43.0


From ae818ca1a04e5486b06a46267564babb4b88d175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:47 +0000
Subject: [PATCH 14/44] fix: premultiply all colour channels of a grayscale
 image output as RGBA

Only the first of the three output channels was multiplied by alpha.
---
 jxl/src/frame/render.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jxl/src/frame/render.rs b/jxl/src/frame/render.rs
index 3c05cd2..064cc78 100644
--- a/jxl/src/frame/render.rs
+++ b/jxl/src/frame/render.rs
@@ -858,9 +858,15 @@ impl Frame {
             if let Some(df) = &pixel_format.color_data_format {
                 // Add premultiply stage if needed (before conversion to output format)
                 if should_premultiply && let Some(alpha_channel) = alpha_in_color {
+                    // A grayscale image that is output as RGB has its three channels saved.
+                    let num_output_color_channels = if pixel_format.color_type.is_grayscale() {
+                        1
+                    } else {
+                        3
+                    };
                     pipeline = pipeline.add_inplace_stage(PremultiplyAlphaStage::new(
                         0,
-                        num_color_channels,
+                        num_output_color_channels,
                         alpha_channel,
                     ));
                 }
-- 
2.43.0


From fc0ac5fbd600251c50d75c022d43f606ebbaf020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:28 +0000
Subject: [PATCH 15/44] fix: decode VarDCT frames whose colour channels are not
 requested

Ignoring colour output (color_data_format None) panicked when no render stage uses
the colour channels.
---
 jxl/src/render/internal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jxl/src/render/internal.rs b/jxl/src/render/internal.rs
index 57f0885..7770d41 100644
--- a/jxl/src/render/internal.rs
+++ b/jxl/src/render/internal.rs
@@ -147,7 +147,8 @@ impl<Buffer> RenderPipelineShared<Buffer> {
         requested_data_type: DataTypeTag,
     ) -> (usize, usize) {
         let ChannelInfo { downsample, ty } = self.channel_info[0][channel];
-        if ty.unwrap() != requested_data_type {
+        // A channel that no stage uses has no type; its data is discarded.
+        if ty.is_some_and(|ty| ty != requested_data_type) {
             panic!(
                 "Invalid pipeline usage: incorrect channel type, requested {:?}, but pipeline wants {ty:?}",
                 requested_data_type
-- 
2.43.0


From b10b3bb4ff56024e26d8434302c4d5bcf1346e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:33 +0000
Subject: [PATCH 16/44] fix: report the preview's own size for preview frames

frame_header() returned the image size, so decoding a preview of another size failed
with InvalidOutputBufferSize (jxl_cli --preview failed on every such file).
---
 jxl/src/api/inner/codestream_parser/image_info.rs | 11 +++++++++++
 jxl/src/api/inner/codestream_parser/mod.rs        | 10 ++++++++++
 jxl/src/api/inner/mod.rs                          | 12 ++++++++----
 jxl_cli/src/dec/mod.rs                            | 13 +++++++++++++
 4 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/jxl/src/api/inner/codestream_parser/image_info.rs b/jxl/src/api/inner/codestream_parser/image_info.rs
index f494248..8bffb36 100644
--- a/jxl/src/api/inner/codestream_parser/image_info.rs
+++ b/jxl/src/api/inner/codestream_parser/image_info.rs
@@ -36,6 +36,17 @@ impl ImageInfo {
         self.file_header.is_some() && self.embedded_color_profile.is_some()
     }
 
+    /// Size of the rendered preview frame, with orientation applied.
+    pub fn oriented_preview_size(&self) -> Option<(usize, usize)> {
+        let metadata = &self.file_header().image_metadata;
+        let preview = metadata.preview.as_ref()?;
+        Some(
+            metadata
+                .orientation
+                .map_size((preview.xsize() as usize, preview.ysize() as usize)),
+        )
+    }
+
     pub fn has_preview(&self) -> bool {
         self.file_header
             .as_ref()
diff --git a/jxl/src/api/inner/codestream_parser/mod.rs b/jxl/src/api/inner/codestream_parser/mod.rs
index dfb0aa6..17eb1de 100644
--- a/jxl/src/api/inner/codestream_parser/mod.rs
+++ b/jxl/src/api/inner/codestream_parser/mod.rs
@@ -374,6 +374,16 @@ impl CodestreamParser {
         }
     }
 
+    pub fn current_frame_is_preview(&self) -> bool {
+        matches!(
+            self.state,
+            ParserState::Sections {
+                is_preview: true,
+                ..
+            }
+        )
+    }
+
     pub fn has_frame(&self) -> bool {
         matches!(self.state, ParserState::Sections { .. })
     }
diff --git a/jxl/src/api/inner/mod.rs b/jxl/src/api/inner/mod.rs
index db61cd1..2b3131c 100644
--- a/jxl/src/api/inner/mod.rs
+++ b/jxl/src/api/inner/mod.rs
@@ -78,10 +78,14 @@ impl JxlDecoderInner {
             return None;
         }
         let frame_header = self.codestream_parser.frame_info.current_frame_header()?;
-        // The render pipeline always adds ExtendToImageDimensionsStage which extends
-        // frames to the full image size. So the output size is always the image size,
-        // not the frame's upsampled size.
-        let size = self.codestream_parser.image_info.basic_info().size;
+        // The render pipeline extends frames to the full image size. So the output size is
+        // always the image size, not the frame's upsampled size, except for the preview.
+        let image_info = &self.codestream_parser.image_info;
+        let size = if self.codestream_parser.current_frame_is_preview() {
+            image_info.oriented_preview_size()?
+        } else {
+            image_info.basic_info().size
+        };
         Some(JxlFrameHeader {
             name: frame_header.name.clone(),
             duration: self
diff --git a/jxl_cli/src/dec/mod.rs b/jxl_cli/src/dec/mod.rs
index 3d36604..52e02b3 100644
--- a/jxl_cli/src/dec/mod.rs
+++ b/jxl_cli/src/dec/mod.rs
@@ -332,6 +332,19 @@ pub fn decode_frames<In: JxlBitstreamInputExt>(
 
         let frame_header = decoder_with_frame_info.frame_header();
 
+        if frame_header.size != image_size {
+            // The preview has its own size.
+            let byte_size = (
+                frame_header.size.0 * output_type.bits_per_sample() / 8,
+                frame_header.size.1,
+            );
+            outputs[0] = OwnedRawImage::new((byte_size.0 * samples_per_pixel, byte_size.1))?;
+            for output in outputs.iter_mut().skip(1) {
+                *output = OwnedRawImage::new(byte_size)?;
+            }
+            partial_renders.clear();
+        }
+
         decoder_with_image_info = 'partial: loop {
             let mut output_bufs: Vec<JxlOutputBuffer<'_>> = outputs
                 .iter_mut()
-- 
2.43.0


From d6645b17f91eae43ef9af8823198439703715350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:32 +0000
Subject: [PATCH 17/44] fix: honour adjust_orientation = false

The option was ignored: frames were always output with the orientation applied.
---
 jxl/src/api/inner/codestream_parser/image_info.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jxl/src/api/inner/codestream_parser/image_info.rs b/jxl/src/api/inner/codestream_parser/image_info.rs
index 8bffb36..efad071 100644
--- a/jxl/src/api/inner/codestream_parser/image_info.rs
+++ b/jxl/src/api/inner/codestream_parser/image_info.rs
@@ -12,7 +12,7 @@ use crate::api::{
 use crate::bit_reader::BitReader;
 use crate::error::Result;
 use crate::headers::color_encoding::ColorSpace;
-use crate::headers::{FileHeader, JxlHeader};
+use crate::headers::{FileHeader, JxlHeader, Orientation};
 use crate::icc::IncrementalIccReader;
 
 pub struct ImageInfo {
@@ -82,7 +82,12 @@ impl ImageInfo {
         br: &mut BitReader,
         bits: &mut usize,
     ) -> Result<()> {
-        let file_header = FileHeader::read(br)?;
+        let mut file_header = FileHeader::read(br)?;
+        let orientation = file_header.image_metadata.orientation;
+        if !decode_options.adjust_orientation {
+            // Frames are output as they are stored; the orientation is only reported.
+            file_header.image_metadata.orientation = Orientation::Identity;
+        }
         let xsize = file_header.size.xsize() as usize;
         let ysize = file_header.size.ysize() as usize;
         check_size_limit(
@@ -114,7 +119,7 @@ impl ImageInfo {
                     bits_per_sample: data.bit_depth.bits_per_sample(),
                 }
             },
-            orientation: data.orientation,
+            orientation,
             extra_channels: data
                 .extra_channel_info
                 .iter()
-- 
2.43.0


From e39824f9ad5b09219083189554c0d4363d659265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:44 +0000
Subject: [PATCH 18/44] fix: split small edge groups into disjoint, ready parts
 when groups finish concurrently

The last group of a row or column can be smaller than two borders. The parts
of such a group then overlapped (or underflowed), so that with parallel
rendering a part could be drawn before the group above or beside it was ready.
---
 .../low_memory_pipeline/group_scheduler.rs    | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/jxl/src/render/low_memory_pipeline/group_scheduler.rs b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
index 322719f..e240ba5 100644
--- a/jxl/src/render/low_memory_pipeline/group_scheduler.rs
+++ b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
@@ -80,40 +80,49 @@ fn ready_image_area(
     yrange: Range<u8>,
 ) -> Option<Rect> {
     let (gx, gy) = group_position;
+    // Ends of the leading border and start of the trailing border of the group. The last group in
+    // a row or column can be smaller than two borders: the leading border then takes precedence,
+    // so that the three parts never overlap.
+    let inner = |origin: usize, end: usize, border: usize| {
+        let first = (origin + border).min(end);
+        (first, end.saturating_sub(border).max(first))
+    };
+    let (x_first, x_last) = inner(group_rect.origin.0, group_rect.end().0, border_size.0);
+    let (y_first, y_last) = inner(group_rect.origin.1, group_rect.end().1, border_size.1);
     let y0 = match (gy == 0, yrange.start) {
         (true, 0) => group_rect.origin.1,
         (false, 0) => group_rect.origin.1 - border_size.1,
-        (_, 1) => group_rect.origin.1 + border_size.1,
+        (_, 1) => y_first,
         // (_, 2)
-        _ => group_rect.end().1 - border_size.1,
+        _ => y_last,
     };
     let x0 = match (gx == 0, xrange.start) {
         (true, 0) => group_rect.origin.0,
         (false, 0) => group_rect.origin.0 - border_size.0,
-        (_, 1) => group_rect.origin.0 + border_size.0,
+        (_, 1) => x_first,
         // (_, 2)
-        _ => group_rect.end().0 - border_size.0,
+        _ => x_last,
     };
 
     let y1 = match (gy + 1 == group_count.1, yrange.end) {
         (true, 3) => group_rect.end().1,
         (false, 3) => group_rect.end().1 + border_size.1,
-        (_, 2) => group_rect.end().1 - border_size.1,
+        (_, 2) => y_last,
         // (_, 1)
-        _ => group_rect.origin.1 + border_size.1,
+        _ => y_first,
     }
     .min(input_size.1);
 
     let x1 = match (gx + 1 == group_count.0, xrange.end) {
         (true, 3) => group_rect.end().0,
         (false, 3) => group_rect.end().0 + border_size.0,
-        (_, 2) => group_rect.end().0 - border_size.0,
+        (_, 2) => x_last,
         // (_, 1)
-        _ => group_rect.origin.0 + border_size.0,
+        _ => x_first,
     }
     .min(input_size.0);
 
-    (x1 >= x0 && y1 >= y0).then_some(Rect {
+    (x1 > x0 && y1 > y0).then(|| Rect {
         origin: (x0, y0),
         size: (x1 - x0, y1 - y0),
     })
-- 
2.43.0


From fd5bf2ed78392403540224f2be56eb5c22840c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 19/44] fix: report an error instead of panicking when
 rendering is continued after a failure

After a runner or rendering failure inside flush_pixels the decoder stays
usable, but the frame's transforms were only partially run (leading to a
panic in validate_state_after_transforms) and the frame to be saved as
reference was lost. Remember the failure and return an error; also keep the
reference data if the output buffers have the wrong size, and do not swallow
runner failures during a partial flush.
---
 jxl/src/api/inner/codestream_parser/frame_info.rs | 12 ++++++++----
 jxl/src/error.rs                                  |  2 ++
 jxl/src/frame/decode.rs                           |  1 +
 jxl/src/frame/mod.rs                              |  2 ++
 jxl/src/frame/render.rs                           | 15 ++++++++++++++-
 5 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/jxl/src/api/inner/codestream_parser/frame_info.rs b/jxl/src/api/inner/codestream_parser/frame_info.rs
index c7e6c7a..8a1d23e 100644
--- a/jxl/src/api/inner/codestream_parser/frame_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_info.rs
@@ -631,9 +631,9 @@ impl FrameInfo {
         if has_partial_lf {
             self.section_state.lf_global_flush_len = self.ready_section_data;
             let section = &self.sections[0].data[..self.ready_section_data];
-            // These are partial renders, so we ignore any errors.
+            // These are partial renders, so we ignore any errors in the (incomplete) data.
             if frame_header.num_groups() == 1 && frame_header.passes.num_passes == 1 {
-                if let Ok(dirty) = Self::process_single_section(
+                match Self::process_single_section(
                     frame,
                     section,
                     false,
@@ -643,8 +643,12 @@ impl FrameInfo {
                     true,
                     parallel_runner,
                 ) {
-                    self.pixels_dirty |= dirty;
-                    return Ok(());
+                    Ok(dirty) => {
+                        self.pixels_dirty |= dirty;
+                        return Ok(());
+                    }
+                    Err(e) if frame.rendering_failed => return Err(e),
+                    Err(_) => {}
                 }
             } else {
                 let _ = frame.decode_lf_global(&mut BitReader::new(section), true);
diff --git a/jxl/src/error.rs b/jxl/src/error.rs
index b61d0fa..57af834 100644
--- a/jxl/src/error.rs
+++ b/jxl/src/error.rs
@@ -259,6 +259,8 @@ pub enum Error {
     IccTableSizeExceeded(usize),
     #[error("I/O error: {0}")]
     IOError(#[from] std::io::Error),
+    #[error("A previous attempt at rendering the current frame failed")]
+    RenderingFailed,
     #[error("Wrong buffer count: {0} buffers given, {1} buffers expected")]
     WrongBufferCount(usize, usize),
     #[error("Image is not grayscale, but grayscale output was requested")]
diff --git a/jxl/src/frame/decode.rs b/jxl/src/frame/decode.rs
index 6ba1d1c..0e38421 100644
--- a/jxl/src/frame/decode.rs
+++ b/jxl/src/frame/decode.rs
@@ -250,6 +250,7 @@ impl Frame {
             decoder_state,
             render_pipeline: None,
             reference_frame_data,
+            rendering_failed: false,
             lf_frame_data,
             section0_render_up_to_date: false,
             vardct_buffers: PerThreadStorage::new(VarDctBuffers::new),
diff --git a/jxl/src/frame/mod.rs b/jxl/src/frame/mod.rs
index 67a59a2..1e4b17c 100644
--- a/jxl/src/frame/mod.rs
+++ b/jxl/src/frame/mod.rs
@@ -293,6 +293,8 @@ pub struct Frame {
     #[cfg(not(test))]
     render_pipeline: Option<Box<crate::render::LowMemoryRenderPipeline>>,
     reference_frame_data: Option<Vec<Image<f32>>>,
+    // Set if rendering failed part way, in which case the rendering state is incomplete.
+    pub(crate) rendering_failed: bool,
     lf_frame_data: Option<[Image<f32>; 3]>,
     section0_render_up_to_date: bool,
     /// Reusable buffers for VarDCT group decoding.
diff --git a/jxl/src/frame/render.rs b/jxl/src/frame/render.rs
index 064cc78..17708e9 100644
--- a/jxl/src/frame/render.rs
+++ b/jxl/src/frame/render.rs
@@ -186,6 +186,10 @@ impl Frame {
             buffers_from_api!(None);
         }
 
+        if self.rendering_failed {
+            return Err(Error::RenderingFailed);
+        }
+
         // Temporarily remove the reference/lf frames to be saved; we will move them back once
         // rendering is done.
         let mut reference_frame_data = std::mem::take(&mut self.reference_frame_data);
@@ -215,7 +219,15 @@ impl Frame {
             }));
         };
 
-        pipeline_mut!(self, p, p.check_buffer_sizes(&mut buffers[..])?);
+        if let Err(e) = pipeline_mut!(self, p, p.check_buffer_sizes(&mut buffers[..])) {
+            drop(buffers);
+            self.reference_frame_data = reference_frame_data;
+            self.lf_frame_data = lf_frame_data;
+            return Err(e);
+        }
+
+        // Any error below leaves the render only partially done, with no way to resume it.
+        self.rendering_failed = true;
 
         let buffer_splitter = BufferSplitter::new(&mut buffers[..]);
 
@@ -499,6 +511,7 @@ impl Frame {
 
         self.reference_frame_data = reference_frame_data;
         self.lf_frame_data = lf_frame_data;
+        self.rendering_failed = false;
 
         if self.header.frame_type == FrameType::LFFrame
             && self.header.lf_level == 1
-- 
2.43.0


From 7f5805a1325c7216b41aca20b4c1a242ec37e82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 20/44] fix: convert floats to integers by truncation on x86 as
 on the other targets

as_i32 is 'as i32' in the scalar, NEON and WASM versions, and the smooth
squeeze previews rely on truncation after adding one half; the x86 versions
rounded instead, so previews were one too bright for half of the values.
---
 jxl_simd/src/x86_64/avx.rs    | 2 +-
 jxl_simd/src/x86_64/avx512.rs | 2 +-
 jxl_simd/src/x86_64/sse42.rs  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/jxl_simd/src/x86_64/avx.rs b/jxl_simd/src/x86_64/avx.rs
index 3679417..8f344ac 100644
--- a/jxl_simd/src/x86_64/avx.rs
+++ b/jxl_simd/src/x86_64/avx.rs
@@ -578,7 +578,7 @@ impl F32SimdVec for F32VecAvx {
     });
 
     fn_avx!(this: F32VecAvx, fn as_i32() -> I32VecAvx {
-        I32VecAvx(_mm256_cvtps_epi32(this.0), this.1)
+        I32VecAvx(_mm256_cvttps_epi32(this.0), this.1)
     });
 
     fn_avx!(this: F32VecAvx, fn bitcast_to_i32() -> I32VecAvx {
diff --git a/jxl_simd/src/x86_64/avx512.rs b/jxl_simd/src/x86_64/avx512.rs
index b659f02..31f287e 100644
--- a/jxl_simd/src/x86_64/avx512.rs
+++ b/jxl_simd/src/x86_64/avx512.rs
@@ -636,7 +636,7 @@ impl F32SimdVec for F32VecAvx512 {
     });
 
     fn_avx!(this: F32VecAvx512, fn as_i32() -> I32VecAvx512 {
-        I32VecAvx512(_mm512_cvtps_epi32(this.0), this.1)
+        I32VecAvx512(_mm512_cvttps_epi32(this.0), this.1)
     });
 
     fn_avx!(this: F32VecAvx512, fn bitcast_to_i32() -> I32VecAvx512 {
diff --git a/jxl_simd/src/x86_64/sse42.rs b/jxl_simd/src/x86_64/sse42.rs
index b0cbd2c..7b98a1c 100644
--- a/jxl_simd/src/x86_64/sse42.rs
+++ b/jxl_simd/src/x86_64/sse42.rs
@@ -470,7 +470,7 @@ impl F32SimdVec for F32VecSse42 {
     });
 
     fn_sse42!(this: F32VecSse42, fn as_i32() -> I32VecSse42 {
-        I32VecSse42(_mm_cvtps_epi32(this.0), this.1)
+        I32VecSse42(_mm_cvttps_epi32(this.0), this.1)
     });
 
     fn_sse42!(this: F32VecSse42, fn bitcast_to_i32() -> I32VecSse42 {
-- 
2.43.0


From d71e2ac8249d26e0358ebb3a663b218aec1c958e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 21/44] fix: skipping past the end of the input leaves nothing
 to read

---
 jxl/src/bit_reader.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jxl/src/bit_reader.rs b/jxl/src/bit_reader.rs
index a972cbf..819c04f 100644
--- a/jxl/src/bit_reader.rs
+++ b/jxl/src/bit_reader.rs
@@ -155,6 +155,7 @@ impl<'a> BitReader<'a> {
         let bits_available = self.data.len() * 8;
         if n > bits_available {
             self.total_bits_read += bits_available;
+            self.data = &[];
             return Err(Error::OutOfBounds((n - bits_available).div_ceil(8)));
         }
 
-- 
2.43.0


From b826c6e33ae88dbac3f2dfbdd126d87d3bbd40e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 22/44] fix: convert denormal half floats with the right
 exponent

---
 jxl/src/util/float16.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jxl/src/util/float16.rs b/jxl/src/util/float16.rs
index 99efb6b..386d9ae 100644
--- a/jxl/src/util/float16.rs
+++ b/jxl/src/util/float16.rs
@@ -54,7 +54,7 @@ impl f16 {
                     e += 1;
                 }
                 m &= 0x3FF; // Remove the implicit leading 1
-                let new_exp = 127 - 15 - e; // Rebias: f16 bias=15, f32 bias=127
+                let new_exp = 127 - 14 - e; // Rebias: f16 denormal exponent is -14, f32 bias=127
                 (sign << 31) | (new_exp << 23) | (m << 13)
             }
         } else if exp == 31 {
-- 
2.43.0


From bda1807cd076366ef7a574e2cb963d3ed5bc18fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 23/44] fix: refuse simple prefix codes that repeat adjacent
 symbols

---
 jxl/src/entropy_coding/huffman.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jxl/src/entropy_coding/huffman.rs b/jxl/src/entropy_coding/huffman.rs
index 00702e8..dec98e0 100644
--- a/jxl/src/entropy_coding/huffman.rs
+++ b/jxl/src/entropy_coding/huffman.rs
@@ -82,7 +82,7 @@ impl Table {
             }
             *symbol = sym as u16;
         }
-        if (0..num_symbols - 1).any(|i| symbols[..i].contains(&symbols[i + 1])) {
+        if (0..num_symbols - 1).any(|i| symbols[..=i].contains(&symbols[i + 1])) {
             return Err(Error::InvalidHuffman);
         }
 
-- 
2.43.0


From 4782e16647704b5eb03ee244a9b40130403bdc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 24/44] fix: accept prefix code alphabets of 32768 symbols

---
 jxl/src/entropy_coding/huffman.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jxl/src/entropy_coding/huffman.rs b/jxl/src/entropy_coding/huffman.rs
index dec98e0..2ab59e7 100644
--- a/jxl/src/entropy_coding/huffman.rs
+++ b/jxl/src/entropy_coding/huffman.rs
@@ -405,7 +405,7 @@ impl Table {
         let entries = if al_size == 1 {
             vec![TableEntry { bits: 0, value: 0 }; TABLE_SIZE]
         } else {
-            assert!(al_size < 1 << HUFFMAN_MAX_BITS);
+            assert!(al_size <= 1 << HUFFMAN_MAX_BITS);
             let simple_code_or_skip = br.read(2)? as usize;
             if simple_code_or_skip == 1 {
                 Table::decode_simple_table(al_size, br)?
@@ -469,7 +469,7 @@ impl HuffmanCodes {
             .map(|_| Ok(decode_varint16(br)? as usize + 1))
             .collect::<Result<_>>()?;
         let max = *alphabet_sizes.iter().max().unwrap();
-        if max >= (1 << HUFFMAN_MAX_BITS) {
+        if max > (1 << HUFFMAN_MAX_BITS) {
             return Err(Error::AlphabetTooLargeHuff(max));
         }
         let tables = alphabet_sizes
-- 
2.43.0


From 23c170bdea183e70662b00e931dacfaa4c1e4071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 25/44] fix: decode a repeat range that directly follows
 another one

---
 jxl/src/entropy_coding/ans.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/jxl/src/entropy_coding/ans.rs b/jxl/src/entropy_coding/ans.rs
index 9da5cbe..8808c77 100644
--- a/jxl/src/entropy_coding/ans.rs
+++ b/jxl/src/entropy_coding/ans.rs
@@ -152,20 +152,21 @@ impl AnsHistogram {
         let mut acc = 0;
         let mut prev_dist = 0u16;
         for (idx, code) in dist.iter_mut().enumerate() {
+            // A repeat range can directly follow another one.
+            if repeat_range_idx < repeat_ranges.len() && repeat_ranges[repeat_range_idx].end == idx
+            {
+                repeat_range_idx += 1;
+            }
             if repeat_range_idx < repeat_ranges.len()
                 && repeat_ranges[repeat_range_idx].start <= idx
             {
-                if repeat_ranges[repeat_range_idx].end == idx {
-                    repeat_range_idx += 1;
-                } else {
-                    *code = prev_dist;
-                    acc += *code;
-                    // dist[omit_pos] > 0
-                    if acc >= SUM_PROBS {
-                        return Err(Error::InvalidAnsHistogram);
-                    }
-                    continue;
+                *code = prev_dist;
+                acc += *code;
+                // dist[omit_pos] > 0
+                if acc >= SUM_PROBS {
+                    return Err(Error::InvalidAnsHistogram);
                 }
+                continue;
             }
 
             if *code == 0 {
-- 
2.43.0


From b607d3dd30ed5a0b9b4933efc636aea796e1a6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 26/44] fix: refuse simple context maps that leave clusters
 unused

---
 jxl/src/entropy_coding/context_map.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jxl/src/entropy_coding/context_map.rs b/jxl/src/entropy_coding/context_map.rs
index ec1b9ac..68af591 100644
--- a/jxl/src/entropy_coding/context_map.rs
+++ b/jxl/src/entropy_coding/context_map.rs
@@ -45,9 +45,11 @@ pub fn decode_context_map(num_contexts: usize, br: &mut BitReader) -> Result<Vec
     if is_simple {
         let bits_per_entry = br.read(2)? as usize;
         if bits_per_entry != 0 {
-            (0..num_contexts)
+            let ctx_map: Vec<u8> = (0..num_contexts)
                 .map(|_| Ok(br.read(bits_per_entry)? as u8))
-                .collect()
+                .collect::<Result<_, Error>>()?;
+            verify_context_map(&ctx_map[..])?;
+            Ok(ctx_map)
         } else {
             Ok(vec![0u8; num_contexts])
         }
-- 
2.43.0


From 12211f989ee2e26aa0926680d8a4f51b650cd2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 27/44] fix: count 256 clusters without overflow

---
 jxl/src/entropy_coding/decode.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/jxl/src/entropy_coding/decode.rs b/jxl/src/entropy_coding/decode.rs
index 9318f4e..5f41215 100644
--- a/jxl/src/entropy_coding/decode.rs
+++ b/jxl/src/entropy_coding/decode.rs
@@ -519,18 +519,14 @@ impl Histograms {
         } else {
             br.read(2)? as usize + 5
         };
-        let num_histograms = *context_map.iter().max().unwrap() + 1;
+        let num_histograms = *context_map.iter().max().unwrap() as usize + 1;
         let uint_configs = ((0..num_histograms).map(|_| HybridUint::decode(log_alpha_size, br)))
             .collect::<Result<_>>()?;
 
         let codes = if use_prefix_code {
-            Codes::Huffman(HuffmanCodes::decode(num_histograms as usize, br)?)
+            Codes::Huffman(HuffmanCodes::decode(num_histograms, br)?)
         } else {
-            Codes::Ans(AnsCodes::decode(
-                num_histograms as usize,
-                log_alpha_size,
-                br,
-            )?)
+            Codes::Ans(AnsCodes::decode(num_histograms, log_alpha_size, br)?)
         };
 
         Ok(Histograms {
-- 
2.43.0


From b70cea6313a65d6191ac8bb37825bb7bb58ff73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 28/44] fix: refuse commands in a compressed profile that has
 no room for them

---
 jxl/src/icc/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jxl/src/icc/mod.rs b/jxl/src/icc/mod.rs
index 3b92c48..0243902 100644
--- a/jxl/src/icc/mod.rs
+++ b/jxl/src/icc/mod.rs
@@ -51,6 +51,10 @@ fn read_icc_inner(stream: &mut IccStream) -> Result<Vec<u8>, Error> {
     // Decode ICC profile header.
     let mut decoded_profile = read_header(data_stream, output_size)?;
     if output_size <= ICC_HEADER_SIZE {
+        if commands_size != 0 {
+            warn!(commands_size, "ICC profile without room for commands");
+            return Err(Error::InvalidIccStream);
+        }
         return Ok(decoded_profile);
     }
 
-- 
2.43.0


From 6e29ce9cfa82ee21aaf5204e2374b07cea4168c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 29/44] fix: refuse tag offsets and sizes beyond 32 bits
 instead of truncating them

---
 jxl/src/icc/tag.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jxl/src/icc/tag.rs b/jxl/src/icc/tag.rs
index e060856..8e81247 100644
--- a/jxl/src/icc/tag.rs
+++ b/jxl/src/icc/tag.rs
@@ -54,10 +54,12 @@ pub(super) fn read_tag_list(
                 .checked_add(prev_tagsize)
                 .ok_or(Error::InvalidIccStream)?
         } else {
-            read_varint_from_reader(commands_stream)? as u32
+            u32::try_from(read_varint_from_reader(commands_stream)?)
+                .map_err(|_| Error::InvalidIccStream)?
         };
         let tagsize = match &tag {
-            _ if command & 128 != 0 => read_varint_from_reader(commands_stream)? as u32,
+            _ if command & 128 != 0 => u32::try_from(read_varint_from_reader(commands_stream)?)
+                .map_err(|_| Error::InvalidIccStream)?,
             b"rXYZ" | b"gXYZ" | b"bXYZ" | b"kXYZ" | b"wtpt" | b"bkpt" | b"lumi" => 20,
             _ => prev_tagsize,
         };
-- 
2.43.0


From 7e7e193707254d25f2aa283f76bd9fa7e2f6e51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 30/44] fix: write the curve table of HLG and PQ profiles as a
 curv tag

---
 jxl/src/api/color.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/jxl/src/api/color.rs b/jxl/src/api/color.rs
index e1ab2be..386f7c9 100644
--- a/jxl/src/api/color.rs
+++ b/jxl/src/api/color.rs
@@ -995,8 +995,8 @@ impl JxlColorEncoding {
                             create_icc_curv_para_tag(&mut tags_data, &PARAMS, 3)?
                         }
                         JxlTransferFunction::HLG | JxlTransferFunction::PQ => {
-                            let params = create_table_curve(64, transfer_function, false)?;
-                            create_icc_curv_para_tag(&mut tags_data, params.as_slice(), 3)?
+                            let table = create_table_curve(64, transfer_function, false)?;
+                            create_icc_curv_table_tag(&mut tags_data, table.as_slice())
                         }
                     };
                     pad_to_4_byte_boundary(&mut tags_data);
@@ -1547,6 +1547,23 @@ fn create_icc_curv_para_tag(
     Ok((tags_data.len() - start_offset) as u32)
 }
 
+/// Creates the data for an ICC `curv` (curveType) tag from samples in `[0.0, 1.0]`.
+/// It writes `12 + 2 * table.len()` bytes.
+fn create_icc_curv_table_tag(tags_data: &mut Vec<u8>, table: &[f32]) -> u32 {
+    let start_offset = tags_data.len();
+    // Tag type 'curv' (4 bytes)
+    tags_data.extend_from_slice(b"curv");
+    // Reserved, must be 0 (4 bytes)
+    tags_data.extend_from_slice(&0u32.to_be_bytes());
+    // Number of entries (u32, 4 bytes)
+    tags_data.extend_from_slice(&(table.len() as u32).to_be_bytes());
+    // Entries (u16 each)
+    for &y in table {
+        tags_data.extend_from_slice(&((y * 65535.0).round() as u16).to_be_bytes());
+    }
+    (tags_data.len() - start_offset) as u32
+}
+
 fn display_from_encoded_pq(display_intensity_target: f32, mut e: f64) -> f64 {
     const M1: f64 = 2610.0 / 16384.0;
     const M2: f64 = (2523.0 / 4096.0) * 128.0;
-- 
2.43.0


From 271318111a36f2fa0642950313c3cfc5a8431a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 31/44] fix: do not normalize PQ curves of profiles twice

---
 jxl/src/api/color.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jxl/src/api/color.rs b/jxl/src/api/color.rs
index 386f7c9..697ee2c 100644
--- a/jxl/src/api/color.rs
+++ b/jxl/src/api/color.rs
@@ -1733,9 +1733,8 @@ fn create_table_curve(
         let y = match tf {
             JxlTransferFunction::HLG => TF_HLG::display_from_encoded(x),
             JxlTransferFunction::PQ => {
-                // For PQ, the output of the EOTF is absolute luminance, so we
-                // normalize it back to [0, 1] relative to the peak luminance.
-                display_from_encoded_pq(PQ_INTENSITY_TARGET as f32, x) / PQ_INTENSITY_TARGET
+                // This is already normalized to [0, 1] relative to the peak luminance.
+                display_from_encoded_pq(PQ_INTENSITY_TARGET as f32, x)
             }
             _ => unreachable!(), // Already checked above.
         };
-- 
2.43.0


From 200e42e4994fa46f718d0504384fb43e80a243da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 32/44] fix: apply the HLG OOTF unless its exponent is within
 0.01 of one

---
 jxl/src/color/tf.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jxl/src/color/tf.rs b/jxl/src/color/tf.rs
index 94b9638..54e4a64 100644
--- a/jxl/src/color/tf.rs
+++ b/jxl/src/color/tf.rs
@@ -357,7 +357,7 @@ const HLG_B: f64 = 1.0 - 4.0 * HLG_A;
 const HLG_C: f64 = 0.5599107295;
 
 fn hlg_ootf_inner_precise(exp: f64, [lr, lg, lb]: [f32; 3], [sr, sg, sb]: [&mut [f32]; 3]) {
-    if exp.abs() < 0.1 {
+    if exp.abs() < 0.01 {
         return;
     }
 
@@ -377,7 +377,7 @@ fn hlg_ootf_inner_precise(exp: f64, [lr, lg, lb]: [f32; 3], [sr, sg, sb]: [&mut
 }
 
 fn hlg_ootf_inner(exp: f32, [lr, lg, lb]: [f32; 3], [sr, sg, sb]: [&mut [f32]; 3]) {
-    if exp.abs() < 0.1 {
+    if exp.abs() < 0.01 {
         return;
     }
 
-- 
2.43.0


From 4ac7c37c621d42c31442d3b4eac21e832d11d4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 33/44] fix: choose the PQ polynomial by the scaled value it is
 evaluated at

---
 jxl/src/color/tf.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jxl/src/color/tf.rs b/jxl/src/color/tf.rs
index 54e4a64..c6cc7a1 100644
--- a/jxl/src/color/tf.rs
+++ b/jxl/src/color/tf.rs
@@ -273,7 +273,7 @@ pub fn linear_to_pq(intensity_target: f32, samples: &mut [f32]) {
         let a_scaled = a * y_mult;
         let a_1_4 = a_scaled.sqrt().sqrt();
 
-        let y = if a < 1e-4 {
+        let y = if a_scaled < 1e-4 {
             eval_rational_poly(a_1_4, PQ_INV_EOTF_P_SMALL, PQ_INV_EOTF_Q_SMALL)
         } else {
             eval_rational_poly(a_1_4, PQ_INV_EOTF_P, PQ_INV_EOTF_Q)
@@ -303,10 +303,10 @@ pub fn linear_to_pq_simd<D: SimdDescriptor>(
         let a_scaled = a * y_mult;
         let a_1_4 = a_scaled.sqrt().sqrt();
 
-        // Use small polynomial for a < 1e-4, regular polynomial otherwise
+        // Use small polynomial for a_scaled < 1e-4, regular polynomial otherwise
         let y_small = eval_rational_poly_simd(d, a_1_4, PQ_INV_EOTF_P_SMALL, PQ_INV_EOTF_Q_SMALL);
         let y_large = eval_rational_poly_simd(d, a_1_4, PQ_INV_EOTF_P, PQ_INV_EOTF_Q);
-        let y = threshold.gt(a).if_then_else_f32(y_small, y_large);
+        let y = threshold.gt(a_scaled).if_then_else_f32(y_small, y_large);
 
         y.copysign(s).store(vec);
     }
-- 
2.43.0


From f8df0caad939f361e3e245d74d43d715f9dc4d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 34/44] fix: decode names as UTF-8

---
 jxl/src/headers/encodings.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jxl/src/headers/encodings.rs b/jxl/src/headers/encodings.rs
index b06c4dd..429ff0e 100644
--- a/jxl/src/headers/encodings.rs
+++ b/jxl/src/headers/encodings.rs
@@ -153,11 +153,10 @@ impl UnconditionalCoder<()> for String {
             br,
             nonserialized,
         )?;
-        let mut ret = String::new();
-        ret.reserve(len as usize);
+        let mut ret = Vec::with_capacity(len as usize);
         for _ in 0..len {
             match br.read_noinline(8) {
-                Ok(c) => ret.push(c as u8 as char),
+                Ok(c) => ret.push(c as u8),
                 Err(Error::OutOfBounds(n)) => {
                     // Use saturating arithmetic to prevent underflow on malformed input
                     // ret.len()+1 cannot overflow since ret.len() <= isize::MAX
@@ -169,7 +168,8 @@ impl UnconditionalCoder<()> for String {
                 Err(e) => return Err(e),
             }
         }
-        Ok(ret)
+        // Names are UTF-8; anything that is not valid UTF-8 is replaced.
+        Ok(String::from_utf8_lossy(&ret).into_owned())
     }
 }
 
-- 
2.43.0


From ad2dfc3b3889a2f554237df048f0794b34ba6d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 35/44] fix: reject cropped frames without pixels

---
 jxl/src/headers/frame_header.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jxl/src/headers/frame_header.rs b/jxl/src/headers/frame_header.rs
index 011a9d6..23bb3f2 100644
--- a/jxl/src/headers/frame_header.rs
+++ b/jxl/src/headers/frame_header.rs
@@ -767,6 +767,13 @@ impl FrameHeader {
             }
         }
 
+        if self.have_crop && (self.frame_width == 0 || self.frame_height == 0) {
+            return Err(Error::InvalidImageSize(
+                self.frame_width as usize,
+                self.frame_height as usize,
+            ));
+        }
+
         if !self.save_before_ct && !self.full_frame && self.frame_type == FrameType::ReferenceOnly {
             return Err(Error::NonPatchReferenceWithCrop);
         }
-- 
2.43.0


From a7a76fc82d6c9aded836f99a7da520563b21735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 36/44] fix: produce rows in time for filters with large
 borders after vertical chroma upsampling

---
 jxl/src/render/low_memory_pipeline/render_group.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jxl/src/render/low_memory_pipeline/render_group.rs b/jxl/src/render/low_memory_pipeline/render_group.rs
index 4f28744..bd081cd 100644
--- a/jxl/src/render/low_memory_pipeline/render_group.rs
+++ b/jxl/src/render/low_memory_pipeline/render_group.rs
@@ -367,8 +367,9 @@ impl LowMemoryRenderPipeline {
             for (i, stage) in self.shared.stages.iter().enumerate() {
                 let (dx, dy) = self.downsampling_for_stage[i];
                 // The logic below uses *virtual* y coordinates, so we need to convert the border
-                // amount appropriately.
-                let scaled_y_border = self.stage_output_border_pixels[i].1 << dy;
+                // amount appropriately. The border is in pixels of the *output* of the stage.
+                let output_dy = dy - stage.shift().1 as usize;
+                let scaled_y_border = self.stage_output_border_pixels[i].1 << output_dy;
                 // I knew the reason behind this formula at some point, but now I don't.
                 let stage_vy = vy as isize - num_extra_rows as isize + scaled_y_border as isize;
                 if stage_vy % (1 << dy) != 0 {
-- 
2.43.0


From 990187442ecf0e1431ef4f22a98adabcba9805f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 37/44] fix: mirror at the right image edge when the rendered
 part ends within its border

---
 .../low_memory_pipeline/render_group.rs       | 22 ++++++++++++-------
 .../render/low_memory_pipeline/run_stage.rs   | 19 ++++++----------
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/jxl/src/render/low_memory_pipeline/render_group.rs b/jxl/src/render/low_memory_pipeline/render_group.rs
index bd081cd..9e8f466 100644
--- a/jxl/src/render/low_memory_pipeline/render_group.rs
+++ b/jxl/src/render/low_memory_pipeline/render_group.rs
@@ -297,7 +297,6 @@ impl LowMemoryRenderPipeline {
         buffers: &mut [Option<OutputChannelRef>],
     ) -> Result<()> {
         let start_of_row = image_area.origin.0 == 0;
-        let end_of_row = image_area.end().0 == self.shared.input_size.0;
 
         let Rect {
             origin: (x0, y0),
@@ -396,6 +395,12 @@ impl LowMemoryRenderPipeline {
 
                 let out_extra_x = self.stage_output_border_pixels[i].0;
                 let shifted_xsize = xsize.shrc(dx);
+                // The border on the right does not go past the end of the image, which can be
+                // closer to the end of the area than the border (if the last group is small).
+                let xsize_to_end = self.shared.input_size.0.shrc(dx) - (x0 >> dx);
+                let extra_right = out_extra_x
+                    .shrc(stage.shift().0)
+                    .min(xsize_to_end.saturating_sub(shifted_xsize));
 
                 match stage {
                     Stage::InPlace(s) => {
@@ -410,7 +415,7 @@ impl LowMemoryRenderPipeline {
                                 group_x0: x0 >> dx,
                                 out_extra_x,
                                 start_of_row,
-                                end_of_row,
+                                extra_right,
                                 image_height: shifted_ysize,
                             },
                             &mut buffers,
@@ -461,17 +466,18 @@ impl LowMemoryRenderPipeline {
                                 }
                             }
                         }
-                        if end_of_row && borderx != 0 {
+                        let pad_end = shifted_xsize + extra_right + borderx;
+                        if pad_end > xsize_to_end && borderx != 0 {
                             for (si, ci) in self.stage_input_buffer_index[i].iter() {
                                 for iy in -bordery..=bordery {
                                     let y = mirror(y as isize + iy, shifted_ysize);
                                     apply_x_padding(
                                         s.input_type(),
                                         data.row_buffers[*si][*ci].get_row_mut::<u8>(y),
-                                        shifted_xsize as isize..(shifted_xsize + borderx) as isize,
+                                        xsize_to_end as isize..pad_end as isize,
                                         // borderx..0 is either data from the neighbouring group or
                                         // data that was filled in by the iteration above.
-                                        -(borderx as isize)..shifted_xsize as isize,
+                                        -(borderx as isize)..xsize_to_end as isize,
                                     );
                                 }
                             }
@@ -489,7 +495,7 @@ impl LowMemoryRenderPipeline {
                                 group_x0: x0 >> dx,
                                 out_extra_x,
                                 start_of_row,
-                                end_of_row,
+                                extra_right,
                                 image_height: shifted_ysize,
                             },
                             &input_data,
@@ -547,7 +553,7 @@ impl LowMemoryRenderPipeline {
                                 group_x0: x0,
                                 out_extra_x: 0,
                                 start_of_row: false,
-                                end_of_row: false,
+                                extra_right: 0,
                                 image_height: self.shared.input_size.1,
                             },
                             &mut buffers,
@@ -593,7 +599,7 @@ impl LowMemoryRenderPipeline {
                                 group_x0: x0,
                                 out_extra_x: 0,
                                 start_of_row: false,
-                                end_of_row: false,
+                                extra_right: 0,
                                 image_height: self.shared.input_size.1,
                             },
                             &input_data,
diff --git a/jxl/src/render/low_memory_pipeline/run_stage.rs b/jxl/src/render/low_memory_pipeline/run_stage.rs
index 7a60117..f2f2d83 100644
--- a/jxl/src/render/low_memory_pipeline/run_stage.rs
+++ b/jxl/src/render/low_memory_pipeline/run_stage.rs
@@ -13,12 +13,13 @@ use crate::util::{ChannelVec, ShiftRightCeil, SmallVec, StackOnly, mirror};
 pub struct ExtraInfo {
     // Number of *input* pixels to process (ignoring additional border pixels).
     pub(super) xsize: usize,
-    // Additional border pixels requested in the output on each side, if not first/last xgroup.
+    // Additional border pixels requested in the output on the left side, if not first xgroup.
     pub(super) out_extra_x: usize,
+    // Additional border *input* pixels to process on the right side.
+    pub(super) extra_right: usize,
     pub(super) current_row: usize,
     pub(super) group_x0: usize,
     pub(super) start_of_row: bool,
-    pub(super) end_of_row: bool,
     pub(super) image_height: usize,
 }
 
@@ -38,7 +39,7 @@ impl<T: RenderPipelineInPlaceStage> RunInPlaceStage<RowBuffer> for T {
             out_extra_x,
             image_height: _,
             start_of_row,
-            end_of_row,
+            extra_right,
         }: ExtraInfo,
         buffers: &mut [&mut RowBuffer],
         state: Option<&mut ErasedLocalState>,
@@ -46,7 +47,7 @@ impl<T: RenderPipelineInPlaceStage> RunInPlaceStage<RowBuffer> for T {
         let x0 = RowBuffer::x0_offset::<T::Type>();
         let xpre = if start_of_row { 0 } else { out_extra_x };
         let xstart = x0 - xpre;
-        let xend = x0 + xsize + if end_of_row { 0 } else { out_extra_x };
+        let xend = x0 + xsize + extra_right;
         let mut rows: ChannelVec<_> = buffers
             .iter_mut()
             .map(|x| &mut x.get_row_mut::<T::Type>(current_row)[xstart..])
@@ -72,7 +73,7 @@ impl<T: RenderPipelineInOutStage> RunInOutStage<RowBuffer> for T {
             out_extra_x,
             image_height,
             start_of_row,
-            end_of_row,
+            extra_right,
         }: ExtraInfo,
         input_buffers: &[&RowBuffer],
         output_buffers: &mut [RowBuffer],
@@ -86,13 +87,7 @@ impl<T: RenderPipelineInOutStage> RunInOutStage<RowBuffer> for T {
             out_extra_x.shrc(T::SHIFT.0)
         };
         let xstart = x0 - xpre;
-        let xend = x0
-            + xsize
-            + if end_of_row {
-                0
-            } else {
-                out_extra_x.shrc(T::SHIFT.0)
-            };
+        let xend = x0 + xsize + extra_right;
 
         // Build flat input rows: all rows for all channels in one SmallVec
         let input_rows_per_channel = (2 * Self::BORDER.1 + 1) as usize;
-- 
2.43.0


From e07b6c1cdc868ac16c9eb15756a2a9db9cb8e5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 38/44] fix: make row buffers long enough for groups rendered
 with both borders

---
 jxl/src/render/low_memory_pipeline/mod.rs | 44 ++++++++++++-----------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/jxl/src/render/low_memory_pipeline/mod.rs b/jxl/src/render/low_memory_pipeline/mod.rs
index 4951cd8..ff6463b 100644
--- a/jxl/src/render/low_memory_pipeline/mod.rs
+++ b/jxl/src/render/low_memory_pipeline/mod.rs
@@ -49,6 +49,8 @@ impl LowMemoryRenderPipelinePerThread {
             return Ok(());
         }
         let nc = p.shared.num_channels();
+        // The area that is rendered at once can include the borders of the neighbouring groups.
+        let row_len = p.shared.chunk_size + 2 * p.border_size.0;
         let mut initial_buffers = vec![];
         for chan in 0..nc {
             initial_buffers.push(RowBuffer::new(
@@ -56,7 +58,7 @@ impl LowMemoryRenderPipelinePerThread {
                 p.next_border_and_cur_downsample[0][chan].0 as usize,
                 0,
                 0,
-                p.shared.chunk_size >> p.shared.channel_info[0][chan].downsample.0,
+                row_len.shrc(p.shared.channel_info[0][chan].downsample.0),
             )?);
         }
         self.row_buffers = vec![initial_buffers];
@@ -70,7 +72,7 @@ impl LowMemoryRenderPipelinePerThread {
                     *next_y_border as usize,
                     stage.shift().1 as usize,
                     stage.shift().0 as usize,
-                    p.shared.chunk_size >> *dsx,
+                    row_len.shrc(*dsx),
                 )?);
             }
             self.row_buffers.push(stage_buffers);
@@ -223,13 +225,31 @@ impl RenderPipeline for LowMemoryRenderPipeline {
             })
             .collect();
 
+        let mut border_size = (0, 0);
+        for c in 0..nc {
+            border_size.0 = border_size
+                .0
+                .max(border_pixels[c].0 << shared.channel_info[0][c].downsample.0);
+            border_size.1 = border_size
+                .1
+                .max(border_pixels[c].1 << shared.channel_info[0][c].downsample.1);
+        }
+        for s in 0..shared.stages.len() {
+            border_size.0 = border_size
+                .0
+                .max(border_pixels_per_stage[s].0 << downsampling_for_stage[s].0);
+            border_size.1 = border_size
+                .1
+                .max(border_pixels_per_stage[s].1 << downsampling_for_stage[s].1);
+        }
+
         // Create opaque alpha buffers for save stages that need fill_opaque_alpha
         let mut opaque_alpha_buffers = vec![];
         for (i, stage) in shared.stages.iter().enumerate() {
             if let Stage::Save(s) = stage {
                 if s.fill_opaque_alpha {
                     let (dx, _dy) = downsampling_for_stage[i];
-                    let row_len = shared.chunk_size >> dx;
+                    let row_len = (shared.chunk_size + 2 * border_size.0).shrc(dx);
                     // Row buffers hold samples in native byte order; the save stage converts
                     // them to the byte order of the output.
                     let fill_pattern = s.data_format.with_native_endianness().opaque_alpha_bytes();
@@ -273,24 +293,6 @@ impl RenderPipeline for LowMemoryRenderPipeline {
             })
             .collect();
 
-        let mut border_size = (0, 0);
-        for c in 0..nc {
-            border_size.0 = border_size
-                .0
-                .max(border_pixels[c].0 << shared.channel_info[0][c].downsample.0);
-            border_size.1 = border_size
-                .1
-                .max(border_pixels[c].1 << shared.channel_info[0][c].downsample.1);
-        }
-        for s in 0..shared.stages.len() {
-            border_size.0 = border_size
-                .0
-                .max(border_pixels_per_stage[s].0 << downsampling_for_stage[s].0);
-            border_size.1 = border_size
-                .1
-                .max(border_pixels_per_stage[s].1 << downsampling_for_stage[s].1);
-        }
-
         Ok(Self {
             input_buffers: InputBuffers::new(nc, shared.group_count)?,
             stage_input_buffer_index,
-- 
2.43.0


From 0f24811e73d2822227dd5a0ab06ad71afc24a9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 39/44] fix: count the samples of a frame after upsampling for
 the sample limit

---
 jxl/src/api/inner/codestream_parser/frame_info.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jxl/src/api/inner/codestream_parser/frame_info.rs b/jxl/src/api/inner/codestream_parser/frame_info.rs
index 8a1d23e..f44053c 100644
--- a/jxl/src/api/inner/codestream_parser/frame_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_info.rs
@@ -144,7 +144,7 @@ impl FrameInfo {
         frame_header.postprocess(&nonserialized);
         check_size_limit(
             decode_options.sample_limit,
-            frame_header.size(),
+            frame_header.size_upsampled(),
             frame_header.num_extra_channels as usize,
         )?;
 
-- 
2.43.0


From e7e56664aa6496e4d35967cc9117ec8dc946b68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 40/44] fix: reject frames with more sections than a TOC can
 count

---
 jxl/src/api/inner/codestream_parser/frame_info.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jxl/src/api/inner/codestream_parser/frame_info.rs b/jxl/src/api/inner/codestream_parser/frame_info.rs
index f44053c..6ca3fa0 100644
--- a/jxl/src/api/inner/codestream_parser/frame_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_info.rs
@@ -155,8 +155,12 @@ impl FrameInfo {
 
     pub fn parse_toc(&mut self, br: &mut BitReader, bits: &mut usize) -> Result<Toc> {
         if self.toc_parser.is_none() {
-            let num_toc_entries = self.frame_header.as_ref().unwrap().num_toc_entries();
-            self.toc_parser = Some(IncrementalTocReader::new(num_toc_entries as u32, br)?);
+            let frame_header = self.frame_header.as_ref().unwrap();
+            let num_toc_entries = u32::try_from(frame_header.num_toc_entries()).map_err(|_| {
+                let (xsize, ysize) = frame_header.size();
+                Error::ImageSizeTooLarge(xsize, ysize)
+            })?;
+            self.toc_parser = Some(IncrementalTocReader::new(num_toc_entries, br)?);
         }
 
         let toc_parser = self.toc_parser.as_mut().unwrap();
-- 
2.43.0


From b3402212a36b3cbb1d66768b1cfd930b90a237af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 41/44] fix: reject ICC profiles longer than their encoding can
 produce

---
 jxl/src/icc/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jxl/src/icc/mod.rs b/jxl/src/icc/mod.rs
index 0243902..908be71 100644
--- a/jxl/src/icc/mod.rs
+++ b/jxl/src/icc/mod.rs
@@ -25,6 +25,8 @@ use tag::{read_single_command, read_tag_list};
 
 const ICC_CONTEXTS: usize = 41;
 const ICC_HEADER_SIZE: u64 = 128;
+/// The most output that a single byte of the encoded profile can produce (three tags).
+const ICC_MAX_EXPANSION: u64 = 36;
 
 fn read_icc_inner(stream: &mut IccStream) -> Result<Vec<u8>, Error> {
     let output_size = stream.read_varint()?;
@@ -42,6 +44,11 @@ fn read_icc_inner(stream: &mut IccStream) -> Result<Vec<u8>, Error> {
         return Err(Error::IccTooLarge);
     }
 
+    // The profile is the header, the number of tags and what the stream expands to.
+    if output_size > ICC_HEADER_SIZE + 4 + stream.len() * ICC_MAX_EXPANSION {
+        return Err(Error::InvalidIccStream);
+    }
+
     // Extract command stream first.
     let commands = stream.read_to_vec_exact(commands_size as usize)?;
     let mut commands_stream = Cursor::new(commands);
-- 
2.43.0


From 9ea364831f789db8613493baf8b0c9f9fdcfedee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:04 +0000
Subject: [PATCH 42/44] fix: refuse VarDCT blocks that overlap a block of an
 earlier row

---
 jxl/src/frame/modular/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jxl/src/frame/modular/mod.rs b/jxl/src/frame/modular/mod.rs
index 2915378..db20df7 100644
--- a/jxl/src/frame/modular/mod.rs
+++ b/jxl/src/frame/modular/mod.rs
@@ -1068,6 +1068,10 @@ pub fn decode_hf_metadata(
                 let trans_row = hf_meta.transform_map.typed_row_mut::<u8>(y + iy);
                 let rq_row = hf_meta.raw_quant_map.typed_row_mut::<i32>(y + iy);
                 for ix in 0..cx {
+                    if trans_row[x + ix] != HfTransformType::INVALID_TRANSFORM {
+                        // Overlaps with a block that started in an earlier row.
+                        return Err(Error::InvalidVarDCTTransformMap);
+                    }
                     let is_first_block = iy == 0 && ix == 0;
                     let transform_id =
                         (raw_transform as u8) | (if is_first_block { 128 } else { 0 });
-- 
2.43.0


From 8de9c6ed6a54fd78c9bce48b0a630b06c314abd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:04 +0000
Subject: [PATCH 43/44] fix: let rendered areas start at whole pixels of
 subsampled channels

---
 jxl/src/render/low_memory_pipeline/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jxl/src/render/low_memory_pipeline/mod.rs b/jxl/src/render/low_memory_pipeline/mod.rs
index ff6463b..1389e63 100644
--- a/jxl/src/render/low_memory_pipeline/mod.rs
+++ b/jxl/src/render/low_memory_pipeline/mod.rs
@@ -243,6 +243,17 @@ impl RenderPipeline for LowMemoryRenderPipeline {
                 .max(border_pixels_per_stage[s].1 << downsampling_for_stage[s].1);
         }
 
+        // Areas start and end at distance `border_size` from the sides of a group: this must be a
+        // whole number of pixels in every channel, as columns are counted from the start of an
+        // area, and as the rows that are kept of neighbouring groups must be enough for it.
+        let max_downsample = (0..nc)
+            .map(|c| shared.channel_info[0][c].downsample)
+            .fold((0, 0), |(mx, my): (u8, u8), (dx, dy)| {
+                (mx.max(dx), my.max(dy))
+            });
+        border_size.0 = border_size.0.next_multiple_of(1 << max_downsample.0);
+        border_size.1 = border_size.1.next_multiple_of(1 << max_downsample.1);
+
         // Create opaque alpha buffers for save stages that need fill_opaque_alpha
         let mut opaque_alpha_buffers = vec![];
         for (i, stage) in shared.stages.iter().enumerate() {
-- 
2.43.0


From 47e9d2fbec34ef7c01ebeaad50fc15a369076605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:45 +0000
Subject: [PATCH 44/44] fix: enlarge the low-frequency picture correctly at
 right edges and with subsampled channels

---
 jxl/src/frame/decode.rs | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/jxl/src/frame/decode.rs b/jxl/src/frame/decode.rs
index 0e38421..ba8ac88 100644
--- a/jxl/src/frame/decode.rs
+++ b/jxl/src/frame/decode.rs
@@ -86,12 +86,16 @@ fn upsample_lf_group(
         let lf_y0 = gy * lf_group_dim_y;
 
         let lf_width = lf_img.size().0.shrc(hs);
-        let lf_height = lf_img.size().1.shrc(hs);
+        let lf_height = lf_img.size().1.shrc(vs);
 
-        let start_x = lf_x0.saturating_sub(2);
         let lf_x1 = (lf_x0 + lf_group_dim_x).min(lf_width);
-        let end_x = (lf_x1 + 2).min(lf_width);
-        let copy_width = end_x - start_x;
+
+        // Subsampled LF image is at the top-left corner of each LF group.
+        let log_group_dim = header.log_group_dim();
+        let lf_pos = |p: usize, shift: usize| {
+            let log_dim = log_group_dim - shift;
+            ((p >> log_dim) << log_group_dim) + (p & ((1 << log_dim) - 1))
+        };
 
         for y in 0..lf_group_dim_y {
             let cy = lf_y0 + y;
@@ -99,22 +103,12 @@ fn upsample_lf_group(
             for dy in -2..=2 {
                 let iy = cy as isize + dy;
                 let iy = mirror(iy, lf_height);
+                let lf_row = lf_img.row(lf_pos(iy, vs));
 
                 let storage = &mut input_rows_storage[(dy + 2) as usize];
 
-                let save_start = if start_x == lf_x0 { 2 } else { 0 };
-                let save_end = save_start + copy_width;
-
-                storage[save_start..save_end].copy_from_slice(&lf_img.row(iy)[start_x..end_x]);
-
-                if start_x == lf_x0 {
-                    storage[0] = storage[2 + mirror(-2, copy_width)];
-                    storage[1] = storage[2 + mirror(-1, copy_width)];
-                }
-                if end_x == lf_x1 {
-                    storage[save_end] = storage[save_start + mirror(save_end as isize, save_end)];
-                    storage[save_end + 1] =
-                        storage[save_start + mirror(save_end as isize + 1, save_end)];
+                for (i, ix) in (lf_x0 as isize - 2..lf_x1 as isize + 2).enumerate() {
+                    storage[i] = lf_row[lf_pos(mirror(ix, lf_width), hs)];
                 }
             }
 
-- 
2.43.0

