From a7a3354b369767e1f2be9be8147b8917beaea5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 01/11] fix: interleave components for ColorTransform::None

The row buffers of all components were written one after the other, so the
output was planar per row instead of interleaved pixels, and the conversion
panicked whenever the line buffers were longer than the output row (any image
with subsampled components).
---
 src/decoder.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index b8eb531..a0a514f 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1474,11 +1474,9 @@ fn color_convert_line_cmyk(data: &[Vec<u8>], output: &mut [u8]) {
 }
 
 fn color_no_convert(data: &[Vec<u8>], output: &mut [u8]) {
-    let mut output_iter = output.iter_mut();
-
-    for pixel in data {
-        for d in pixel {
-            *(output_iter.next().unwrap()) = *d;
+    for (i, chunk) in output.chunks_exact_mut(data.len()).enumerate() {
+        for (sample, component) in chunk.iter_mut().zip(data) {
+            *sample = component[i];
         }
     }
 }
-- 
2.43.0


From de3f9396ca55fd86ca931603a9d1a1f881329d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 02/11] fix: return ICC profiles that consist of 255 chunks

Sequence numbers run from 1 to 255, so 255 chunks are legal.
---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index a0a514f..0712cba 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -211,7 +211,7 @@ impl<R: Read> Decoder<R> {
     pub fn icc_profile(&self) -> Option<Vec<u8>> {
         let mut marker_present: [Option<&IccChunk>; 256] = [None; 256];
         let num_markers = self.icc_markers.len();
-        if num_markers == 0 || num_markers >= 255 {
+        if num_markers == 0 || num_markers > 255 {
             return None;
         }
         // check the validity of the markers
-- 
2.43.0


From e70e05d81cac3f109442a7f2d40d0483633ee320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 03/11] fix: count both bytes of 16-bit samples against the
 buffer size limit

The limit is documented in bytes, but only samples were counted, so an image
with more than 8 bits per sample could take twice the configured maximum.
---
 src/decoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 0712cba..ba53116 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -633,6 +633,7 @@ impl<R: Read> Decoder<R> {
             .len()
             .checked_mul(frame.output_size.width.into())
             .and_then(|m| m.checked_mul(frame.output_size.height.into()))
+            .and_then(|m| m.checked_mul(if frame.precision > 8 { 2 } else { 1 }))
             .map_or(true, |m| self.decoding_buffer_size_limit < m)
         {
             return Err(Error::Format(
-- 
2.43.0


From 2e1aef8dff93502c7ec8cd6c2832814d866f9cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 04/11] fix: do not report a scaled size for lossless images

scale() changed the output size of lossless frames although their samples are
always returned at full size, so info() and the returned buffer disagreed.
---
 src/decoder.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index ba53116..1b4546d 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -278,13 +278,18 @@ impl<R: Read> Decoder<R> {
     pub fn scale(&mut self, requested_width: u16, requested_height: u16) -> Result<(u16, u16)> {
         self.read_info()?;
         let frame = self.frame.as_mut().unwrap();
-        let idct_size = crate::idct::choose_idct_size(
-            frame.image_size,
-            Dimensions {
-                width: requested_width,
-                height: requested_height,
-            },
-        );
+        let idct_size = if frame.coding_process == CodingProcess::Lossless {
+            // There is no transform that could scale lossless images.
+            8
+        } else {
+            crate::idct::choose_idct_size(
+                frame.image_size,
+                Dimensions {
+                    width: requested_width,
+                    height: requested_height,
+                },
+            )
+        };
         frame.update_idct_size(idct_size)?;
         Ok((frame.output_size.width, frame.output_size.height))
     }
-- 
2.43.0


From 27ef7abebbdd637bd14f047655b30452cc7eb44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 05/11] fix: return one byte per sample for lossless images
 below 8 bits

info() reports L8 or RGB24 for these images, but two bytes were returned for
each sample.
---
 src/decoder/lossless.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index cd00476..3583d24 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -250,7 +250,7 @@ pub fn compute_image_lossless(frame: &FrameInfo, mut data: Vec<Vec<u16>>) -> Res
 }
 
 fn convert_to_u8(frame: &FrameInfo, data: Vec<u16>) -> Vec<u8> {
-    if frame.precision == 8 {
+    if frame.precision <= 8 {
         data.iter().map(|x| *x as u8).collect()
     } else {
         // we output native endian, which is the standard for image-rs
-- 
2.43.0


From fab6d711535a5274d1bf5d80640ebcd1da9eb2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 06/11] fix: store lossless planes at the index of their
 component

The planes of a scan were stored by their position in that scan, so images
with one scan per component overwrote the first plane and failed to decode.
---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 1b4546d..ecb8a26 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -424,7 +424,7 @@ impl<R: Read> Decoder<R> {
                             .enumerate()
                             .filter(|(_, plane)| !plane.is_empty())
                         {
-                            planes_u16[i] = plane;
+                            planes_u16[scan.component_indices[i]] = plane;
                         }
                         pending_marker = marker;
                     } else {
-- 
2.43.0


From b71e3d70f29e79af58eed31b6770b4a2981b1c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 07/11] fix: predict lossless samples before undoing the point
 transform

Predictions have to be formed from the point transformed samples; they were
formed from samples that had already been shifted back.
---
 src/decoder/lossless.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 3583d24..07635ae 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -111,7 +111,6 @@ impl<R: Read> Decoder<R> {
                 let diff = differences[i][0];
                 let prediction = 1 << (frame.precision - scan.point_transform - 1) as i32;
                 let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                let result = result << scan.point_transform;
                 results[i][0] = result;
 
                 // calculate leftmost column, using top pixel as predictor
@@ -120,7 +119,6 @@ impl<R: Read> Decoder<R> {
                     let diff = differences[i][mcu_y * width];
                     let prediction = previous as i32;
                     let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                    let result = result << scan.point_transform;
                     results[i][mcu_y * width] = result;
                     previous = result;
                 }
@@ -131,7 +129,6 @@ impl<R: Read> Decoder<R> {
                         let diff = differences[i][mcu_y * width + mcu_x];
                         let prediction = results[i][mcu_y * width + mcu_x - 1] as i32;
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                        let result = result << scan.point_transform;
                         results[i][mcu_y * width + mcu_x] = result;
                     }
                 }
@@ -170,12 +167,19 @@ impl<R: Read> Decoder<R> {
                                 && mcus_left_until_restart == self.restart_interval - 1,
                         );
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                        results[i][mcu_y * width + mcu_x] = result << scan.point_transform;
+                        results[i][mcu_y * width + mcu_x] = result;
                     }
                 }
             }
         }
 
+        // Section H.1.2.1: the point transform is undone after prediction
+        if scan.point_transform > 0 {
+            for sample in results.iter_mut().flatten() {
+                *sample <<= scan.point_transform;
+            }
+        }
+
         let mut marker = huffman.take_marker(&mut self.reader)?;
         while let Some(Marker::RST(_)) = marker {
             marker = self.read_marker().ok();
-- 
2.43.0


From 3eefdbdce08de76ee8670f5741f705f7eb7699d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 08/11] fix: initial lossless prediction for one remaining bit

With a point transform of precision - 1 the initial prediction is
2^(P - Pt - 1) = 1, as in the fast path for predictor 1, not 0.
---
 src/decoder/lossless.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 07635ae..33b497f 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -203,7 +203,7 @@ fn predict(
 ) -> i32 {
     if (ix == 0 && iy == 0) || restart {
         // start of first line or restart
-        if input_precision > 1 + point_transform {
+        if input_precision > point_transform {
             1 << (input_precision - point_transform - 1)
         } else {
             0
-- 
2.43.0


From af2816f2028355192f0044cd6e6203d09a5b4863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 09/11] fix: reset lossless prediction at the start of each
 restart interval

Whether a sample starts a restart interval was decided by the number of MCUs
left after the whole scan had been read, which is the same for every sample,
and not at all for predictor 1.
---
 src/decoder/lossless.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 33b497f..355a943 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -105,7 +105,7 @@ impl<R: Read> Decoder<R> {
             }
         }
 
-        if scan.predictor_selection == Predictor::Ra {
+        if scan.predictor_selection == Predictor::Ra && self.restart_interval == 0 {
             for (i, _component) in components.iter().enumerate() {
                 // calculate the top left pixel
                 let diff = differences[i][0];
@@ -136,6 +136,16 @@ impl<R: Read> Decoder<R> {
         } else {
             for mcu_y in 0..height {
                 for mcu_x in 0..width {
+                    // Section H.1.2.1: every restart interval starts anew with the
+                    // prediction of a first line
+                    let (line, restart) = if self.restart_interval > 0 {
+                        let position =
+                            (mcu_y * width + mcu_x) % usize::from(self.restart_interval);
+                        (position / width, position == 0)
+                    } else {
+                        (mcu_y, false)
+                    };
+
                     for (i, _component) in components.iter().enumerate() {
                         let diff = differences[i][mcu_y * width + mcu_x];
 
@@ -162,9 +172,8 @@ impl<R: Read> Decoder<R> {
                             scan.point_transform,
                             frame.precision,
                             mcu_x,
-                            mcu_y,
-                            self.restart_interval > 0
-                                && mcus_left_until_restart == self.restart_interval - 1,
+                            line,
+                            restart,
                         );
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
                         results[i][mcu_y * width + mcu_x] = result;
-- 
2.43.0


From ddeb2e047adcff816dc9483399c01d012c4bccba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 10/11] fix: number of blocks in non-interleaved scans

A scan of a single component covers ceil(size / 8) blocks of that component in
both directions, but the number of blocks was derived from the size of the
image, which is larger for subsampled components, so too many blocks were read
for them. The check also overflowed for images of 65529 lines or columns and
more.
---
 src/decoder.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index ecb8a26..3913f08 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -907,22 +907,19 @@ impl<R: Read> Decoder<R> {
         let (max_mcu_x, max_mcu_y) = if is_interleaved {
             (frame.mcu_size.width, frame.mcu_size.height)
         } else {
+            // Section A.2.2: only the blocks that contain samples of the component
+            let blocks = |size: u16| {
+                let scale = components[0].dct_scale;
+                ((usize::from(size) + scale - 1) / scale) as u16
+            };
             (
-                components[0].block_size.width,
-                components[0].block_size.height,
+                blocks(components[0].size.width),
+                blocks(components[0].size.height),
             )
         };
 
         for mcu_y in 0..max_mcu_y {
-            if mcu_y * 8 >= frame.image_size.height {
-                break;
-            }
-
             for mcu_x in 0..max_mcu_x {
-                if mcu_x * 8 >= frame.image_size.width {
-                    break;
-                }
-
                 if self.restart_interval > 0 {
                     if mcus_left_until_restart == 0 {
                         match huffman.take_marker(&mut self.reader)? {
@@ -1028,7 +1025,7 @@ impl<R: Read> Decoder<R> {
                     // keep going; don't send it yet. We also need to ensure we don't skip over the last
                     // row(s) of the image.
                     if !is_interleaved
-                        && (mcu_y + 1) * 8 < frame.image_size.height
+                        && mcu_y + 1 < max_mcu_y
                         && (mcu_y + 1) % component.vertical_sampling_factor as u16 > 0
                     {
                         continue;
-- 
2.43.0


From 2e780abb5c7d9da65eed4c1007429ffd5f0c08fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:40 +0000
Subject: [PATCH 11/11] fix: the count of scans cannot overflow

---
 src/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 3913f08..2502669 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -318,7 +318,7 @@ impl<R: Read> Decoder<R> {
 
         let mut previous_marker = Marker::SOI;
         let mut pending_marker = None;
-        let mut scans_processed = 0;
+        let mut scans_processed = 0u32;
         let mut planes = vec![
             Vec::<u8>::new();
             self.frame
@@ -482,7 +482,7 @@ impl<R: Read> Decoder<R> {
                         pending_marker = marker;
                     }
 
-                    scans_processed += 1;
+                    scans_processed = scans_processed.saturating_add(1);
                 }
 
                 // Table-specification and miscellaneous markers
-- 
2.43.0

