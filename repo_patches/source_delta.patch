From 8e51b43068e422e0a41d5b5e604bbdd4948defcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 01/33] fix: compute the vertex bounding box and z precision
 from the right axes

---
 src/vertices.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index 9f97f85..33149cd 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -44,10 +44,10 @@ pub fn save_tmf_vertices<W: Write>(
     //Get min and max x,y,z coords
     for vertex in vertices {
         min_x = min_x.min(vertex.0);
-        max_x = max_y.max(vertex.1);
-        min_y = min_z.min(vertex.2);
-        max_y = max_x.max(vertex.0);
-        min_z = min_y.min(vertex.1);
+        max_x = max_x.max(vertex.0);
+        min_y = min_y.min(vertex.1);
+        max_y = max_y.max(vertex.1);
+        min_z = min_z.min(vertex.2);
         max_z = max_z.max(vertex.2);
     }
     writer.write_all(&(min_x as f64).to_le_bytes())?;
@@ -67,7 +67,7 @@ pub fn save_tmf_vertices<W: Write>(
     //Calculate minimal increment
     let inc_x = (shortest_edge / sx) * precision.0;
     let inc_y = (shortest_edge / sy) * precision.0;
-    let inc_z = (shortest_edge / sy) * precision.0;
+    let inc_z = (shortest_edge / sz) * precision.0;
     //Calculate write precision
     let prec_x = (1.0 / inc_x).log2().ceil() as u8;
     let prec_y = (1.0 / inc_y).log2().ceil() as u8;
-- 
2.43.0


From 67d846f59dec3ba93a58ce0976e26774795689d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 02/33] fix: saving an empty vertex array panicked

---
 src/vertices.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index 33149cd..059a6f1 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -34,12 +34,14 @@ pub fn save_tmf_vertices<W: Write>(
     writer: &mut W,
     shortest_edge: FloatType,
 ) -> std::io::Result<()> {
-    let mut min_x = vertices[0].0;
-    let mut max_x = vertices[0].0;
-    let mut min_y = vertices[0].1;
-    let mut max_y = vertices[0].1;
-    let mut min_z = vertices[0].2;
-    let mut max_z = vertices[0].2;
+    // An empty array has no first vertex: its bounding box is empty too.
+    let first = vertices.first().copied().unwrap_or((0.0, 0.0, 0.0));
+    let mut min_x = first.0;
+    let mut max_x = first.0;
+    let mut min_y = first.1;
+    let mut max_y = first.1;
+    let mut min_z = first.2;
+    let mut max_z = first.2;
     writer.write_all(&(vertices.len() as u64).to_le_bytes())?;
     //Get min and max x,y,z coords
     for vertex in vertices {
-- 
2.43.0


From 4cd5e9675cadbb01d86d0cc8deec3270e07dd19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 03/33] fix: quantised codes overflowed their width at high
 precisions

---
 src/custom_data.rs | 19 +++++++++----------
 src/normals.rs     |  9 ++++-----
 src/utilis.rs      |  8 ++++++++
 src/uv.rs          |  8 ++++----
 src/vertices.rs    | 19 ++++++++-----------
 5 files changed, 33 insertions(+), 30 deletions(-)

diff --git a/src/custom_data.rs b/src/custom_data.rs
index ab95fe6..8e7ff10 100644
--- a/src/custom_data.rs
+++ b/src/custom_data.rs
@@ -1,5 +1,6 @@
 use crate::read_extension::ReadExt;
 use crate::tmf::SectionType;
+use crate::utilis::{quantize, MAX_PRECISION_BITS};
 use crate::{FloatType, IndexType, TMFImportError, Vector4, MAX_SEG_SIZE};
 #[derive(Clone, Debug)]
 pub(crate) struct CustomDataSegment {
@@ -99,9 +100,8 @@ impl CustomData {
                 }
                 let span = max - min;
                 let prec = (span / prec).log2().ceil() as u8;
-                //Ensure precision is never 0(messes up the reader/writer);
-                let prec = prec.max(1);
-                let mul = ((1 << prec) - 1) as FloatType;
+                //Ensure precision is never 0(messes up the reader/writer), or too big to be saved;
+                let prec = prec.clamp(1, MAX_PRECISION_BITS);
                 target.write_all(&(data.len() as u64).to_le_bytes())?;
                 target.write_all(&(min as f64).to_le_bytes())?;
                 target.write_all(&(max as f64).to_le_bytes())?;
@@ -109,24 +109,23 @@ impl CustomData {
                 let prec = UnalignedRWMode::precision_bits(prec);
                 let mut writer = UnalignedWriter::new(target);
                 for entry in data.iter() {
-                    let entry = (((entry - min) / span) * mul) as u64;
+                    let entry = quantize((entry - min) / span, prec.bits());
                     writer.write_unaligned(prec, entry)?;
                 }
                 Ok(())
             }
             Self::CustomColorRGBA(data, prec) => {
                 use crate::unaligned_rw::{UnalignedRWMode, UnalignedWriter};
-                let prec_bits = (1.0 / prec.min(1.0)).log2().ceil() as u8;
-                let mul = ((1 << prec_bits) - 1) as FloatType;
+                let prec_bits = ((1.0 / prec.min(1.0)).log2().ceil() as u8).min(MAX_PRECISION_BITS);
                 target.write_all(&(data.len() as u64).to_le_bytes())?;
                 target.write_all(&[prec_bits])?;
                 let prec = UnalignedRWMode::precision_bits(prec_bits);
                 let mut writer = UnalignedWriter::new(target);
                 for entry in data.iter() {
-                    let entry_r = (entry.0 * mul) as u64;
-                    let entry_g = (entry.1 * mul) as u64;
-                    let entry_b = (entry.2 * mul) as u64;
-                    let entry_a = (entry.3 * mul) as u64;
+                    let entry_r = quantize(entry.0, prec_bits);
+                    let entry_g = quantize(entry.1, prec_bits);
+                    let entry_b = quantize(entry.2, prec_bits);
+                    let entry_a = quantize(entry.3, prec_bits);
                     writer.write_unaligned(prec, entry_r)?;
                     writer.write_unaligned(prec, entry_g)?;
                     writer.write_unaligned(prec, entry_b)?;
diff --git a/src/normals.rs b/src/normals.rs
index 9282d50..5605567 100644
--- a/src/normals.rs
+++ b/src/normals.rs
@@ -22,7 +22,7 @@ impl NormalPrecisionMode {
     /// let dev_5_deg = NormalPrecisionMode::from_deg_dev(5.0);
     /// ```
     pub fn from_deg_dev(deg: FloatType) -> Self {
-        let prec = ((90.0 / deg).log2().ceil() as u8).max(1);
+        let prec = ((90.0 / deg).log2().ceil() as u8).clamp(1, MAX_PRECISION_BITS);
         Self(prec)
     }
     /// Creates NormalPrecisionMode from maximal allowed deviation angle in radians, for degrees use [`Self::from_deg_dev`]
@@ -34,7 +34,7 @@ impl NormalPrecisionMode {
     /// let dev_0_point_05_rad = NormalPrecisionMode::from_rad_dev(0.05);
     /// ```
     pub fn from_rad_dev(rad: FloatType) -> Self {
-        let prec = (FRAC_PI_2 / rad).log2().ceil() as u8;
+        let prec = ((FRAC_PI_2 / rad).log2().ceil() as u8).min(MAX_PRECISION_BITS);
         Self(prec)
     }
     pub(crate) fn bits(&self) -> u8 {
@@ -68,7 +68,6 @@ pub(crate) fn normal_to_encoding(
     normal: Vector3,
     precision: &NormalPrecisionMode,
 ) -> (u64, u64, bool, bool, bool) {
-    let multiplier = ((1 << precision.0) - 1) as FloatType;
     //Calculate asine
     let xy = (normal.0.abs(), normal.1.abs());
     let xy_mag = (xy.0 * xy.0 + xy.1 * xy.1).sqrt();
@@ -77,8 +76,8 @@ pub(crate) fn normal_to_encoding(
 
     let asine = asine / (PI / 2.0);
     //
-    let asine = (asine * multiplier) as u64;
-    let z = (normal.2.abs() * multiplier) as u64;
+    let asine = quantize(asine, precision.0);
+    let z = quantize(normal.2.abs(), precision.0);
     let sx = normal.0 < 0.0;
     let sy = normal.1 < 0.0;
     let sz = normal.2 < 0.0;
diff --git a/src/utilis.rs b/src/utilis.rs
index 1afb596..2048dd7 100644
--- a/src/utilis.rs
+++ b/src/utilis.rs
@@ -1,6 +1,14 @@
 // Support functions may be used in the future for triangulation, when triangulating fully works, remove this allow.
 #![allow(dead_code)]
 use crate::{FloatType, IndexType, Vector3};
+/// Widest precision in bits that can be both saved and read.
+pub(crate) const MAX_PRECISION_BITS: u8 = 63;
+/// Converts a fraction(0.0-1.0) to a `bits` bits wide integer code.
+pub(crate) fn quantize(fraction: FloatType, bits: u8) -> u64 {
+    let max = (1_u64 << bits) - 1;
+    // `max as FloatType` may be rounded up, and the fraction may be slightly above 1: the code must still fit.
+    ((fraction * (max as FloatType)) as u64).min(max)
+}
 /// Fast method for pruning unused vertices. Finds the lowest used vertex and removes it. O(n), does **not** remove all unused vertices. Used mostly
 /// in .obj loading. Fast because if not needed exits quickly.
 pub(crate) fn fast_prune<T: Sized>(data: &mut Vec<T>, indices: &mut [IndexType]) {
diff --git a/src/uv.rs b/src/uv.rs
index 73b8db9..79d9bde 100644
--- a/src/uv.rs
+++ b/src/uv.rs
@@ -1,5 +1,6 @@
 use crate::read_extension::ReadExt;
 use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader, UnalignedWriter};
+use crate::utilis::{quantize, MAX_PRECISION_BITS};
 use crate::TMFImportError;
 use crate::MAX_SEG_SIZE;
 use crate::{FloatType, Vector2};
@@ -14,7 +15,7 @@ impl UvPrecisionMode {
     /// let mode = UvPrecisionMode::form_texture_resolution(1024.0,0.1);
     /// ```
     pub fn form_texture_resolution(resolution: f32, pixel_dev: f32) -> Self {
-        Self((resolution / pixel_dev).log2().ceil() as u8)
+        Self(((resolution / pixel_dev).log2().ceil() as u8).min(MAX_PRECISION_BITS))
     }
 }
 impl Default for UvPrecisionMode {
@@ -36,14 +37,13 @@ pub fn save_uvs<W: Write>(
     precision: UvPrecisionMode,
 ) -> std::io::Result<()> {
     let precision = precision.0;
-    let multpiler = ((1 << precision) - 1) as FloatType;
     writer.write_all(&[precision])?;
     writer.write_all(&(uvs.len() as u64).to_le_bytes())?;
     let precision = UnalignedRWMode::precision_bits(precision);
     let mut writer = UnalignedWriter::new(writer);
     for uv in uvs.iter() {
-        let x = (uv.0 * multpiler) as u64;
-        let y = (uv.1 * multpiler) as u64;
+        let x = quantize(uv.0, precision.bits());
+        let y = quantize(uv.1, precision.bits());
         writer.write_unaligned(precision, x)?;
         writer.write_unaligned(precision, y)?;
     }
diff --git a/src/vertices.rs b/src/vertices.rs
index 059a6f1..0c652aa 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -1,5 +1,6 @@
 use crate::read_extension::ReadExt;
 use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader, UnalignedWriter};
+use crate::utilis::{quantize, MAX_PRECISION_BITS};
 use crate::TMFImportError;
 use crate::MAX_SEG_SIZE;
 use crate::{FloatType, IndexType, Vector3};
@@ -74,18 +75,14 @@ pub fn save_tmf_vertices<W: Write>(
     let prec_x = (1.0 / inc_x).log2().ceil() as u8;
     let prec_y = (1.0 / inc_y).log2().ceil() as u8;
     let prec_z = (1.0 / inc_z).log2().ceil() as u8;
-    //Ensure precision is never below 1
-    let prec_x = prec_x.max(1);
-    let prec_y = prec_y.max(1);
-    let prec_z = prec_z.max(1);
+    //Ensure precision is never below 1, or too big to be saved
+    let prec_x = prec_x.clamp(1, MAX_PRECISION_BITS);
+    let prec_y = prec_y.clamp(1, MAX_PRECISION_BITS);
+    let prec_z = prec_z.clamp(1, MAX_PRECISION_BITS);
     // Write precision info
     writer.write_all(&[prec_x])?;
     writer.write_all(&[prec_y])?;
     writer.write_all(&[prec_z])?;
-    // Calculate float save multiplier
-    let mul_x = ((1 << prec_x) - 1) as FloatType;
-    let mul_y = ((1 << prec_y) - 1) as FloatType;
-    let mul_z = ((1 << prec_z) - 1) as FloatType;
     // Create unaligned rw modes
     let prec_x = UnalignedRWMode::precision_bits(prec_x);
     let prec_y = UnalignedRWMode::precision_bits(prec_y);
@@ -93,9 +90,9 @@ pub fn save_tmf_vertices<W: Write>(
     // Create writer
     let mut writer = UnalignedWriter::new(writer);
     for vertex in vertices {
-        let x = (((vertex.0 - min_x) / sx) * mul_x) as u64;
-        let y = (((vertex.1 - min_y) / sy) * mul_y) as u64;
-        let z = (((vertex.2 - min_z) / sz) * mul_z) as u64;
+        let x = quantize((vertex.0 - min_x) / sx, prec_x.bits());
+        let y = quantize((vertex.1 - min_y) / sy, prec_y.bits());
+        let z = quantize((vertex.2 - min_z) / sz, prec_z.bits());
 
         writer.write_unaligned(prec_x, x)?;
         writer.write_unaligned(prec_y, y)?;
-- 
2.43.0


From 66b813df222fe5e4ba2030b47fc6d1dfa464c3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 04/33] fix: reading two 32 bit values at once returned zeros

---
 src/unaligned_rw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/unaligned_rw.rs b/src/unaligned_rw.rs
index 05ff6a4..f5eba07 100644
--- a/src/unaligned_rw.rs
+++ b/src/unaligned_rw.rs
@@ -55,7 +55,8 @@ impl<R: Read> UnalignedReader<R> {
         if mode.0 == 0 {
             return Ok((0, 0));
         }
-        if mode.0 > (u64::BITS / 2) as u8 {
+        // Two 32 bit values take 64 bits, more than a single read can return.
+        if mode.0 >= (u64::BITS / 2) as u8 {
             Ok((self.read_unaligned(mode)?, self.read_unaligned(mode)?))
         } else {
             let read_size = UnalignedRWMode(mode.0 * 2);
-- 
2.43.0


From cd470c0e8f5d58ba6d4a6a222165a7d927cd0611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 05/33] fix: pair and triple unaligned reads split the bits in
 the wrong place or overflowed

---
 src/unaligned_rw.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/unaligned_rw.rs b/src/unaligned_rw.rs
index f5eba07..b638b88 100644
--- a/src/unaligned_rw.rs
+++ b/src/unaligned_rw.rs
@@ -71,18 +71,19 @@ impl<R: Read> UnalignedReader<R> {
         mode1: UnalignedRWMode,
         mode2: UnalignedRWMode,
     ) -> Result<(u64, u64)> {
-        if mode1.0 + mode2.0 > u64::BITS as u8 {
+        let total_bits = u32::from(mode1.0) + u32::from(mode2.0);
+        if mode2.0 == 0 || total_bits >= u64::BITS {
             Ok((self.read_unaligned(mode1)?, self.read_unaligned(mode2)?))
         } else {
             let read_size = UnalignedRWMode(mode1.0 + mode2.0);
             let data = self.read_unaligned(read_size)?;
-            let r1 = data >> mode1.0;
-            let r2 = data << (u64::BITS as u8 - mode1.0) >> (u64::BITS as u8 - mode1.0);
+            let r1 = data >> mode2.0;
+            let r2 = data << (u64::BITS as u8 - mode2.0) >> (u64::BITS as u8 - mode2.0);
             Ok((r1, r2))
         }
     }
     pub fn read3_unaligned(&mut self, mode: UnalignedRWMode) -> Result<(u64, u64, u64)> {
-        if mode.0 > (u64::BITS / 3) as u8 {
+        if mode.0 == 0 || mode.0 > (u64::BITS / 3) as u8 {
             let res_1_2 = self.read2_unaligned(mode)?;
             Ok((res_1_2.0, res_1_2.1, self.read_unaligned(mode)?))
         } else {
-- 
2.43.0


From bba1bcfd28c4d8e97c93e2fe9ac9119a362b3393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 06/33] fix: meshes with degenerate or incomplete triangles
 could not be saved

---
 src/tmf_exporter.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index 0f59737..2069609 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -36,20 +36,20 @@ fn calc_shortest_edge(
                 None => return 0.1,
             };
             let mut shortest_edge = FloatType::INFINITY;
-            for i in 0..(vertex_triangles.len() / 3) {
-                let d1 = distance(
-                    vertices[vertex_triangles[i * 3] as usize],
-                    vertices[vertex_triangles[i * 3 + 1] as usize],
-                );
-                let d2 = distance(
-                    vertices[vertex_triangles[i * 3 + 1] as usize],
-                    vertices[vertex_triangles[i * 3 + 2] as usize],
-                );
-                let d3 = distance(
-                    vertices[vertex_triangles[i * 3 + 2] as usize],
-                    vertices[vertex_triangles[i * 3] as usize],
-                );
-                shortest_edge = shortest_edge.min(d1.min(d2.min(d3)));
+            for triangle in vertex_triangles.chunks_exact(3) {
+                let corner = |i: usize| vertices.get(triangle[i] as usize).copied();
+                // Triangles with corners outside the vertex array have no edges to preserve.
+                if let (Some(a), Some(b), Some(c)) = (corner(0), corner(1), corner(2)) {
+                    for edge in [distance(a, b), distance(b, c), distance(c, a)] {
+                        // Degenerate edges say nothing about the scale of the mesh.
+                        if edge > 0.0 {
+                            shortest_edge = shortest_edge.min(edge);
+                        }
+                    }
+                }
+            }
+            if !shortest_edge.is_finite() {
+                return 0.1;
             }
             shortest_edge
         }
-- 
2.43.0


From c15ecb98421d6dcda1ae2655e431032ffc0f7540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 07/33] fix: mesh names and segment counts over 65535 were
 silently truncated

---
 src/tmf_exporter.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index 2069609..ddf3ec6 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -63,9 +63,18 @@ fn calc_shortest_edge(
     shortest_edge
 }
 
+/// Converts a length to its 16 bit representation used by the format, refusing lengths which don't fit.
+fn len_to_u16(len: usize, what: &str) -> std::io::Result<u16> {
+    u16::try_from(len).map_err(|_| {
+        std::io::Error::new(
+            std::io::ErrorKind::InvalidInput,
+            format!("{what} ({len}) exceeds the maximum of {}", u16::MAX),
+        )
+    })
+}
 pub(crate) fn write_mesh_name<W: std::io::Write>(w: &mut W, s: &str) -> std::io::Result<()> {
     let bytes = s.as_bytes();
-    w.write_all(&(bytes.len() as u16).to_le_bytes())?;
+    w.write_all(&len_to_u16(bytes.len(), "Mesh name length")?.to_le_bytes())?;
     w.write_all(bytes)
 }
 fn merge_segments(segments: &[DecodedSegment]) -> Box<[DecodedSegment]> {
@@ -105,7 +114,7 @@ async fn write_mesh<W: std::io::Write>(
         encoded.push(seg.encode(p_info, &ei));
     }
     let encoded = futures::future::join_all(encoded).await;
-    target.write_all(&(encoded.len() as u16).to_le_bytes())?;
+    target.write_all(&len_to_u16(encoded.len(), "Mesh segment count")?.to_le_bytes())?;
     for seg in encoded {
         seg?.write(target)?;
     }
-- 
2.43.0


From 7841db936b186a33a9e7ba44b80d00c4076fe376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 08/33] fix: saving reversed the order of custom data arrays

---
 src/tmf_exporter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index ddf3ec6..c19009e 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -88,6 +88,8 @@ fn merge_segments(segments: &[DecodedSegment]) -> Box<[DecodedSegment]> {
             new_segments.push(segment);
         }
     }
+    // Segments were taken from the end: restore their order, on which lookup of custom data depends.
+    new_segments.reverse();
     new_segments.into()
 }
 async fn write_mesh<W: std::io::Write>(
-- 
2.43.0


From 8bd0b5a53fc02431999de6b4ca498e3f60c6a1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 09/33] fix: verify accepted out of range indices and uvs and
 NaN normals

---
 src/verify.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/verify.rs b/src/verify.rs
index a68f0e8..67b5f65 100644
--- a/src/verify.rs
+++ b/src/verify.rs
@@ -61,7 +61,7 @@ impl std::fmt::Debug for TMFIntegrityStatus {
 /// Checks if indices fit inside the array of *length*, returned None if so or Some(index) if not.
 fn indices_inside_array(array: &[IndexType], length: IndexType) -> Option<IndexType> {
     for index in array {
-        if *index > length as IndexType {
+        if *index >= length as IndexType {
             return Some(*index);
         }
     }
@@ -99,7 +99,7 @@ fn verify_uvs(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
         }
         Some(uvs) => {
             for uv in uvs {
-                if uv.0 < 0.0 && uv.1 < 0.0 && uv.0 > 1.0 && uv.1 > 1.0 {
+                if !((0.0..=1.0).contains(&uv.0) && (0.0..=1.0).contains(&uv.1)) {
                     return Err(TMFIntegrityStatus::UVOutsideRange(uv.0, uv.1));
                 }
             }
@@ -128,7 +128,8 @@ fn verify_normals(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
         }
         Some(normals) => {
             for normal in normals {
-                if (1.0 - magnitude(*normal)).abs() > 0.001 {
+                // Negated, because comparisons with NaN are always false.
+                if !((1.0 - magnitude(*normal)).abs() <= 0.001) {
                     return Err(TMFIntegrityStatus::NormalsNotNormalized);
                 }
             }
-- 
2.43.0


From c78dd45871e6ab0c922c272883d6ea0f11afc6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 10/33] fix: refuse precisions and counts that crashed or
 produced NaN on load

---
 src/custom_data.rs  | 13 +++++++++++--
 src/tmf_importer.rs |  3 +++
 src/vertices.rs     | 11 +++++++----
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/custom_data.rs b/src/custom_data.rs
index 8e7ff10..a2d891e 100644
--- a/src/custom_data.rs
+++ b/src/custom_data.rs
@@ -116,7 +116,8 @@ impl CustomData {
             }
             Self::CustomColorRGBA(data, prec) => {
                 use crate::unaligned_rw::{UnalignedRWMode, UnalignedWriter};
-                let prec_bits = ((1.0 / prec.min(1.0)).log2().ceil() as u8).min(MAX_PRECISION_BITS);
+                let prec_bits =
+                    ((1.0 / prec.min(1.0)).log2().ceil() as u8).clamp(1, MAX_PRECISION_BITS);
                 target.write_all(&(data.len() as u64).to_le_bytes())?;
                 target.write_all(&[prec_bits])?;
                 let prec = UnalignedRWMode::precision_bits(prec_bits);
@@ -225,7 +226,8 @@ impl CustomDataSegment {
                 let min = src.read_f64()?;
                 let max = src.read_f64()?;
                 let prec = src.read_u8()?;
-                if prec >= u64::BITS as u8 {
+                // 0 bits can't represent any value
+                if prec == 0 || prec >= u64::BITS as u8 {
                     return Err(TMFImportError::InvalidPrecision(prec));
                 }
                 let prec_bits = prec;
@@ -248,7 +250,14 @@ impl CustomDataSegment {
             SectionType::CustomColorRGBASegment => {
                 use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader};
                 let len = src.read_u64()?;
+                if len > MAX_SEG_SIZE as u64 {
+                    return Err(TMFImportError::SegmentTooLong);
+                }
                 let prec_bits = src.read_u8()?;
+                // 0 bits can't represent any colour
+                if prec_bits == 0 || prec_bits >= u64::BITS as u8 {
+                    return Err(TMFImportError::InvalidPrecision(prec_bits));
+                }
                 let prec = UnalignedRWMode::precision_bits(prec_bits);
                 let mut reader = UnalignedReader::new(src);
                 let mut res = vec![(0.0, 0.0, 0.0, 0.0); len as usize];
diff --git a/src/tmf_importer.rs b/src/tmf_importer.rs
index 040f45f..954bc92 100644
--- a/src/tmf_importer.rs
+++ b/src/tmf_importer.rs
@@ -266,6 +266,9 @@ pub(crate) fn read_default_triangles<R: std::io::Read>(
     if length > MAX_SEG_SIZE as u64 {
         return Err(TMFImportError::SegmentTooLong);
     }
+    if precision_bits >= u64::BITS as u8 {
+        return Err(TMFImportError::InvalidPrecision(precision_bits));
+    }
     data.reserve(length as usize);
     let buf = data.spare_capacity_mut();
     let precision = UnalignedRWMode::precision_bits(precision_bits);
diff --git a/src/vertices.rs b/src/vertices.rs
index 0c652aa..f2007bf 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -110,17 +110,17 @@ pub fn read_tmf_vertices<R: Read>(reader: &mut R) -> Result<Box<[Vector3]>, TMFI
     let max_y = reader.read_f64()? as FloatType;
     let min_z = reader.read_f64()? as FloatType;
     let max_z = reader.read_f64()? as FloatType;
-    // Read precision
+    // Read precision, 0 bits can't represent any position
     let prec_x = reader.read_u8()?;
-    if prec_x >= u64::BITS as u8 {
+    if prec_x == 0 || prec_x >= u64::BITS as u8 {
         return Err(TMFImportError::InvalidPrecision(prec_x));
     }
     let prec_y = reader.read_u8()?;
-    if prec_y >= u64::BITS as u8 {
+    if prec_y == 0 || prec_y >= u64::BITS as u8 {
         return Err(TMFImportError::InvalidPrecision(prec_y));
     }
     let prec_z = reader.read_u8()?;
-    if prec_z >= u64::BITS as u8 {
+    if prec_z == 0 || prec_z >= u64::BITS as u8 {
         return Err(TMFImportError::InvalidPrecision(prec_z));
     }
     // Calculate float read divisor
@@ -202,6 +202,9 @@ pub(crate) fn read_triangles<R: Read>(
     if length > MAX_SEG_SIZE as u64 {
         return Err(TMFImportError::SegmentTooLong);
     }
+    if precision >= u64::BITS as u8 {
+        return Err(TMFImportError::InvalidPrecision(precision));
+    }
     let mut res = Vec::with_capacity(length as usize);
     let precision = UnalignedRWMode::precision_bits(precision);
     let mut reader = UnalignedReader::new(reader);
-- 
2.43.0


From 7e6fc3a32122a0c11b970f59e78c41aced7902f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:03 +0000
Subject: [PATCH 11/33] fix: index bases overflowed or were ignored when
 reading index arrays

---
 src/tmf_importer.rs | 15 +++++++++++----
 src/vertices.rs     |  7 ++++---
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/tmf_importer.rs b/src/tmf_importer.rs
index 954bc92..ef91d49 100644
--- a/src/tmf_importer.rs
+++ b/src/tmf_importer.rs
@@ -255,6 +255,13 @@ pub(crate) async fn decode_custom_seg(
         panic!("Unreachable condition reached!");
     }
 }
+/// Adds the base of an index array to one of its values, refusing results which are not a valid index.
+pub(crate) fn rebase_index(index: u64, min: u64) -> std::io::Result<IndexType> {
+    index
+        .checked_add(min)
+        .and_then(|index| IndexType::try_from(index).ok())
+        .ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidData, "Index too big"))
+}
 pub(crate) fn read_default_triangles<R: std::io::Read>(
     mut src: R,
     data: &mut Vec<IndexType>,
@@ -275,16 +282,16 @@ pub(crate) fn read_default_triangles<R: std::io::Read>(
     let mut reader = UnalignedReader::new(src);
     if precision_bits == 0 {
         use std::mem::MaybeUninit;
-        buf.fill(MaybeUninit::new(0));
+        buf.fill(MaybeUninit::new(rebase_index(0, min)?));
     } else {
         for index in 0..(length as usize) / 2 {
             let (i1, i2) = reader.read2_unaligned(precision)?;
-            buf[index * 2].write((i1 + min) as IndexType);
-            buf[index * 2 + 1].write((i2 + min) as IndexType);
+            buf[index * 2].write(rebase_index(i1, min)?);
+            buf[index * 2 + 1].write(rebase_index(i2, min)?);
         }
         if length % 2 != 0 {
             let i = reader.read_unaligned(precision)?;
-            buf[(length - 1) as usize].write((i + min) as IndexType);
+            buf[(length - 1) as usize].write(rebase_index(i, min)?);
         }
     }
     unsafe { data.set_len(length as usize) }
diff --git a/src/vertices.rs b/src/vertices.rs
index f2007bf..374b975 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -1,4 +1,5 @@
 use crate::read_extension::ReadExt;
+use crate::tmf_importer::rebase_index;
 use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader, UnalignedWriter};
 use crate::utilis::{quantize, MAX_PRECISION_BITS};
 use crate::TMFImportError;
@@ -210,11 +211,11 @@ pub(crate) fn read_triangles<R: Read>(
     let mut reader = UnalignedReader::new(reader);
     for _ in 0..(length / 2) {
         let (i1, i2) = reader.read2_unaligned(precision)?;
-        res.push((i1 + min) as IndexType);
-        res.push((i2 + min) as IndexType);
+        res.push(rebase_index(i1, min)?);
+        res.push(rebase_index(i2, min)?);
     }
     for _i in 0..length % 2 {
-        res.push((reader.read_unaligned(precision)? + min) as IndexType);
+        res.push(rebase_index(reader.read_unaligned(precision)?, min)?);
     }
     Ok(res.into())
 }
-- 
2.43.0


From bd4d1f50467acc149bb8c4fad249f054c6aaf303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 12/33] fix: reading reserved memory for element counts the
 file cannot contain

---
 src/custom_data.rs  | 14 +++++++-------
 src/lib.rs          |  2 ++
 src/normals.rs      |  2 +-
 src/tangents.rs     |  2 +-
 src/tmf.rs          |  7 +++++--
 src/tmf_importer.rs | 15 ++++++---------
 src/uv.rs           |  2 +-
 src/vertices.rs     |  4 ++--
 8 files changed, 25 insertions(+), 23 deletions(-)

diff --git a/src/custom_data.rs b/src/custom_data.rs
index a2d891e..67ea275 100644
--- a/src/custom_data.rs
+++ b/src/custom_data.rs
@@ -235,10 +235,10 @@ impl CustomDataSegment {
                 let span = max - min;
                 let prec = UnalignedRWMode::precision_bits(prec);
                 let mut reader = UnalignedReader::new(src);
-                let mut res = vec![0.0; len as usize];
-                for float in &mut res {
+                let mut res = Vec::with_capacity((len as usize).min(crate::MAX_PREALLOC));
+                for _ in 0..len {
                     let val = reader.read_unaligned(prec)?;
-                    *float = (((val as f64) / div) * span + min) as FloatType;
+                    res.push((((val as f64) / div) * span + min) as FloatType);
                 }
                 let prec = (((max - min) / ((1_u64 << prec_bits) as f64)) as FloatType) * 0.99999;
                 Ok(Self::new_raw(
@@ -260,17 +260,17 @@ impl CustomDataSegment {
                 }
                 let prec = UnalignedRWMode::precision_bits(prec_bits);
                 let mut reader = UnalignedReader::new(src);
-                let mut res = vec![(0.0, 0.0, 0.0, 0.0); len as usize];
+                let mut res = Vec::with_capacity((len as usize).min(crate::MAX_PREALLOC));
                 let div = ((1_u64 << prec_bits) - 1) as f64;
-                for vec4 in &mut res {
+                for _ in 0..len {
                     let (r, g) = reader.read2_unaligned(prec)?;
                     let (b, a) = reader.read2_unaligned(prec)?;
-                    *vec4 = (
+                    res.push((
                         ((r as f64) / div) as FloatType,
                         ((g as f64) / div) as FloatType,
                         ((b as f64) / div) as FloatType,
                         ((a as f64) / div) as FloatType,
-                    );
+                    ));
                 }
                 let prec = ((1.0 / ((1_u64 << prec_bits) as f64)) as FloatType) * 0.99999;
                 Ok(Self::new_raw(
diff --git a/src/lib.rs b/src/lib.rs
index b8bff8e..d6648f7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -58,6 +58,8 @@ const TMF_MINOR: u16 = 2;
 const MIN_TMF_MAJOR: u16 = 0;
 const MIN_TMF_MINOR: u16 = 2;
 pub(crate) const MAX_SEG_SIZE: usize = 0x80_00_00_00; //Standard
+/// Maximal element count for which space is reserved before any element is read: counts come from the file, and may be lies.
+pub(crate) const MAX_PREALLOC: usize = 0x1_00_00;
                                                       //pub(crate) const MAX_SEG_SIZE: usize = 2_00_00;// for fuzzing!
 /// Index type used for representing triangle indices.
 #[cfg(not(any(feature = "long_indices", feature = "short_indices")))]
diff --git a/src/normals.rs b/src/normals.rs
index 5605567..ee3e420 100644
--- a/src/normals.rs
+++ b/src/normals.rs
@@ -178,7 +178,7 @@ pub(crate) fn read_normal_array<R: Read>(reader: &mut R) -> Result<Box<[Vector3]
     }
     let precision = NormalPrecisionMode(precision);
     let mut reader = UnalignedReader::new(reader);
-    let mut normals = Vec::with_capacity(count);
+    let mut normals = Vec::with_capacity(count.min(crate::MAX_PREALLOC));
     for _ in 0..count {
         let normal = read_normal(precision, &mut reader)?;
         normals.push(normal);
diff --git a/src/tangents.rs b/src/tangents.rs
index f90622d..57f9c73 100644
--- a/src/tangents.rs
+++ b/src/tangents.rs
@@ -102,7 +102,7 @@ pub(crate) fn read_tangents<R: std::io::Read>(
     let mut reader = UnalignedReader::new(src);
     let prec = UnalignedRWMode::precision_bits(bits_prec);
     let tan_prec = TangentPrecisionMode::from_bits(bits_prec);
-    let mut tangents = Vec::with_capacity(count as usize);
+    let mut tangents = Vec::with_capacity((count as usize).min(crate::MAX_PREALLOC));
     for _ in 0..count {
         let handeness = reader.read_bit()?;
         let sx = reader.read_bit()?;
diff --git a/src/tmf.rs b/src/tmf.rs
index 3029058..903022c 100644
--- a/src/tmf.rs
+++ b/src/tmf.rs
@@ -146,8 +146,11 @@ impl EncodedSegment {
             return Err(TMFImportError::SegmentTooLong);
         }
         let compresion_type = CompressionType::from_u8(src.read_u8()?)?;
-        let mut data = vec![0; data_length];
-        src.read_exact(&mut data)?;
+        let mut data = Vec::with_capacity(data_length.min(crate::MAX_PREALLOC));
+        std::io::Read::read_to_end(&mut std::io::Read::take(src, data_length as u64), &mut data)?;
+        if data.len() != data_length {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
         Ok(Self {
             data: data.into(),
             compresion_type,
diff --git a/src/tmf_importer.rs b/src/tmf_importer.rs
index ef91d49..c57fb19 100644
--- a/src/tmf_importer.rs
+++ b/src/tmf_importer.rs
@@ -276,25 +276,22 @@ pub(crate) fn read_default_triangles<R: std::io::Read>(
     if precision_bits >= u64::BITS as u8 {
         return Err(TMFImportError::InvalidPrecision(precision_bits));
     }
-    data.reserve(length as usize);
-    let buf = data.spare_capacity_mut();
+    data.reserve((length as usize).min(crate::MAX_PREALLOC));
     let precision = UnalignedRWMode::precision_bits(precision_bits);
     let mut reader = UnalignedReader::new(src);
     if precision_bits == 0 {
-        use std::mem::MaybeUninit;
-        buf.fill(MaybeUninit::new(rebase_index(0, min)?));
+        data.resize(length as usize, rebase_index(0, min)?);
     } else {
-        for index in 0..(length as usize) / 2 {
+        for _ in 0..length / 2 {
             let (i1, i2) = reader.read2_unaligned(precision)?;
-            buf[index * 2].write(rebase_index(i1, min)?);
-            buf[index * 2 + 1].write(rebase_index(i2, min)?);
+            data.push(rebase_index(i1, min)?);
+            data.push(rebase_index(i2, min)?);
         }
         if length % 2 != 0 {
             let i = reader.read_unaligned(precision)?;
-            buf[(length - 1) as usize].write(rebase_index(i, min)?);
+            data.push(rebase_index(i, min)?);
         }
     }
-    unsafe { data.set_len(length as usize) }
     Ok(())
 }
 #[allow(dead_code)]
diff --git a/src/uv.rs b/src/uv.rs
index 79d9bde..3a00eab 100644
--- a/src/uv.rs
+++ b/src/uv.rs
@@ -62,7 +62,7 @@ pub fn read_uvs<R: Read>(reader: &mut R) -> Result<Box<[Vector2]>, TMFImportErro
     if precision >= u64::BITS as u8 {
         return Err(TMFImportError::InvalidPrecision(precision));
     }
-    let mut uvs = Vec::with_capacity(count as usize);
+    let mut uvs = Vec::with_capacity((count as usize).min(crate::MAX_PREALLOC));
     let divisor = ((1_u64 << precision) - 1) as FloatType;
     let precision = UnalignedRWMode::precision_bits(precision);
     let mut reader = UnalignedReader::new(reader);
diff --git a/src/vertices.rs b/src/vertices.rs
index 374b975..bd1dcf6 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -140,7 +140,7 @@ pub fn read_tmf_vertices<R: Read>(reader: &mut R) -> Result<Box<[Vector3]>, TMFI
     if vertex_count > MAX_SEG_SIZE {
         return Err(TMFImportError::SegmentTooLong);
     }
-    let mut vertices = Vec::with_capacity(vertex_count);
+    let mut vertices = Vec::with_capacity(vertex_count.min(crate::MAX_PREALLOC));
     let mut reader = UnalignedReader::new(reader);
     for _ in 0..vertex_count {
         //let (x,y) = reader.read_pair_unaligned(prec_x,prec_y)?;
@@ -206,7 +206,7 @@ pub(crate) fn read_triangles<R: Read>(
     if precision >= u64::BITS as u8 {
         return Err(TMFImportError::InvalidPrecision(precision));
     }
-    let mut res = Vec::with_capacity(length as usize);
+    let mut res = Vec::with_capacity((length as usize).min(crate::MAX_PREALLOC));
     let precision = UnalignedRWMode::precision_bits(precision);
     let mut reader = UnalignedReader::new(reader);
     for _ in 0..(length / 2) {
-- 
2.43.0


From 4bf4ac80f3ade47323ca53f5e3e310ce93468f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:52 +0000
Subject: [PATCH 13/33] fix: .obj faces, names and indices were misread instead
 of parsed or refused

---
 src/model_importer.rs | 72 +++++++++++++++++++++----------------------
 src/obj.rs            | 67 ++++++++++++++++++++++++----------------
 2 files changed, 75 insertions(+), 64 deletions(-)

diff --git a/src/model_importer.rs b/src/model_importer.rs
index 7a3e8b3..de68e4c 100644
--- a/src/model_importer.rs
+++ b/src/model_importer.rs
@@ -13,6 +13,9 @@ pub(crate) struct ModelImporter {
     vertex_triangles: Vec<IndexType>,
     normal_triangles: Vec<IndexType>,
     uv_triangles: Vec<IndexType>,
+    // Has any corner of the current mesh a normal/an uv?
+    has_normals: bool,
+    has_uvs: bool,
     name: String,
 }
 impl ModelImporter {
@@ -24,15 +27,12 @@ impl ModelImporter {
             vertex_triangles: Vec::new(),
             normal_triangles: Vec::new(),
             uv_triangles: Vec::new(),
+            has_normals: false,
+            has_uvs: false,
             name: "".to_owned(),
         }
     }
-    pub(crate) fn next_mesh(&mut self, mut name: String) -> Option<(TMFMesh, String)> {
-        std::mem::swap(&mut self.name, &mut name);
-
-        if self.vertex_triangles.is_empty() {
-            return None;
-        }
+    fn build_mesh(&self) -> TMFMesh {
         let mut mesh = TMFMesh::empty();
         let (mut vertices, mut vertex_triangles) =
             (self.vertices.clone(), self.vertex_triangles.clone());
@@ -45,40 +45,36 @@ impl ModelImporter {
         crate::utilis::fast_prune(&mut uvs, &mut uv_triangles);
 
         mesh.set_vertices(vertices);
-        mesh.set_normals(normals);
-        mesh.set_uvs(uvs);
-
         mesh.set_vertex_triangles(vertex_triangles);
-        mesh.set_normal_triangles(normal_triangles);
-        mesh.set_uv_triangles(uv_triangles);
+        // Without faces the elements do not belong to any corner: keep them all.
+        if self.has_normals || self.vertex_triangles.is_empty() {
+            mesh.set_normals(normals);
+            mesh.set_normal_triangles(normal_triangles);
+        }
+        if self.has_uvs || self.vertex_triangles.is_empty() {
+            mesh.set_uvs(uvs);
+            mesh.set_uv_triangles(uv_triangles);
+        }
+        mesh
+    }
+    pub(crate) fn next_mesh(&mut self, mut name: String) -> Option<(TMFMesh, String)> {
+        std::mem::swap(&mut self.name, &mut name);
+
+        if self.vertex_triangles.is_empty() {
+            return None;
+        }
+        let mesh = self.build_mesh();
 
         self.vertex_triangles.clear();
         self.normal_triangles.clear();
         self.uv_triangles.clear();
+        self.has_normals = false;
+        self.has_uvs = false;
 
         Some((mesh, name))
     }
     pub(crate) fn finish(self) -> std::io::Result<(TMFMesh, String)> {
-        let mut mesh = TMFMesh::empty();
-
-        let (mut vertices, mut vertex_triangles) =
-            (self.vertices.clone(), self.vertex_triangles.clone());
-        let (mut normals, mut normal_triangles) =
-            (self.normals.clone(), self.normal_triangles.clone());
-        let (mut uvs, mut uv_triangles) = (self.uvs.clone(), self.uv_triangles.clone());
-
-        crate::utilis::fast_prune(&mut vertices, &mut vertex_triangles);
-        crate::utilis::fast_prune(&mut normals, &mut normal_triangles);
-        crate::utilis::fast_prune(&mut uvs, &mut uv_triangles);
-
-        mesh.set_vertices(vertices);
-        mesh.set_normals(normals);
-        mesh.set_uvs(uvs);
-
-        mesh.set_vertex_triangles(vertex_triangles);
-        mesh.set_normal_triangles(normal_triangles);
-        mesh.set_uv_triangles(uv_triangles);
-
+        let mesh = self.build_mesh();
         Ok((mesh, self.name))
     }
     pub(crate) fn push_vertex(&mut self, vertex: Vector3) {
@@ -105,9 +101,11 @@ impl ModelImporter {
     pub(crate) fn push_face(
         &mut self,
         vertex_indices: &[IndexType],
-        uv_indices: &[IndexType],
-        normal_indices: &[IndexType],
+        uv_indices: &[Option<IndexType>],
+        normal_indices: &[Option<IndexType>],
     ) -> Result<(), String> {
+        self.has_uvs |= uv_indices.iter().any(Option::is_some);
+        self.has_normals |= normal_indices.iter().any(Option::is_some);
         if !(vertex_indices.len() == uv_indices.len()
             && vertex_indices.len() == normal_indices.len())
         {
@@ -124,10 +122,10 @@ impl ModelImporter {
                     .for_each(|index| self.push_vertex_index(*index));
                 uv_indices
                     .iter()
-                    .for_each(|index| self.push_uv_index(*index));
+                    .for_each(|index| self.push_uv_index(index.unwrap_or(0)));
                 normal_indices
                     .iter()
-                    .for_each(|index| self.push_normal_index(*index));
+                    .for_each(|index| self.push_normal_index(index.unwrap_or(0)));
                 Ok(())
             }
             _ => {
@@ -138,8 +136,8 @@ impl ModelImporter {
                 #[cfg(feature = "triangulation")]
                 {
                     let vertex_indices = SmallVec::from_slice(vertex_indices);
-                    let normal_indices = SmallVec::from_slice(normal_indices);
-                    let uv_indices = SmallVec::from_slice(uv_indices);
+                    let normal_indices = normal_indices.iter().map(|i| i.unwrap_or(0)).collect();
+                    let uv_indices = uv_indices.iter().map(|i| i.unwrap_or(0)).collect();
                     triangulate(self, vertex_indices, normal_indices, uv_indices);
                     Ok(())
                 }
diff --git a/src/obj.rs b/src/obj.rs
index 665f30c..cc2950a 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -4,10 +4,15 @@ use std::io::{BufReader, BufWriter, Error, ErrorKind, Read, Result, Write};
 pub(crate) const SMALL_VEC_CAP: usize = 8;
 fn parse_line(line: Result<String>, oi: &mut ModelImporter) -> Result<Option<(TMFMesh, String)>> {
     let line = line?;
-    // Split the line by white spaces and '/' sign used in triangles
-    let mut split = line.split(&[' ', '/']);
+    let line = line.trim();
+    // Split the line by white spaces
+    let mut split = line.split_whitespace();
     // Get the beginning of the line
-    let beg = match_split(split.next())?;
+    let beg = match split.next() {
+        Some(beg) => beg,
+        // Empty line
+        None => return Ok(None),
+    };
     match beg {
         "#" => (), //Ignoring comments
         "mtllib" => (),
@@ -18,7 +23,8 @@ fn parse_line(line: Result<String>, oi: &mut ModelImporter) -> Result<Option<(TM
         "vt" => oi.push_uv(load_vec2(&mut split)?),
         "f" => load_face(&mut split, oi)?,
         "o" => {
-            let name = match_split(split.next())?.to_owned();
+            // Name is the whole rest of the line: it may contain spaces.
+            let name = line[beg.len()..].trim_start().to_owned();
             return Ok(oi.next_mesh(name));
         }
         _ => (), //Ignore invalid/unsuported lines.
@@ -48,8 +54,12 @@ fn parse_float_type(float: &str) -> Result<FloatType> {
         )),
     }
 }
-fn parse_index(uint: &str) -> IndexType {
-    uint.parse::<IndexType>().unwrap_or(1)
+/// Parses a 1-based index, and converts it to a 0-based one.
+fn parse_index(uint: &str) -> Result<IndexType> {
+    match uint.parse::<IndexType>() {
+        Ok(index) if index >= 1 => Ok(index - 1),
+        _ => Err(Error::new(ErrorKind::Other, "Invalid index!")),
+    }
 }
 fn match_split(split: Option<&str>) -> Result<&str> {
     match split {
@@ -61,29 +71,32 @@ fn match_split(split: Option<&str>) -> Result<&str> {
     }
 }
 use smallvec::SmallVec;
-use std::str::Split;
-fn load_indices(split: &mut Split<&[char; 2]>) -> Result<(IndexType, IndexType, IndexType)> {
-    let (i0, i1, i2) = (
-        match_split(split.next())?,
-        match_split(split.next())?,
-        match_split(split.next())?,
-    );
-    let (i0, i1, i2) = (parse_index(i0), parse_index(i1), parse_index(i2));
-    if i0 < 1 || i1 < 1 || i2 < 1 {
-        Err(std::io::Error::new(
-            std::io::ErrorKind::Other,
-            "Invalid index!",
-        ))
-    } else {
-        Ok((i0 - 1, i1 - 1, i2 - 1))
+use std::str::SplitWhitespace;
+/// Loads indices of one corner: `v`, `v/vt`, `v//vn` or `v/vt/vn`.
+fn load_corner(corner: &str) -> Result<(IndexType, Option<IndexType>, Option<IndexType>)> {
+    fn parse_optional(index: Option<&str>) -> Result<Option<IndexType>> {
+        match index {
+            None | Some("") => Ok(None),
+            Some(index) => parse_index(index).map(Some),
+        }
+    }
+    let mut split = corner.split('/');
+    let vertex = parse_index(match_split(split.next())?)?;
+    let uv = parse_optional(split.next())?;
+    let normal = parse_optional(split.next())?;
+    if split.next().is_some() {
+        return Err(Error::new(ErrorKind::Other, "Invalid face corner!"));
     }
+    Ok((vertex, uv, normal))
 }
 ///IMPORTANT TODO: It seems likey that normals and uvs are spwapped in this function. Investigate and cleanup the confusion and refactor triangulation
-fn load_face(split: &mut Split<&[char; 2]>, oi: &mut ModelImporter) -> Result<()> {
+fn load_face(split: &mut SplitWhitespace, oi: &mut ModelImporter) -> Result<()> {
     let mut vertex_indices: SmallVec<[IndexType; SMALL_VEC_CAP]> = SmallVec::new();
-    let mut uv_indices: SmallVec<[IndexType; SMALL_VEC_CAP]> = SmallVec::new();
-    let mut normal_indices: SmallVec<[IndexType; SMALL_VEC_CAP]> = SmallVec::new();
-    while let Ok((vertex_index, uv_index, normal_index)) = load_indices(split) {
+    let mut uv_indices: SmallVec<[Option<IndexType>; SMALL_VEC_CAP]> = SmallVec::new();
+    let mut normal_indices: SmallVec<[Option<IndexType>; SMALL_VEC_CAP]> = SmallVec::new();
+    // A comment ends the face
+    for corner in split.take_while(|corner| !corner.starts_with('#')) {
+        let (vertex_index, uv_index, normal_index) = load_corner(corner)?;
         vertex_indices.push(vertex_index);
         uv_indices.push(uv_index);
         normal_indices.push(normal_index);
@@ -93,7 +106,7 @@ fn load_face(split: &mut Split<&[char; 2]>, oi: &mut ModelImporter) -> Result<()
         Err(msg) => Err(Error::new(ErrorKind::Other, msg)),
     }
 }
-pub fn load_vec3(split: &mut Split<&[char; 2]>) -> Result<Vector3> {
+pub fn load_vec3(split: &mut SplitWhitespace) -> Result<Vector3> {
     let (x, y, z) = (
         match_split(split.next())?,
         match_split(split.next())?,
@@ -105,7 +118,7 @@ pub fn load_vec3(split: &mut Split<&[char; 2]>) -> Result<Vector3> {
         parse_float_type(z)?,
     ))
 }
-pub fn load_vec2(split: &mut Split<&[char; 2]>) -> Result<Vector2> {
+pub fn load_vec2(split: &mut SplitWhitespace) -> Result<Vector2> {
     let (x, y) = (match_split(split.next())?, match_split(split.next())?);
     Ok((parse_float_type(x)?, parse_float_type(y)?))
 }
-- 
2.43.0


From 1ee540a71737446b7ec5e2b3a74797e8f848b535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 14/33] fix: meshes without triangles shifted the .obj indices
 of the meshes after them

---
 src/obj.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index cc2950a..650b749 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -154,6 +154,20 @@ fn save_obj<W: Write>(
             }
         }
     }
+    let normal_count = match mesh.get_normals() {
+        Some(normals) => normals.len(),
+        None => 0,
+    };
+    let uv_count = match mesh.get_uvs() {
+        Some(uvs) => uvs.len(),
+        None => 0,
+    };
+    // Elements written for this mesh, by which indices of the following meshes are offset.
+    let written = (
+        vertex_count as IndexType,
+        uv_count as IndexType,
+        normal_count as IndexType,
+    );
     // Check triangle arrays
     // Get the length of the vertex triangle array to use for later array size comparison
     let vert_triangle_len = match mesh.get_vertex_triangles() {
@@ -169,7 +183,7 @@ fn save_obj<W: Write>(
                     "If vertex triangles data is not present, uv triangle data must not be present either!",
                 ));
             }
-            return Ok((0, 0, 0));
+            return Ok(written);
         }
     };
     // Ensure normal triangle array, if present, has the right length.
@@ -216,20 +230,8 @@ fn save_obj<W: Write>(
             write!(w, " ")?
         }
     }
-    let normal_count = match mesh.get_normals() {
-        Some(normals) => normals.len(),
-        None => 0,
-    };
-    let uv_count = match mesh.get_uvs() {
-        Some(uvs) => uvs.len(),
-        None => 0,
-    };
     // If no vertices present, then no vertex triangles SHOULD be present, so if they are present, it is an error.
-    Ok((
-        vertex_count as IndexType,
-        uv_count as IndexType,
-        normal_count as IndexType,
-    ))
+    Ok(written)
 }
 /// Writes this TMF  mesh to a .obj file.
 pub fn write_obj<W: Write, S: std::borrow::Borrow<str>>(
-- 
2.43.0


From f9bdb6cf3503a1856c90061ee237d4cc49e8cefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:00 +0000
Subject: [PATCH 15/33] fix: triangulation of polygons with 5 and more corners
 lost or repeated triangles

---
 src/triangulation.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/triangulation.rs b/src/triangulation.rs
index bde76a0..485fff1 100644
--- a/src/triangulation.rs
+++ b/src/triangulation.rs
@@ -31,13 +31,17 @@ fn is_line_inside_poly(
 ) -> bool {
     true
 }
+// Index of the corner before `index` in a polygon with `len` corners
+fn prev_in_poly(index: usize, len: usize) -> usize {
+    (index + len - 1) % len
+}
 fn calc_ear_val_at_index(
     indices: &[IndexType],
     index: usize,
     vertices: &[Vector3],
 ) -> FloatType {
     let tri = (
-        index.wrapping_sub(1) % indices.len(),
+        prev_in_poly(index, indices.len()),
         index,
         index.wrapping_add(1) % indices.len(),
     );
@@ -66,7 +70,7 @@ fn triangulate(
                 best_index = index;
             }
         }
-        let prev_index = best_index.wrapping_sub(1) % vertex_indices.len();
+        let prev_index = prev_in_poly(best_index, vertex_indices.len());
         let curr_index = best_index;
         let next_index = best_index.wrapping_add(1) % vertex_indices.len();
         
@@ -89,7 +93,7 @@ fn triangulate(
         ear_vals.remove(curr_index);
         
         let curr_index = curr_index % vertex_indices.len();
-        let prev_index = best_index.wrapping_sub(1) % vertex_indices.len();
+        let prev_index = prev_in_poly(curr_index, vertex_indices.len());
         ear_vals[curr_index] = calc_ear_val_at_index(&vertex_indices, curr_index, &mi.vertices);
         ear_vals[prev_index] = calc_ear_val_at_index(&vertex_indices, prev_index, &mi.vertices);
         
-- 
2.43.0


From d241fa92a2e86b49da706954a799e05a037e0bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 16/33] fix: triangulating a face with an undefined vertex
 panicked

---
 src/model_importer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/model_importer.rs b/src/model_importer.rs
index de68e4c..cb18436 100644
--- a/src/model_importer.rs
+++ b/src/model_importer.rs
@@ -135,6 +135,13 @@ impl ModelImporter {
                 }
                 #[cfg(feature = "triangulation")]
                 {
+                    // Triangulation needs the positions of all corners
+                    if let Some(index) = vertex_indices
+                        .iter()
+                        .find(|index| **index as usize >= self.vertices.len())
+                    {
+                        return Err(format!("Face refers to vertex {}, which was not defined", *index as u64 + 1));
+                    }
                     let vertex_indices = SmallVec::from_slice(vertex_indices);
                     let normal_indices = normal_indices.iter().map(|i| i.unwrap_or(0)).collect();
                     let uv_indices = uv_indices.iter().map(|i| i.unwrap_or(0)).collect();
-- 
2.43.0


From 90c8c5dbdc79ec820c9ab521a615377f09121b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 17/33] fix: unifying index arrays of different lengths or
 attributes without data panicked

---
 src/unify_data.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/unify_data.rs b/src/unify_data.rs
index c669cff..ccbb966 100644
--- a/src/unify_data.rs
+++ b/src/unify_data.rs
@@ -113,6 +113,10 @@ fn is_merge_needed(indices: &[Option<&[IndexType]>]) -> bool {
         false
     }
 }
+/// Corners can only be combined if every attribute has the same number of them.
+fn same_length(indices: &[&[IndexType]]) -> bool {
+    indices.windows(2).all(|pair| pair[0].len() == pair[1].len())
+}
 fn smart_merge_data_2<A: Copy, B: Copy>(
     a: Option<&[A]>,
     b: Option<&[B]>,
@@ -121,7 +125,13 @@ fn smart_merge_data_2<A: Copy, B: Copy>(
     if !is_merge_needed(&indices) {
         return (None, None, None);
     }
+    // Attributes without data have nothing to merge.
+    let a = a.filter(|data| !data.is_empty());
+    let b = b.filter(|data| !data.is_empty());
     if let Some(((a, indices_a), (b, indices_b))) = a.zip(indices[0]).zip(b.zip(indices[1])) {
+        if !same_length(&[indices_a, indices_b]) {
+            return (None, None, None);
+        }
         let (indices, a, b) = merge_data_2(&[indices_a, indices_b], a, b);
         (Some(a), Some(b), Some(indices))
     } else {
@@ -151,6 +161,9 @@ pub(crate) fn smart_merge_data_3<A: Copy, B: Copy, C: Copy>(
         .zip(b.zip(indices[1]))
         .zip(c.zip(indices[2]))
     {
+        if !same_length(&[indices_a, indices_b, indices_c]) {
+            return (None, None, None, None);
+        }
         let (indices, a, b, c) = merge_data_3(&[indices_a, indices_b, indices_c], a, b, c);
         (Some(a), Some(b), Some(c), Some(indices))
     } else {
@@ -190,6 +203,9 @@ pub(crate) fn smart_merge_data_4<A: Copy, B: Copy, C: Copy, D: Copy>(
         .zip(b.zip(indices[1]))
         .zip(c.zip(indices[2]).zip(d.zip(indices[3])))
     {
+        if !same_length(&[indices_a, indices_b, indices_c, indices_d]) {
+            return (None, None, None, None, None);
+        }
         let d: &[D] = d;
         let (indices, a, b, c, d) =
             merge_data_4(&[indices_a, indices_b, indices_c, indices_d], a, b, c, d);
-- 
2.43.0


From 3decd7ea5c6e2987f10626c8b5d4464aa38501a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 18/33] fix: normal precisions over 90 degrees in radians gave
 normals that are not normal

---
 src/normals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normals.rs b/src/normals.rs
index ee3e420..63ae85c 100644
--- a/src/normals.rs
+++ b/src/normals.rs
@@ -34,7 +34,7 @@ impl NormalPrecisionMode {
     /// let dev_0_point_05_rad = NormalPrecisionMode::from_rad_dev(0.05);
     /// ```
     pub fn from_rad_dev(rad: FloatType) -> Self {
-        let prec = ((FRAC_PI_2 / rad).log2().ceil() as u8).min(MAX_PRECISION_BITS);
+        let prec = ((FRAC_PI_2 / rad).log2().ceil() as u8).clamp(1, MAX_PRECISION_BITS);
         Self(prec)
     }
     pub(crate) fn bits(&self) -> u8 {
-- 
2.43.0


From bbb161125f4499b20f8c749331f5bb7263c83f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:13 +0000
Subject: [PATCH 19/33] fix: bit count of very big meshes overflowed

---
 src/tmf_exporter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index c19009e..f1333db 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -292,14 +292,14 @@ pub(crate) fn opt_tris(triangles: &[IndexType]) -> SmallVec<[&[IndexType]; 4]> {
 fn range_to_vertex_bit_count(span: std::ops::Range<Vector3>, shortest_edge: FloatType) -> u8 {
     let dx = span.end.0 - span.start.0;
     let dy = span.end.1 - span.start.1;
-    let _dz = span.end.2 - span.start.2;
+    let dz = span.end.2 - span.start.2;
     let inc_x = shortest_edge / dx;
     let inc_y = shortest_edge / dy;
-    let inc_z = shortest_edge / dy;
+    let inc_z = shortest_edge / dz;
     let prec_x = (1.0 / inc_x).log2().ceil() as u8;
     let prec_y = (1.0 / inc_y).log2().ceil() as u8;
     let prec_z = (1.0 / inc_z).log2().ceil() as u8;
-    prec_x + prec_y + prec_z
+    prec_x.saturating_add(prec_y).saturating_add(prec_z)
 }
 fn expand_vertex_span(span: std::ops::Range<Vector3>, point: Vector3) -> std::ops::Range<Vector3> {
     let min = span.start;
-- 
2.43.0


From fae1f3e70f8c5ac2c59c8a426603d9f75fecfcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 20/33] fix: quantisation truncated instead of rounding, moving
 values by more than the tolerance and further on every save

---
 src/utilis.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utilis.rs b/src/utilis.rs
index 2048dd7..3f7e40b 100644
--- a/src/utilis.rs
+++ b/src/utilis.rs
@@ -3,11 +3,11 @@
 use crate::{FloatType, IndexType, Vector3};
 /// Widest precision in bits that can be both saved and read.
 pub(crate) const MAX_PRECISION_BITS: u8 = 63;
-/// Converts a fraction(0.0-1.0) to a `bits` bits wide integer code.
+/// Converts a fraction(0.0-1.0) to the nearest `bits` bits wide integer code.
 pub(crate) fn quantize(fraction: FloatType, bits: u8) -> u64 {
     let max = (1_u64 << bits) - 1;
     // `max as FloatType` may be rounded up, and the fraction may be slightly above 1: the code must still fit.
-    ((fraction * (max as FloatType)) as u64).min(max)
+    ((fraction * (max as FloatType)).round() as u64).min(max)
 }
 /// Fast method for pruning unused vertices. Finds the lowest used vertex and removes it. O(n), does **not** remove all unused vertices. Used mostly
 /// in .obj loading. Fast because if not needed exits quickly.
-- 
2.43.0


From 5a4b778d8325bf575f6110996c0317e84310b669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:55 +0000
Subject: [PATCH 21/33] fix: meshes smaller than 0.000001 were loaded at a
 wrong scale

---
 src/vertices.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index bd1dcf6..dd9ab1e 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -64,10 +64,11 @@ pub fn save_tmf_vertices<W: Write>(
     let sx = max_x - min_x;
     let sy = max_y - min_y;
     let sz = max_z - min_z;
-    // Ensure model size is not 0(prevents bugs)
-    let sx = sx.max(0.000_001);
-    let sy = sy.max(0.000_001);
-    let sz = sz.max(0.000_001);
+    // Ensure model size is not 0(prevents bugs). Any other size must be the one a reader calculates.
+    let non_zero = |size: FloatType| if size > 0.0 { size } else { 0.000_001 };
+    let sx = non_zero(sx);
+    let sy = non_zero(sy);
+    let sz = non_zero(sz);
     //Calculate minimal increment
     let inc_x = (shortest_edge / sx) * precision.0;
     let inc_y = (shortest_edge / sy) * precision.0;
-- 
2.43.0


From 4efdcb31c7b50794042f18e51e2097ba1f61c77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 22/33] fix: every save of loaded custom floats and colours
 used one more bit and moved them

---
 src/custom_data.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/custom_data.rs b/src/custom_data.rs
index 67ea275..3498aa1 100644
--- a/src/custom_data.rs
+++ b/src/custom_data.rs
@@ -240,7 +240,8 @@ impl CustomDataSegment {
                     let val = reader.read_unaligned(prec)?;
                     res.push((((val as f64) / div) * span + min) as FloatType);
                 }
-                let prec = (((max - min) / ((1_u64 << prec_bits) as f64)) as FloatType) * 0.99999;
+                // Slightly above the precision of the saved bits, so that saving again uses as many bits, and not one more.
+                let prec = (((max - min) / ((1_u64 << prec_bits) as f64)) as FloatType) * 1.00001;
                 Ok(Self::new_raw(
                     CustomData::new_float(&res, prec),
                     name,
@@ -272,7 +273,8 @@ impl CustomDataSegment {
                         ((a as f64) / div) as FloatType,
                     ));
                 }
-                let prec = ((1.0 / ((1_u64 << prec_bits) as f64)) as FloatType) * 0.99999;
+                // Slightly above the precision of the saved bits, so that saving again uses as many bits, and not one more.
+                let prec = ((1.0 / ((1_u64 << prec_bits) as f64)) as FloatType) * 1.00001;
                 Ok(Self::new_raw(
                     CustomData::new_color_rgba(&res, prec),
                     name,
-- 
2.43.0


From c81e5b7b97eb3c5b359882d342b877d625c5f336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 23/33] fix: normalizing a zero vector gave NaNs

---
 src/utilis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utilis.rs b/src/utilis.rs
index 3f7e40b..917a62c 100644
--- a/src/utilis.rs
+++ b/src/utilis.rs
@@ -62,7 +62,7 @@ pub(crate) fn normalize(i: Vector3) -> Vector3 {
     let yy = i.1 * i.1;
     let zz = i.2 * i.2;
     let mag = (xx + yy + zz).sqrt();
-    if mag.is_nan() {
+    if mag.is_nan() || mag == 0.0 {
         (0.0, 0.0, 0.0)
     } else {
         (i.0 / mag, i.1 / mag, i.2 / mag)
-- 
2.43.0


From 20b50b348380bc428f7be09af4927bc09b76dc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 24/33] fix: index arrays with a wrong maximal index were saved
 as other indices

---
 src/vertices.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index dd9ab1e..fcb3298 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -183,7 +183,9 @@ pub fn save_triangles<W: Write>(
     writer: &mut W,
 ) -> std::io::Result<()> {
     let min = *triangles.iter().min().unwrap_or(&0);
-    let precision = calc_prec(max_index);
+    // The width must fit all indices, even if the provided maximum is wrong, and be one that can be read.
+    let max = *triangles.iter().max().unwrap_or(&0);
+    let precision = calc_prec(max_index).clamp(calc_prec(max as usize), MAX_PRECISION_BITS);
     writer.write_all(&precision.to_le_bytes())?;
     writer.write_all(&(triangles.len() as u64).to_le_bytes())?;
     writer.write_all(&u64::from(min).to_le_bytes())?;
-- 
2.43.0


From cc96da817dfe546f381ed164c89119aa250af004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:23 +0000
Subject: [PATCH 25/33] Verification hook (cfg tmf_verif): choose and observe
 the decode order of segments

---
 src/lib.rs          |  5 +++
 src/tmf_importer.rs |  2 ++
 src/verif_hooks.rs  | 74 +++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 81 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index d6648f7..114f512 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,6 +1,8 @@
 #![warn(missing_docs)]
 #![deny(unused_must_use, missing_docs, rustdoc::broken_intra_doc_links)]
 //#![deny(dead_code)]
+// `tmf_verif` enables verification hooks, and is set only by `RUSTFLAGS`.
+#![allow(unexpected_cfgs)]
 #![warn(rustdoc::missing_doc_code_examples)]
 //! TMF: 3D model format, compressing meshes by up to 89%!
 //! # What is the goal of tmf
@@ -47,6 +49,9 @@ pub mod unaligned_rw;
 mod unify_data;
 mod utilis;
 mod uv;
+#[cfg(tmf_verif)]
+#[doc(hidden)]
+pub mod verif_hooks;
 mod verify;
 mod vertices;
 // Unfinished
diff --git a/src/tmf_importer.rs b/src/tmf_importer.rs
index c57fb19..d9bd5e6 100644
--- a/src/tmf_importer.rs
+++ b/src/tmf_importer.rs
@@ -133,6 +133,8 @@ impl TMFImportContext {
             //println!("encoded_type:{:?}",encoded.seg_type());
             let ctx = ctx.clone();
             let decoded = async move { DecodedSegment::decode(encoded, &ctx).await };
+            #[cfg(tmf_verif)]
+            let decoded = crate::verif_hooks::scheduled(decoded);
 
             #[cfg(feature = "tokio_runtime")]
             let decoded = { tokio::task::spawn(decoded) };
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..9c62c50
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,74 @@
+//! Verification hooks, present only when built with `--cfg tmf_verif`.
+//! They let a test choose, and observe, the order in which segments finish decoding.
+#![allow(missing_docs)]
+use std::cell::RefCell;
+use std::future::Future;
+use std::sync::{Arc, Mutex};
+use std::task::Poll;
+/// How many times a segment yields to the others while waiting for its turn, before it gives up and goes on.
+const PATIENCE: usize = 2000;
+/// Order in which the segments of one load should finish decoding, and the order in which they did.
+pub struct Schedule {
+    /// Place in the completion order of the n-th segment. Segments past the end are not held back.
+    ranks: Vec<usize>,
+    state: Mutex<State>,
+}
+#[derive(Default)]
+struct State {
+    created: usize,
+    completed: Vec<usize>,
+}
+impl Schedule {
+    pub fn new(ranks: Vec<usize>) -> Arc<Self> {
+        Arc::new(Self {
+            ranks,
+            state: Mutex::default(),
+        })
+    }
+    /// Segments(numbered from 0, in file order) in the order in which they finished decoding.
+    pub fn completed(&self) -> Vec<usize> {
+        self.state.lock().unwrap().completed.clone()
+    }
+    fn is_turn(&self, segment: usize) -> bool {
+        match self.ranks.get(segment) {
+            Some(rank) => self.state.lock().unwrap().completed.len() >= *rank,
+            None => true,
+        }
+    }
+}
+thread_local! {
+    static CURRENT: RefCell<Option<Arc<Schedule>>> = const { RefCell::new(None) };
+}
+/// Sets the schedule of the loads started by this thread.
+pub fn set_schedule(schedule: Option<Arc<Schedule>>) {
+    CURRENT.with(|current| *current.borrow_mut() = schedule);
+}
+/// Makes the decoding of a segment wait for its turn.
+pub(crate) fn scheduled<F: Future>(decode: F) -> impl Future<Output = F::Output> {
+    let turn = CURRENT.with(|current| {
+        current.borrow().as_ref().map(|schedule| {
+            let mut state = schedule.state.lock().unwrap();
+            state.created += 1;
+            (schedule.clone(), state.created - 1)
+        })
+    });
+    async move {
+        if let Some((schedule, segment)) = &turn {
+            let mut patience = PATIENCE;
+            std::future::poll_fn(|cx| {
+                if patience == 0 || schedule.is_turn(*segment) {
+                    return Poll::Ready(());
+                }
+                patience -= 1;
+                cx.waker().wake_by_ref();
+                Poll::Pending
+            })
+            .await;
+        }
+        let decoded = decode.await;
+        if let Some((schedule, segment)) = turn {
+            schedule.state.lock().unwrap().completed.push(segment);
+        }
+        decoded
+    }
+}
-- 
2.43.0


From b296903f88ee6e6cba80173ee293ab143cacd296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 26/33] fix: every save of a loaded mesh flipped the signs of
 vanishing components of normals and tangents

---
 src/normals.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/normals.rs b/src/normals.rs
index 63ae85c..7540baa 100644
--- a/src/normals.rs
+++ b/src/normals.rs
@@ -78,9 +78,9 @@ pub(crate) fn normal_to_encoding(
     //
     let asine = quantize(asine, precision.0);
     let z = quantize(normal.2.abs(), precision.0);
-    let sx = normal.0 < 0.0;
-    let sy = normal.1 < 0.0;
-    let sz = normal.2 < 0.0;
+    let sx = normal.0.is_sign_negative();
+    let sy = normal.1.is_sign_negative();
+    let sz = normal.2.is_sign_negative();
     (asine, z, sx, sy, sz)
 }
 pub(crate) fn normal_from_encoding(
@@ -110,6 +110,8 @@ pub(crate) fn normal_from_encoding(
     let y = (1.0 - x * x).sqrt();
     #[cfg(not(feature = "fast_trig"))]
     let (x, y) = asine.sin_cos();
+    // The cosine of an angle rounded up to slightly above 90 degrees is negative, only the sign bits decide the signs.
+    let y = y.max(0.0);
     // Calculate XY magnitude
     let xy_mag = (1.0 - z * z).sqrt();
     // Adjust x an y
-- 
2.43.0


From e0d7ff375eeb68a9b4bdc0f9c735bc89a2c9cd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 27/33] fix: azimuths near the x axis lost half of their
 digits, exceeding small requested angles

---
 src/normals.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/normals.rs b/src/normals.rs
index 7540baa..6dfb3f3 100644
--- a/src/normals.rs
+++ b/src/normals.rs
@@ -72,7 +72,8 @@ pub(crate) fn normal_to_encoding(
     let xy = (normal.0.abs(), normal.1.abs());
     let xy_mag = (xy.0 * xy.0 + xy.1 * xy.1).sqrt();
     let xy = (xy.0 / xy_mag, xy.1 / xy_mag);
-    let asine = xy.0.asin();
+    // Unlike arcus sine of x alone, precise for all angles.
+    let asine = xy.0.atan2(xy.1);
 
     let asine = asine / (PI / 2.0);
     //
-- 
2.43.0


From 565f6ed326afd179c3522c1a8aa0a62c46c88183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:02 +0000
Subject: [PATCH 28/33] fix: writing .obj refuses index arrays which are not
 made of whole triangles

The rest of the indices was written as an incomplete face without a line end:
the next object was glued to it, and the file could not be read back.
---
 src/obj.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/obj.rs b/src/obj.rs
index 650b749..35fea2a 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -186,6 +186,13 @@ fn save_obj<W: Write>(
             return Ok(written);
         }
     };
+    // Incomplete triangles can't be represented.
+    if vert_triangle_len % 3 != 0 {
+        return Err(Error::new(
+            ErrorKind::Other,
+            "Number of vertex triangle indices is not a multiple of 3.",
+        ));
+    }
     // Ensure normal triangle array, if present, has the right length.
     if let Some(normal_triangles) = mesh.get_normal_triangles() {
         if normal_triangles.len() != vert_triangle_len {
-- 
2.43.0


From 19c1e1a723b05e8a8e940569235238cab9d1c6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:58 +0000
Subject: [PATCH 29/33] fix: features long_indices, short_indices and
 double_precision did not build: their type aliases were undocumented

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 114f512..44dd99e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -71,13 +71,16 @@ pub(crate) const MAX_PREALLOC: usize = 0x1_00_00;
 pub type IndexType = u32;
 #[cfg(all(feature = "long_indices", feature = "short_indices"))]
 compile_error!("Size of indices can't be both long(u64) or short(u16)");
+/// Index type used for representing triangle indices.
 #[cfg(feature = "long_indices")]
 pub type IndexType = u64;
+/// Index type used for representing triangle indices.
 #[cfg(feature = "short_indices")]
 pub type IndexType = u16;
 /// Type used for representing floating-point numbers.
 #[cfg(not(feature = "double_precision"))]
 pub type FloatType = f32;
+/// Type used for representing floating-point numbers.
 #[cfg(feature = "double_precision")]
 pub type FloatType = f64;
 /// Type used for representing 4d floating-point vectors
-- 
2.43.0


From 49405aeb228b6c32cd0f0047c1cd8c71f709983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:58 +0000
Subject: [PATCH 30/33] fix: writing .obj overflowed short indices when meshes
 of a list had more than 65535 elements together

---
 src/obj.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index 35fea2a..dc70c0f 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -125,9 +125,10 @@ pub fn load_vec2(split: &mut SplitWhitespace) -> Result<Vector2> {
 fn save_obj<W: Write>(
     w: &mut W,
     mesh: &TMFMesh,
-    index_offset: (IndexType, IndexType, IndexType),
+    // Wider than `IndexType`, because indices of .obj files count elements of all meshes.
+    index_offset: (u64, u64, u64),
     name: &str,
-) -> Result<(IndexType, IndexType, IndexType)> {
+) -> Result<(u64, u64, u64)> {
     writeln!(w, "o {name}")?;
     let vertex_count = match mesh.get_vertices() {
         None => 0,
@@ -164,9 +165,9 @@ fn save_obj<W: Write>(
     };
     // Elements written for this mesh, by which indices of the following meshes are offset.
     let written = (
-        vertex_count as IndexType,
-        uv_count as IndexType,
-        normal_count as IndexType,
+        vertex_count as u64,
+        uv_count as u64,
+        normal_count as u64,
     );
     // Check triangle arrays
     // Get the length of the vertex triangle array to use for later array size comparison
@@ -217,11 +218,11 @@ fn save_obj<W: Write>(
             write!(w, "f ")?
         };
         // Why unwrap? Vertex triangle array MUST be present at this point in time, because if it was not, this function would have already returned.
-        let vertex = mesh.get_vertex_triangles().unwrap()[i] + index_offset.0;
+        let vertex = u64::from(mesh.get_vertex_triangles().unwrap()[i]) + index_offset.0;
         write!(w, "{}", vertex)?;
         let normals = mesh.get_normal_triangles();
         match mesh.get_uv_triangles() {
-            Some(uvs) => write!(w, "/{}", uvs[i] + index_offset.1)?,
+            Some(uvs) => write!(w, "/{}", u64::from(uvs[i]) + index_offset.1)?,
             None => {
                 if normals.is_some() {
                     write!(w, "/")?
@@ -229,7 +230,7 @@ fn save_obj<W: Write>(
             }
         }
         if let Some(normals) = normals {
-            write!(w, "/{}", normals[i] + index_offset.2)?
+            write!(w, "/{}", u64::from(normals[i]) + index_offset.2)?
         };
         if i % 3 == 2 {
             writeln!(w)?
-- 
2.43.0


From 3d2f7f94a433ab0ca8128d27725ec335777d57d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:58 +0000
Subject: [PATCH 31/33] fix: saving indices of 64 bits panicked in builds with
 long indices

---
 src/vertices.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index fcb3298..55946be 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -185,7 +185,15 @@ pub fn save_triangles<W: Write>(
     let min = *triangles.iter().min().unwrap_or(&0);
     // The width must fit all indices, even if the provided maximum is wrong, and be one that can be read.
     let max = *triangles.iter().max().unwrap_or(&0);
-    let precision = calc_prec(max_index).clamp(calc_prec(max as usize), MAX_PRECISION_BITS);
+    let needed = calc_prec(max as usize);
+    // Possible only with long indices.
+    if needed > MAX_PRECISION_BITS {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::InvalidInput,
+            "Indices of more than 63 bits can't be saved.",
+        ));
+    }
+    let precision = calc_prec(max_index).clamp(needed, MAX_PRECISION_BITS);
     writer.write_all(&precision.to_le_bytes())?;
     writer.write_all(&(triangles.len() as u64).to_le_bytes())?;
     writer.write_all(&u64::from(min).to_le_bytes())?;
-- 
2.43.0


From 12e0583ae0c2c7bc39381c193d459e3f84a55387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:20 +0000
Subject: [PATCH 32/33] fix: verify meshes with more elements than IndexType
 can count

---
 src/verify.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/verify.rs b/src/verify.rs
index 67b5f65..38a67e4 100644
--- a/src/verify.rs
+++ b/src/verify.rs
@@ -59,9 +59,10 @@ impl std::fmt::Debug for TMFIntegrityStatus {
     }
 }
 /// Checks if indices fit inside the array of *length*, returned None if so or Some(index) if not.
-fn indices_inside_array(array: &[IndexType], length: IndexType) -> Option<IndexType> {
+fn indices_inside_array(array: &[IndexType], length: usize) -> Option<IndexType> {
     for index in array {
-        if *index >= length as IndexType {
+        // `length` does not need to fit in `IndexType`.
+        if *index as usize >= length {
             return Some(*index);
         }
     }
@@ -77,7 +78,7 @@ fn verify_vertices(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
             }
         }
         Some(vertices) => match mesh.get_vertex_triangles() {
-            Some(triangles) => match indices_inside_array(triangles, vertices.len() as IndexType) {
+            Some(triangles) => match indices_inside_array(triangles, vertices.len()) {
                 Some(index) => Err(TMFIntegrityStatus::IndexOutsideVertexArray(
                     index,
                     vertices.len() as IndexType,
@@ -104,7 +105,7 @@ fn verify_uvs(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
                 }
             }
             match mesh.get_uv_triangles() {
-                Some(triangles) => match indices_inside_array(triangles, uvs.len() as IndexType) {
+                Some(triangles) => match indices_inside_array(triangles, uvs.len()) {
                     Some(index) => Err(TMFIntegrityStatus::IndexOutsideUVArray(
                         index,
                         uvs.len() as IndexType,
@@ -135,7 +136,7 @@ fn verify_normals(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
             }
             match mesh.get_normal_triangles() {
                 Some(triangles) => {
-                    match indices_inside_array(triangles, normals.len() as IndexType) {
+                    match indices_inside_array(triangles, normals.len()) {
                         Some(index) => Err(TMFIntegrityStatus::IndexOutsideNormalArray(
                             index,
                             normals.len() as IndexType,
-- 
2.43.0


From c74ec4e4b8b05256c83611df27aa93c590dffcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:43 +0000
Subject: [PATCH 33/33] fix: leave a mesh as it is when its index type can not
 express the unified one

---
 src/unify_data.rs | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/unify_data.rs b/src/unify_data.rs
index ccbb966..af28baa 100644
--- a/src/unify_data.rs
+++ b/src/unify_data.rs
@@ -2,9 +2,10 @@
 use crate::IndexType;
 use std::collections::HashMap;
 /// This function unifies data at index level, returning info necessary for merging to `merge_data`.
+/// Returns `None` if there are more different combinations than `IndexType` can tell apart.
 fn unfiy_data_common<const DATA_COUNT: usize>(
     indices: &[&[IndexType]],
-) -> (Box<[IndexType]>, Box<[Box<[IndexType]>]>) {
+) -> Option<(Box<[IndexType]>, Box<[Box<[IndexType]>]>)> {
     type ComboType<const DATA_COUNT: usize> = [IndexType; DATA_COUNT];
     let mut combos: HashMap<ComboType<DATA_COUNT>, usize> = HashMap::with_capacity(indices.len());
     assert_eq!(DATA_COUNT, indices.len());
@@ -25,7 +26,7 @@ fn unfiy_data_common<const DATA_COUNT: usize>(
             combo_id += 1;
             id
         });
-        new_indices.push(curr_id as IndexType);
+        new_indices.push(IndexType::try_from(curr_id).ok()?);
         //println!("curr_combo:{curr_combo:?}");
     }
     let mut combos = combos.iter().collect::<Vec<_>>();
@@ -38,14 +39,14 @@ fn unfiy_data_common<const DATA_COUNT: usize>(
         }
     }
     let data_map: Box<[Box<[_]>]> = data_map.iter().map(|v| (*v).clone().into()).collect();
-    (new_indices.into(), data_map)
+    Some((new_indices.into(), data_map))
 }
 pub(crate) fn merge_data_2<A: Copy, B: Copy>(
     indices: &[&[IndexType]; 2],
     a: &[A],
     b: &[B],
-) -> (Box<[IndexType]>, Box<[A]>, Box<[B]>) {
-    let (indices, index_map) = unfiy_data_common::<2>(indices);
+) -> Option<(Box<[IndexType]>, Box<[A]>, Box<[B]>)> {
+    let (indices, index_map) = unfiy_data_common::<2>(indices)?;
     let a: Box<[_]> = index_map[0]
         .iter()
         .map(|index| a[*index as usize])
@@ -54,15 +55,15 @@ pub(crate) fn merge_data_2<A: Copy, B: Copy>(
         .iter()
         .map(|index| b[*index as usize])
         .collect();
-    (indices, a, b)
+    Some((indices, a, b))
 }
 pub(crate) fn merge_data_3<A: Copy, B: Copy, C: Copy>(
     indices: &[&[IndexType]; 3],
     a: &[A],
     b: &[B],
     c: &[C],
-) -> (Box<[IndexType]>, Box<[A]>, Box<[B]>, Box<[C]>) {
-    let (indices, index_map) = unfiy_data_common::<3>(indices);
+) -> Option<(Box<[IndexType]>, Box<[A]>, Box<[B]>, Box<[C]>)> {
+    let (indices, index_map) = unfiy_data_common::<3>(indices)?;
     let a: Box<[_]> = index_map[0]
         .iter()
         .map(|index| a[*index as usize])
@@ -75,7 +76,7 @@ pub(crate) fn merge_data_3<A: Copy, B: Copy, C: Copy>(
         .iter()
         .map(|index| c[*index as usize])
         .collect();
-    (indices, a, b, c)
+    Some((indices, a, b, c))
 }
 pub(crate) fn merge_data_4<A: Copy, B: Copy, C: Copy, D: Copy>(
     indices: &[&[IndexType]; 4],
@@ -83,8 +84,8 @@ pub(crate) fn merge_data_4<A: Copy, B: Copy, C: Copy, D: Copy>(
     b: &[B],
     c: &[C],
     d: &[D],
-) -> (Box<[IndexType]>, Box<[A]>, Box<[B]>, Box<[C]>, Box<[D]>) {
-    let (indices, index_map) = unfiy_data_common::<4>(indices);
+) -> Option<(Box<[IndexType]>, Box<[A]>, Box<[B]>, Box<[C]>, Box<[D]>)> {
+    let (indices, index_map) = unfiy_data_common::<4>(indices)?;
     let a: Box<[_]> = index_map[0]
         .iter()
         .map(|index| a[*index as usize])
@@ -101,7 +102,7 @@ pub(crate) fn merge_data_4<A: Copy, B: Copy, C: Copy, D: Copy>(
         .iter()
         .map(|index| d[*index as usize])
         .collect();
-    (indices, a, b, c, d)
+    Some((indices, a, b, c, d))
 }
 type OBoxArr<A> = Option<Box<[A]>>;
 fn is_merge_needed(indices: &[Option<&[IndexType]>]) -> bool {
@@ -132,8 +133,10 @@ fn smart_merge_data_2<A: Copy, B: Copy>(
         if !same_length(&[indices_a, indices_b]) {
             return (None, None, None);
         }
-        let (indices, a, b) = merge_data_2(&[indices_a, indices_b], a, b);
-        (Some(a), Some(b), Some(indices))
+        match merge_data_2(&[indices_a, indices_b], a, b) {
+            Some((indices, a, b)) => (Some(a), Some(b), Some(indices)),
+            None => (None, None, None),
+        }
     } else {
         (None, None, None)
     }
@@ -164,8 +167,10 @@ pub(crate) fn smart_merge_data_3<A: Copy, B: Copy, C: Copy>(
         if !same_length(&[indices_a, indices_b, indices_c]) {
             return (None, None, None, None);
         }
-        let (indices, a, b, c) = merge_data_3(&[indices_a, indices_b, indices_c], a, b, c);
-        (Some(a), Some(b), Some(c), Some(indices))
+        match merge_data_3(&[indices_a, indices_b, indices_c], a, b, c) {
+            Some((indices, a, b, c)) => (Some(a), Some(b), Some(c), Some(indices)),
+            None => (None, None, None, None),
+        }
     } else {
         (None, None, None, None)
     }
@@ -207,10 +212,10 @@ pub(crate) fn smart_merge_data_4<A: Copy, B: Copy, C: Copy, D: Copy>(
             return (None, None, None, None, None);
         }
         let d: &[D] = d;
-        let (indices, a, b, c, d) =
-            merge_data_4(&[indices_a, indices_b, indices_c, indices_d], a, b, c, d);
-        let d: Box<[D]> = d;
-        (Some(a), Some(b), Some(c), Some(d), Some(indices))
+        match merge_data_4(&[indices_a, indices_b, indices_c, indices_d], a, b, c, d) {
+            Some((indices, a, b, c, d)) => (Some(a), Some(b), Some(c), Some(d), Some(indices)),
+            None => (None, None, None, None, None),
+        }
     } else {
         (None, None, None, None, None)
     }
-- 
2.43.0

