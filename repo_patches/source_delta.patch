From f0c792d7f8385c913ca1b14d03e8366a2d6aa304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 01/21] fix: use qhull's Qbb transform when lifting points onto
 the paraboloid

---
 qhull-rs/src/delaunay.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 180c2d7..4f53782 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -103,7 +103,7 @@ impl<N> Delaunay<N>
         let last_high = delaunay.last_high();
         let last_newhigh = delaunay.last_newhigh();
 
-        let paraboloid_scale = last_newhigh / last_high - last_low;
+        let paraboloid_scale = last_newhigh / (last_high - last_low);
 
         Delaunay {
             vertices: vertices.into_boxed_slice(),
@@ -112,7 +112,7 @@ impl<N> Delaunay<N>
             normals_and_offsets: normals_and_offsets.into_boxed_slice(),
 
             paraboloid_scale,
-            paraboloid_shift: last_low * paraboloid_scale,
+            paraboloid_shift: -last_low * paraboloid_scale,
         }
     }
 
-- 
2.43.0


From becc0033bc50a15459db35840ca3d11de7b491cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 02/21] fix: Simplex::plane_distance takes the dot product with
 the normal

---
 qhull-rs/src/delaunay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 4f53782..3b0cde9 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -245,7 +245,7 @@ impl<'a, N> Simplex<'a, N>
         let (normal, offset) = self.delaunay.normals_and_offsets.get(self.idx).unwrap();
         let mut sum = *offset;
         for (a, b) in point.as_slice().iter().zip(normal.as_slice()) {
-            sum += a + b;
+            sum += a * b;
         }
         sum
     }
-- 
2.43.0


From cc45732c4ebc383a7fbe96de23e2d30078c44962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 03/21] fix: start simplex searches at simplex 0, which always
 exists

---
 qhull-rs/src/delaunay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 3b0cde9..92428ae 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -399,7 +399,7 @@ impl<'a, N> SimplexSearcher<'a, N>
         }
 
 
-        let start_simplex_idx = self.start_hint.get().unwrap_or(1);
+        let start_simplex_idx = self.start_hint.get().unwrap_or(0);
         let mut simplex = Simplex { delaunay: self.delaunay, idx: start_simplex_idx };
 
         let lifted_point = self.delaunay.lift_point(point);
-- 
2.43.0


From e8c1830fecee4107074c734276545923679d0163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 04/21] fix: mark simplices whose transform can't be inverted
 as degenerate

---
 qhull-rs/src/delaunay.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 92428ae..3069a03 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -614,7 +614,10 @@ impl<N> BarycentricTransformation<N>
         let t = OMatrix::<f64, N, N>::from_row_iterator(iter);
         let decomp = t.lu();
         let mut t_inv = OMatrix::<f64, N, N>::from_element(f64::NAN);
-        let _ = decomp.try_inverse_to(&mut t_inv);
+        if !decomp.try_inverse_to(&mut t_inv) {
+            // A failed inversion leaves garbage behind, so mark the simplex as degenerate.
+            t_inv.fill(f64::NAN);
+        }
 
         BarycentricTransformation {
             t_inv,
-- 
2.43.0


From ab5788239a85b3278e93b24026ca65a89bd250b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 05/21] fix: test a degenerate simplex's neighbors using their
 own barycentric coordinates

---
 qhull-rs/src/delaunay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 3069a03..a4caafc 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -462,9 +462,9 @@ impl<'a, N> SimplexSearcher<'a, N>
                         // This neighbor is degenerate too, skip it
                         continue
                     }
+                    transform.solve(point.clone(), bcoords);
                     let inside = self.delaunay.neighbors[neighbor].iter()
                         .zip(bcoords.iter())
-                        .filter(|(i, _)| **i != NON_SIMPLEX_IDX)
                         .all(|(inner_neighbor, coord)| {
                             if inner_neighbor == &i {
                                 *coord >= -eps_broad && *coord <= 1.0 + self.eps
-- 
2.43.0


From 6d23acfb7ea680f49e5192095f2098fd52274980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 06/21] fix: give every facet its own index when mapping facet
 neighbors

---
 qhull-rs/src/convex_hull.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/convex_hull.rs b/qhull-rs/src/convex_hull.rs
index f9c1425..892baa3 100644
--- a/qhull-rs/src/convex_hull.rs
+++ b/qhull-rs/src/convex_hull.rs
@@ -49,7 +49,7 @@ impl<N> ConvexHull<N>
         let mut offsets_and_normals = vec![];
         let mut facet_id_map = HashMap::<u64, usize>::new();
         for facet in hull.facets() {
-            facet_id_map.insert(facet.id(), facets.len());
+            facet_id_map.insert(facet.id(), offsets_and_normals.len());
             offsets_and_normals.push((
                 // XXX This feels really gross, but it's necessary until a change is made to the
                 //     facet api :(
-- 
2.43.0


From 9a7e716f6b9b84a7ccaa601681b98511479a8a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:45 +0000
Subject: [PATCH 07/21] fix: reject palettes with duplicate colors instead of
 panicking

---
 image-palette-recoloring/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/image-palette-recoloring/src/lib.rs b/image-palette-recoloring/src/lib.rs
index 71e0462..fbb5208 100644
--- a/image-palette-recoloring/src/lib.rs
+++ b/image-palette-recoloring/src/lib.rs
@@ -173,6 +173,9 @@ impl DecomposedImage {
                 );
             }
         }
+        if palette_ch.vertices().len() != palette.len() {
+            return Err("The palette contains duplicate colors".into());
+        }
 
         let palette_matrix = crate::palette::compute_star_triangulation_coordinates(
             &palette,
-- 
2.43.0


From 3ed08d55e01328b506069424dbe1afda4a41e458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:45 +0000
Subject: [PATCH 08/21] fix: compute image buffer sizes in usize so large
 images don't overflow u32

---
 image-palette-recoloring-c/src/lib.rs | 8 ++++----
 image-palette-recoloring/src/lib.rs   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/image-palette-recoloring-c/src/lib.rs b/image-palette-recoloring-c/src/lib.rs
index b0ed75c..bb3b449 100644
--- a/image-palette-recoloring-c/src/lib.rs
+++ b/image-palette-recoloring-c/src/lib.rs
@@ -25,7 +25,7 @@ unsafe extern "C" fn free_image_buffer(size: u32, buf: *mut u8) {
 unsafe extern "C" fn create_image_weights(width: u32, height: u32, bytes: *const u8)
     -> *const c_void
 {
-    let bytes_slice = slice::from_raw_parts(bytes, 3 * (width * height) as usize);
+    let bytes_slice = slice::from_raw_parts(bytes, 3 * width as usize * height as usize);
     let Some(img) = ImageBuffer::<Rgb<u8>, _>::from_raw(width, height, bytes_slice) else {
         return ptr::null()
     };
@@ -50,7 +50,7 @@ unsafe extern "C" fn compute_palette(
     out_palette_size: *mut u8
 ) -> *mut [u8; 3]
 {
-    let bytes_slice = slice::from_raw_parts(img_bytes, (img_width * img_height * 3) as usize);
+    let bytes_slice = slice::from_raw_parts(img_bytes, img_width as usize * img_height as usize * 3);
     let Some(img) = ImageBuffer::<Rgb<u8>, _>::from_raw(img_width, img_height, bytes_slice) else {
         return ptr::null_mut()
     };
@@ -124,7 +124,7 @@ unsafe extern "C" fn reconstruct_image(
 
     let output_slice = slice::from_raw_parts_mut(
         output_buffer,
-        (reconstructed.width() * reconstructed.height() * 3) as usize,
+        reconstructed.width() as usize * reconstructed.height() as usize * 3,
     );
     output_slice.copy_from_slice(&reconstructed);
     1
@@ -144,7 +144,7 @@ unsafe extern "C" fn grayscale_image_channel(
 
     let output_slice = slice::from_raw_parts_mut(
         output_buffer,
-        (reconstructed.width() * reconstructed.height()) as usize,
+        reconstructed.width() as usize * reconstructed.height() as usize,
     );
     output_slice.copy_from_slice(&reconstructed);
     1
diff --git a/image-palette-recoloring/src/lib.rs b/image-palette-recoloring/src/lib.rs
index fbb5208..ffe85a0 100644
--- a/image-palette-recoloring/src/lib.rs
+++ b/image-palette-recoloring/src/lib.rs
@@ -48,7 +48,7 @@ impl ImageWeights {
         let tri = Delaunay::<Const<5>>::from_arrays(&ch_vertices[..]);
 
         let vertex_count = ch_vertices.len();
-        let row_count = (img.height() * img.width()) as usize;
+        let row_count = img.height() as usize * img.width() as usize;
 
         // We'll be building a COO matrix, so we need to collect the following vecs
         let mut row_indices = Vec::with_capacity(row_count);
-- 
2.43.0


From ed664a8324527f71840a0b360e3ddee2c4ad8a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:45 +0000
Subject: [PATCH 09/21] fix: declare compute_palette's max_palette_size
 parameter in the C header

---
 image-palette-recoloring-c/image-palette-recoloring.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/image-palette-recoloring-c/image-palette-recoloring.h b/image-palette-recoloring-c/image-palette-recoloring.h
index 2e1799a..0b0dde4 100644
--- a/image-palette-recoloring-c/image-palette-recoloring.h
+++ b/image-palette-recoloring-c/image-palette-recoloring.h
@@ -27,6 +27,7 @@ uint8_t *compute_palette(
     uint32_t img_heigh,
     const uint8_t *rgb_img_bytes,
     uint8_t min_palette_size,
+    uint8_t max_palette_size,
     double error_bound,
     uint8_t *out_palette_color_count
 );
-- 
2.43.0


From b3523b48207cfca9d3fa87ba9a6c189313da9845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:45 +0000
Subject: [PATCH 10/21] fix: sum the palette error in a reproducible order

---
 image-palette-recoloring/src/palette.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index c264838..93bf4f1 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -61,6 +61,9 @@ pub fn compute_palette(
         let count = pixel_map.entry(pixel).or_insert(0);
         *count += 1
     }
+    // The iteration order of a HashMap is random, so sort to make the error sums reproducible.
+    let mut pixel_map = pixel_map.into_iter().collect::<Vec<_>>();
+    pixel_map.sort_unstable_by_key(|(pixel, _)| pixel.0);
     let pixel_counts = pixel_map.into_iter()
         .map(|(pixel, count)| (
             Vector3::new(
-- 
2.43.0


From 166803633046a9a2f063651a56e35c80d1045a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:45 +0000
Subject: [PATCH 11/21] fix: reject color components with a sign in the CLI's
 color lists

---
 image-palette-recoloring-cli/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/image-palette-recoloring-cli/src/main.rs b/image-palette-recoloring-cli/src/main.rs
index 6da768d..97dca3b 100644
--- a/image-palette-recoloring-cli/src/main.rs
+++ b/image-palette-recoloring-cli/src/main.rs
@@ -66,6 +66,10 @@ fn parse_color_list(list: &str) -> Result<ColorList, String> {
         if !color_str.is_ascii() {
             Err(format!("Color list contains non-ascii characters."))?
         }
+        // from_str_radix would also accept a leading '+'
+        if !color_str.bytes().all(|b| b.is_ascii_hexdigit()) {
+            Err(format!("Color {i} isn't valid: not a hexadecimal number."))?
+        }
         colors.push(Rgb([
             u8::from_str_radix(&color_str[..2], 16)
                 .map_err(|e| format!("Invalid R comp. in color {i}: {e}"))?,
-- 
2.43.0


From 32aaa09bd1149fc9d72cd9b4c11eed9f7b0160fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:03 +0000
Subject: [PATCH 12/21] fix: don't truncate the palette size returned through
 the C API

---
 image-palette-recoloring-c/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/image-palette-recoloring-c/src/lib.rs b/image-palette-recoloring-c/src/lib.rs
index bb3b449..e71faa7 100644
--- a/image-palette-recoloring-c/src/lib.rs
+++ b/image-palette-recoloring-c/src/lib.rs
@@ -62,7 +62,11 @@ unsafe extern "C" fn compute_palette(
         error_bound
     );
 
-    *out_palette_size = palette.len() as u8;
+    // A truncated size would make the caller free the palette with the wrong length
+    let Ok(palette_size) = u8::try_from(palette.len()) else {
+        return ptr::null_mut()
+    };
+    *out_palette_size = palette_size;
     Box::into_raw(palette.into_boxed_slice()) as *mut [u8; 3]
 }
 
-- 
2.43.0


From 7362c1d3d5f6ed595f0da595d944a1e0a951d81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:03 +0000
Subject: [PATCH 13/21] fix: measure the palette error on the clamped candidate
 hull

---
 image-palette-recoloring/src/palette.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index 93bf4f1..8f6f03b 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -92,7 +92,7 @@ pub fn compute_palette(
         // Calculating the average error can be expensive, so only do it for the last 6 or so
         // iterations
         if ch.vertices().len() <= max_palette_size {
-            let error = compute_pixel_error(&ch, &pixel_counts, total_count);
+            let error = compute_pixel_error(&new_hull, &pixel_counts, total_count);
             if error > error_bound {
                 // We've reached or exceeded the error bound, so we are exiting here.
                 // We return the previous hull that still was inside the error bound.
@@ -130,7 +130,7 @@ fn compute_pixel_error(
         .map(|v| v.point())
         .map(|p| [p.x.clamp(0.0, 1.0), p.y.clamp(0.0, 1.0), p.z.clamp(0.0, 1.0)].into())
         .collect();
-    let tri = Delaunay::from_arrays(ch.vertices()
+    let tri = Delaunay::from_arrays(new_ch.vertices()
         .map(|v| v.point())
         .map(|p| [p.x, p.y, p.z])
         .collect::<Vec<[f64; 3]>>()
-- 
2.43.0


From b0b191a66cb7d846e463238af7bdb5aaaf15cf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 14/21] fix: catch qhull errors instead of jumping through an
 uninitialized jmp_buf

---
 qhull-rs/src/raw.rs                  | 29 +++++++++++++---------------
 qhull-sys/src/bindings/unix_64bit.rs | 10 ++++++++++
 qhull-sys/src/bindings/wasm_32bit.rs | 10 ++++++++++
 qhull-sys/src/ext.c                  | 28 +++++++++++++++++++++++++++
 4 files changed, 61 insertions(+), 16 deletions(-)

diff --git a/qhull-rs/src/raw.rs b/qhull-rs/src/raw.rs
index 04f2f4f..f8dacd0 100644
--- a/qhull-rs/src/raw.rs
+++ b/qhull-rs/src/raw.rs
@@ -55,16 +55,16 @@ impl<N: DimName> ConvexHull<N> {
         let stdout = qhull_sys::rqh_stdout();
         let stderr = qhull_sys::rqh_stderr();
         qhull_sys::qh_init_A(qh, stdin, stdout, stderr, 0, ptr::null_mut());
-        *qhull_sys::rqh_get_NOerrexit(qh) = 0;
-        let mut cmd = *b"qhull   Qc Qx         Qt\0";
-        qhull_sys::qh_initflags(qh, cmd.as_mut_ptr().cast());
-        qhull_sys::qh_init_B(qh, buf, len as _, N::dim() as _, 1);
-        qhull_sys::qh_qhull(qh);
-        qhull_sys::qh_triangulate(qh);
-        ConvexHull {
+        let hull = ConvexHull {
             qh: NonNull::new(qh).unwrap(),
             pd: PhantomData,
-        }
+        };
+        let mut cmd = *b"qhull   Qc Qx         Qt\0";
+        let code = qhull_sys::rqh_build(
+            qh, cmd.as_mut_ptr().cast(), 0, buf, len as _, N::dim() as _,
+        );
+        assert!(code == 0, "qhull failed to build the convex hull (error {})", code);
+        hull
     }
 
     pub fn facets<'a>(&'a self) -> FacetListIterator<'a, N> {
@@ -417,18 +417,15 @@ impl<N: DimName> Delaunay<N>
         let stdout = qhull_sys::rqh_stdout();
         let stderr = qhull_sys::rqh_stderr();
         qhull_sys::qh_init_A(qh, stdin, stdout, stderr, 0, ptr::null_mut());
-        *qhull_sys::rqh_get_NOerrexit(qh) = 0;
-        let mut cmd = *b"qhull d Qc Qx Qbb Q12 Qt Qz\0";
-        qhull_sys::qh_initflags(qh, cmd.as_mut_ptr().cast());
-        *qhull_sys::rqh_get_PROJECTdelaunay(qh) = 1;
-        qhull_sys::qh_init_B(qh, buf, len as _, N::dim() as _, 1);
-        qhull_sys::qh_qhull(qh);
-        qhull_sys::qh_triangulate(qh);
-
         let cv = ConvexHull {
             qh: NonNull::new(qh).unwrap(),
             pd: PhantomData,
         };
+        let mut cmd = *b"qhull d Qc Qx Qbb Q12 Qt Qz\0";
+        let code = qhull_sys::rqh_build(
+            qh, cmd.as_mut_ptr().cast(), 1, buf, len as _, N::dim() as _,
+        );
+        assert!(code == 0, "qhull failed to build the triangulation (error {})", code);
         let mut max_bounds = OVector::from_element(f64::MIN);
         let mut min_bounds = OVector::from_element(f64::MAX);
         for vertex in cv.vertices() {
diff --git a/qhull-sys/src/bindings/unix_64bit.rs b/qhull-sys/src/bindings/unix_64bit.rs
index 8f5103b..8903ad3 100644
--- a/qhull-sys/src/bindings/unix_64bit.rs
+++ b/qhull-sys/src/bindings/unix_64bit.rs
@@ -1065,3 +1065,13 @@ extern "C" {
 extern "C" {
     pub fn rqh_stderr() -> *mut FILE;
 }
+extern "C" {
+    pub fn rqh_build(
+        qh: *mut qhT,
+        command: *mut ::std::os::raw::c_char,
+        delaunay: ::std::os::raw::c_uint,
+        points: *mut f64,
+        numpoints: ::std::os::raw::c_int,
+        dim: ::std::os::raw::c_int,
+    ) -> ::std::os::raw::c_int;
+}
diff --git a/qhull-sys/src/bindings/wasm_32bit.rs b/qhull-sys/src/bindings/wasm_32bit.rs
index 8f4835b..ac74014 100644
--- a/qhull-sys/src/bindings/wasm_32bit.rs
+++ b/qhull-sys/src/bindings/wasm_32bit.rs
@@ -1070,3 +1070,13 @@ extern "C" {
 extern "C" {
     pub fn rqh_stderr() -> *mut FILE;
 }
+extern "C" {
+    pub fn rqh_build(
+        qh: *mut qhT,
+        command: *mut ::std::os::raw::c_char,
+        delaunay: ::std::os::raw::c_uint,
+        points: *mut f64,
+        numpoints: ::std::os::raw::c_int,
+        dim: ::std::os::raw::c_int,
+    ) -> ::std::os::raw::c_int;
+}
diff --git a/qhull-sys/src/ext.c b/qhull-sys/src/ext.c
index c0e324b..bc2ec2a 100644
--- a/qhull-sys/src/ext.c
+++ b/qhull-sys/src/ext.c
@@ -57,3 +57,31 @@ FILE* rqh_stdout() {
 FILE* rqh_stderr() {
     return stderr;
 }
+
+/* Builds the hull (or with `delaunay`, the triangulation) of `points`, which qhull takes
+   ownership of. Qhull reports errors by jumping to qh->errexit, so that has to be set up here
+   rather than by the Rust code. Returns 0 or the exit code of the error.
+   */
+int rqh_build(qhT *qh, char *command, boolT delaunay, coordT *points, int numpoints, int dim) {
+    int exitcode;
+
+#ifdef WASM
+    /* There's no setjmp */
+    exitcode = 0;
+#else
+    exitcode = setjmp(qh->errexit);
+#endif
+    if (!exitcode) {
+        qh->NOerrexit = False;
+        qh_initflags(qh, command);
+        if (delaunay) {
+            qh->PROJECTdelaunay = True;
+        }
+        qh_init_B(qh, points, numpoints, dim, True);
+        qh_qhull(qh);
+        qh_triangulate(qh);
+    }
+    /* qh->errexit becomes invalid once this function returns */
+    qh->NOerrexit = True;
+    return exitcode;
+}
-- 
2.43.0


From 7ab99d8e0d5c7a26a19d54337c8be64889140499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:05 +0000
Subject: [PATCH 15/21] fix: accept the digit 6 in the web UI's color fields

---
 image-palette-recoloring-web/src/js/index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 52e8f5e..16da71b 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -34,7 +34,7 @@ function textInputUpdateColorInput(event) {
     let isValidHexString = value[0] == '#' && value.length == 7;
 
     for (let i = 1; i < value.length; i++) {
-        if (!'012345789abcdefABCDEF'.includes(value[i])) {
+        if (!'0123456789abcdefABCDEF'.includes(value[i])) {
             isValidHexString = false;
             break;
         }
-- 
2.43.0


From 7b2e952866b37d8f0287cbb2725cd3825e2e5425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:05 +0000
Subject: [PATCH 16/21] fix: free the web worker's image buffers with their own
 size on every path

---
 image-palette-recoloring-web/src/js/webworker.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/image-palette-recoloring-web/src/js/webworker.js b/image-palette-recoloring-web/src/js/webworker.js
index 55bfdca..c5a1e9e 100644
--- a/image-palette-recoloring-web/src/js/webworker.js
+++ b/image-palette-recoloring-web/src/js/webworker.js
@@ -182,6 +182,7 @@ class RecoloringThreadWorker extends ThreadWorker {
                 let blob = await createBlobForArray(outputArray, width, height);
                 this.sendResponse(id, blob);
             } else {
+                wasmInst.exports.free_image_buffer(width * height * 3, imagePtr);
                 this.sendError(id, "Invalid palette size");
             }
         } else if (method == "grayscaleImageChannel") {
@@ -195,7 +196,7 @@ class RecoloringThreadWorker extends ThreadWorker {
             try {
                 success = wasmInst.exports.grayscale_image_channel(decompImagePtr, n, imagePtr);
             } catch (e) {
-                wasmInst.exports.free_image_buffer(width * height * 3, imagePtr);
+                wasmInst.exports.free_image_buffer(width * height, imagePtr);
                 throw e;
             }
 
@@ -213,6 +214,7 @@ class RecoloringThreadWorker extends ThreadWorker {
                 let blob = await createBlobForArray(outputArray, width, height);
                 this.sendResponse(id, blob);
             } else {
+                wasmInst.exports.free_image_buffer(width * height, imagePtr);
                 this.sendError(id, "Invalid palette channel");
             }
         } else {
-- 
2.43.0


From 7c3a702239f0c1c27eca636d67c36b4d72b732d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:05 +0000
Subject: [PATCH 17/21] fix: report NULL results to the web page as errors

---
 image-palette-recoloring-web/src/js/webworker.js | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/image-palette-recoloring-web/src/js/webworker.js b/image-palette-recoloring-web/src/js/webworker.js
index c5a1e9e..16ef8c9 100644
--- a/image-palette-recoloring-web/src/js/webworker.js
+++ b/image-palette-recoloring-web/src/js/webworker.js
@@ -102,6 +102,10 @@ class RecoloringThreadWorker extends ThreadWorker {
                 wasmInst.exports.free_image_buffer(width * height * 3 + 1, bufPtr);
             }
 
+            if (palettePtr == 0) {
+                this.sendError(id, "Failed to compute a palette");
+                return;
+            }
             let paletteBuf = new Uint8ClampedArray(wasmInst.exports.memory.buffer, palettePtr, 3 * paletteSize);
             let palette = [];
             for (let i = 0; i < paletteSize; i++) {
@@ -134,7 +138,11 @@ class RecoloringThreadWorker extends ThreadWorker {
                 wasmInst.exports.free_image_buffer(paletteColors.length * 3, palettePtr);
             }
 
-            this.sendResponse(id, decomposedImagePtr);
+            if (decomposedImagePtr == 0) {
+                this.sendError(id, "Invalid palette");
+            } else {
+                this.sendResponse(id, decomposedImagePtr);
+            }
         } else if (method == "freeImageWeights") {
             let [ptr] = args;
             wasmInst.exports.free_image_weights(ptr);
-- 
2.43.0


From eab398b2b88959168ecdec251e48cdaa5132adbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 18/21] fix: never reuse or double free the web page's
 decomposed image pointer

---
 image-palette-recoloring-web/src/js/index.js | 53 +++++++++++++-------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 16da71b..25ff911 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -80,6 +80,33 @@ function colorValuesToString(values) {
     return '#' + part1 + part2 + part3
 }
 
+// Forget the pointer before it is freed, so that it can't be used or freed again if a later step
+// fails.
+async function freeDeconstructedImage() {
+    if (g_deconstructedImagePtr != undefined) {
+        const stalePtr = g_deconstructedImagePtr;
+        g_deconstructedImagePtr = undefined;
+        await thread.sendRequest({
+            method: "freeDecomposedImage",
+            args: [stalePtr],
+        })
+    }
+}
+
+// The steps share the pointers above, so only one may be in progress at a time.
+async function withControlsDisabled(step) {
+    recomputeOutputButton.disabled = true;
+    recomputePaletteButton.disabled = true;
+    srcImgPicker.disabled = true;
+    try {
+        await step();
+    } finally {
+        recomputeOutputButton.disabled = false;
+        recomputePaletteButton.disabled = false;
+        srcImgPicker.disabled = false;
+    }
+}
+
 async function initialSetup() {
     // TODO: Replace the dest image with a placeholder that is the same size
     offscreenImg.src = srcImg.src;
@@ -90,19 +117,14 @@ async function initialSetup() {
     srcImgPicker.disabled = true;
 
     if (g_imageWeightsPtr != undefined) {
-        await thread.sendRequest({
-            method: "freeImageWeights",
-            args: [g_imageWeightsPtr],
-        })
+        const staleWeightsPtr = g_imageWeightsPtr;
         g_imageWeightsPtr = undefined;
-    }
-    if (g_deconstructedImagePtr != undefined) {
         await thread.sendRequest({
-            method: "freeDecomposedImage",
-            args: [g_deconstructedImagePtr],
+            method: "freeImageWeights",
+            args: [staleWeightsPtr],
         })
-        g_deconstructedImagePtr = undefined;
     }
+    await freeDeconstructedImage();
 
     let array = computeSrcImageArray();
     array = await recomputeImageWeights(array);
@@ -207,12 +229,7 @@ async function reconstructImage() {
     // If the set of decomposition palette colors has changed, then we need to recompute the
     if (g_imageWeightsPtr == undefined || currentPaletteColors != g_savedDecompositionPalette) {
         g_savedDecompositionPalette = currentPaletteColors;
-        if (g_deconstructedImagePtr != undefined) {
-            await thread.sendRequest({
-                method: "freeDecomposedImage",
-                args: [g_deconstructedImagePtr],
-            })
-        }
+        await freeDeconstructedImage();
         g_deconstructedImagePtr = await thread.sendRequest({
             method: "createDecomposedImage",
             args: [g_imageWeightsPtr, g_savedDecompositionPalette],
@@ -266,7 +283,7 @@ async function reconstructImage() {
 window.addEventListener("load", (event) => {
     // We need some event handlers
     // When the image in srcImg changes, we need to recompute the palette
-    srcImg.addEventListener("load", async () => await initialSetup());
+    srcImg.addEventListener("load", async () => await withControlsDisabled(initialSetup));
 
     srcImgPicker.addEventListener("change", (event) => {
         var selectedFile = event.target.files[0];
@@ -278,10 +295,10 @@ window.addEventListener("load", (event) => {
     });
 
     recomputeOutputButton.addEventListener("click", async () => {
-        await reconstructImage();
+        await withControlsDisabled(reconstructImage);
     });
     recomputePaletteButton.addEventListener("click", async () => {
-        await recomputePalette();
+        await withControlsDisabled(recomputePalette);
     });
 
     // Load "example.png" into the main image
-- 
2.43.0


From afa616e305fa4da1296b3e582106d4d867c00aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:25 +0000
Subject: [PATCH 19/21] fix: the page's steps wait for the one in progress

---
 image-palette-recoloring-web/src/js/index.js | 31 ++++++++++++--------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 25ff911..4b8459e 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -93,18 +93,25 @@ async function freeDeconstructedImage() {
     }
 }
 
-// The steps share the pointers above, so only one may be in progress at a time.
-async function withControlsDisabled(step) {
-    recomputeOutputButton.disabled = true;
-    recomputePaletteButton.disabled = true;
-    srcImgPicker.disabled = true;
-    try {
-        await step();
-    } finally {
-        recomputeOutputButton.disabled = false;
-        recomputePaletteButton.disabled = false;
-        srcImgPicker.disabled = false;
-    }
+// The steps share the pointers above, so only one may be in progress at a time. An image may finish
+// loading during a step though, so a step also waits for the previous one.
+let g_previousStep = Promise.resolve();
+
+function withControlsDisabled(step) {
+    const thisStep = g_previousStep.then(async () => {
+        recomputeOutputButton.disabled = true;
+        recomputePaletteButton.disabled = true;
+        srcImgPicker.disabled = true;
+        try {
+            await step();
+        } finally {
+            recomputeOutputButton.disabled = false;
+            recomputePaletteButton.disabled = false;
+            srcImgPicker.disabled = false;
+        }
+    });
+    g_previousStep = thisStep.catch(() => {});
+    return thisStep;
 }
 
 async function initialSetup() {
-- 
2.43.0


From 35fe5d8ad5059c2a3d24ea27704facb2aaa1ce4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:25 +0000
Subject: [PATCH 20/21] fix: the page never decomposes without image weights

---
 image-palette-recoloring-web/src/js/index.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 4b8459e..0261ced 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -237,6 +237,9 @@ async function reconstructImage() {
     if (g_imageWeightsPtr == undefined || currentPaletteColors != g_savedDecompositionPalette) {
         g_savedDecompositionPalette = currentPaletteColors;
         await freeDeconstructedImage();
+        if (g_imageWeightsPtr == undefined) {
+            await recomputeImageWeights();
+        }
         g_deconstructedImagePtr = await thread.sendRequest({
             method: "createDecomposedImage",
             args: [g_imageWeightsPtr, g_savedDecompositionPalette],
-- 
2.43.0


From db28a0d3eb1a9cf8227f50404700b565969cc80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 21/21] fix: return the palette found so far when no edge can
 be collapsed

---
 image-palette-recoloring/src/palette.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index 8f6f03b..a3101fc 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -81,7 +81,10 @@ pub fn compute_palette(
     while ch.vertices().len() > min_palette_size {
         // TODO: We need to calculate the level of error we've created here. This gives us a better
         //       idea of when we should exit the loop
-        let (new_vertex, vertices_to_remove) = locate_edge_to_collapse(&ch);
+        let Some((new_vertex, vertices_to_remove)) = locate_edge_to_collapse(&ch) else {
+            // None of the edges can be collapsed, so this is as simple as the hull gets.
+            break
+        };
         let new_hull = ch.vertices()
             .filter(|v| !vertices_to_remove.contains(&v.index()))
             .map(|v| v.point())
@@ -231,7 +234,8 @@ impl<'a> EdgeData<'a> {
 }
 
 
-fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> ([f64; 3], [usize; 2]) {
+// Returns `None` if no edge of the hull can be collapsed to a point outside of it.
+fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> Option<([f64; 3], [usize; 2])> {
 
     let edge_data = EdgeData::new(ch);
 
@@ -296,10 +300,9 @@ fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> ([f64; 3], [usize; 2])
     }
     let (edge_vertices, new_point, _vol) = edge_candidates.iter()
         .min_by(|(_, _, vol_a), (_, _, vol_b)| vol_a.partial_cmp(vol_b).unwrap())
-        .cloned()
-        .unwrap();
+        .cloned()?;
 
-    (new_point, edge_vertices)
+    Some((new_point, edge_vertices))
 }
 
 fn tetrahedron_volume(a: &Vector3<f64>, b: &Vector3<f64>, c: &Vector3<f64>, d: &Vector3<f64>)
-- 
2.43.0

