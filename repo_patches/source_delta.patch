From 2582066cfcdfc66fe84e8cce103c971ca6610f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:00 +0000
Subject: [PATCH 01/30] fix: Date::add_days lost whole months when day+n
 exceeded 255 (u8 truncation)

---
 calendar/src/date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calendar/src/date.rs b/calendar/src/date.rs
index 9d66e38..9d09fc9 100644
--- a/calendar/src/date.rs
+++ b/calendar/src/date.rs
@@ -288,7 +288,7 @@ impl Date {
             let would_be_day = self.day as usize + n_days; // Now we can add more than a year
             let n_days_this_month = N_DAYS_PER_MONTH[self.month as usize - 1];
 
-            if would_be_day as u8 > n_days_this_month {
+            if would_be_day > n_days_this_month as usize {
                 // Add one month, considering that this might be a change in year
                 self.month += 1;
                 if self.month == 13 {
-- 
2.43.0


From 5d4a9da595cb1c235e9e5294b242588ae3a9690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:22 +0000
Subject: [PATCH 02/30] fix: Period through new year ran past its end when one
 step crossed both new year and the end

---
 calendar/src/period.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/calendar/src/period.rs b/calendar/src/period.rs
index a81dcb3..85590ff 100644
--- a/calendar/src/period.rs
+++ b/calendar/src/period.rs
@@ -135,7 +135,9 @@ impl Iterator for Period {
 
         // if !self.goes_through_new_year && (crossed_end || crossed_ny)
         //     || self.goes_through_new_year && crossed_end && !crossed_ny
-        if (crossed_ny || crossed_end) && (!crossed_ny || !self.goes_through_new_year) {
+        if (crossed_ny || crossed_end)
+            && (!crossed_ny || !self.goes_through_new_year || vs_end_before || !vs_end_after)
+        {
             return None;
         }
         self.current = new;
-- 
2.43.0


From e71eebb98880bb6fcc61e94e3af280d8a54d807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:23 +0000
Subject: [PATCH 03/30] fix: weather lookup after the last record of the year
 extrapolated wildly

---
 weather/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/weather/src/lib.rs b/weather/src/lib.rs
index e77429e..5282a9d 100644
--- a/weather/src/lib.rs
+++ b/weather/src/lib.rs
@@ -116,7 +116,12 @@ impl Weather {
                     let first_date = self.data[0].date;
                     let last_n = last_date.day_of_year();
                     let first_n = first_date.day_of_year() + 365.;
-                    let date_n = date.day_of_year() + 365.;
+                    let date_n = if i == 0 {
+                        // after new year
+                        date.day_of_year() + 365.
+                    } else {
+                        date.day_of_year()
+                    };
 
                     let x = (date_n - last_n) / (first_n - last_n);
                     self.data.last().unwrap().interpolate(&self.data[0], x)
-- 
2.43.0


From 1f075b66b5a8e5014b230980aba0283aceafd191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:06 +0000
Subject: [PATCH 04/30] fix: EPW wind directions were clamped from below at 360
 degrees (max instead of min)

---
 weather/src/epw/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weather/src/epw/scanner.rs b/weather/src/epw/scanner.rs
index 33fffb2..0fcaac3 100644
--- a/weather/src/epw/scanner.rs
+++ b/weather/src/epw/scanner.rs
@@ -271,7 +271,7 @@ impl<'a> EPWScanner<'a> {
                 direct_normal_illuminance: EPWScanner::scan_number(self.scan_element())?,
                 diffuse_horizontal_illuminance: EPWScanner::scan_number(self.scan_element())?,
                 zenith_luminance: EPWScanner::scan_number(self.scan_element())?,
-                wind_direction: EPWScanner::scan_number(self.scan_element())?.max(360.), //Missing value is 999
+                wind_direction: EPWScanner::scan_number(self.scan_element())?.min(360.), //Missing value is 999
                 wind_speed: EPWScanner::scan_number(self.scan_element())?,
                 total_sky_cover: EPWScanner::scan_number(self.scan_element())?,
                 opaque_sky_cover: EPWScanner::scan_number(self.scan_element())?,
-- 
2.43.0


From cfdcf5cee71cedeeb12d7dfbf2d4fee39b7e89d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:42 +0000
Subject: [PATCH 05/30] fix: SimulationStateHeader::push kept the element it
 refused when the values had been taken

---
 model/src/simulation_state.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/model/src/simulation_state.rs b/model/src/simulation_state.rs
index 07cb27b..b9fd707 100644
--- a/model/src/simulation_state.rs
+++ b/model/src/simulation_state.rs
@@ -95,6 +95,13 @@ impl SimulationStateHeader {
     ///
     /// Returns the index of the new element.
     pub fn push(&mut self, e: SimulationStateElement, value: Float) -> Result<usize, String> {
+        if self.default_values.is_none() {
+            // Fail before counting or storing anything
+            return Err(
+                "Trying to push a value to a SimulationStateHeader with no values vector"
+                    .to_string(),
+            );
+        }
         if e.is_personal() {
             // If individual, check if we are passed that... if not, count
             // and add
@@ -121,11 +128,6 @@ impl SimulationStateHeader {
         self.elements.push(e);
         if let Some(values) = &mut self.default_values {
             values.push(value);
-        } else {
-            return Err(
-                "Trying to push a value to a SimulationStateHeader with no values vector"
-                    .to_string(),
-            );
         }
         // return
         Ok(ret)
-- 
2.43.0


From bd9551a1af288d16d32a45f046e79d00b19bb737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:40 +0000
Subject: [PATCH 06/30] fix: NDiagGenericMatrix::new fills the matrix with the
 given value

---
 matrix/src/n_diag_generic_matrix.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/matrix/src/n_diag_generic_matrix.rs b/matrix/src/n_diag_generic_matrix.rs
index 49659f9..d815326 100644
--- a/matrix/src/n_diag_generic_matrix.rs
+++ b/matrix/src/n_diag_generic_matrix.rs
@@ -54,11 +54,6 @@ impl<const N: usize, T: Numberish> NDiagGenericMatrix<N, T> {
         // when some profile states we have to.
         let n = Self::acc_n_in_row(nrows, ncols);
         let data = vec![v; n];
-        let data = data
-            .iter()
-            .enumerate()
-            .map(|(i, _)| T::one() * i as Float)
-            .collect();
 
         Self { nrows, ncols, data }
     }
-- 
2.43.0


From 7a30f9dcf8d83d7fff789fe9152c9baf6d750271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:40 +0000
Subject: [PATCH 07/30] fix: rows of an N-diagonal matrix have at most as many
 elements as columns

---
 matrix/src/n_diag_generic_matrix.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/matrix/src/n_diag_generic_matrix.rs b/matrix/src/n_diag_generic_matrix.rs
index d815326..e03abdb 100644
--- a/matrix/src/n_diag_generic_matrix.rs
+++ b/matrix/src/n_diag_generic_matrix.rs
@@ -92,8 +92,12 @@ impl<const N: usize, T: Numberish> NDiagGenericMatrix<N, T> {
         let s = one_sided_n!(N);
         let n_zeroes_before = Self::zeroes_before(row);
         if row < s {
-            // top padding
-            s + 1 + row
+            // top padding, which might not even fit in the matrix
+            if s + 1 + row < ncols {
+                s + 1 + row
+            } else {
+                ncols
+            }
         } else if n_zeroes_before + N <= ncols {
             // somewhere passed the top padding.
             N
-- 
2.43.0


From 68c65dc0c3e3e7687be1604efc1698a10b86430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:40 +0000
Subject: [PATCH 08/30] fix: Gauss-Seidel does not report convergence when the
 iterations diverged to NaN

---
 matrix/src/matrix.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/matrix/src/matrix.rs b/matrix/src/matrix.rs
index 058633b..f1e5cec 100644
--- a/matrix/src/matrix.rs
+++ b/matrix/src/matrix.rs
@@ -182,14 +182,17 @@ impl Matrix {
 
             // Check convergence
             max_err = -Float::MAX;
+            let mut converged = true;
             for i in 0..n {
                 let err = (x.data[i] - new_x.data[i]).abs();
                 if err > max_err {
                     max_err = err;
                 }
+                // `err` is NaN when the iterations diverged... that is not converging
+                converged = converged && err < conv_check;
             }
 
-            if max_err < conv_check {
+            if converged {
                 return Ok(());
             }
             x.data.copy_from_slice(&new_x.data);
-- 
2.43.0


From 61defcca42934a456c563fe4c5582a95baf8b74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:44 +0000
Subject: [PATCH 09/30] fix: adding or substracting matrices into one of
 another size is an error

---
 matrix/src/generic_matrix.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/matrix/src/generic_matrix.rs b/matrix/src/generic_matrix.rs
index 3a6c928..c5c7504 100644
--- a/matrix/src/generic_matrix.rs
+++ b/matrix/src/generic_matrix.rs
@@ -182,6 +182,9 @@ impl<T: Numberish> GenericMatrix<T> {
         if self.ncols != other.ncols || self.nrows != other.nrows {
             return Err("Matrices being added are of different sizes".to_string());
         }
+        if self.ncols != into.ncols || self.nrows != into.nrows {
+            return Err("Result matrix when adding is not of appropriate size".to_string());
+        }
 
         // Benchmarks showed that making this parallel was not worth
         // it unless the matrices were very big.
@@ -204,6 +207,9 @@ impl<T: Numberish> GenericMatrix<T> {
         if self.ncols != other.ncols || self.nrows != other.nrows {
             return Err("Matrices being substracted are not the same size".to_string());
         }
+        if self.ncols != into.ncols || self.nrows != into.nrows {
+            return Err("Result matrix when substracting is not of appropriate size".to_string());
+        }
 
         // Benchmarks showed that making this parallel was not worth
         // it unless the matrices were very big.
-- 
2.43.0


From 0b487473bcdc133a91938476ba9cc18b7383446b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:56 +0000
Subject: [PATCH 10/30] fix: the inverse of composed transforms was composed in
 the wrong order

---
 geometry/src/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/transform.rs b/geometry/src/transform.rs
index 9b10912..70afa41 100644
--- a/geometry/src/transform.rs
+++ b/geometry/src/transform.rs
@@ -168,7 +168,7 @@ pub fn mul4x4(m1: &[Float; 16], m2: &[Float; 16]) -> [Float; 16] {
 impl std::ops::MulAssign<Self> for Transform {
     fn mul_assign(&mut self, other: Self) {
         self.elements = mul4x4(&self.elements, &other.elements);
-        self.inv_elements = mul4x4(&self.inv_elements, &other.inv_elements);
+        self.inv_elements = mul4x4(&other.inv_elements, &self.inv_elements);
     }
 }
 
-- 
2.43.0


From 3b38109783a8026f1b05df904836ea6840873968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:50 +0000
Subject: [PATCH 11/30] fix: rays beside a triangle were reported as hitting it
 (only v was checked, not u + v)

---
 geometry/src/triangle3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/triangle3d.rs b/geometry/src/triangle3d.rs
index 46b4e51..13e75da 100644
--- a/geometry/src/triangle3d.rs
+++ b/geometry/src/triangle3d.rs
@@ -57,7 +57,7 @@ pub fn intersect_triangle(
     let q = s.cross(edge1);
     let v = f * (ray.direction * q);
 
-    if !(0.0..=1.0).contains(&v) {
+    if v < 0. || u + v > 1. {
         return None;
     }
     let t = f * (edge2 * q);
-- 
2.43.0


From b9e9a389eedb23c8db8b1d0bdec50a2be0f54694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:54 +0000
Subject: [PATCH 12/30] fix: rays running along a face of a bounding box missed
 it (NaN times)

---
 geometry/src/bbox3d.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/geometry/src/bbox3d.rs b/geometry/src/bbox3d.rs
index dbd389c..a0ed9f2 100644
--- a/geometry/src/bbox3d.rs
+++ b/geometry/src/bbox3d.rs
@@ -253,7 +253,7 @@ impl BBox3D {
             z: mut tz_max,
         } = (self.max - ray.origin).scale_components(inv_dir.x, inv_dir.y, inv_dir.z);
 
-        if tx_min > tx_max {
+        if inv_dir.x < 0. {
             std::mem::swap(&mut tx_min, &mut tx_max);
         }
         if tx_max < 0. {
@@ -261,7 +261,7 @@ impl BBox3D {
             return false;
         }
 
-        if ty_min > ty_max {
+        if inv_dir.y < 0. {
             std::mem::swap(&mut ty_min, &mut ty_max);
         }
         if ty_max < 0. {
@@ -287,7 +287,7 @@ impl BBox3D {
 
         // let mut tz_min = (self.min.z - ray.origin.z) * inv_dir.z;
         // let mut tz_max = (self.max.z - ray.origin.z) * inv_dir.z;
-        if tz_min > tz_max {
+        if inv_dir.z < 0. {
             std::mem::swap(&mut tz_min, &mut tz_max);
         }
         if tz_max < 0. {
@@ -309,8 +309,9 @@ impl BBox3D {
             tx_max = tz_max;
         }
 
-        // return
-        tx_max > tx_min && tx_max > 0.
+        // A ray running along a face (i.e., 0 * inf) has a NaN time in that
+        // dimension, which shall not discard the box.
+        !(tx_max <= tx_min || tx_max <= 0.)
     }
 }
 
-- 
2.43.0


From aefd528d2c55ff4d333805dbe92c4ce2edb68922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:37 +0000
Subject: [PATCH 13/30] fix: rays through deep bounding volume trees overflowed
 the traversal stack (tree depth is now bounded)

---
 rendering/src/bvh.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rendering/src/bvh.rs b/rendering/src/bvh.rs
index e9708e7..50a805f 100644
--- a/rendering/src/bvh.rs
+++ b/rendering/src/bvh.rs
@@ -32,6 +32,10 @@ use std::cmp::Ordering;
 
 use crate::{ax, ay, az, bx, by, bz, cx, cy, cz};
 
+/// The maximum number of levels in a [`BoundingVolumeTree`]. Traversing the
+/// tree needs an array with this many elements.
+const MAX_DEPTH: usize = 32;
+
 #[derive(Copy, Clone)]
 struct BucketInfo {
     count: usize,
@@ -158,6 +162,7 @@ impl Node {
         primitives_info: &mut [ObjectInfo],
         start: usize,
         end: usize,
+        depth: usize,
         total_nodes: &mut usize,
         ordered_triangles: &mut Vec<DestructuredTriangle>,
         ordered_mapping: &mut Vec<usize>,
@@ -232,6 +237,8 @@ impl Node {
         const N_BUCKETS: usize = 12;
         const RELATIVE_TRANSVERSAL_COST: Float = 10.;
         // Now, Proceed
+        // The number of levels that a subtree needs if it is always split in half
+        let min_levels = (usize::BITS - (n_primitives - 1).leading_zeros()) as usize;
         if len_axis < 1e-8 {
             // All primitives seem to be aligned in all directions (i.e., overlapping)
             // Put them al together in a Leaf
@@ -248,8 +255,8 @@ impl Node {
             return Node::new_leaf(first_prim_offset, n_primitives, bounds);
         } else {
             // Line 306 of https://github.com/mmp/pbrt-v3/blob/master/src/accelerators/bvh.cpp
-            if n_primitives <= TOO_FEW_TO_BUCKET {
-                // too few... just split in half,
+            if n_primitives <= TOO_FEW_TO_BUCKET || depth + min_levels >= MAX_DEPTH {
+                // too few, or too deep... just split in half,
                 let this_mid = (end - start) / 2;
 
                 mid = Some(this_mid); // this operation rounds results
@@ -371,6 +378,7 @@ impl Node {
             primitives_info,
             start,
             mid,
+            depth + 1,
             total_nodes,
             ordered_triangles,
             ordered_mapping,
@@ -383,6 +391,7 @@ impl Node {
             primitives_info,
             mid,
             end,
+            depth + 1,
             total_nodes,
             ordered_triangles,
             ordered_mapping,
@@ -462,6 +471,7 @@ impl BoundingVolumeTree {
             &mut primitives_info,
             0,
             n_objects,
+            0,
             &mut total_nodes,
             &mut ordered_triangles,
             &mut ordered_mapping,
-- 
2.43.0


From b7bae66518243c9b095fbbddfe59f9f813e507b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:51 +0000
Subject: [PATCH 14/30] fix: a leaf of the bounding volume tree lost triangles
 when it had more than 32767

---
 rendering/src/bvh.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rendering/src/bvh.rs b/rendering/src/bvh.rs
index 50a805f..2c42a74 100644
--- a/rendering/src/bvh.rs
+++ b/rendering/src/bvh.rs
@@ -239,7 +239,7 @@ impl Node {
         // Now, Proceed
         // The number of levels that a subtree needs if it is always split in half
         let min_levels = (usize::BITS - (n_primitives - 1).leading_zeros()) as usize;
-        if len_axis < 1e-8 {
+        if len_axis < 1e-8 && n_primitives <= i16::MAX as usize {
             // All primitives seem to be aligned in all directions (i.e., overlapping)
             // Put them al together in a Leaf
             let first_prim_offset = ordered_triangles.len();
@@ -255,8 +255,11 @@ impl Node {
             return Node::new_leaf(first_prim_offset, n_primitives, bounds);
         } else {
             // Line 306 of https://github.com/mmp/pbrt-v3/blob/master/src/accelerators/bvh.cpp
-            if n_primitives <= TOO_FEW_TO_BUCKET || depth + min_levels >= MAX_DEPTH {
-                // too few, or too deep... just split in half,
+            if n_primitives <= TOO_FEW_TO_BUCKET
+                || len_axis < 1e-8
+                || depth + min_levels >= MAX_DEPTH
+            {
+                // too few, too many in the same place, or too deep... just split in half,
                 let this_mid = (end - start) / 2;
 
                 mid = Some(this_mid); // this operation rounds results
-- 
2.43.0


From f3efc5de45503b551b81c10947b0367d0a511087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 15/30] fix: vertical cavities panicked at a Rayleigh number of
 exactly 5e4

---
 heat/src/gas.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/heat/src/gas.rs b/heat/src/gas.rs
index 8b4c3a0..7b4e8c7 100644
--- a/heat/src/gas.rs
+++ b/heat/src/gas.rs
@@ -289,11 +289,9 @@ fn nu_90(ra: Float, a_gi: Float) -> Float {
     } else if ra < 5e4 {
         // Eq. 51
         0.028154 * ra.powf(0.4134)
-    } else if ra > 5e4 {
+    } else {
         // Eq. 50
         0.0673838 * ra.powf(1. / 3.)
-    } else {
-        unreachable!()
     };
     // Eq. 53
     let nu2 = 0.242 * (ra / a_gi).powf(0.272);
-- 
2.43.0


From d100091e2351776abe684279673eeec677e0e459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 16/30] fix: horizontal cavities heated from above used the
 correlation for heated from below (180 degrees wrapped to 0)

---
 heat/src/gas.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/heat/src/gas.rs b/heat/src/gas.rs
index 7b4e8c7..a888d78 100644
--- a/heat/src/gas.rs
+++ b/heat/src/gas.rs
@@ -198,7 +198,12 @@ fn nusselt(ra: Float, gamma: Float, a_gi: Float) -> Float {
     const THIRTY_RAD: Float = 30. * crate::PI / 180.;
     const EPSILON_RAD: Float = 0.5 * crate::PI / 180.;
 
-    let gamma = gamma % crate::PI;
+    // Note that 180 degrees is horizontal as well, but heated from above
+    let gamma = if gamma > crate::PI {
+        gamma % crate::PI
+    } else {
+        gamma
+    };
 
     if (0.0..2. * THIRTY_RAD - EPSILON_RAD).contains(&gamma) {
         // Between 0 and 60 degrees
@@ -212,7 +217,7 @@ fn nusselt(ra: Float, gamma: Float, a_gi: Float) -> Float {
     } else if gamma < 3. * THIRTY_RAD + EPSILON_RAD {
         // 90 degrees
         nu_90(ra, a_gi)
-    } else if gamma < 6. * THIRTY_RAD {
+    } else if gamma <= crate::PI {
         // between 90 and 180 degrees
         nu_90_180(ra, a_gi, gamma)
     } else {
-- 
2.43.0


From 94daa9c7130f2b4f9aa659339904c7f6645d486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 17/30] fix: the thermal model converted the wind direction to
 radians twice

---
 heat/src/heat_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat/src/heat_model.rs b/heat/src/heat_model.rs
index b4a4de0..274bbd1 100644
--- a/heat/src/heat_model.rs
+++ b/heat/src/heat_model.rs
@@ -416,7 +416,7 @@ impl SimulationModel for ThermalModel {
             // advance in time
             date.add_seconds(self.dt);
             let current_weather = weather.get_weather_data(date);
-            let wind_direction = current_weather.wind_direction.to_radians();
+            let wind_direction = current_weather.wind_direction; // already in radians
             let wind_speed = current_weather.wind_speed;
 
             let t_out = current_weather.dry_bulb_temperature;
-- 
2.43.0


From 1c46656263a7df25fa645d4e8cbb1d565d9a7d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 18/30] fix: a zone that exchanges heat with nothing ignored
 the heat it receives

---
 heat/src/heat_model.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/heat/src/heat_model.rs b/heat/src/heat_model.rs
index 274bbd1..34a3552 100644
--- a/heat/src/heat_model.rs
+++ b/heat/src/heat_model.rs
@@ -684,7 +684,8 @@ impl ThermalModel {
                             * (1.0 - (-b[i] * future_time / c[i]).exp()),
                 );
             } else {
-                ret.push(current_temp);
+                // nothing pulls the temperature back; it just accumulates whatever heat it gets
+                ret.push(current_temp + a[i] * future_time / (2. * c[i]));
             }
         }
 
@@ -713,8 +714,9 @@ impl ThermalModel {
                     a[i] / b[i] + (t_current[i] - a[i] / b[i]) * (-b[i] * future_time / c[i]).exp(),
                 );
             } else {
-                // A space that is disconnected from everything... maintains its temperature
-                ret.push(t_current[i]);
+                // A space that is disconnected from everything... maintains its temperature, or
+                // accumulates whatever heat it gets
+                ret.push(t_current[i] + a[i] * future_time / c[i]);
             }
         }
 
-- 
2.43.0


From b966ef5593f8e2a8f23874dedafcea9f89780407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 19/30] fix: radiation on the back of a construction used the
 front properties of its layers

---
 heat/src/glazing.rs | 11 +++++++++++
 heat/src/surface.rs |  6 +++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/heat/src/glazing.rs b/heat/src/glazing.rs
index 020764e..91ac8ce 100644
--- a/heat/src/glazing.rs
+++ b/heat/src/glazing.rs
@@ -64,6 +64,17 @@ impl Glazing {
         }
     }
 
+    /// The same layer, seen from its other side (i.e., its front becomes its back)
+    pub fn flipped(&self) -> Self {
+        Self {
+            tau: self.tau,
+            rho_front: self.rho_back,
+            rho_back: self.rho_front,
+            alpha_front: self.alpha_back,
+            alpha_back: self.alpha_front,
+        }
+    }
+
     fn get_glazing_from_iter<T>(mut i: T, model: &Model, cap: usize) -> Result<Vec<Glazing>, String>
     where
         T: std::iter::Iterator<Item = String>,
diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index f5b12a4..ff37b5a 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -431,7 +431,11 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
 
         // Calculate solar absoption
         let front_glazing = Glazing::get_front_glazing_system(construction, model)?;
-        let back_glazing = Glazing::get_back_glazing_system(construction, model)?;
+        // Radiation reaching the back of the construction sees the back of each layer first.
+        let back_glazing: Vec<Glazing> = Glazing::get_back_glazing_system(construction, model)?
+            .iter()
+            .map(|g| g.flipped())
+            .collect();
         // These two are the absorbtion of each glazing layer. We need the absorption of each node
         let front_alphas_prev = Glazing::alphas(&front_glazing);
 
-- 
2.43.0


From 385850ed72a6a6c2400ac5f32cd7f8f5d62c74f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 20/30] fix: glazing with transmittance and absorbtance adding
 to 1 could panic because of rounding (e.g. 0.9 and 0.1)

---
 heat/src/glazing.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/heat/src/glazing.rs b/heat/src/glazing.rs
index 91ac8ce..e5b739d 100644
--- a/heat/src/glazing.rs
+++ b/heat/src/glazing.rs
@@ -75,6 +75,17 @@ impl Glazing {
         }
     }
 
+    /// What is neither transmitted nor absorbed is reflected. This is never
+    /// negative just because of rounding errors (e.g., 1 - 0.9 - 0.1).
+    fn reflectance(tau: Float, alpha: Float) -> Float {
+        let rho = 1. - tau - alpha;
+        if rho < 0.0 && rho > -1e-9 {
+            0.0
+        } else {
+            rho
+        }
+    }
+
     fn get_glazing_from_iter<T>(mut i: T, model: &Model, cap: usize) -> Result<Vec<Glazing>, String>
     where
         T: std::iter::Iterator<Item = String>,
@@ -94,8 +105,8 @@ impl Glazing {
                     let tau = s.solar_transmittance().unwrap_or(&0.0);
                     let alpha_front = s.front_solar_absorbtance().unwrap_or(&0.84);
                     let alpha_back = s.back_solar_absorbtance().unwrap_or(&0.84);
-                    let rho_front = 1. - tau - alpha_front;
-                    let rho_back = 1. - tau - alpha_back;
+                    let rho_front = Self::reflectance(*tau, *alpha_front);
+                    let rho_back = Self::reflectance(*tau, *alpha_back);
                     ret.push(Glazing::new(*tau, rho_front, rho_back));
 
                     // if not translucent, then we are done.
-- 
2.43.0


From d2fb8b72940708854aff142d2f15da06f75411b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:00 +0000
Subject: [PATCH 21/30] fix: natural convection at a front that faces a space
 or an ambient temperature took the air's stability the other way around (e.g.
 above warm floors)

---
 heat/src/convection.rs | 9 +++++----
 heat/src/surface.rs    | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/heat/src/convection.rs b/heat/src/convection.rs
index dd98051..91da372 100644
--- a/heat/src/convection.rs
+++ b/heat/src/convection.rs
@@ -46,8 +46,9 @@ pub struct ConvectionParams {
     /// The roughness index, between 1 (Very Rough) and 6 (Very smooth)
     pub roughness_index: usize,
 
-    /// The cosine of the surface tilt. Zero is 90 degrees; >0 means
-    /// facing up; <0 means facing down
+    /// The cosine of the tilt of the other side of the surface (i.e., the side
+    /// away from this air). Zero is 90 degrees; >0 means that the air is below
+    /// the surface; <0 means that it is above
     pub cos_surface_tilt: Float,
 }
 
@@ -73,13 +74,13 @@ impl ConvectionParams {
     /// h = 1.31|\Delta T|^{1/3}
     /// ```
     ///
-    /// ## `aux < 0.0`
+    /// ## `aux > 0.0`
     ///
     /// ```math
     /// h = \frac{9.482 |\Delta T|^{1/3}}{7.238 - |cos(\theta)|}
     /// ```
     ///
-    /// ## `aux > 0.0`    
+    /// ## `aux < 0.0`
     ///
     /// ```math
     /// h = \frac{1.81 |\Delta T|^{1/3}}{1.382 + |cos(\theta)|}
diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index ff37b5a..4081fbc 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -610,7 +610,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     rad_temperature: t_front,
                     surface_temperature: self.parent.front_temperature(state),
                     roughness_index: 1,
-                    cos_surface_tilt: self.cos_tilt,
+                    cos_surface_tilt: -self.cos_tilt,
                 };
 
                 let front_hs = match self.front_hs {
@@ -627,7 +627,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     rad_temperature: *temperature,
                     surface_temperature: self.parent.front_temperature(state),
                     roughness_index: 1,
-                    cos_surface_tilt: self.cos_tilt,
+                    cos_surface_tilt: -self.cos_tilt,
                 };
 
                 let front_hs = match self.front_hs {
-- 
2.43.0


From 3bced0e7202fd0acf7dbe1f5574c231a3e61196c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:00 +0000
Subject: [PATCH 22/30] fix: convection at a back that faces an ambient
 temperature used the temperature of the front

---
 heat/src/surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index 4081fbc..6b0e9bc 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -688,7 +688,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     air_temperature: *temperature,
                     air_speed: 0.0,
                     rad_temperature: *temperature,
-                    surface_temperature: self.parent.front_temperature(state),
+                    surface_temperature: self.parent.back_temperature(state),
                     roughness_index: 1,
                     cos_surface_tilt: self.cos_tilt,
                 };
-- 
2.43.0


From 01441ba6637b3f9066c6435b237813c9333228a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:00 +0000
Subject: [PATCH 23/30] fix: a back that faces outdoors was windward when the
 front was

---
 heat/src/surface.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index 6b0e9bc..9aa24d3 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -583,6 +583,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
         let ir_back = self.parent.back_infrared_irradiance(state);
 
         let windward = is_windward(wind_direction, self.cos_tilt, self.normal);
+        let back_windward = is_windward(wind_direction, self.cos_tilt, self.normal * -1.);
 
         // TODO: There is something to do here if we are talking about windows
         let (front_env, mut front_hs) = match &self.front_boundary {
@@ -716,7 +717,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     None => back_env.get_tarp_convection_coefficient(
                         self.area,
                         self.perimeter,
-                        windward,
+                        back_windward,
                     ),
                 };
 
-- 
2.43.0


From c47161ec2bb405c3f71f66cdfae89384d25069be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:15 +0000
Subject: [PATCH 24/30] fix: negative solar irradiance at the back of a surface
 was not treated as zero (the test looked at the front)

---
 heat/src/surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index 9aa24d3..b25b34d 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -1272,7 +1272,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
             solar_front = 0.0;
         }
         let mut solar_back = self.parent.back_solar_irradiance(state);
-        if solar_back.is_nan() || solar_front < 0.0 {
+        if solar_back.is_nan() || solar_back < 0.0 {
             solar_back = 0.0;
         }
 
-- 
2.43.0


From 94b22dafbc3a0b92278c997c92dc0bc262810407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:32 +0000
Subject: [PATCH 25/30] fix: the direct solar radiation of a totally overcast
 sky (no global radiation) was NaN instead of zero

---
 weather/src/solar/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weather/src/solar/mod.rs b/weather/src/solar/mod.rs
index f2054a4..075614e 100644
--- a/weather/src/solar/mod.rs
+++ b/weather/src/solar/mod.rs
@@ -484,7 +484,7 @@ impl Solar {
         let kt = self.hourly_clearness_index(n, global_normal_radiation);
         let extra_rad = global_normal_radiation / kt; // extraterrestrial;
                                                       // dbg!(extra_rad);
-        if kt < 0.0 {
+        if kt <= 0.0 {
             return 0.0;
         }
         let kt = kt.clamp(0.0, 1.0);
-- 
2.43.0


From 724899d991f52a1a737ea2b4d3521a140c10751e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:32 +0000
Subject: [PATCH 26/30] fix: a direct normal radiation that is not a number was
 not replaced by zero (no number is NaN and infinite at once)

---
 weather/src/solar/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weather/src/solar/mod.rs b/weather/src/solar/mod.rs
index 075614e..5252e36 100644
--- a/weather/src/solar/mod.rs
+++ b/weather/src/solar/mod.rs
@@ -356,7 +356,7 @@ impl Solar {
             next_hour_data,
             prev_hour_data,
         );
-        if direct_normal_radiation.is_nan() && direct_normal_radiation.is_infinite() {
+        if direct_normal_radiation.is_nan() || direct_normal_radiation.is_infinite() {
             direct_normal_radiation = 0.0;
         }
 
-- 
2.43.0


From eec2236e5102eba77f9c1ea752fb18c85de56c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:33 +0000
Subject: [PATCH 27/30] fix: Perez's coefficients of direct radiation were
 looked up with the bins of the change in clearness and of the precipitable
 water swapped

---
 weather/src/solar/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weather/src/solar/mod.rs b/weather/src/solar/mod.rs
index 5252e36..ea42a96 100644
--- a/weather/src/solar/mod.rs
+++ b/weather/src/solar/mod.rs
@@ -614,7 +614,7 @@ impl Solar {
         let w_bin = perez_direct_rad_w_bin(w);
         let delta_ktp_bin = perez_direct_rad_delta_kt_bin(delta_kt_p);
 
-        let x = perez_direct_rad_coefs(ktp_bin, zeta_bin, w_bin, delta_ktp_bin);
+        let x = perez_direct_rad_coefs(ktp_bin, zeta_bin, delta_ktp_bin, w_bin);
 
         x * self.disc_direct_solar(
             n,
@@ -712,7 +712,7 @@ fn perez_direct_rad_w_bin(w: Float) -> usize {
 }
 
 /// Gets the coefficients to be used in equation 5 of /// Ineichen, P., Perez, R. R., Seal, R. D., Maxwell, E. L., & Zalenka, A. J. A. T. (1992). Dynamic global-to-direct irradiance conversion models. ASHRAE transactions, 98(1), 354-369.    
-fn perez_direct_rad_coefs(kt_p: usize, zenith: usize, prec_water: usize, delta_kt: usize) -> Float {
+fn perez_direct_rad_coefs(kt_p: usize, zenith: usize, delta_kt: usize, prec_water: usize) -> Float {
     const C00: [Float; 35] = [
         0.385230, 0.385230, 0.385230, 0.462880, 0.317440, 0.338390, 0.338390, 0.221270, 0.316730,
         0.503650, 0.235680, 0.235680, 0.241280, 0.157830, 0.269440, 0.830130, 0.830130, 0.171970,
@@ -968,7 +968,7 @@ fn perez_direct_rad_coefs(kt_p: usize, zenith: usize, prec_water: usize, delta_k
         0.518640, 0.339970, 0.520230, 0.743440, 0.592190, 0.603060, 0.316930, 0.794390,
     ];
 
-    let i = prec_water * 5 + delta_kt;
+    let i = delta_kt * 5 + prec_water;
 
     match (kt_p, zenith) {
         (0, 0) => C00[i],
-- 
2.43.0


From f7829964d345995ca1732ca510932f7b415c7955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:44 +0000
Subject: [PATCH 28/30] fix: update_sky_vec added the new sky to the one
 already in the vector

---
 weather/src/solar/perez.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/weather/src/solar/perez.rs b/weather/src/solar/perez.rs
index 8002443..410e807 100644
--- a/weather/src/solar/perez.rs
+++ b/weather/src/solar/perez.rs
@@ -431,6 +431,11 @@ impl PerezSky {
             return Err(format!("when update_sky_vec() : number of elements of input vector ({}) does not match the number of bins for the Reinhart subdivition (MF {} require {} bins)", rows, mf, r.n_bins));
         }
 
+        // Forget the previous sky
+        for bin in 0..r.n_bins {
+            vec.set(bin, 0, 0.0)?;
+        }
+
         let dew_point = weather_data.dew_point_temperature;
         let diffuse_horizontal_irrad = weather_data.diffuse_horizontal_radiation;
         let direct_normal_irrad = weather_data.direct_normal_radiation;
-- 
2.43.0


From fea801e77b7c556e4948c47dea47a5dd927ff9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:46 +0000
Subject: [PATCH 29/30] fix: the luminance of a Perez sky was zero exactly at
 the sun when rounding put the cosine above one

---
 weather/src/solar/perez.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weather/src/solar/perez.rs b/weather/src/solar/perez.rs
index 410e807..5b7a819 100644
--- a/weather/src/solar/perez.rs
+++ b/weather/src/solar/perez.rs
@@ -337,7 +337,8 @@ impl PerezSky {
         let ret = move |dir: Vector3D| -> Float {
             debug_assert!((1. - dir.length()) < 1e-5);
 
-            let cosgamma = sun_position * dir;
+            // rounding may put this slightly out of the domain of `acos`
+            let cosgamma = (sun_position * dir).clamp(-1., 1.);
             let gamma = cosgamma.acos();
 
             const MIN_DZ: Float = 0.01;
-- 
2.43.0


From c616a5f2aa4ca288aa92820cf024dce4ebc5ea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:46 +0000
Subject: [PATCH 30/30] fix: the n-diagonal product kept not-a-number and
 infinite values from the destination

---
 matrix/src/generic_matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/src/generic_matrix.rs b/matrix/src/generic_matrix.rs
index c5c7504..f8a1e0c 100644
--- a/matrix/src/generic_matrix.rs
+++ b/matrix/src/generic_matrix.rs
@@ -312,7 +312,7 @@ impl<T: Numberish> GenericMatrix<T> {
         }
 
         // Clear
-        *into *= T::zero();
+        into.data.fill(T::zero());
 
         // Multiply.
         let i = self.data.chunks_exact(self.ncols);
-- 
2.43.0

