From f85e6793b8fafee6d57417aa787a20855cff60ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 01/54] fix: split at an existing interior knot inserts only
 the missing multiplicity

Splitting a curve or surface at a parameter that is already an interior knot
inserted degree + 1 further copies, so the end knot of the pieces had too high a
multiplicity and evaluating them there gave NaN.
---
 src/split/mod.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/split/mod.rs b/src/split/mod.rs
index 8fde919..59e523e 100644
--- a/src/split/mod.rs
+++ b/src/split/mod.rs
@@ -3,6 +3,7 @@ use nalgebra::{allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, Dim
 
 use crate::{
     curve::NurbsCurve,
+    knot::KnotVector,
     misc::{transpose_control_points, FloatingPoint},
     surface::{NurbsSurface, UVDirection},
 };
@@ -42,12 +43,13 @@ where
     /// ```
     fn try_split(&self, u: T) -> anyhow::Result<(Self, Self)> {
         let u = self.knots().clamp(self.degree(), u);
-        let knots_to_insert = (0..=self.degree()).map(|_| u).collect_vec();
+        let multiplicity = interior_multiplicity(self.knots(), self.degree(), u);
+        let knots_to_insert = (multiplicity..=self.degree()).map(|_| u).collect_vec();
         let mut cloned = self.clone();
         cloned.try_refine_knot(knots_to_insert)?;
 
         let n = self.knots().len() - self.degree() - 2;
-        let s = self.knots().find_knot_span_index(n, self.degree(), u);
+        let s = self.knots().find_knot_span_index(n, self.degree(), u) - multiplicity;
         let knots0 = cloned.knots().as_slice()[0..=(s + self.degree() + 1)].to_vec();
         let knots1 = cloned.knots().as_slice()[s + 1..].to_vec();
         let cpts0 = cloned.control_points()[0..=s].to_vec();
@@ -59,6 +61,16 @@ where
     }
 }
 
+/// Number of occurrences of the parameter in the knot vector if it lies strictly inside the domain
+fn interior_multiplicity<T: FloatingPoint>(knots: &KnotVector<T>, degree: usize, u: T) -> usize {
+    let (min, max) = knots.domain(degree);
+    if min < u && u < max {
+        knots.iter().filter(|k| **k == u).count()
+    } else {
+        0
+    }
+}
+
 /// Option for splitting a surface
 #[derive(Clone, Debug)]
 pub struct SplitSurfaceOption<T: FloatingPoint> {
@@ -98,10 +110,13 @@ where
             }
         };
 
-        let knots_to_insert = (0..=degree).map(|_| option.parameter).collect_vec();
+        let multiplicity = interior_multiplicity(knots, degree, option.parameter);
+        let knots_to_insert = (multiplicity..=degree)
+            .map(|_| option.parameter)
+            .collect_vec();
 
         let n = knots.len() - degree - 2;
-        let s = knots.find_knot_span_index(n, degree, option.parameter);
+        let s = knots.find_knot_span_index(n, degree, option.parameter) - multiplicity;
 
         let curves = points
             .iter()
-- 
2.43.0


From 7228628674b4d51652024d834cb015a79d365812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 02/54] fix: inserting a knot into a rational curve
 interpolates the weights

try_add_knot dropped the change of the weight of every new control point, so a
curve with unequal weights changed its shape.
---
 src/curve/nurbs_curve.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 0db13b7..62310b1 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1327,7 +1327,10 @@ where
                 &self.control_points[i0] - &self.control_points[i0 - 1]
             };
             let mut p = delta_control_point * (T::one() - a);
-            p[D::dim() - 1] = T::zero();
+            if i0 == 0 || i0 == self.control_points.len() {
+                // keep the weight where there is no neighboring control point to blend with
+                p[D::dim() - 1] = T::zero();
+            }
             self.control_points[i0].coords -= p;
         }
 
-- 
2.43.0


From cbfc28ed3a853ea4e553981e2ce3fc201ae81574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 03/54] fix: knot removal uses the last index of the knot and
 signed comparisons

---
 src/curve/nurbs_curve.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 62310b1..ab7d278 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1371,8 +1371,8 @@ where
         let r = self
             .knots
             .iter()
-            .position(|k| *k == knot)
-            .ok_or(anyhow::anyhow!("Knot not found"))?; // index of the knot
+            .rposition(|k| *k == knot)
+            .ok_or(anyhow::anyhow!("Knot not found"))?; // last index of the knot
 
         let multiplicities = self.knots.multiplicity();
         let mult = multiplicities
@@ -1388,6 +1388,9 @@ where
                 "Knot is too close to the start of the curve"
             ));
         }
+        if r > n {
+            return Err(anyhow::anyhow!("Knot is too close to the end of the curve"));
+        }
         let mut first = r - p;
 
         if r <= s {
@@ -1415,7 +1418,7 @@ where
             let mut ii = 1usize;
             let mut jj = idx_temp_right - 1;
 
-            while j >= i && (j - i) > t {
+            while j > i + t {
                 // compute new control points for one removal step
                 let alfi =
                     (knot - removed_knots[i]) / (removed_knots[i + ord + t] - removed_knots[i]);
@@ -1443,7 +1446,7 @@ where
             }
 
             // check if knot removable
-            let remove = if j >= i && (j - i) < t {
+            let remove = if j < i + t {
                 let left = &temp[ii - 1];
                 let right = &temp[jj + 1];
                 (left - right).norm() <= tolerance
@@ -1466,7 +1469,7 @@ where
 
             let mut i2 = first;
             let mut j2 = last;
-            while j2 >= i2 && (j2 - i2) > t {
+            while j2 > i2 + t {
                 removed_control_points[i2] = temp[i2 - off].clone();
                 removed_control_points[j2] = temp[j2 - off].clone();
 
-- 
2.43.0


From aa00b8a72f79542342ef31d05a68ce8feed663e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 04/54] fix: degree elevation sizes its output, blends knot
 removals and clamps first

---
 src/curve/nurbs_curve.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index ab7d278..e7560c8 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1102,6 +1102,13 @@ where
             return Ok(self.clone());
         }
 
+        // the algorithm requires a clamped knot vector
+        if !self.is_clamped() {
+            let mut clamped = self.clone();
+            clamped.try_clamp()?;
+            return clamped.try_elevate_degree(target_degree);
+        }
+
         let n = self.knots.len() - self.degree - 2;
         let new_degree = self.degree;
         let knots = &self.knots;
@@ -1110,10 +1117,13 @@ where
 
         //intermediate values
         let mut bezalfs = vec![vec![T::zero(); new_degree + 1]; new_degree + degree_inc + 1];
-        let new_control_point_count = control_points.len() + degree_inc + 3;
-        let mut bpts = vec![OPoint::origin(); new_control_point_count];
-        let mut e_bpts = vec![OPoint::origin(); new_control_point_count];
-        let mut next_bpts = vec![OPoint::origin(); new_control_point_count];
+        // every distinct knot gains `degree_inc` multiplicity
+        let new_control_point_count =
+            control_points.len() + degree_inc * (knots.multiplicity().len() - 1);
+        let bezier_point_count = target_degree + 1;
+        let mut bpts = vec![OPoint::origin(); bezier_point_count];
+        let mut e_bpts = vec![OPoint::origin(); bezier_point_count];
+        let mut next_bpts = vec![OPoint::origin(); bezier_point_count];
 
         let m = n + new_degree + 1;
         let ph = target_degree;
@@ -1133,14 +1143,14 @@ where
         for i in 1..=ph2 {
             let inv = T::one() / binom.get(ph, i);
             let mpi = new_degree.min(i);
-            for j in 0.max(i - degree_inc)..=mpi {
+            for j in i.saturating_sub(degree_inc)..=mpi {
                 bezalfs[i][j] = inv * binom.get(new_degree, j) * binom.get(degree_inc, i - j);
             }
         }
 
         for i in (ph2 + 1)..ph {
             let mpi = new_degree.min(i);
-            for j in 0.max(i - degree_inc)..=mpi {
+            for j in i.saturating_sub(degree_inc)..=mpi {
                 bezalfs[i][j] = bezalfs[ph - i][new_degree - j];
             }
         }
@@ -1178,11 +1188,7 @@ where
                 1
             };
             let rbz = if r > 0 {
-                (T::from_usize(ph).unwrap()
-                    - T::from_isize(r + 1).unwrap() / T::from_f64(2.).unwrap())
-                .floor()
-                .to_usize()
-                .unwrap()
+                ph - (r as usize).div_ceil(2)
             } else {
                 ph
             };
@@ -1209,7 +1215,7 @@ where
             for i in lbz..=ph {
                 e_bpts[i] = OPoint::origin();
                 let mpi = new_degree.min(i);
-                for j in 0.max(i - degree_inc)..=mpi {
+                for j in i.saturating_sub(degree_inc)..=mpi {
                     e_bpts[i].coords = &e_bpts[i].coords + &bpts[j].coords * bezalfs[i][j];
                 }
             }
@@ -1233,9 +1239,9 @@ where
                             if (j as isize) - tr <= (kind as isize - ph as isize + oldr) {
                                 let gam = (ub - u_h[j - utr]) / den;
                                 e_bpts[kj] = e_bpts[kj].lerp(&e_bpts[kj + 1], T::one() - gam);
+                            } else {
+                                e_bpts[kj] = e_bpts[kj].lerp(&e_bpts[kj + 1], T::one() - bet);
                             }
-                        } else {
-                            e_bpts[kj] = e_bpts[kj].lerp(&e_bpts[kj + 1], T::one() - bet);
                         }
                         i += 1;
                         j -= 1;
-- 
2.43.0


From cd0da62020bcca948bee3b1d91d407a52fec6286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 05/54] fix: pick the isocurve's control points at knots of any
 multiplicity

---
 src/surface/nurbs_surface.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 0b380f7..9a85af9 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -781,16 +781,17 @@ where
             Cow::Borrowed(self)
         };
 
-        let span = if (t - knots.first()).abs() < T::default_epsilon() {
-            0
-        } else if (t - knots.last()).abs() < T::default_epsilon() {
-            match direction {
-                UVDirection::U => refined.control_points.len() - 1,
-                UVDirection::V => refined.control_points[0].len() - 1,
-            }
-        } else {
-            knots.find_knot_span_index(knots.len() - degree - 2, degree, t)
+        // The refined knots contain `degree + 1` copies of t,
+        // the row which starts at the first copy interpolates the surface at t
+        let (refined_knots, rows) = match direction {
+            UVDirection::U => (&refined.u_knots, refined.control_points.len()),
+            UVDirection::V => (&refined.v_knots, refined.control_points[0].len()),
         };
+        let span = refined_knots
+            .iter()
+            .position(|k| (t - *k).abs() < T::default_epsilon())
+            .ok_or(anyhow::anyhow!("Failed to refine the surface at t"))?
+            .min(rows - 1);
 
         match direction {
             UVDirection::U => NurbsCurve::try_new(
-- 
2.43.0


From c143fca77014e832d4c25cc4db8cce615d18f9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 06/54] fix: regularly sampled surface derivatives of any order
 and degrees

---
 src/surface/nurbs_surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 9a85af9..288c599 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -330,7 +330,7 @@ where
         } else {
             self.v_degree
         };
-        let mut skl = vec![vec![OVector::<T, D>::zeros(); du + 1]; dv + 1];
+        let mut skl = vec![vec![OVector::<T, D>::zeros(); derivs + 1]; derivs + 1];
 
         for k in 0..=du {
             let mut temp = vec![];
-- 
2.43.0


From f1fca7f717f4858b76834432d8109cc1df7a3b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 07/54] fix: refuse to interpolate when the system has no
 solution

---
 src/curve/nurbs_curve.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index e7560c8..100f1bc 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -2179,7 +2179,7 @@ fn try_solve_interpolation<T: FloatingPoint>(
     let n = points.len();
     let dim = points[0].len();
 
-    let lu = m_a.lu();
+    let lu = m_a.clone().lu();
     let mut m_x = DMatrix::<T>::identity(n, dim);
     let rows = m_x.nrows();
     for i in 0..dim {
@@ -2187,6 +2187,12 @@ fn try_solve_interpolation<T: FloatingPoint>(
         let b = DVector::from_vec(b);
         // println!("b = {:?}", &b);
         let xs = lu.solve(&b).ok_or(anyhow::anyhow!("Solve failed"))?;
+        // a numerically singular system has no solution (e.g. periodic & even degree & even number of points)
+        let error = (&m_a * &xs - &b).amax() + xs.amax() * T::default_epsilon();
+        anyhow::ensure!(
+            error <= b.amax() * T::default_epsilon().sqrt(),
+            "Solve failed"
+        );
         for j in 0..rows {
             m_x[(j, i)] = xs[j];
         }
-- 
2.43.0


From 39e2ce1d30cef617563701616b102bdea5f022ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 08/54] fix: elliptical arcs use the ellipse's tangents and
 enough segments

---
 src/curve/nurbs_curve.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 100f1bc..4374028 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -949,14 +949,16 @@ where
 
         let theta = end_angle - start_angle;
 
-        let arcs = (theta / T::from_f64(FRAC_PI_2).unwrap()).floor().to_usize();
+        let arcs = (theta / T::from_f64(FRAC_PI_2).unwrap()).ceil().to_usize();
         let arcs = arcs.unwrap_or(1).clamp(1, 4);
         let dtheta = theta / T::from_usize(arcs).unwrap();
         let w1 = (dtheta / T::from_f64(2.0).unwrap()).cos();
         let mut p0 = center
             + &x_axis * x_radius * start_angle.cos()
             + &y_axis * y_radius * start_angle.sin();
-        let mut t0 = &y_axis * start_angle.cos() - &x_axis * start_angle.sin();
+        // the tangent of the ellipse, i.e. the derivative with respect to the angle
+        let mut t0 =
+            &y_axis * y_radius * start_angle.cos() - &x_axis * x_radius * start_angle.sin();
 
         let n = 2 * arcs + 1;
         let degree = 2;
@@ -971,14 +973,14 @@ where
 
             let p2 = center + &x_axis * x_radius * angle.cos() + &y_axis * y_radius * angle.sin();
 
-            let t2 = &y_axis * angle.cos() - &x_axis * angle.sin();
+            let t2 = &y_axis * y_radius * angle.cos() - &x_axis * x_radius * angle.sin();
             let ray = Ray::new(p0.clone(), t0.normalize());
             let other = Ray::new(p2.clone(), t2.normalize());
             let intersection = ray
                 .find_intersection(&other)
                 .ok_or(anyhow::anyhow!("No intersection"))?;
 
-            let p1 = &p0 + &t0 * intersection.intersection0.1;
+            let p1 = intersection.intersection0.0;
 
             control_points[index + 2] = p2.clone();
             weights[index + 2] = T::one();
-- 
2.43.0


From 2f1cae7c99e95eb5576ae11b5b44793fb52d077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:16 +0000
Subject: [PATCH 09/54] fix: full circles and ellipses end exactly where they
 start

---
 src/curve/nurbs_curve.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 4374028..edbfbf9 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -966,12 +966,20 @@ where
         let mut weights = vec![T::one(); n];
         let mut knots = vec![T::zero(); n + degree + 1];
 
+        // a full turn ends exactly where it starts
+        let full_turn = (theta - T::from_f64(TAU).unwrap()).abs()
+            <= T::default_epsilon() * (T::one() + start_angle.abs() + end_angle.abs());
+
         let mut angle = start_angle;
         let mut index = 0;
         for i in 1..(arcs + 1) {
             angle += dtheta;
 
-            let p2 = center + &x_axis * x_radius * angle.cos() + &y_axis * y_radius * angle.sin();
+            let p2 = if full_turn && i == arcs {
+                control_points[0].clone()
+            } else {
+                center + &x_axis * x_radius * angle.cos() + &y_axis * y_radius * angle.sin()
+            };
 
             let t2 = &y_axis * y_radius * angle.cos() - &x_axis * x_radius * angle.sin();
             let ray = Ray::new(p0.clone(), t0.normalize());
-- 
2.43.0


From fd53acacf1b88c4dccc21de6a97964d9cf4fa223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:01 +0000
Subject: [PATCH 10/54] fix: measure and divide unclamped and small curves
 inside their domain

---
 src/curve/nurbs_curve.rs | 57 +++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 33 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index edbfbf9..0c88f26 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -450,40 +450,31 @@ where
         D: DimNameSub<U1>,
         DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
     {
-        let mult = self.knots.multiplicity();
-        let start = mult.first().unwrap().multiplicity();
-        let end = mult.last().unwrap().multiplicity();
-
-        let segments = self.try_decompose_bezier_segments()?;
-
-        // If the start/end parts of the knot vector are not duplicated,
-        // the Bezier segments will not be generated correctly,
-        // so reduce the number of segments by the amount that falls below the required duplication degree.
-        let required_multiplicity = self.degree + 1;
-        let i = required_multiplicity.saturating_sub(start);
-        let j = if end < required_multiplicity {
-            segments.len() - (required_multiplicity - end)
-        } else {
-            segments.len()
-        };
-        let segments = &segments[i..j];
-
-        let (_, u) = self.knots_domain();
+        let segments = self.try_domain_bezier_segments()?;
         let gauss = GaussLegendre::new(16 + self.degree)?;
-
-        if segments.len() <= 1 {
-            // If the curve is a single Bezier segment, compute the length directly
-            let l = compute_bezier_segment_length(self, u, &gauss);
-            return Ok(l);
-        }
-
         let length = segments
             .iter()
-            .map(|s| compute_bezier_segment_length(s, u, &gauss))
+            .map(|s| compute_bezier_segment_length(s, s.knots_domain().1, &gauss))
             .reduce(T::add);
         length.ok_or(anyhow::anyhow!("Failed to compute the length of the curve"))
     }
 
+    /// Decompose the curve into the Bezier segments that lie in its domain
+    /// (decomposing an unclamped curve also yields segments outside of it)
+    fn try_domain_bezier_segments(&self) -> anyhow::Result<Vec<Self>> {
+        let (start, end) = self.knots_domain();
+        let half = T::from_f64(0.5).unwrap();
+        Ok(self
+            .try_decompose_bezier_segments()?
+            .into_iter()
+            .filter(|s| {
+                let (k0, k1) = s.knots_domain();
+                let middle = (k0 + k1) * half;
+                start < middle && middle < end
+            })
+            .collect())
+    }
+
     /// Compute the parameter at a given length
     /// `tolerance` defines the precision of the result (default: 1e-4)
     /// # Example
@@ -513,7 +504,7 @@ where
             return Ok(self.knots_domain().0);
         }
 
-        let segments = self.try_decompose_bezier_segments()?;
+        let segments = self.try_domain_bezier_segments()?;
         let gauss = GaussLegendre::new(16 + self.degree)?;
         let tolerance = tolerance.unwrap_or(T::from_f64(1e-4).unwrap());
 
@@ -571,21 +562,22 @@ where
     {
         anyhow::ensure!(length > T::zero(), "The length must be greater than zero");
 
-        let segments = self.try_decompose_bezier_segments()?;
+        let segments = self.try_domain_bezier_segments()?;
         let lengthes = segments
             .iter()
             .map(|s| s.try_length())
             .collect::<anyhow::Result<Vec<_>>>()?;
         let total = lengthes.iter().fold(T::zero(), |a, b| a + *b);
+        let eps = length * T::from_f64(1e-6).unwrap();
 
         anyhow::ensure!(
-            total > length,
+            total + eps > length,
             "The curve is too short to divide by the given length total:{}, given length:{}",
             total,
             length
         );
 
-        let mut samples = vec![CurveLengthParameter::new(self.knots.first(), T::zero())];
+        let mut samples = vec![CurveLengthParameter::new(self.knots_domain().0, T::zero())];
 
         let mut i = 0;
         let mut lc = length;
@@ -594,8 +586,7 @@ where
         let mut acc_prev = T::zero();
 
         let gauss = GaussLegendre::new(16 + self.degree)?;
-        let eps = T::from_f64(1e-6).unwrap();
-        let tolerance = T::from_f64(1e-3 * 2.5).unwrap();
+        let tolerance = length * T::from_f64(1e-6).unwrap();
 
         while i < segments.len() {
             let current_length = lengthes[i];
-- 
2.43.0


From 791d346b8c1bfb2a3350470b3d47664df02620a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 11/54] fix: closest parameter of a curve searches every span
 and never leaves the domain

---
 .../curve_closest_parameter_newton.rs         |   2 +-
 src/curve/nurbs_curve.rs                      | 103 +++++++++++++-----
 2 files changed, 75 insertions(+), 30 deletions(-)

diff --git a/src/closest_parameter/curve_closest_parameter_newton.rs b/src/closest_parameter/curve_closest_parameter_newton.rs
index 1b4b7de..4dc2b76 100644
--- a/src/closest_parameter/curve_closest_parameter_newton.rs
+++ b/src/closest_parameter/curve_closest_parameter_newton.rs
@@ -70,7 +70,7 @@ where
         // Constrain the parameter to the domain
         let new_param = if new_param < self.knot_domain.0 {
             if self.closed {
-                self.knot_domain.1 - (new_param - self.knot_domain.0)
+                self.knot_domain.1 - (self.knot_domain.0 - new_param)
             } else {
                 self.knot_domain.0
             }
diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 0c88f26..7bb3050 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -7,7 +7,7 @@ use itertools::Itertools;
 use nalgebra::allocator::Allocator;
 use nalgebra::{
     Const, DMatrix, DVector, DefaultAllocator, DimName, DimNameAdd, DimNameDiff, DimNameSub,
-    DimNameSum, OMatrix, OPoint, OVector, RealField, Rotation3, UnitVector3, Vector3, U1,
+    DimNameSum, OMatrix, OPoint, OVector, Rotation3, UnitVector3, Vector3, U1,
 };
 use simba::scalar::SupersetOf;
 
@@ -1688,44 +1688,89 @@ where
         T: ArgminFloat,
     {
         let (min_u, max_u) = self.knots_domain();
-        let samples = self.control_points.len() * self.degree;
-        let pts = self.sample_regular_range_with_parameter(min_u, max_u, samples);
-
-        let mut min = <T as RealField>::max_value().unwrap();
-        let mut u = min_u;
-
         let closed = self.is_closed();
+        let distance = |u: T| (self.point_at(u) - point).norm();
+
+        // sample every knot span so that no corner of the curve is skipped
+        let mut breaks = vec![min_u];
+        breaks.extend(self.knots.iter().filter(|k| min_u < **k && **k < max_u));
+        breaks.push(max_u);
+        breaks.dedup();
+        let divs = self.degree * 4;
+        let mut params: Vec<T> = breaks
+            .windows(2)
+            .flat_map(|w| {
+                let step = (w[1] - w[0]) / T::from_usize(divs).unwrap();
+                (0..divs).map(move |i| w[0] + step * T::from_usize(i).unwrap())
+            })
+            .collect();
+        params.push(max_u);
+        let pts: Vec<_> = params.iter().map(|u| self.point_at(*u)).collect();
+
+        let mut best: Option<(T, T)> = None;
+        let mut update = |u: T| {
+            let u = nalgebra::clamp(u, min_u, max_u);
+            let d = distance(u);
+            if d.is_finite() && best.as_ref().map_or(true, |(_, min)| d < *min) {
+                best = Some((u, d));
+            }
+            best.as_ref().map_or(d, |(_, min)| *min)
+        };
 
-        for i in 0..pts.len() - 1 {
-            let u0 = pts[i].0;
-            let u1 = pts[i + 1].0;
-
-            let p0 = &pts[i].1;
-            let p1 = &pts[i + 1].1;
+        // the closest point on each chord between the samples,
+        // and how far the curve leaves the chord
+        let half = T::from_f64(0.5).unwrap();
+        let chords: Vec<_> = (0..params.len() - 1)
+            .map(|i| {
+                let (u0, u1) = (params[i], params[i + 1]);
+                let (u, pt) = segment_closest_point(point, &pts[i], &pts[i + 1], u0, u1);
+                let middle = (u0 + u1) * half;
+                let chord = &pts[i].coords + (&pts[i + 1] - &pts[i]) * half;
+                let sag = (self.point_at(middle).coords - chord).norm();
+                update(u0);
+                update(middle);
+                update(u);
+                (u, (point - pt).norm(), sag)
+            })
+            .collect();
+        let mut min = update(max_u);
 
-            let (proj_u, proj_pt) = segment_closest_point(point, p0, p1, u0, u1);
-            let d = (point - proj_pt).norm();
+        for (i, (u, d, sag)) in chords.into_iter().enumerate() {
+            // the curve cannot get closer than the best point found so far
+            if d - sag - sag > min {
+                continue;
+            }
 
-            if d < min {
-                min = d;
-                u = proj_u;
+            let (u0, u1) = (params[i], params[i + 1]);
+            let solver = CurveClosestParameterNewton::new((min_u, max_u), closed);
+            let res = Executor::new(CurveClosestParameterProblem::new(point, self), solver)
+                .configure(|state| state.param(u).max_iters(20))
+                .run()?;
+            let found = res.state().get_best_param().cloned();
+            if let Some(t) = found.filter(|t| *t >= min_u && *t <= max_u) {
+                min = update(t);
+                if u0 <= t && t <= u1 && distance(t) <= distance(u) {
+                    continue;
+                }
             }
-        }
 
-        let solver = CurveClosestParameterNewton::new((min_u, max_u), closed);
-        let res = Executor::new(CurveClosestParameterProblem::new(point, self), solver)
-            .configure(|state| state.param(u).max_iters(5))
-            .run()?;
-        match res.state().get_best_param().cloned() {
-            Some(t) => {
-                if t.is_finite() {
-                    Ok(t)
+            // Newton's method left the chord, so search in it directly
+            let third = T::one() / T::from_usize(3).unwrap();
+            let (mut lo, mut hi) = (u0, u1);
+            for _ in 0..80 {
+                let step = (hi - lo) * third;
+                let (a, b) = (lo + step, hi - step);
+                if distance(a) < distance(b) {
+                    hi = b;
                 } else {
-                    Err(anyhow::anyhow!("No best parameter found"))
+                    lo = a;
                 }
             }
-            _ => Err(anyhow::anyhow!("No best parameter found")),
+            min = update((lo + hi) * half);
         }
+
+        best.map(|(u, _)| u)
+            .ok_or(anyhow::anyhow!("No best parameter found"))
     }
 
     /// Try to clamp knots of the curve
-- 
2.43.0


From ba3721bf726413a6f39b8a2407ae628141de716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:54 +0000
Subject: [PATCH 12/54] fix: intersections merge only results near on both
 curves, across the seam

---
 .../curve_curve/intersection_curve_curve.rs   | 53 ++++++++++++-------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/src/intersects/curve_curve/intersection_curve_curve.rs b/src/intersects/curve_curve/intersection_curve_curve.rs
index d40e762..18f60f2 100644
--- a/src/intersects/curve_curve/intersection_curve_curve.rs
+++ b/src/intersects/curve_curve/intersection_curve_curve.rs
@@ -170,26 +170,28 @@ where
         // println!("sorted: {:?}", sorted.iter().map(|it| it.a()).collect_vec());
 
         // group near parameter results & extract the closest one in each group
+        // results are at the same place only if they are near on both curves,
+        // where the start & end of a closed curve are the same place.
         let parameter_minimum_distance = T::from_f64(1e-3).unwrap();
-        let groups = sorted
-            .into_iter()
-            .map(|pt| vec![pt])
-            .coalesce(|x, y| {
-                let x0 = &x[x.len() - 1];
-                let y0 = &y[y.len() - 1];
-                let da = Float::abs(x0.a().1 - y0.a().1);
-                let db = Float::abs(x0.b().1 - y0.b().1);
-                if da < parameter_minimum_distance || db < parameter_minimum_distance {
-                    // merge near parameter results
-                    let group = [x, y].concat();
-                    Ok(group)
-                } else {
-                    Err((x, y))
-                }
-            })
-            .collect::<Vec<Vec<CurveCurveIntersection<OPoint<T, DimNameDiff<D, U1>>, T>>>>()
-            .into_iter()
-            .collect_vec();
+        let a_seam = closed_interval(self, options.minimum_distance);
+        let b_seam = closed_interval(other, options.minimum_distance);
+        let is_near = |u: T, v: T, seam: Option<T>| {
+            let d = Float::abs(u - v);
+            d < parameter_minimum_distance
+                || seam.is_some_and(|interval| interval - d < parameter_minimum_distance)
+        };
+        let mut groups: Vec<Vec<CurveCurveIntersection<OPoint<T, DimNameDiff<D, U1>>, T>>> = vec![];
+        for it in sorted {
+            let near = groups.iter_mut().find(|group| {
+                group.iter().any(|other| {
+                    is_near(it.a().1, other.a().1, a_seam) && is_near(it.b().1, other.b().1, b_seam)
+                })
+            });
+            match near {
+                Some(group) => group.push(it),
+                None => groups.push(vec![it]),
+            }
+        }
 
         /*
         println!("groups: {:?}", groups.len());
@@ -222,3 +224,16 @@ where
         Ok(pts)
     }
 }
+
+/// Length of the domain of the curve if its start & end are at the same place
+fn closed_interval<T, D>(curve: &NurbsCurve<T, D>, tolerance: T) -> Option<T>
+where
+    T: FloatingPoint,
+    D: DimName + DimNameSub<U1>,
+    DefaultAllocator: Allocator<D>,
+    DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
+{
+    let (start, end) = curve.knots_domain();
+    let d = (curve.point_at(start) - curve.point_at(end)).norm();
+    (d < tolerance).then_some(end - start)
+}
-- 
2.43.0


From de147312cbadca12e68eb381a830875bc9f14a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 13/54] fix: point containment counts every crossing level with
 vertices and extrema

---
 src/contains/contains_compound_curve.rs |  13 +--
 src/contains/contains_curve.rs          | 138 ++++++++++--------------
 2 files changed, 57 insertions(+), 94 deletions(-)

diff --git a/src/contains/contains_compound_curve.rs b/src/contains/contains_compound_curve.rs
index 1b43f01..0ca2adb 100644
--- a/src/contains/contains_compound_curve.rs
+++ b/src/contains/contains_compound_curve.rs
@@ -2,7 +2,7 @@ use argmin::core::ArgminFloat;
 use nalgebra::{Const, Point2};
 
 use crate::{
-    contains::contains_curve::x_ray_intersection,
+    contains::contains_curve::x_ray_parity,
     misc::FloatingPoint,
     prelude::{BoundingBox, CurveIntersectionSolverOptions},
     region::CompoundCurve,
@@ -54,15 +54,6 @@ impl<T: FloatingPoint + ArgminFloat> Contains<T, Const<2>> for CompoundCurve<T,
             return Ok(true);
         }
 
-        let size = bb.size();
-        let sx = size.x * T::from_f64(2.).unwrap();
-        let intersections: anyhow::Result<Vec<_>> = self
-            .spans()
-            .iter()
-            .map(|span| x_ray_intersection(span, point, sx, option.clone()))
-            .collect();
-
-        let count = intersections?.iter().map(|its| its.len()).sum::<usize>();
-        Ok(count % 2 == 1)
+        x_ray_parity(self.spans(), point, option)
     }
 }
diff --git a/src/contains/contains_curve.rs b/src/contains/contains_curve.rs
index fcdfc0f..4ec1040 100644
--- a/src/contains/contains_curve.rs
+++ b/src/contains/contains_curve.rs
@@ -1,16 +1,12 @@
-use std::cmp::Ordering;
-
 use argmin::core::ArgminFloat;
 use itertools::Itertools;
-use nalgebra::{Const, Point2, Vector2, U3};
-use num_traits::Float;
+use nalgebra::{Const, Point2, U3};
 
 use crate::{
     curve::NurbsCurve,
     misc::FloatingPoint,
-    prelude::{
-        BoundingBox, BoundingBoxTraversal, CurveBoundingBoxTree, CurveIntersectionSolverOptions,
-    },
+    prelude::{BoundingBox, CurveIntersectionSolverOptions},
+    split::Split,
 };
 
 use super::Contains;
@@ -52,97 +48,73 @@ impl<T: FloatingPoint + ArgminFloat> Contains<T, Const<2>> for NurbsCurve<T, Con
             return Ok(true);
         }
 
-        let size = bb.size();
-
         // curve & ray intersections
-        match x_ray_intersection(self, point, size.x * T::from_f64(2.).unwrap(), option) {
-            Ok(its) => Ok(its.len() % 2 == 1),
-            Err(e) => Err(e),
-        }
+        x_ray_parity(std::slice::from_ref(self), point, option)
     }
 }
 
-pub fn x_ray_intersection<T: FloatingPoint + ArgminFloat>(
-    curve: &NurbsCurve<T, U3>,
+/// Determine if the ray from the point in the x direction crosses the closed chain of curves odd times.
+/// Each curve is divided until its bounding box is apart from the point,
+/// so that only the end points of the pieces decide the number of crossings:
+/// a piece on the right side of the point crosses the ray odd times iff its end points are on different sides of the ray.
+pub(crate) fn x_ray_parity<T: FloatingPoint + ArgminFloat>(
+    curves: &[NurbsCurve<T, U3>],
     point: &Point2<T>,
-    ray_length: T,
     option: Option<CurveIntersectionSolverOptions<T>>,
-) -> anyhow::Result<Vec<Point2<T>>> {
+) -> anyhow::Result<bool> {
     let option = option.unwrap_or_default();
-    let ray = NurbsCurve::polyline(&[*point, point + Vector2::x() * ray_length], true);
-    let ta = CurveBoundingBoxTree::new(
-        curve,
-        Some(curve.knots_domain_interval() / T::from_usize(option.knot_domain_division).unwrap()),
-    );
-    let tb = CurveBoundingBoxTree::new(
-        &ray,
-        Some(ray.knots_domain_interval() / T::from_usize(1).unwrap()),
-    );
-    let traversed = BoundingBoxTraversal::try_traverse(ta, tb)?;
+    let half = T::from_f64(0.5).unwrap();
+    let margin = option.minimum_distance * half;
+    let crosses = |a: &Point2<T>, b: &Point2<T>| (point.y < a.y) != (point.y < b.y);
 
-    let mut intersections = traversed
-        .pairs()
+    let mut odd = false;
+
+    // the ends of adjacent curves may differ by the tolerance of their connection
+    let ends = curves
         .iter()
-        .filter_map(|(item, _)| {
-            let curve = item.curve();
+        .map(|curve| {
             let (start, end) = curve.knots_domain();
-            let p_start = curve.point_at(start);
-            let p_end = curve.point_at(end);
+            (curve.point_at(start), curve.point_at(end))
+        })
+        .collect_vec();
+    for (i, (_, end)) in ends.iter().enumerate() {
+        let (start, _) = &ends[(i + 1) % ends.len()];
+        if crosses(end, start) && (end.x + start.x) * half > point.x {
+            odd = !odd;
+        }
+    }
 
-            if p_start.x < point.x && p_end.x < point.x {
-                return None;
+    for (curve, (p_start, p_end)) in curves.iter().zip(ends) {
+        let (start, end) = curve.knots_domain();
+        let tolerance = (end - start) * T::default_epsilon();
+        let mut pieces = vec![(curve.clone(), p_start, p_end)];
+        while let Some((piece, p_start, p_end)) = pieces.pop() {
+            let bb: BoundingBox<T, Const<2>> = (&piece).into();
+            let (min, max) = (bb.min(), bb.max());
+            if max.x + margin < point.x || max.y + margin < point.y || point.y < min.y - margin {
+                continue;
             }
 
-            let y_forward = match (point.y < p_start.y, point.y < p_end.y) {
-                (true, true) | (false, false) => {
-                    return None;
-                }
-                (false, true) => true,
-                (true, false) => false,
-            };
-
-            // binary search for the intersection
-            let mut min = start;
-            let mut max = end;
-            for _i in 0..option.max_iters {
-                let t = (min + max) / T::from_f64(2.).unwrap();
-                let p = curve.point_at(t);
-                let dy = p.y - point.y;
-
-                if Float::abs(dy) < option.minimum_distance {
-                    return Some((p, t));
-                }
-
-                let over = dy > T::zero();
-                let over = if y_forward { over } else { !over };
-                if over {
-                    max = t;
-                } else {
-                    min = t;
+            let (start, end) = piece.knots_domain();
+            let mid = (start + end) * half;
+            let is_right = point.x < min.x - margin;
+            let is_small =
+                bb.size().norm() < margin || mid - start <= tolerance || end - mid <= tolerance;
+            if is_right || is_small {
+                if crosses(&p_start, &p_end) && (is_right || point.x < (p_start.x + p_end.x) * half)
+                {
+                    odd = !odd;
                 }
+                continue;
             }
 
-            None
-        })
-        .filter(|(p, _)| point.x <= p.x)
-        .collect_vec();
-
-    intersections.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap_or(Ordering::Equal));
-
-    let eps = option.minimum_distance;
-    let filtered = intersections
-        .into_iter()
-        .coalesce(|x, y| {
-            // merge intersections that are close
-            let dt = x.0 - y.0;
-            if dt.norm() < eps {
-                Ok(x)
-            } else {
-                Err((x, y))
-            }
-        })
-        .map(|p| p.0)
-        .collect_vec();
+            // the pieces share the point of the original curve
+            let p_mid = curve.point_at(mid);
+            let (head, tail) = piece.try_split(mid)?;
+            pieces.push((head, p_start, p_mid));
+            pieces.push((tail, p_mid, p_end));
+        }
+    }
 
-    Ok(filtered)
+    Ok(odd)
 }
-- 
2.43.0


From 09dc41a33e85ef8934ff907dee4df35330092857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 14/54] fix: closedness of curves tolerates rounding in
 proportion to the coordinates

---
 src/curve/nurbs_curve.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 7bb3050..1dd9a1f 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1571,10 +1571,12 @@ where
         D: DimNameSub<U1>,
         DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
     {
-        let eps = T::default_epsilon() * T::from_usize(10).unwrap();
+        let pts = self.dehomogenized_control_points();
+        // rounding errors grow with the magnitude of the coordinates
+        let scale = pts.iter().fold(T::one(), |s, p| s.max(p.coords.amax()));
+        let eps = T::default_epsilon() * T::from_usize(10).unwrap() * scale;
         match self.knots.is_clamped(self.degree) {
             true => {
-                let pts = self.dehomogenized_control_points();
                 let delta = &pts[0] - &pts[self.control_points.len() - 1];
                 delta.norm() < eps
             }
-- 
2.43.0


From 01abd1c1a1580883400c63f1bbea9f5b16f8839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 15/54] fix: compound curves join pieces at both ends, keep one
 increasing range and reverse it

---
 src/region/compound_curve.rs | 84 ++++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 33 deletions(-)

diff --git a/src/region/compound_curve.rs b/src/region/compound_curve.rs
index 003e82b..b44b99d 100644
--- a/src/region/compound_curve.rs
+++ b/src/region/compound_curve.rs
@@ -37,34 +37,38 @@ where
         let epsilon = T::from_f64(1e-4).unwrap();
 
         // Ensure the adjacent spans are connected in the forward direction.
+        // A span is connected to the end or the start of the already connected ones.
         let mut curves = spans.clone();
         let mut connected = vec![curves.remove(0)];
         while !curves.is_empty() {
-            let current = connected.len() - 1;
-            let last = &connected[current];
+            let last = &connected[connected.len() - 1];
             let found = curves.iter().enumerate().find_map(|(i, c)| {
-                CurveDirection::new(last, c, epsilon).map(|direction| (i, direction))
+                match CurveDirection::new(last, c, epsilon) {
+                    Some(CurveDirection::Forward) => Some((i, true, false)),
+                    Some(CurveDirection::Facing) => Some((i, true, true)),
+                    _ => None,
+                }
+            });
+            let first = &connected[0];
+            let found = found.or_else(|| {
+                curves.iter().enumerate().find_map(|(i, c)| {
+                    match CurveDirection::new(first, c, epsilon) {
+                        Some(CurveDirection::Backward) => Some((i, false, false)),
+                        Some(CurveDirection::Opposite) => Some((i, false, true)),
+                        _ => None,
+                    }
+                })
             });
             match found {
-                Some((index, direction)) => {
-                    let next = curves.remove(index);
-                    match direction {
-                        CurveDirection::Forward => {
-                            connected.push(next);
-                        }
-                        CurveDirection::Backward => {
-                            connected.insert(current, next);
-                        }
-                        CurveDirection::Facing => {
-                            connected.push(next.inverse());
-                        }
-                        CurveDirection::Opposite => {
-                            if current == 0 {
-                                connected.insert(current, next.inverse());
-                            } else {
-                                println!("Cannot handle opposite direction");
-                            }
-                        }
+                Some((index, at_end, inverse)) => {
+                    let mut next = curves.remove(index);
+                    if inverse {
+                        next.invert();
+                    }
+                    if at_end {
+                        connected.push(next);
+                    } else {
+                        connected.insert(0, next);
                     }
                 }
                 None => {
@@ -74,16 +78,7 @@ where
             }
         }
 
-        // Align knot vectors
-        // The first knot vector starts at 0, the rest are aligned to the previous knot vector
-        let mut knot_offset = T::zero();
-        connected.iter_mut().for_each(|curve| {
-            let start = curve.knots().first();
-            curve.knots_mut().iter_mut().for_each(|v| {
-                *v = *v - start + knot_offset;
-            });
-            knot_offset = curve.knots().last();
-        });
+        align_knots(&mut connected);
 
         Self { spans: connected }
     }
@@ -149,7 +144,13 @@ where
     {
         let start = self.spans.first().map(|s| s.point_at(s.knots_domain().0));
         let end = self.spans.last().map(|s| s.point_at(s.knots_domain().1));
-        let eps = T::default_epsilon() * T::from_usize(10).unwrap();
+        // rounding errors grow with the magnitude of the coordinates
+        let scale = self
+            .spans
+            .iter()
+            .flat_map(|s| s.dehomogenized_control_points())
+            .fold(T::one(), |s, p| s.max(p.coords.amax()));
+        let eps = T::default_epsilon() * T::from_usize(10).unwrap() * scale;
         match (start, end) {
             (Some(start), Some(end)) => {
                 let delta = start - end;
@@ -232,6 +233,22 @@ where
     }
 }
 
+/// Align knot vectors
+/// The domain of the first curve starts at 0, the rest are aligned to the previous domain
+fn align_knots<T: FloatingPoint, D: DimName>(curves: &mut [NurbsCurve<T, D>])
+where
+    DefaultAllocator: Allocator<D>,
+{
+    let mut knot_offset = T::zero();
+    curves.iter_mut().for_each(|curve| {
+        let (start, _) = curve.knots_domain();
+        curve.knots_mut().iter_mut().for_each(|v| {
+            *v = *v - start + knot_offset;
+        });
+        knot_offset = curve.knots_domain().1;
+    });
+}
+
 impl<T: FloatingPoint, D: DimName> FromIterator<NurbsCurve<T, D>> for CompoundCurve<T, D>
 where
     DefaultAllocator: Allocator<D>,
@@ -271,6 +288,7 @@ where
     fn invert(&mut self) {
         self.spans.iter_mut().for_each(|span| span.invert());
         self.spans.reverse();
+        align_knots(&mut self.spans);
     }
 }
 
-- 
2.43.0


From b488e896802dacbc0489de8128e40aa7bbd11320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 16/54] fix: trim compound curves to exactly the range and in
 order through the seam

---
 src/trim/mod.rs | 93 +++++++++++++++++++++----------------------------
 1 file changed, 40 insertions(+), 53 deletions(-)

diff --git a/src/trim/mod.rs b/src/trim/mod.rs
index 797b2d0..0179b97 100644
--- a/src/trim/mod.rs
+++ b/src/trim/mod.rs
@@ -1,4 +1,3 @@
-use itertools::Itertools;
 use nalgebra::{allocator::Allocator, DefaultAllocator, DimName};
 
 use crate::{curve::NurbsCurve, misc::FloatingPoint, region::CompoundCurve, split::Split};
@@ -46,65 +45,53 @@ where
         );
 
         let inside = parameters.0 < parameters.1;
-        let range = min..=max;
         let eps = T::default_epsilon();
-        let curves = self
-            .spans()
-            .iter()
-            .map(|curve| {
-                let (d0, d1) = curve.knots_domain();
+        let half = T::from_f64(0.5).unwrap();
 
-                // use epsilon to avoid to trim at the terminal (start / end) of the curve
-                let curve_domain = (d0 + eps)..=(d1 - eps);
+        // the parts of the spans in & out of the range
+        let mut head = vec![];
+        let mut body = vec![];
+        let mut tail = vec![];
+        for curve in self.spans().iter() {
+            let (d0, d1) = curve.knots_domain();
 
-                match (curve_domain.contains(&min), curve_domain.contains(&max)) {
-                    (true, true) => {
-                        if inside {
-                            curve.try_trim_range((min, max))
+            // use epsilon to avoid to trim at the terminal (start / end) of the curve
+            let curve_domain = (d0 + eps)..=(d1 - eps);
+
+            let mut rest = vec![curve.clone()];
+            for t in [min, max] {
+                if curve_domain.contains(&t) {
+                    if let Some(last) = rest.pop() {
+                        let (l0, l1) = last.knots_domain();
+                        if l0 < t && t < l1 {
+                            let (a, b) = last.try_split(t)?;
+                            rest.push(a);
+                            rest.push(b);
                         } else {
-                            let (head, tail) = curve.try_split(min)?;
-                            let (_, tail2) = tail.try_split(max)?;
-                            Ok(vec![head, tail2])
-                        }
-                    }
-                    (true, false) => {
-                        curve.try_split(min).map(
-                            |(head, tail)| {
-                                if inside {
-                                    vec![tail]
-                                } else {
-                                    vec![head]
-                                }
-                            },
-                        )
-                    }
-                    (false, true) => {
-                        curve.try_split(max).map(
-                            |(head, tail)| {
-                                if inside {
-                                    vec![head]
-                                } else {
-                                    vec![tail]
-                                }
-                            },
-                        )
-                    }
-                    (false, false) => {
-                        let contains = range.contains(&d0);
-                        match (inside, contains) {
-                            (true, true) => Ok(vec![curve.clone()]),
-                            (true, false) => Ok(vec![]),
-                            (false, true) => Ok(vec![]),
-                            (false, false) => Ok(vec![curve.clone()]),
+                            rest.push(last);
                         }
                     }
                 }
-            })
-            .collect::<anyhow::Result<Vec<_>>>()?
-            .into_iter()
-            .flatten()
-            .collect_vec();
+            }
+            for part in rest {
+                let (p0, p1) = part.knots_domain();
+                let mid = (p0 + p1) * half;
+                if mid < min {
+                    head.push(part);
+                } else if mid < max {
+                    body.push(part);
+                } else {
+                    tail.push(part);
+                }
+            }
+        }
 
-        Ok(curves)
+        if inside {
+            Ok(body)
+        } else {
+            // run through the end to the start
+            tail.extend(head);
+            Ok(tail)
+        }
     }
 }
-- 
2.43.0


From 02c4fd5bbe0e7d8f604b733a2725d60533dc358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 17/54] fix: curve intersections are found from several starts
 and around corners

---
 src/bounding_box/curve_bounding_box_tree.rs   |  31 +++--
 .../curve_curve/intersection_curve_curve.rs   | 129 +++++++++---------
 2 files changed, 82 insertions(+), 78 deletions(-)

diff --git a/src/bounding_box/curve_bounding_box_tree.rs b/src/bounding_box/curve_bounding_box_tree.rs
index 33c5e64..3bccde0 100644
--- a/src/bounding_box/curve_bounding_box_tree.rs
+++ b/src/bounding_box/curve_bounding_box_tree.rs
@@ -39,6 +39,14 @@ where
         self.curve.as_ref()
     }
 
+    /// Check if the curve has an interior knot where only its position is continuous.
+    fn has_corner(&self) -> bool {
+        let (start, end) = self.curve.knots_domain();
+        self.curve.knots().multiplicity().iter().any(|m| {
+            start < *m.knot() && *m.knot() < end && m.multiplicity() >= self.curve.degree()
+        })
+    }
+
     pub fn curve_owned(self) -> NurbsCurve<T, D> {
         self.curve.into_owned()
     }
@@ -54,20 +62,15 @@ where
     fn is_dividable(&self) -> bool {
         let interval = self.curve.knots_domain_interval();
         interval > self.tolerance || {
-            match self.curve.degree() {
-                1 => {
-                    // Avoid degeneracy case for polyline curves as following:
-                    //   |     /
-                    //   |    /
-                    // --+--+------- <- intersected at 2 points
-                    //   | /
-                    //   |/
-                    // In the case of a polyline, it may not be possible to detect two intersections when it crosses near a control point.
-                    // Therefore, when working with polylines, it is advisable to impose a constraint such that the bounding box contains two control points.
-                    interval >= T::from_f64(1e-4).unwrap() && self.curve.control_points().len() >= 3
-                }
-                _ => false,
-            }
+            // Avoid degeneracy case for polyline curves (or any curves with corners) as following:
+            //   |     /
+            //   |    /
+            // --+--+------- <- intersected at 2 points
+            //   | /
+            //   |/
+            // In the case of a corner, it may not be possible to detect two intersections when it crosses near the corner.
+            // Therefore, when working with corners, it is advisable to impose a constraint such that the bounding box contains no corner inside.
+            interval >= T::from_f64(1e-4).unwrap() && self.has_corner()
         }
     }
 
diff --git a/src/intersects/curve_curve/intersection_curve_curve.rs b/src/intersects/curve_curve/intersection_curve_curve.rs
index 18f60f2..933b2c3 100644
--- a/src/intersects/curve_curve/intersection_curve_curve.rs
+++ b/src/intersects/curve_curve/intersection_curve_curve.rs
@@ -3,8 +3,8 @@ use std::cmp::Ordering;
 use argmin::core::{ArgminFloat, Executor, State};
 use itertools::Itertools;
 use nalgebra::{
-    allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, DimNameSub, Matrix2, OPoint,
-    Vector2, U1,
+    allocator::Allocator, ComplexField, DefaultAllocator, DimName, DimNameDiff, DimNameSub,
+    Matrix2, OPoint, Vector2, U1,
 };
 use num_traits::Float;
 
@@ -99,66 +99,62 @@ where
 
         let intersections = traversed
             .into_pairs_iter()
-            .filter_map(|(a, b)| {
+            .flat_map(|(a, b)| {
                 let ca = a.curve_owned();
                 let cb = b.curve_owned();
 
-                let problem = CurveIntersectionProblem::new(&ca, &cb);
-
-                // let inv = T::from_f64(0.5).unwrap();
-                // let d0 = ca.knots_domain();
-                // let d1 = cb.knots_domain();
-
-                // Define initial parameter vector
-                let init_param = Vector2::<T>::new(
-                    ca.knots_domain().0,
-                    cb.knots_domain().0,
-                    // (d0.0 + d0.1) * inv,
-                    // (d1.0 + d1.1) * inv,
-                );
-
-                // Set up solver
-                let solver = CurveIntersectionBFGS::<T>::new()
-                    .with_step_size_tolerance(options.step_size_tolerance)
-                    .with_cost_tolerance(options.cost_tolerance);
-
-                // Run solver
-                let res = Executor::new(problem, solver)
-                    .configure(|state| {
-                        state
-                            .param(init_param)
-                            .inv_hessian(Matrix2::identity())
-                            .max_iters(options.max_iters)
-                    })
-                    .run();
-
-                match res {
-                    Ok(r) => {
-                        // println!("{}", r.state().get_termination_status());
-                        r.state().get_best_param().and_then(|param| {
-                            if (a_domain.0..=a_domain.1).contains(&param[0])
-                                && (b_domain.0..=b_domain.1).contains(&param[1])
-                            {
-                                let p0 = self.point_at(param[0]);
-                                let p1 = other.point_at(param[1]);
-                                Some(CurveCurveIntersection::new((p0, param[0]), (p1, param[1])))
-                            } else {
-                                None
-                            }
+                let (a0, a1) = ca.knots_domain();
+                let (b0, b1) = cb.knots_domain();
+                let half = T::from_f64(0.5).unwrap();
+
+                // Define initial parameter vectors
+                // The solver may run out of the pair of the pieces from one of them
+                let init_params = [
+                    Vector2::<T>::new(a0, b0),
+                    Vector2::<T>::new((a0 + a1) * half, (b0 + b1) * half),
+                    Vector2::<T>::new(a1, b1),
+                    Vector2::<T>::new(a0, b1),
+                    Vector2::<T>::new(a1, b0),
+                ];
+
+                let mut found = vec![];
+                for init_param in init_params {
+                    let problem = CurveIntersectionProblem::new(&ca, &cb);
+
+                    // Set up solver
+                    let solver = CurveIntersectionBFGS::<T>::new()
+                        .with_step_size_tolerance(options.step_size_tolerance)
+                        .with_cost_tolerance(options.cost_tolerance);
+
+                    // Run solver
+                    let res = Executor::new(problem, solver)
+                        .configure(|state| {
+                            state
+                                .param(init_param)
+                                .inv_hessian(Matrix2::identity())
+                                .max_iters(options.max_iters)
                         })
-                    }
-                    Err(_e) => {
-                        // println!("{}", e);
-                        None
+                        .run();
+
+                    let param = res.ok().and_then(|r| r.state().get_best_param().cloned());
+                    if let Some(param) = param {
+                        if !param[0].is_finite() || !param[1].is_finite() {
+                            continue;
+                        }
+                        // the solver may slightly step over the ends of the domains
+                        let u = Float::min(Float::max(param[0], a_domain.0), a_domain.1);
+                        let v = Float::min(Float::max(param[1], b_domain.0), b_domain.1);
+                        let p0 = self.point_at(u);
+                        let p1 = other.point_at(v);
+                        if (&p0 - &p1).norm() < options.minimum_distance {
+                            found.push(CurveCurveIntersection::new((p0, u), (p1, v)));
+                            if (a0..=a1).contains(&u) && (b0..=b1).contains(&v) {
+                                break;
+                            }
+                        }
                     }
                 }
-            })
-            .filter(|it| {
-                // filter out intersections that are too close
-                let p0 = &it.a().0;
-                let p1 = &it.b().0;
-                let d = (p0 - p1).norm();
-                d < options.minimum_distance
+                found
             })
             .collect_vec();
 
@@ -172,19 +168,17 @@ where
         // group near parameter results & extract the closest one in each group
         // results are at the same place only if they are near on both curves,
         // where the start & end of a closed curve are the same place.
-        let parameter_minimum_distance = T::from_f64(1e-3).unwrap();
+        // (the results around a tangential contact scatter in proportion to the square root of the distance)
         let a_seam = closed_interval(self, options.minimum_distance);
         let b_seam = closed_interval(other, options.minimum_distance);
-        let is_near = |u: T, v: T, seam: Option<T>| {
-            let d = Float::abs(u - v);
-            d < parameter_minimum_distance
-                || seam.is_some_and(|interval| interval - d < parameter_minimum_distance)
-        };
         let mut groups: Vec<Vec<CurveCurveIntersection<OPoint<T, DimNameDiff<D, U1>>, T>>> = vec![];
         for it in sorted {
             let near = groups.iter_mut().find(|group| {
                 group.iter().any(|other| {
-                    is_near(it.a().1, other.a().1, a_seam) && is_near(it.b().1, other.b().1, b_seam)
+                    let d = &it.a().0 - &other.a().0;
+                    d.norm_squared() < options.minimum_distance
+                        && is_near_parameter(it.a().1, other.a().1, a_seam)
+                        && is_near_parameter(it.b().1, other.b().1, b_seam)
                 })
             });
             match near {
@@ -225,8 +219,15 @@ where
     }
 }
 
+/// Check if two parameters are near, where the start & end of the closed interval are the same place
+pub(super) fn is_near_parameter<T: FloatingPoint>(u: T, v: T, closed_interval: Option<T>) -> bool {
+    let minimum_distance = T::from_f64(1e-2).unwrap();
+    let d = ComplexField::abs(u - v);
+    d < minimum_distance || closed_interval.is_some_and(|interval| interval - d < minimum_distance)
+}
+
 /// Length of the domain of the curve if its start & end are at the same place
-fn closed_interval<T, D>(curve: &NurbsCurve<T, D>, tolerance: T) -> Option<T>
+pub(super) fn closed_interval<T, D>(curve: &NurbsCurve<T, D>, tolerance: T) -> Option<T>
 where
     T: FloatingPoint,
     D: DimName + DimNameSub<U1>,
-- 
2.43.0


From 04f064f1d066725ea81b44d2a89a0d00efb8c1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 18/54] fix: compound curve intersections merge only the same
 place at joints

---
 .../intersection_compound_curve.rs            | 94 +++++++++++++------
 1 file changed, 66 insertions(+), 28 deletions(-)

diff --git a/src/intersects/curve_curve/intersection_compound_curve.rs b/src/intersects/curve_curve/intersection_compound_curve.rs
index 2a462b5..1dbff88 100644
--- a/src/intersects/curve_curve/intersection_compound_curve.rs
+++ b/src/intersects/curve_curve/intersection_compound_curve.rs
@@ -1,16 +1,18 @@
 use argmin::core::ArgminFloat;
 use itertools::Itertools;
 use nalgebra::{allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, DimNameSub, U1};
-use num_traits::Float;
 
 use crate::{
     curve::NurbsCurve,
-    misc::FloatingPoint,
-    prelude::{HasIntersection, Intersects},
+    misc::{EndPoints, FloatingPoint},
+    prelude::{HasIntersection, HasIntersectionParameter, Intersects},
     region::CompoundCurve,
 };
 
-use super::{CompoundCurveIntersection, CurveIntersectionSolverOptions};
+use super::{
+    intersection_curve_curve::{closed_interval, is_near_parameter},
+    CompoundCurveIntersection, CurveIntersectionSolverOptions,
+};
 
 impl<'a, T, D> Intersects<'a, &'a NurbsCurve<T, D>> for CompoundCurve<T, D>
 where
@@ -43,29 +45,15 @@ where
             })
             .collect();
 
-        let mut res = res?;
-        let eps = T::from_f64(1e-2).unwrap();
-
-        (0..res.len()).circular_tuple_windows().for_each(|(a, b)| {
-            if a != b {
-                let ia = res[a].last();
-                let ib = res[b].first();
-                let cull = match (ia, ib) {
-                    (Some(ia), Some(ib)) => {
-                        // cull the last point in res[a] if it is too close to the first point in res[b]
-                        let da = Float::abs(ia.a().0.knots_domain().1 - ia.a().2);
-                        let db = Float::abs(ib.a().0.knots_domain().0 - ib.a().2);
-                        da < eps && db < eps
-                    }
-                    _ => false,
-                };
-                if cull {
-                    res[a].pop();
-                }
-            }
-        });
-
-        Ok(res.into_iter().flatten().collect())
+        let minimum_distance = options.unwrap_or_default().minimum_distance;
+        let a_seam = compound_closed_interval(self, minimum_distance);
+        let b_seam = closed_interval(other, minimum_distance);
+        Ok(merge_at_joints(
+            res?.into_iter().flatten(),
+            minimum_distance,
+            a_seam,
+            b_seam,
+        ))
     }
 }
 
@@ -92,10 +80,60 @@ where
             .map(|span| self.find_intersections(span, options.clone()))
             .collect();
 
-        Ok(res?.into_iter().flatten().collect())
+        let minimum_distance = options.unwrap_or_default().minimum_distance;
+        let a_seam = compound_closed_interval(self, minimum_distance);
+        let b_seam = compound_closed_interval(other, minimum_distance);
+        Ok(merge_at_joints(
+            res?.into_iter().flatten(),
+            minimum_distance,
+            a_seam,
+            b_seam,
+        ))
     }
 }
 
+/// Merge the intersections found in the both spans connected at a joint
+fn merge_at_joints<'a, T, D>(
+    intersections: impl Iterator<Item = CompoundCurveIntersection<'a, T, D>>,
+    minimum_distance: T,
+    a_seam: Option<T>,
+    b_seam: Option<T>,
+) -> Vec<CompoundCurveIntersection<'a, T, D>>
+where
+    T: FloatingPoint,
+    D: DimName + DimNameSub<U1>,
+    DefaultAllocator: Allocator<D>,
+    DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
+{
+    let mut merged: Vec<CompoundCurveIntersection<'a, T, D>> = vec![];
+    for it in intersections {
+        let found = merged.iter().any(|other| {
+            let d = &it.a().1 - &other.a().1;
+            d.norm_squared() < minimum_distance
+                && is_near_parameter(it.a_parameter(), other.a_parameter(), a_seam)
+                && is_near_parameter(it.b_parameter(), other.b_parameter(), b_seam)
+        });
+        if !found {
+            merged.push(it);
+        }
+    }
+    merged
+}
+
+/// Length of the domain of the compound curve if its start & end are at the same place
+fn compound_closed_interval<T, D>(curve: &CompoundCurve<T, D>, tolerance: T) -> Option<T>
+where
+    T: FloatingPoint,
+    D: DimName + DimNameSub<U1>,
+    DefaultAllocator: Allocator<D>,
+    DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
+{
+    let first = curve.spans().first()?.knots_domain().0;
+    let last = curve.spans().last()?.knots_domain().1;
+    let (start, end) = curve.end_points();
+    ((start - end).norm() < tolerance).then_some(last - first)
+}
+
 #[cfg(test)]
 mod tests {
     use crate::prelude::*;
-- 
2.43.0


From 3ca44aaf5796794ae02e47f7196eeac8f183c90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 19/54] fix: union of crossing curves keeps enclosed holes as
 interiors

---
 src/boolean/clip.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/boolean/clip.rs b/src/boolean/clip.rs
index fb04904..0e53d03 100644
--- a/src/boolean/clip.rs
+++ b/src/boolean/clip.rs
@@ -1,5 +1,6 @@
 use std::{cell::RefCell, cmp::Ordering, rc::Rc};
 
+use argmin::core::ArgminFloat;
 use itertools::Itertools;
 use nalgebra::{Point2, U2, U3};
 
@@ -85,7 +86,7 @@ impl<T: FloatingPoint> Clip<T> {
 
 /// Boolean operation for two curves.
 /// Base algorithm reference: Efficient clipping of arbitrary polygons (https://www.inf.usi.ch/hormann/papers/Greiner.1998.ECO.pdf)
-pub fn clip<'a, T: FloatingPoint, S, C, O: Clone>(
+pub fn clip<'a, T: FloatingPoint + ArgminFloat, S, C, O: Clone>(
     subject: &'a S,
     clip: &'a C,
     operation: BooleanOperation,
@@ -395,5 +396,21 @@ where
         }
     }
 
+    if operation == BooleanOperation::Union && regions.len() > 1 {
+        // the united shape is connected: one of the loops surrounds it & the others are the holes in it
+        let mut loops = regions
+            .into_iter()
+            .map(|region| region.into_exterior())
+            .collect_vec();
+        let mut outermost = 0;
+        for i in 1..loops.len() {
+            if loops[i].contains(&loops[outermost].first_point(), None)? {
+                outermost = i;
+            }
+        }
+        let exterior = loops.swap_remove(outermost);
+        regions = vec![Region::new(exterior, loops)];
+    }
+
     Ok(Clip::new(regions, info))
 }
-- 
2.43.0


From c7df8a809244d7c6243e3044e724815d47cefb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 20/54] fix: region booleans keep every part, hole and island
 of the operands

---
 src/boolean/boolean_region.rs | 268 +++++++++++++++++++---------------
 1 file changed, 150 insertions(+), 118 deletions(-)

diff --git a/src/boolean/boolean_region.rs b/src/boolean/boolean_region.rs
index 89b24cb..27c4dfe 100644
--- a/src/boolean/boolean_region.rs
+++ b/src/boolean/boolean_region.rs
@@ -1,5 +1,4 @@
 use argmin::core::ArgminFloat;
-use itertools::Itertools;
 use nalgebra::Const;
 use nalgebra::U3;
 
@@ -40,109 +39,12 @@ impl<'a, T: FloatingPoint + ArgminFloat> Boolean<&'a CompoundCurve<T, U3>> for R
         other: &'a CompoundCurve<T, Const<3>>,
         option: Self::Option,
     ) -> Self::Output {
-        match operation {
-            BooleanOperation::Union => {
-                let exterior =
-                    self.exterior()
-                        .boolean(BooleanOperation::Union, other, option.clone())?;
-
-                let exterior = exterior
-                    .into_regions()
-                    .into_iter()
-                    .next()
-                    .map(|region| region.into_exterior())
-                    .ok_or(anyhow::anyhow!("No exterior region found"))?;
-
-                let interior_differences = self
-                    .interiors()
-                    .iter()
-                    .map(|interior| {
-                        interior.boolean(BooleanOperation::Difference, other, option.clone())
-                    })
-                    .collect::<anyhow::Result<Vec<_>>>()?;
-
-                let interiors = interior_differences
-                    .into_iter()
-                    .flat_map(|c| {
-                        c.into_regions()
-                            .into_iter()
-                            .map(|region| region.into_exterior())
-                    })
-                    .collect();
-
-                Ok(Clip::new(
-                    vec![Region::new(exterior, interiors)],
-                    Default::default(),
-                ))
-            }
-            BooleanOperation::Intersection => {
-                // difference other and interiors
-                let mut clip_regions: Vec<Region<T>> = vec![other.clone().into()];
-                for it in self.interiors().iter() {
-                    let mut next_clips = vec![];
-                    for clip in clip_regions.iter() {
-                        let c = clip.boolean(BooleanOperation::Difference, it, option.clone())?;
-                        let mut regions = c.into_regions();
-                        let mut interiors = clip.interiors().iter().cloned().collect_vec();
-                        distribute_interiors_to_regions(
-                            &mut regions,
-                            &mut interiors,
-                            option.clone(),
-                        )?;
-                        next_clips.extend(regions);
-                    }
-                    clip_regions = next_clips;
-                }
-
-                let regions = clip_regions
-                    .into_iter()
-                    .map(|clip_region| {
-                        let (ex, mut its) = clip_region.into_tuple();
-                        self.exterior()
-                            .boolean(BooleanOperation::Intersection, &ex, option.clone())
-                            .and_then(|clip| {
-                                let mut regions = clip.into_regions();
-                                distribute_interiors_to_regions(
-                                    &mut regions,
-                                    &mut its,
-                                    option.clone(),
-                                )?;
-                                Ok(regions)
-                            })
-                    })
-                    .collect::<anyhow::Result<Vec<_>>>()?
-                    .into_iter()
-                    .flatten()
-                    .collect();
-
-                Ok(Clip::new(regions, Default::default()))
-            }
-            BooleanOperation::Difference => {
-                // union other and interiors
-                let mut current_clip: CompoundCurve<T, U3> = other.clone();
-                let mut interiors = vec![];
-
-                for interior in self.interiors() {
-                    let union =
-                        current_clip.boolean(BooleanOperation::Union, interior, option.clone())?;
-                    let mut regions_iter = union.into_regions().into_iter();
-                    let head = regions_iter.next();
-                    if let Some(head) = head {
-                        current_clip = head.into_exterior();
-                    }
-                    regions_iter.for_each(|region| interiors.push(region.into_exterior()));
-                }
-
-                let clip = self.exterior().boolean(
-                    BooleanOperation::Difference,
-                    &current_clip,
-                    option.clone(),
-                )?;
-                let mut regions = clip.into_regions();
-                distribute_interiors_to_regions(&mut regions, &mut interiors, option.clone())?;
-                Ok(Clip::new(regions, Default::default()))
-            }
-        }
+        let regions = match operation {
+            BooleanOperation::Union => unite(self, other, &option)?,
+            BooleanOperation::Intersection => intersect(self, other, &option)?,
+            BooleanOperation::Difference => subtract(self, other, &option)?,
+        };
+        Ok(Clip::new(regions, Default::default()))
     }
 }
 
@@ -157,26 +59,156 @@ impl<'a, T: FloatingPoint + ArgminFloat> Boolean<&'a Region<T>> for Region<T> {
         other: &'a Region<T>,
         option: Self::Option,
     ) -> Self::Output {
-        let clip = self.boolean(operation, other.exterior(), option.clone())?;
-        let mut regions = clip.into_regions();
-
-        for interior in other.interiors().iter() {
-            match operation {
-                BooleanOperation::Union | BooleanOperation::Intersection => {
-                    let clips = regions
-                        .iter()
-                        .map(|r| r.boolean(BooleanOperation::Difference, interior, option.clone()))
-                        .collect::<anyhow::Result<Vec<_>>>()?;
-                    regions = clips.into_iter().flat_map(|c| c.into_regions()).collect();
+        let exterior = other.exterior();
+        let regions = match operation {
+            BooleanOperation::Union => {
+                let mut regions = unite(self, exterior, &option)?;
+                // the holes of the other except the parts covered by this region remain
+                for interior in other.interiors().iter() {
+                    let hole: Region<T> = interior.clone().into();
+                    for uncovered in subtract_region(&hole, self, &option)? {
+                        regions = regions
+                            .iter()
+                            .map(|region| subtract_region(region, &uncovered, &option))
+                            .collect::<anyhow::Result<Vec<_>>>()?
+                            .into_iter()
+                            .flatten()
+                            .collect();
+                    }
                 }
-                BooleanOperation::Difference => {}
-            };
-        }
+                regions
+            }
+            BooleanOperation::Intersection => {
+                let regions = intersect(self, exterior, &option)?;
+                subtract_all(regions, other.interiors(), &option)?
+            }
+            BooleanOperation::Difference => subtract_region(self, other, &option)?,
+        };
 
         Ok(Clip::new(regions, Default::default()))
     }
 }
 
+type SolverOption<T> = Option<CurveIntersectionSolverOptions<T>>;
+
+/// region - other (= the outside of the exterior of the other + the inside of the holes of the other)
+fn subtract_region<T: FloatingPoint + ArgminFloat>(
+    region: &Region<T>,
+    other: &Region<T>,
+    option: &SolverOption<T>,
+) -> anyhow::Result<Vec<Region<T>>> {
+    let mut regions = subtract(region, other.exterior(), option)?;
+    for interior in other.interiors().iter() {
+        regions.extend(intersect(region, interior, option)?);
+    }
+    Ok(regions)
+}
+
+/// Subtract the curves from the regions one by one
+fn subtract_all<T: FloatingPoint + ArgminFloat>(
+    mut regions: Vec<Region<T>>,
+    curves: &[CompoundCurve<T, U3>],
+    option: &SolverOption<T>,
+) -> anyhow::Result<Vec<Region<T>>> {
+    for curve in curves.iter() {
+        regions = regions
+            .iter()
+            .map(|region| subtract(region, curve, option))
+            .collect::<anyhow::Result<Vec<_>>>()?
+            .into_iter()
+            .flatten()
+            .collect();
+    }
+    Ok(regions)
+}
+
+/// region ∪ curve
+fn unite<T: FloatingPoint + ArgminFloat>(
+    region: &Region<T>,
+    curve: &CompoundCurve<T, U3>,
+    option: &SolverOption<T>,
+) -> anyhow::Result<Vec<Region<T>>> {
+    let union = region
+        .exterior()
+        .boolean(BooleanOperation::Union, curve, option.clone())?
+        .into_regions();
+    if union.len() != 1 {
+        // apart from each other
+        return Ok(vec![region.clone(), curve.clone().into()]);
+    }
+
+    let mut islands = vec![];
+    let mut united = vec![];
+    for it in union {
+        let (exterior, mut interiors) = it.into_tuple();
+        for interior in region.interiors().iter() {
+            // the part of the hole out of the curve remains
+            let remains = interior.boolean(BooleanOperation::Difference, curve, option.clone())?;
+            for remain in remains.into_regions() {
+                let (hole, inside) = remain.into_tuple();
+                interiors.push(hole);
+                islands.extend(inside.into_iter().map(Region::from));
+            }
+        }
+        united.push(Region::new(exterior, interiors));
+    }
+    united.extend(islands);
+    Ok(united)
+}
+
+/// region ∩ curve
+fn intersect<T: FloatingPoint + ArgminFloat>(
+    region: &Region<T>,
+    curve: &CompoundCurve<T, U3>,
+    option: &SolverOption<T>,
+) -> anyhow::Result<Vec<Region<T>>> {
+    let regions = region
+        .exterior()
+        .boolean(BooleanOperation::Intersection, curve, option.clone())?
+        .into_regions();
+    subtract_all(regions, region.interiors(), option)
+}
+
+/// region - curve
+fn subtract<T: FloatingPoint + ArgminFloat>(
+    region: &Region<T>,
+    curve: &CompoundCurve<T, U3>,
+    option: &SolverOption<T>,
+) -> anyhow::Result<Vec<Region<T>>> {
+    // unite the curve and the holes overlapping it
+    let mut removed = curve.clone();
+    let mut enclosed: Vec<Region<T>> = vec![];
+    let mut holes = vec![];
+    for interior in region.interiors().iter() {
+        enclosed = subtract_all(enclosed, std::slice::from_ref(interior), option)?;
+        let union = removed
+            .boolean(BooleanOperation::Union, interior, option.clone())?
+            .into_regions();
+        if union.len() == 1 {
+            for it in union {
+                let (exterior, interiors) = it.into_tuple();
+                removed = exterior;
+                enclosed.extend(interiors.into_iter().map(Region::from));
+            }
+        } else {
+            holes.push(interior.clone());
+        }
+    }
+
+    let mut regions = region
+        .exterior()
+        .boolean(BooleanOperation::Difference, &removed, option.clone())?
+        .into_regions();
+
+    // the parts enclosed by the curve and the holes are not removed
+    for it in enclosed {
+        regions.extend(intersect(&it, region.exterior(), option)?);
+    }
+
+    distribute_interiors_to_regions(&mut regions, &mut holes, option.clone())?;
+    Ok(regions)
+}
+
 /// distribute the interiors into the regions that contain them
 fn distribute_interiors_to_regions<T: FloatingPoint + ArgminFloat>(
     regions: &mut [Region<T>],
-- 
2.43.0


From 10220ba1654234b194cd5fa7d78deae54e4c3dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 21/54] fix: boundary points outside of the bounding box by
 rounding are contained

---
 src/contains/contains_compound_curve.rs | 14 ++++++++------
 src/contains/contains_curve.rs          | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/contains/contains_compound_curve.rs b/src/contains/contains_compound_curve.rs
index 0ca2adb..3da7171 100644
--- a/src/contains/contains_compound_curve.rs
+++ b/src/contains/contains_compound_curve.rs
@@ -34,7 +34,13 @@ impl<T: FloatingPoint + ArgminFloat> Contains<T, Const<2>> for CompoundCurve<T,
         // anyhow::ensure!(self.is_closed(), "Curve must be closed");
 
         let bb: BoundingBox<T, Const<2>> = self.into();
-        if !bb.contains(point) {
+        let minimum_distance = option
+            .as_ref()
+            .map(|opt| opt.minimum_distance)
+            .unwrap_or(T::from_f64(1e-6).unwrap());
+        // a point on the boundary may be outside of the box by rounding
+        let at = BoundingBox::new(point.coords, point.coords);
+        if !bb.intersects(&at, Some(minimum_distance)) {
             return Ok(false);
         }
 
@@ -43,11 +49,7 @@ impl<T: FloatingPoint + ArgminFloat> Contains<T, Const<2>> for CompoundCurve<T,
             .map(|closest| {
                 let delta = closest - point;
                 let distance = delta.norm();
-                distance
-                    < option
-                        .as_ref()
-                        .map(|opt| opt.minimum_distance)
-                        .unwrap_or(T::from_f64(1e-6).unwrap())
+                distance < minimum_distance
             })
             .unwrap_or(false);
         if on_boundary {
diff --git a/src/contains/contains_curve.rs b/src/contains/contains_curve.rs
index 4ec1040..25a41d7 100644
--- a/src/contains/contains_curve.rs
+++ b/src/contains/contains_curve.rs
@@ -28,7 +28,13 @@ impl<T: FloatingPoint + ArgminFloat> Contains<T, Const<2>> for NurbsCurve<T, Con
         anyhow::ensure!(self.is_closed(), "Curve must be closed");
 
         let bb: BoundingBox<T, Const<2>> = self.into();
-        if !bb.contains(point) {
+        let minimum_distance = option
+            .as_ref()
+            .map(|opt| opt.minimum_distance)
+            .unwrap_or(T::from_f64(1e-6).unwrap());
+        // a point on the boundary may be outside of the box by rounding
+        let at = BoundingBox::new(point.coords, point.coords);
+        if !bb.intersects(&at, Some(minimum_distance)) {
             return Ok(false);
         }
 
@@ -37,11 +43,7 @@ impl<T: FloatingPoint + ArgminFloat> Contains<T, Const<2>> for NurbsCurve<T, Con
             .map(|closest| {
                 let delta = closest - point;
                 let distance = delta.norm();
-                distance
-                    < option
-                        .as_ref()
-                        .map(|opt| opt.minimum_distance)
-                        .unwrap_or(T::from_f64(1e-6).unwrap())
+                distance < minimum_distance
             })
             .unwrap_or(false);
         if on_boundary {
-- 
2.43.0


From e0beb9306f3e18980f2bb7678d05c7a4b912cfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 22/54] fix: collecting pieces into a compound curve connects
 them

---
 src/region/compound_curve.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/region/compound_curve.rs b/src/region/compound_curve.rs
index b44b99d..44dda10 100644
--- a/src/region/compound_curve.rs
+++ b/src/region/compound_curve.rs
@@ -252,10 +252,15 @@ where
 impl<T: FloatingPoint, D: DimName> FromIterator<NurbsCurve<T, D>> for CompoundCurve<T, D>
 where
     DefaultAllocator: Allocator<D>,
+    D: DimNameSub<U1>,
+    DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
 {
     fn from_iter<I: IntoIterator<Item = NurbsCurve<T, D>>>(iter: I) -> Self {
-        Self {
-            spans: iter.into_iter().collect(),
+        let spans: Vec<_> = iter.into_iter().collect();
+        if spans.is_empty() {
+            Self { spans }
+        } else {
+            Self::new(spans)
         }
     }
 }
-- 
2.43.0


From dd008043e50bc9162b62e39a5ae400765e0c2eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:59 +0000
Subject: [PATCH 23/54] fix: revolving by negative angles and about axes of any
 length

---
 src/surface/nurbs_surface.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 288c599..1c4c17b 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -1157,17 +1157,20 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
     ) -> anyhow::Result<Self> {
         let prof_points = profile.dehomogenized_control_points();
         let prof_weights = profile.weights();
+        let axis = &axis.normalize();
 
         let two = T::from_f64(2.0).unwrap();
-        let (narcs, mut u_knots) = if theta <= T::pi() / two {
+        // the number of arcs depends on the amount of rotation, not on its sense
+        let rotation = theta.abs();
+        let (narcs, mut u_knots) = if rotation <= T::pi() / two {
             (1, vec![T::zero(); 6])
-        } else if theta <= T::pi() {
+        } else if rotation <= T::pi() {
             let mut knots = vec![T::zero(); 6 + 2];
             let half = T::from_f64(0.5).unwrap();
             knots[3] = half;
             knots[4] = half;
             (2, knots)
-        } else if theta <= T::from_f64(3.0).unwrap() * T::pi() / two {
+        } else if rotation <= T::from_f64(3.0).unwrap() * T::pi() / two {
             let mut knots = vec![T::zero(); 6 + 2 * 2];
             let frac_three = T::from_f64(1.0 / 3.0).unwrap();
             let two_frac_three = T::from_f64(2.0 / 3.0).unwrap();
-- 
2.43.0


From 7f0acca062ca7fd024eccaebbed1eb4696b90721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 24/54] fix: profile points on the axis of revolution by
 rounding are poles

---
 src/surface/nurbs_surface.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 1c4c17b..5f82292 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -1226,7 +1226,12 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
             // perpendicular vector to x & axis
             let mut y = axis.cross(&x);
 
-            if r > T::default_epsilon() {
+            // a point of the axis is off it by the rounding of its coordinates
+            let tolerance = T::default_epsilon()
+                * T::from_f64(16.0).unwrap()
+                * (T::one() + p.coords.norm() + center.coords.norm());
+
+            if r > tolerance {
                 x *= T::one() / r;
                 y *= T::one() / r;
             }
@@ -1241,7 +1246,7 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
             let mut t0 = y;
             let mut index = 0;
             for i in 1..=narcs {
-                let p2 = if r <= T::default_epsilon() {
+                let p2 = if r <= tolerance {
                     o
                 } else {
                     o + x * cosines[i] * r + y * sines[i] * r
@@ -1256,7 +1261,7 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
                 let t2 = y * cosines[i] - x * sines[i];
 
                 let l = index + 1;
-                if r <= T::default_epsilon() {
+                if r <= tolerance {
                     control_points[l][j].x = o.x;
                     control_points[l][j].y = o.y;
                     control_points[l][j].z = o.z;
-- 
2.43.0


From 9fbd16587cd10f7600407d018d4615b3020e424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 25/54] fix: lofts meet every section, also unclamped ones and
 coinciding control points

---
 src/curve/nurbs_curve.rs     | 10 ++++
 src/surface/nurbs_surface.rs | 99 +++++++++++++++++++++++++++---------
 2 files changed, 85 insertions(+), 24 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 1dd9a1f..453e8a3 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -2097,6 +2097,16 @@ pub fn try_interpolate_control_points<T: FloatingPoint>(
     let end = us.len() - degree;
 
     for i in start..end {
+    try_interpolate_control_points_at(points, &us, degree, homogeneous)
+}
+
+/// Interpolate points at the given parameters, which ascend from 0 to 1
+pub(crate) fn try_interpolate_control_points_at<T: FloatingPoint>(
+    points: &[DVector<T>],
+    us: &[T],
+    degree: usize,
+    homogeneous: bool,
+) -> anyhow::Result<(Vec<DVector<T>>, KnotVector<T>)> {
         let mut weight_sums = T::zero();
         for j in 0..degree {
             weight_sums += us[i + j];
diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 5f82292..880cdeb 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -10,15 +10,15 @@ use nalgebra::{
 use simba::scalar::SupersetOf;
 
 use crate::{
-    curve::{
-        nurbs_curve::{dehomogenize, NurbsCurve, NurbsCurve3D},
-        try_interpolate_control_points,
+    curve::nurbs_curve::{
+        dehomogenize, try_interpolate_control_points_at, NurbsCurve, NurbsCurve3D,
     },
     misc::{
         binomial::Binomial, transformable::Transformable, transpose_control_points, FloatingPoint,
         Invertible, Ray,
     },
     prelude::{AdaptiveTessellationOptions, KnotVector, SurfaceTessellation, Tessellation},
+    trim::TrimRange,
     SurfaceClosestParameterNewton, SurfaceClosestParameterProblem,
 };
 
@@ -675,6 +675,7 @@ where
         D: DimNameAdd<U1>,
         DefaultAllocator: Allocator<DimNameSum<D, U1>>,
     {
+        anyhow::ensure!(curves.len() >= 2, "At least two curves are required");
         let unified_curves = try_unify_curve_knot_vectors(curves)?;
 
         let degree_u = unified_curves[0].degree();
@@ -682,21 +683,24 @@ where
 
         let knots_u = unified_curves[0].knots().clone();
 
-        // Interpolate each column of control points to get the nurbs curve aligned with the v direction
-        let v_curves: anyhow::Result<Vec<_>> = (0..unified_curves[0].control_points().len())
+        let columns = (0..unified_curves[0].control_points().len())
             .map(|i| {
-                let points = unified_curves
+                unified_curves
                     .iter()
-                    .map(|c| c.control_points()[i].clone())
-                    .collect_vec();
-                let (control_points, knots) = try_interpolate_control_points(
-                    &points
-                        .iter()
-                        .map(|p| DVector::from_vec(p.iter().copied().collect()))
-                        .collect_vec(),
-                    degree_v,
-                    false,
-                )?;
+                    .map(|c| DVector::from_vec(c.control_points()[i].iter().copied().collect()))
+                    .collect_vec()
+            })
+            .collect_vec();
+
+        // All columns share the parameters of the curves, or the surface would not meet them
+        let parameters = try_loft_parameters(&columns)?;
+
+        // Interpolate each column of control points to get the nurbs curve aligned with the v direction
+        let v_curves: anyhow::Result<Vec<_>> = columns
+            .iter()
+            .map(|points| {
+                let (control_points, knots) =
+                    try_interpolate_control_points_at(points, &parameters, degree_v, false)?;
                 NurbsCurve::try_new(
                     degree_v,
                     control_points
@@ -1322,6 +1326,35 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
     }
 }
 
+/// The parameters of the lofted curves: normalized chord lengths averaged over the columns of control points
+fn try_loft_parameters<T: FloatingPoint>(columns: &[Vec<DVector<T>>]) -> anyhow::Result<Vec<T>> {
+    let n = columns[0].len();
+    let mut sums = vec![T::zero(); n];
+    let mut count = T::zero();
+    for column in columns.iter() {
+        let chords = column
+            .iter()
+            .tuple_windows()
+            .map(|(a, b)| (b - a).norm())
+            .collect_vec();
+        let total = chords.iter().fold(T::zero(), |a, b| a + *b);
+        if total > T::default_epsilon() {
+            // a column may degenerate to a point
+            let mut length = T::zero();
+            for (i, chord) in chords.iter().enumerate() {
+                length += *chord;
+                sums[i + 1] += length / total;
+            }
+            count += T::one();
+        }
+    }
+    anyhow::ensure!(
+        sums.iter().tuple_windows().all(|(a, b)| a < b),
+        "Successive curves must not coincide"
+    );
+    Ok(sums.into_iter().map(|s| s / count).collect())
+}
+
 /// Unify the knot vectors of a collection of NURBS curves
 ///
 fn try_unify_curve_knot_vectors<T, D>(
@@ -1334,6 +1367,21 @@ where
 {
     let max_degree = curves.iter().fold(0, |d, c| d.max(c.degree()));
 
+    // restrict all curves to their domains, so that the ends of their knots are those of the curves
+    let curves = curves
+        .iter()
+        .map(|c| {
+            if c.is_clamped() {
+                Ok(c.clone())
+            } else {
+                c.try_trim_range(c.knots_domain())?
+                    .into_iter()
+                    .next()
+                    .ok_or(anyhow::anyhow!("Failed to trim the curve"))
+            }
+        })
+        .collect::<anyhow::Result<Vec<NurbsCurve<T, D>>>>()?;
+
     // elevate all curves to the same degree
     let mut curves = curves
         .iter()
@@ -1375,14 +1423,17 @@ where
         c.knots_mut().iter_mut().for_each(|x| *x *= scale);
     });
 
+    // scaled knots that should be equal differ by rounding
+    let tolerance = max_knot_span * T::default_epsilon() * T::from_f64(64.0).unwrap();
+
     //merge all of the knot vectors
-    let merged_knots = curves
-        .iter()
-        .fold(vec![], |a, c| sorted_set_union(c.knots().as_slice(), &a));
+    let merged_knots = curves.iter().fold(vec![], |a, c| {
+        sorted_set_union(c.knots().as_slice(), &a, tolerance)
+    });
 
     //knot refinement on each curve
     for curve in curves.iter_mut() {
-        let rem = sorted_set_sub(&merged_knots, curve.knots().as_slice());
+        let rem = sorted_set_sub(&merged_knots, curve.knots().as_slice(), tolerance);
         if !rem.is_empty() {
             curve.try_refine_knot(rem)?;
         }
@@ -1391,7 +1442,7 @@ where
     Ok(curves)
 }
 
-fn sorted_set_union<T: RealField + Copy>(a: &[T], b: &[T]) -> Vec<T> {
+fn sorted_set_union<T: RealField + Copy>(a: &[T], b: &[T], tolerance: T) -> Vec<T> {
     let mut merged = Vec::new();
     let mut ai = 0;
     let mut bi = 0;
@@ -1408,7 +1459,7 @@ fn sorted_set_union<T: RealField + Copy>(a: &[T], b: &[T]) -> Vec<T> {
 
         let diff = a[ai] - b[bi];
 
-        if diff.abs() < T::default_epsilon() {
+        if diff.abs() < tolerance {
             merged.push(a[ai]);
             ai += 1;
             bi += 1;
@@ -1430,7 +1481,7 @@ fn sorted_set_union<T: RealField + Copy>(a: &[T], b: &[T]) -> Vec<T> {
     merged
 }
 
-fn sorted_set_sub<T: RealField + Copy>(a: &[T], b: &[T]) -> Vec<T> {
+fn sorted_set_sub<T: RealField + Copy>(a: &[T], b: &[T], tolerance: T) -> Vec<T> {
     let mut result = Vec::new();
     let mut ai = 0;
     let mut bi = 0;
@@ -1442,7 +1493,7 @@ fn sorted_set_sub<T: RealField + Copy>(a: &[T], b: &[T]) -> Vec<T> {
             continue;
         }
 
-        if (a[ai] - b[bi]).abs() < T::default_epsilon() {
+        if (a[ai] - b[bi]).abs() < tolerance {
             ai += 1;
             bi += 1;
             continue;
-- 
2.43.0


From 03a07a45c2b4021fcd85636783baf9af46fbfbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 26/54] fix: moving frames stay orthonormal between opposite
 tangents

---
 src/curve/nurbs_curve.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 453e8a3..3db2d68 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1916,6 +1916,10 @@ impl<T: FloatingPoint> NurbsCurve3D<T> {
     /// Compute the Frenet frames of the curve at given parameters
     /// based on the method described in the paper: http://www.cs.indiana.edu/pub/techreports/TR425.pdf
     pub fn compute_frenet_frames(&self, parameters: &[T]) -> Vec<FrenetFrame<T>> {
+        if parameters.is_empty() {
+            return vec![];
+        }
+
         let tangents: Vec<_> = parameters
             .iter()
             .map(|u| self.tangent_at(*u).normalize())
@@ -1948,17 +1952,19 @@ impl<T: FloatingPoint> NurbsCurve3D<T> {
         for i in 1..parameters.len() {
             let prev_normal = &normals[i - 1];
 
-            let v = tangents[i - 1].cross(&tangents[i]).normalize();
-            if v.norm() > T::default_epsilon() {
+            // the axis is only known if the tangents are neither parallel nor opposite
+            let v = tangents[i - 1].cross(&tangents[i]);
+            let normal = if v.norm() > T::default_epsilon().sqrt() {
                 let theta = tangents[i - 1]
                     .dot(&tangents[i])
                     .clamp(-T::one(), T::one())
                     .acos();
                 let rot = Rotation3::from_axis_angle(&UnitVector3::new_normalize(v), theta);
-                normals.push(rot * prev_normal);
+                rot * prev_normal
             } else {
-                normals.push(*prev_normal);
-            }
+                *prev_normal
+            };
+            normals.push((normal - tangents[i] * tangents[i].dot(&normal)).normalize());
 
             binormals.push(tangents[i].cross(&normals[i]).normalize());
         }
@@ -2091,12 +2097,6 @@ pub fn try_interpolate_control_points<T: FloatingPoint>(
         us[i] /= max;
     }
 
-    let mut knots_start = vec![T::zero(); degree + 1];
-
-    let start = 1;
-    let end = us.len() - degree;
-
-    for i in start..end {
     try_interpolate_control_points_at(points, &us, degree, homogeneous)
 }
 
@@ -2107,6 +2107,12 @@ pub(crate) fn try_interpolate_control_points_at<T: FloatingPoint>(
     degree: usize,
     homogeneous: bool,
 ) -> anyhow::Result<(Vec<DVector<T>>, KnotVector<T>)> {
+    let mut knots_start = vec![T::zero(); degree + 1];
+
+    let start = 1;
+    let end = us.len() - degree;
+
+    for i in start..end {
         let mut weight_sums = T::zero();
         for j in 0..degree {
             weight_sums += us[i + j];
-- 
2.43.0


From 12139191956ea4e9405edf1db6f0bef7be7d09e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 27/54] fix: closest point on a surface searches every patch
 and stays in the domain

---
 .../surface_closest_parameter_newton.rs       | 170 +++++++-----------
 src/surface/nurbs_surface.rs                  | 135 ++++++++------
 2 files changed, 143 insertions(+), 162 deletions(-)

diff --git a/src/closest_parameter/surface_closest_parameter_newton.rs b/src/closest_parameter/surface_closest_parameter_newton.rs
index 6e5468a..aa8680f 100644
--- a/src/closest_parameter/surface_closest_parameter_newton.rs
+++ b/src/closest_parameter/surface_closest_parameter_newton.rs
@@ -1,4 +1,4 @@
-use argmin::{argmin_error, argmin_error_closure, core::*, float};
+use argmin::{argmin_error_closure, core::*};
 use nalgebra::{
     allocator::Allocator, DefaultAllocator, DimNameDiff, DimNameSub, Matrix2, OVector, Vector2, U1,
 };
@@ -6,15 +6,12 @@ use nalgebra::{
 use crate::misc::FloatingPoint;
 
 /// Customized Newton's method for finding the closest parameter on a NURBS surface
+/// Steps are limited to the domain, damped until they reduce the distance, and never increase it
 /// Original source: https://argmin-rs.github.io/argmin/argmin/solver/newton/struct.Newton.html
 #[derive(Clone, Copy)]
 pub struct SurfaceClosestParameterNewton<F, D> {
-    /// gamma
-    gamma: F,
     /// domain of the parameter
     knot_domain: ((F, F), (F, F)),
-    /// the target curve is closed or not
-    closed: (bool, bool),
     phantom: std::marker::PhantomData<D>,
 }
 
@@ -23,30 +20,12 @@ where
     F: ArgminFloat + Clone,
 {
     /// Construct a new instance of [`Newton`]
-    pub fn new(domain: ((F, F), (F, F)), closed: (bool, bool)) -> Self {
+    pub fn new(domain: ((F, F), (F, F))) -> Self {
         SurfaceClosestParameterNewton {
-            // gamma: float!(0.25),
-            gamma: float!(0.25),
             knot_domain: domain,
-            closed,
             phantom: Default::default(),
         }
     }
-
-    /// Set step size gamma
-    ///
-    /// Gamma must be in `(0, 1]` and defaults to `1`.
-    #[allow(unused)]
-    pub fn with_gamma(mut self, gamma: F) -> Result<Self, Error> {
-        if gamma <= float!(0.0) || gamma > float!(1.0) {
-            return Err(argmin_error!(
-                InvalidParameter,
-                "Newton: gamma must be in  (0, 1]."
-            ));
-        }
-        self.gamma = gamma;
-        Ok(self)
-    }
 }
 
 impl<O, F, D> Solver<O, IterState<Vector2<F>, Vector2<F>, (), (), (), F>>
@@ -91,9 +70,6 @@ where
             )
         ))?;
 
-        // let p = *param;
-        // return Ok((state.param(p), None));
-
         let dif = problem.gradient(param)?;
         let e = problem.hessian(param)?;
 
@@ -102,75 +78,73 @@ where
         let s_uu = &e[2][0];
         let s_vv = &e[0][2];
         let s_uv = &e[1][1];
-        // let s_vu = &e[1][1];
 
-        let grad = Vector2::new(s_u.dot(&dif), s_v.dot(&dif));
+        let (u_domain, v_domain) = self.knot_domain;
 
-        let distance = dif.norm();
-        let eps = F::from_f64(1e-5).unwrap();
+        // a parameter on the boundary is fixed if the distance decreases only outside of the domain
+        let mut grad = Vector2::new(s_u.dot(&dif), s_v.dot(&dif));
+        let u_fixed = is_blocked(param.x, grad.x, u_domain);
+        let v_fixed = is_blocked(param.y, grad.y, v_domain);
 
-        // halt if point is close enough
-        if distance < eps {
-            let p = *param;
-            // println!("halt");
-            return Ok((state.param(p), None));
+        let first = Matrix2::new(s_u.dot(s_u), s_u.dot(s_v), s_u.dot(s_v), s_v.dot(s_v));
+        let second = Matrix2::new(
+            s_uu.dot(&dif),
+            s_uv.dot(&dif),
+            s_uv.dot(&dif),
+            s_vv.dot(&dif),
+        );
+        let mut hessians = [first + second, first];
+        if u_fixed {
+            grad.x = F::zero();
         }
-
-        let duu = s_u.dot(s_u) + s_uu.dot(&dif);
-        let dvv = s_v.dot(s_v) + s_vv.dot(&dif);
-
-        // check if the second derivative is vanishing
-        let u_d = duu < F::default_epsilon();
-        let v_d = dvv < F::default_epsilon();
-
-        let new_param = match (u_d, v_d) {
-            (false, false) => {
-                let duv = s_u.dot(s_v) + s_uv.dot(&dif);
-                let hessian = Matrix2::new(duu, duv, duv, dvv);
-                let delta = hessian
-                    .lu()
-                    .solve(&-grad)
-                    .ok_or(anyhow::anyhow!("Failed to solve"))?;
-                *param + delta * self.gamma
-            }
-            (true, false) => {
-                let v_delta = -grad.y / dvv;
-                *param + Vector2::new(F::zero(), v_delta) * self.gamma
-            }
-            (false, true) => {
-                let u_delta = -grad.x / duu;
-                *param + Vector2::new(u_delta, F::zero()) * self.gamma
-            }
-            _ => {
-                let p = *param;
-                return Ok((state.param(p), None));
+        if v_fixed {
+            grad.y = F::zero();
+        }
+        hessians.iter_mut().for_each(|h| {
+            if u_fixed || v_fixed {
+                h[(0, 1)] = F::zero();
+                h[(1, 0)] = F::zero();
             }
-        };
-
-        /*
-        let inv = hessian
-            .try_inverse()
-            .ok_or(anyhow::anyhow!("Failed to compute inverse matrix"))?;
-        let delta = -inv * grad;
-        let new_param = *param + delta * self.gamma;
-        */
-
-        // Constrain the parameter to the domain
-        let new_param = Vector2::new(
-            constrain(new_param.x, self.knot_domain.0, self.closed.0),
-            constrain(new_param.y, self.knot_domain.1, self.closed.1),
-        );
+        });
+
+        // use the Gauss-Newton approximation where the hessian is not positive definite
+        let hessian = hessians
+            .into_iter()
+            .find(|h| h.m11 > F::zero() && h.m22 > F::zero() && h.determinant() > F::zero())
+            .unwrap_or(first);
+
+        let cost = state.get_cost();
+        let scale = hessian.m11 + hessian.m22;
+        let mut damping = F::zero();
+        for _ in 0..12 {
+            let damped = hessian + Matrix2::identity() * damping;
+            if let Some(delta) = damped.lu().solve(&-grad) {
+                // halt if the distance cannot be reduced any more
+                if -grad.dot(&delta) <= F::default_epsilon() * cost * cost {
+                    break;
+                }
 
-        let new_cost = problem.cost(&new_param)?;
-        // println!("prev: {}, next: {}", state.get_cost(), new_cost);
+                // Constrain the parameter to the domain
+                let new_param = *param + delta;
+                let new_param = Vector2::new(
+                    nalgebra::clamp(new_param.x, u_domain.0, u_domain.1),
+                    nalgebra::clamp(new_param.y, v_domain.0, v_domain.1),
+                );
+                let new_cost = problem.cost(&new_param)?;
+                if new_cost < cost {
+                    return Ok((state.cost(new_cost).param(new_param), None));
+                }
+            }
+            damping = if damping > F::zero() {
+                damping * F::from_f64(10.0).unwrap()
+            } else {
+                scale * F::from_f64(1e-3).unwrap()
+            };
+        }
 
         // halt if cost is not decreasing
-        if state.get_cost() < new_cost {
-            let p = *param;
-            Ok((state.param(p), None))
-        } else {
-            Ok((state.cost(new_cost).param(new_param), None))
-        }
+        let p = *param;
+        Ok((state.param(p), None))
     }
 
     fn terminate(
@@ -195,20 +169,8 @@ where
     }
 }
 
-fn constrain<T: FloatingPoint>(parameter: T, domain: (T, T), closed: bool) -> T {
-    if parameter < domain.0 {
-        if closed {
-            domain.1 - (parameter - domain.0)
-        } else {
-            domain.0 + T::default_epsilon()
-        }
-    } else if parameter > domain.1 {
-        if closed {
-            domain.0 + (parameter - domain.1)
-        } else {
-            domain.1 - T::default_epsilon()
-        }
-    } else {
-        parameter
-    }
+/// The parameter is on the boundary of the domain and descends out of it
+fn is_blocked<T: FloatingPoint>(parameter: T, gradient: T, domain: (T, T)) -> bool {
+    (parameter <= domain.0 && gradient >= T::zero())
+        || (parameter >= domain.1 && gradient <= T::zero())
 }
diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 880cdeb..ba027e5 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -1,4 +1,4 @@
-use std::borrow::Cow;
+use std::{borrow::Cow, cmp::Ordering};
 
 use argmin::core::{ArgminFloat, Executor, State};
 use itertools::Itertools;
@@ -7,6 +7,7 @@ use nalgebra::{
     DimNameSub, DimNameSum, OMatrix, OPoint, OVector, Point3, Point4, RealField, Vector2, Vector3,
     U1,
 };
+use num_traits::Float;
 use simba::scalar::SupersetOf;
 
 use crate::{
@@ -17,7 +18,7 @@ use crate::{
         binomial::Binomial, transformable::Transformable, transpose_control_points, FloatingPoint,
         Invertible, Ray,
     },
-    prelude::{AdaptiveTessellationOptions, KnotVector, SurfaceTessellation, Tessellation},
+    prelude::{KnotVector, SurfaceTessellation},
     trim::TrimRange,
     SurfaceClosestParameterNewton, SurfaceClosestParameterProblem,
 };
@@ -934,66 +935,56 @@ where
         DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
         T: ArgminFloat,
     {
-        let mut uv = Vector2::new(self.u_knots_domain().0, self.v_knots_domain().0);
-        let mut min_dist = T::infinity();
-
-        /*
-        let tess = self.regular_tessellate(10, 10);
-        tess.points().iter().enumerate().for_each(|(i, pt)| {
-            let d = point - pt;
-            let d = d.norm_squared();
-            if d < min_dist {
-                min_dist = d;
-                uv = tess.uvs()[i];
+        // sample every patch between the knots so that no crease of the surface is skipped
+        let us = sample_spans(&self.u_knots, self.u_degree);
+        let vs = sample_spans(&self.v_knots, self.v_degree);
+
+        let mut best: Option<((T, T), T)> = None;
+        let mut update = |uv: (T, T), d: T| {
+            if d.is_finite() && best.as_ref().map_or(true, |(_, min)| d < *min) {
+                best = Some((uv, d));
             }
-        });
-        */
-
-        let tess = self.tessellate(Some(AdaptiveTessellationOptions {
-            min_divs_u: (self.control_points().len() - 1) * 2,
-            min_divs_v: (self.control_points()[0].len() - 1) * 2,
-            ..Default::default()
-        }));
-        tess.points().iter().enumerate().for_each(|(i, pt)| {
-            let d = point - pt;
-            let d = d.norm_squared();
-            if d < min_dist {
-                min_dist = d;
-                uv = tess.uvs()[i];
-            }
-        });
-        // println!("Initial guess: {:?}", uv);
-
-        let pts = self.dehomogenized_control_points();
-        let u0 = pts.first().unwrap();
-        let u1 = pts.last().unwrap();
-        let eps = T::default_epsilon() * T::from_f64(10.0).unwrap();
-        let u_closed = (0..pts[0].len()).all(|i| (&u0[i] - &u1[i]).norm() < eps);
-        let v_closed = (0..pts.len()).all(|i| {
-            let row = &pts[i];
-            let v0 = row.first().unwrap();
-            let v1 = row.last().unwrap();
-            (v0 - v1).norm() < eps
-        });
-        // println!("u_closed: {}, v_closed: {}", u_closed, v_closed);
-
-        let solver = SurfaceClosestParameterNewton::<T, D>::new(
-            (self.u_knots_domain(), self.v_knots_domain()),
-            (u_closed, v_closed),
-        );
-        let res = Executor::new(SurfaceClosestParameterProblem::new(point, self), solver)
-            .configure(|state| state.param(uv).max_iters(100))
-            .run()?;
-        match res.state().get_best_param().cloned() {
-            Some(t) => {
-                if t.x.is_finite() && t.y.is_finite() {
-                    Ok((t.x, t.y))
-                } else {
-                    Err(anyhow::anyhow!("No best parameter found"))
+            best.as_ref().map_or(d, |(_, min)| *min)
+        };
+
+        let mut min = T::infinity();
+        let mut starts = vec![];
+        for (u, u_domain) in us.iter() {
+            for (v, v_domain) in vs.iter() {
+                let pts = u
+                    .iter()
+                    .map(|u| v.iter().map(|v| self.point_at(*u, *v)).collect_vec())
+                    .collect_vec();
+                for (i, j) in (0..u.len()).cartesian_product(0..v.len()) {
+                    let d = (&pts[i][j] - point).norm();
+                    min = update((u[i], v[j]), d);
+                    let around = (i.saturating_sub(1)..=(i + 1).min(u.len() - 1))
+                        .cartesian_product(j.saturating_sub(1)..=(j + 1).min(v.len() - 1));
+                    let size = around
+                        .map(|(k, l)| (&pts[k][l] - &pts[i][j]).norm())
+                        .fold(T::zero(), Float::max);
+                    starts.push((d, size, (u[i], v[j]), (*u_domain, *v_domain)));
                 }
             }
-            _ => Err(anyhow::anyhow!("No best parameter found")),
         }
+
+        // refine the samples around which the surface may come nearer, inside their patch
+        starts.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(Ordering::Equal));
+        for (d, size, uv, domain) in starts {
+            if d - size * T::from_f64(0.75).unwrap() > min {
+                continue;
+            }
+            let solver = SurfaceClosestParameterNewton::<T, D>::new(domain);
+            let res = Executor::new(SurfaceClosestParameterProblem::new(point, self), solver)
+                .configure(|state| state.param(Vector2::new(uv.0, uv.1)).max_iters(50))
+                .run()?;
+            if let Some(t) = res.state().get_best_param() {
+                min = update((t.x, t.y), (self.point_at(t.x, t.y) - point).norm());
+            }
+        }
+
+        best.map(|(uv, _)| uv)
+            .ok_or(anyhow::anyhow!("No best parameter found"))
     }
 
     /// Cast the surface to a surface with another floating point type
@@ -1015,6 +1006,34 @@ where
     }
 }
 
+/// Sample every non-empty span of the knots.
+/// Returns the samples and the domain in which the derivatives are those of the span
+fn sample_spans<T: FloatingPoint>(knots: &KnotVector<T>, degree: usize) -> Vec<(Vec<T>, (T, T))> {
+    let (start, end) = knots.domain(degree);
+    let divs = degree * 3;
+    let eps = nalgebra::ComplexField::sqrt(T::default_epsilon());
+    let mut breaks = vec![start];
+    breaks.extend(knots.iter().filter(|k| start < **k && **k < end));
+    breaks.push(end);
+    breaks
+        .windows(2)
+        .filter(|w| w[0] < w[1])
+        .map(|w| {
+            let step = (w[1] - w[0]) / T::from_usize(divs).unwrap();
+            let mut samples = (0..divs)
+                .map(|i| w[0] + step * T::from_usize(i).unwrap())
+                .collect_vec();
+            samples.push(w[1]);
+            let last = if w[1] < end {
+                w[1] - (w[1] - w[0]) * eps
+            } else {
+                w[1]
+            };
+            (samples, (w[0], last))
+        })
+        .collect()
+}
+
 /// Compute the rational derivatives of derivatives
 fn rational_derivatives<T, D>(
     ders: &[Vec<OVector<T, D>>],
-- 
2.43.0


From ed96714cb5749c28af0eaea411538578bb699709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:02 +0000
Subject: [PATCH 28/54] fix: surface-curve intersection tries several starts,
 keeps results at the domain ends and merges by place

---
 .../curve_curve/intersection_curve_curve.rs   |   4 +-
 .../intersection_surface_curve.rs             | 151 +++++++++---------
 2 files changed, 76 insertions(+), 79 deletions(-)

diff --git a/src/intersects/curve_curve/intersection_curve_curve.rs b/src/intersects/curve_curve/intersection_curve_curve.rs
index 933b2c3..3d66d2b 100644
--- a/src/intersects/curve_curve/intersection_curve_curve.rs
+++ b/src/intersects/curve_curve/intersection_curve_curve.rs
@@ -220,14 +220,14 @@ where
 }
 
 /// Check if two parameters are near, where the start & end of the closed interval are the same place
-pub(super) fn is_near_parameter<T: FloatingPoint>(u: T, v: T, closed_interval: Option<T>) -> bool {
+pub(crate) fn is_near_parameter<T: FloatingPoint>(u: T, v: T, closed_interval: Option<T>) -> bool {
     let minimum_distance = T::from_f64(1e-2).unwrap();
     let d = ComplexField::abs(u - v);
     d < minimum_distance || closed_interval.is_some_and(|interval| interval - d < minimum_distance)
 }
 
 /// Length of the domain of the curve if its start & end are at the same place
-pub(super) fn closed_interval<T, D>(curve: &NurbsCurve<T, D>, tolerance: T) -> Option<T>
+pub(crate) fn closed_interval<T, D>(curve: &NurbsCurve<T, D>, tolerance: T) -> Option<T>
 where
     T: FloatingPoint,
     D: DimName + DimNameSub<U1>,
diff --git a/src/intersects/surface_curve/intersection_surface_curve.rs b/src/intersects/surface_curve/intersection_surface_curve.rs
index 2db60c2..4e6fd08 100644
--- a/src/intersects/surface_curve/intersection_surface_curve.rs
+++ b/src/intersects/surface_curve/intersection_surface_curve.rs
@@ -10,6 +10,7 @@ use num_traits::Float;
 
 use crate::{
     curve::NurbsCurve,
+    intersects::curve_curve::intersection_curve_curve::{closed_interval, is_near_parameter},
     misc::FloatingPoint,
     prelude::{
         BoundingBoxTraversal, CurveBoundingBoxTree, CurveIntersectionSolverOptions,
@@ -80,70 +81,63 @@ where
 
         let intersections = traversed
             .into_pairs_iter()
-            .filter_map(|(a, b)| {
+            .flat_map(|(a, b)| {
                 let surface = a.surface_owned();
                 let curve = b.curve_owned();
 
-                let div = T::from_f64(0.5).unwrap();
-
-                let d = curve.knots_domain();
-                let curve_parameter = (d.0 + d.1) * div;
-
-                let (u, v) = surface.knots_domain();
-                let surface_parameter = ((u.0 + u.1) * div, (v.0 + v.1) * div);
-
-                let problem = SurfaceCurveIntersectionProblem::new(&surface, &curve);
-
-                // Define initial parameter vector
-                let init_param =
-                    Vector3::new(curve_parameter, surface_parameter.0, surface_parameter.1);
-
-                // Set up solver
-                let solver = SurfaceCurveIntersectionBFGS::<T>::new()
-                    .with_step_size_tolerance(options.step_size_tolerance)
-                    .with_cost_tolerance(options.cost_tolerance);
-
-                // Run solver
-                let res = Executor::new(problem, solver)
-                    .configure(|state| {
-                        state
-                            .param(init_param)
-                            .inv_hessian(Matrix3::identity())
-                            .max_iters(options.max_iters)
-                    })
-                    .run();
-
-                match res {
-                    Ok(r) => {
-                        // println!("{}", r.state().get_termination_status());
-                        r.state().get_best_param().and_then(|param| {
-                            if (surface_u_domain.0..=surface_u_domain.1).contains(&param.y)
-                                && (surface_v_domain.0..=surface_v_domain.1).contains(&param.z)
-                                && (curve_domain.0..=curve_domain.1).contains(&param.x)
+                let half = T::from_f64(0.5).unwrap();
+                let (t0, t1) = curve.knots_domain();
+                let ((u0, u1), (v0, v1)) = surface.knots_domain();
+
+                // Define initial parameter vectors
+                // The solver may run out of the pair of the pieces from one of them
+                let init_params = [
+                    Vector3::<T>::new((t0 + t1) * half, (u0 + u1) * half, (v0 + v1) * half),
+                    Vector3::<T>::new(t0, u0, v0),
+                    Vector3::<T>::new(t1, u1, v1),
+                    Vector3::<T>::new(t0, u1, v0),
+                    Vector3::<T>::new(t1, u0, v1),
+                ];
+
+                let mut found = vec![];
+                for init_param in init_params {
+                    let problem = SurfaceCurveIntersectionProblem::new(&surface, &curve);
+
+                    // Set up solver
+                    let solver = SurfaceCurveIntersectionBFGS::<T>::new()
+                        .with_step_size_tolerance(options.step_size_tolerance)
+                        .with_cost_tolerance(options.cost_tolerance);
+
+                    // Run solver
+                    let res = Executor::new(problem, solver)
+                        .configure(|state| {
+                            state
+                                .param(init_param)
+                                .inv_hessian(Matrix3::identity())
+                                .max_iters(options.max_iters)
+                        })
+                        .run();
+
+                    let param = res.ok().and_then(|r| r.state().get_best_param().cloned());
+                    if let Some(param) = param.filter(|p| p.iter().all(|v| v.is_finite())) {
+                        // the solver may slightly step over the ends of the domains
+                        let t = clamp(param.x, curve_domain);
+                        let u = clamp(param.y, surface_u_domain);
+                        let v = clamp(param.z, surface_v_domain);
+                        let p0 = self.point_at(u, v);
+                        let p1 = other.point_at(t);
+                        if (&p0 - &p1).norm() < options.minimum_distance {
+                            found.push(SurfaceCurveIntersection::new((p0, (u, v)), (p1, t)));
+                            if (t0..=t1).contains(&t)
+                                && (u0..=u1).contains(&u)
+                                && (v0..=v1).contains(&v)
                             {
-                                let p0 = self.point_at(param.y, param.z);
-                                let p1 = other.point_at(param.x);
-                                Some(SurfaceCurveIntersection::new(
-                                    (p0, (param.y, param.z)),
-                                    (p1, param.x),
-                                ))
-                            } else {
-                                None
+                                break;
                             }
-                        })
-                    }
-                    Err(_e) => {
-                        // println!("{}", e);
-                        None
+                        }
                     }
                 }
-            })
-            .filter(|it| {
-                // filter out intersections that are too close
-                let p0 = &it.a().0;
-                let p1 = &it.b().0;
-                let d = (p0 - p1).norm();
-                d < options.minimum_distance
+                found
             })
             .collect_vec();
 
@@ -152,26 +146,25 @@ where
             .sorted_by(|x, y| x.b().1.partial_cmp(&y.b().1).unwrap_or(Ordering::Equal))
             .collect_vec();
 
-        // group near parameter results & extract the closest one in each group
-        let parameter_minimum_distance = T::from_f64(1e-3).unwrap();
-        let groups = sorted
-            .into_iter()
-            .map(|pt| vec![pt])
-            .coalesce(|x, y| {
-                let x0 = &x[x.len() - 1];
-                let y0 = &y[y.len() - 1];
-                let db = Float::abs(x0.b().1 - y0.b().1);
-                if db < parameter_minimum_distance {
-                    // merge near parameter results
-                    let group = [x, y].concat();
-                    Ok(group)
-                } else {
-                    Err((x, y))
-                }
-            })
-            .collect::<Vec<Vec<_>>>()
-            .into_iter()
-            .collect_vec();
+        // group near results & extract the closest one in each group
+        // results are at the same place only if they are near on the curve too,
+        // where the start & end of a closed curve are the same place.
+        let seam = closed_interval(other, options.minimum_distance);
+        let mut groups: Vec<Vec<SurfaceCurveIntersection<OPoint<T, DimNameDiff<D, U1>>, T>>> =
+            vec![];
+        for it in sorted {
+            let near = groups.iter_mut().find(|group| {
+                group.iter().any(|other| {
+                    let d = &it.b().0 - &other.b().0;
+                    d.norm_squared() < options.minimum_distance
+                        && is_near_parameter(it.b().1, other.b().1, seam)
+                })
+            });
+            match near {
+                Some(group) => group.push(it),
+                None => groups.push(vec![it]),
+            }
+        }
 
         let pts = groups
             .into_iter()
@@ -195,3 +188,7 @@ where
         Ok(pts)
     }
 }
+
+fn clamp<T: Float>(value: T, domain: (T, T)) -> T {
+    Float::min(Float::max(value, domain.0), domain.1)
+}
-- 
2.43.0


From 26b88cfa6f6b63d7218e9f1cb724b8f0b29b2505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:45 +0000
Subject: [PATCH 29/54] fix: touching bounding boxes are not missed by rounding
 errors in intersection traversal

---
 src/bounding_box/bounding_box_traversal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bounding_box/bounding_box_traversal.rs b/src/bounding_box/bounding_box_traversal.rs
index 8fc7829..466601f 100644
--- a/src/bounding_box/bounding_box_traversal.rs
+++ b/src/bounding_box/bounding_box_traversal.rs
@@ -29,8 +29,8 @@ where
         let mut trees = vec![(ta, tb)];
         let mut pairs = vec![];
 
-        let tol = Some(T::zero());
-        // let tol = T::from_f64(-1e-4);
+        // boxes which touch each other may be apart by the rounding errors of the divisions
+        let tol = Some(T::default_epsilon().sqrt());
 
         while let Some((a, b)) = trees.pop() {
             if !a.bounding_box().intersects(&b.bounding_box(), tol) {
-- 
2.43.0


From 00f795cc122671c00fea52d81393d7f656ff7e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 30/54] fix: link a tessellation cell to its western neighbour
 by its column

---
 src/tessellation/surface.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tessellation/surface.rs b/src/tessellation/surface.rs
index c97cb57..aa1f57e 100644
--- a/src/tessellation/surface.rs
+++ b/src/tessellation/surface.rs
@@ -173,7 +173,7 @@ where
                 let s = south(index, iv, divs_u, divs_v);
                 let e = east(index, iu, divs_u);
                 let n = north(index, iv, divs_u);
-                let w = west(index, iv);
+                let w = west(index, iu);
                 AdaptiveTessellationNode::new(index, corners, [s, e, n, w])
             })
         })
@@ -221,8 +221,8 @@ fn east(index: usize, iu: usize, divs_u: usize) -> Option<usize> {
     }
 }
 
-fn west(index: usize, iv: usize) -> Option<usize> {
-    if iv == 0 {
+fn west(index: usize, iu: usize) -> Option<usize> {
+    if iu == 0 {
         None
     } else {
         Some(index - 1)
-- 
2.43.0


From c4dc98f368461011a3c0c268c24837795008909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 31/54] fix: apply the constraints of the far boundaries to the
 last row and column of the grid

---
 src/tessellation/surface.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tessellation/surface.rs b/src/tessellation/surface.rs
index aa1f57e..227e90a 100644
--- a/src/tessellation/surface.rs
+++ b/src/tessellation/surface.rs
@@ -140,14 +140,14 @@ where
         .enumerate()
         .map(|(iv, v)| {
             let u_min = iv == 0;
-            let u_max = iv == divs_v - 1;
+            let u_max = iv == divs_v;
             let u_constraint = (u_min && u_min_constraint) || (u_max && u_max_constraint);
 
             let row = us.iter().enumerate().map(|(iu, u)| {
                 let ds = s.rational_derivatives(*u, *v, 1);
                 let norm = ds[1][0].cross(&ds[0][1]).normalize();
                 let v_min = iu == 0;
-                let v_max = iu == divs_u - 1;
+                let v_max = iu == divs_u;
                 let v_constraint = (v_min && v_min_constraint) || (v_max && v_max_constraint);
                 SurfacePoint::new(Vector2::new(*u, *v), ds[0][0].clone().into(), norm, false)
                     .with_constraints(u_constraint, v_constraint)
-- 
2.43.0


From 5a638a5a0e75eb52ece26b08882c5c77b711837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 32/54] fix: tessellated surfaces have no undefined normals at
 degenerate points

---
 src/surface/nurbs_surface.rs                   |  8 +++++++-
 src/tessellation/adaptive_tessellation_node.rs |  5 +++--
 src/tessellation/surface.rs                    | 16 ++++++++++------
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index ba027e5..391519e 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -246,7 +246,13 @@ where
                     .map(|der| {
                         let v0 = &der[1][0];
                         let v1 = &der[0][1];
-                        v0.cross(v1).normalize()
+                        let normal = v0.cross(v1);
+                        // the normal is not defined at a degenerate point (e.g. a pole)
+                        if normal.magnitude_squared() < T::default_epsilon() {
+                            normal
+                        } else {
+                            normal.normalize()
+                        }
                     })
                     .collect()
             })
diff --git a/src/tessellation/adaptive_tessellation_node.rs b/src/tessellation/adaptive_tessellation_node.rs
index 359de12..71768e1 100644
--- a/src/tessellation/adaptive_tessellation_node.rs
+++ b/src/tessellation/adaptive_tessellation_node.rs
@@ -173,7 +173,8 @@ where
         self.corners.iter().any(|c| c.is_normal_degenerated())
     }
 
-    fn fix_normals(&mut self) {
+    /// Replace the degenerate normals at the corners with those of the neighboring corners
+    pub(crate) fn fix_normals(&mut self) {
         let l = self.corners.len();
 
         for i in 0..l {
@@ -254,7 +255,7 @@ where
 }
 
 /// Evaluate the surface at a given uv coordinate
-fn evaluate_surface<T: FloatingPoint, D>(
+pub(crate) fn evaluate_surface<T: FloatingPoint, D>(
     surface: &NurbsSurface<T, D>,
     uv: Vector2<T>,
 ) -> SurfacePoint<T, DimNameDiff<D, U1>>
diff --git a/src/tessellation/surface.rs b/src/tessellation/surface.rs
index 227e90a..4d8d4dc 100644
--- a/src/tessellation/surface.rs
+++ b/src/tessellation/surface.rs
@@ -2,8 +2,11 @@ use super::adaptive_tessellation_option::AdaptiveTessellationOptions;
 use super::adaptive_tessellation_processor::AdaptiveTessellationProcessor;
 use super::boundary_constraints::BoundaryConstraints;
 use super::surface_tessellation::SurfaceTessellation;
-use super::{adaptive_tessellation_node::AdaptiveTessellationNode, Tessellation};
-use super::{ConstrainedTessellation, SurfacePoint};
+use super::ConstrainedTessellation;
+use super::{
+    adaptive_tessellation_node::{evaluate_surface, AdaptiveTessellationNode},
+    Tessellation,
+};
 use itertools::Itertools;
 use nalgebra::{
     allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, DimNameSub, Vector2, U1,
@@ -144,12 +147,10 @@ where
             let u_constraint = (u_min && u_min_constraint) || (u_max && u_max_constraint);
 
             let row = us.iter().enumerate().map(|(iu, u)| {
-                let ds = s.rational_derivatives(*u, *v, 1);
-                let norm = ds[1][0].cross(&ds[0][1]).normalize();
                 let v_min = iu == 0;
                 let v_max = iu == divs_u;
                 let v_constraint = (v_min && v_min_constraint) || (v_max && v_max_constraint);
-                SurfacePoint::new(Vector2::new(*u, *v), ds[0][0].clone().into(), norm, false)
+                evaluate_surface(s, Vector2::new(*u, *v))
                     .with_constraints(u_constraint, v_constraint)
                     .with_boundary(u_min, u_max, v_min, v_max)
             });
@@ -179,7 +180,7 @@ where
         })
         .collect_vec();
 
-    let nodes = if !is_adaptive {
+    let mut nodes = if !is_adaptive {
         nodes
     } else {
         let mut processor = AdaptiveTessellationProcessor::new(s, nodes);
@@ -194,6 +195,9 @@ where
         processor.into_nodes()
     };
 
+    // the normals are not defined at the degenerate corners (e.g. poles)
+    nodes.iter_mut().for_each(|node| node.fix_normals());
+
     SurfaceTessellation::new(s, &nodes, constraints)
 }
 
-- 
2.43.0


From 41e234e149ac262f9fbb7b4d2cf90d8e474227ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 33/54] fix: normals at constrained boundary points have unit
 length

---
 src/tessellation/boundary_constraints.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/tessellation/boundary_constraints.rs b/src/tessellation/boundary_constraints.rs
index 9b03a3a..c705296 100644
--- a/src/tessellation/boundary_constraints.rs
+++ b/src/tessellation/boundary_constraints.rs
@@ -5,7 +5,7 @@ use nalgebra::{
 
 use crate::{misc::FloatingPoint, surface::NurbsSurface};
 
-use super::SurfacePoint;
+use super::{adaptive_tessellation_node::evaluate_surface, SurfacePoint};
 
 /// A struct representing constraints at the boundary of a surface tessellation
 #[derive(Clone, Debug)]
@@ -123,13 +123,7 @@ where
     pub fn new(surface: &NurbsSurface<T, D>, constraints: &BoundaryConstraints<T>) -> Self {
         let (u, v) = surface.knots_domain();
 
-        let evaluate = |uv: Vector2<T>| {
-            let deriv = surface.rational_derivatives(uv.x, uv.y, 1);
-            let pt = deriv[0][0].clone();
-            let norm = deriv[1][0].cross(&deriv[0][1]);
-            let is_normal_degenerated = norm.magnitude_squared() < T::default_epsilon();
-            SurfacePoint::new(uv, pt.into(), norm, is_normal_degenerated)
-        };
+        let evaluate = |uv: Vector2<T>| evaluate_surface(surface, uv);
 
         Self {
             u_points_at_v_min: constraints.u_parameters_at_v_min().map(|u_parameters| {
-- 
2.43.0


From 68e1e99a23aec90a30c7cc10b928fc271d4654e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 34/54] fix: constrained boundary points are matched by their
 parameters

---
 src/tessellation/boundary_constraints.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tessellation/boundary_constraints.rs b/src/tessellation/boundary_constraints.rs
index c705296..f1eb45e 100644
--- a/src/tessellation/boundary_constraints.rs
+++ b/src/tessellation/boundary_constraints.rs
@@ -189,7 +189,8 @@ where
             .map(|v_points| self.closest_point(point, v_points))
     }
 
-    /// Find the closest point to the given point from the list of points
+    /// Find the closest point to the given point from the list of points on the same boundary
+    /// (in the parameter space because different parameters can share a position: seams and poles)
     fn closest_point(
         &self,
         point: &SurfacePoint<T, DimNameDiff<D, U1>>,
@@ -198,7 +199,7 @@ where
         points
             .iter()
             .map(|p| {
-                let dist = (p.point() - point.point()).norm_squared();
+                let dist = (p.uv() - point.uv()).norm_squared();
                 (p, dist)
             })
             .min_by(|a, b| a.1.partial_cmp(&b.1).unwrap_or(std::cmp::Ordering::Equal))
-- 
2.43.0


From 4428de36f0b34415cca1414a391cc72ebacd01db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:17 +0000
Subject: [PATCH 35/54] fix: the minimum depth does not divide constrained
 boundaries

---
 src/tessellation/adaptive_tessellation_node.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/tessellation/adaptive_tessellation_node.rs b/src/tessellation/adaptive_tessellation_node.rs
index 71768e1..3f54daf 100644
--- a/src/tessellation/adaptive_tessellation_node.rs
+++ b/src/tessellation/adaptive_tessellation_node.rs
@@ -199,8 +199,17 @@ where
         options: &AdaptiveTessellationOptions<T>,
         current_depth: usize,
     ) -> Option<DividableDirection> {
+        // constrained boundaries must not be divided
+        let v_dividable = self.corners.iter().all(|c| !c.is_u_constrained());
+        let u_dividable = self.corners.iter().all(|c| !c.is_v_constrained());
+
         if current_depth < options.min_depth {
-            return Some(DividableDirection::Both);
+            return match (u_dividable, v_dividable) {
+                (true, true) => Some(DividableDirection::Both),
+                (true, false) => Some(DividableDirection::U),
+                (false, true) => Some(DividableDirection::V),
+                (false, false) => None,
+            };
         }
 
         if current_depth >= options.max_depth {
@@ -219,13 +228,13 @@ where
             > options.norm_tolerance
             || (self.corners[2].normal() - self.corners[3].normal()).norm_squared()
                 > options.norm_tolerance;
-        let v_direction = v_direction && self.corners.iter().all(|c| !c.is_u_constrained());
+        let v_direction = v_direction && v_dividable;
 
         let u_direction = (self.corners[1].normal() - self.corners[2].normal()).norm_squared()
             > options.norm_tolerance
             || (self.corners[3].normal() - self.corners[0].normal()).norm_squared()
                 > options.norm_tolerance;
-        let u_direction = u_direction && self.corners.iter().all(|c| !c.is_v_constrained());
+        let u_direction = u_direction && u_dividable;
 
         match (u_direction, v_direction) {
             (true, true) => Some(DividableDirection::Both),
-- 
2.43.0


From 0b62dcf27739696b054cf9d7a1cbe2c686effab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:36 +0000
Subject: [PATCH 36/54] fix: cells beside moved boundary points do not fold
 over

---
 .../adaptive_tessellation_node.rs             |  6 +++--
 src/tessellation/surface.rs                   | 14 +++++++++-
 src/tessellation/surface_tessellation.rs      | 27 ++++++++++++++++---
 3 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/tessellation/adaptive_tessellation_node.rs b/src/tessellation/adaptive_tessellation_node.rs
index 3f54daf..01cca98 100644
--- a/src/tessellation/adaptive_tessellation_node.rs
+++ b/src/tessellation/adaptive_tessellation_node.rs
@@ -124,16 +124,18 @@ where
         match self.neighbors[edge_index] {
             None => base_arr,
             Some(neighbor) => {
-                let orig = &self.corners;
+                let p0 = &self.corners[edge_index].uv;
+                let p1 = &self.corners[(edge_index + 1) % 4].uv;
                 //get opposite edges uvs
                 let corners = nodes[neighbor].get_edge_corners(nodes, (edge_index + 2) % 4);
                 let e = T::default_epsilon();
 
                 //clip the range of uvs to match self one
                 let idx = edge_index % 2;
+                let (min, max) = (p0[idx].min(p1[idx]), p0[idx].max(p1[idx]));
                 let corner = corners
                     .into_iter()
-                    .filter(|c| c.uv[idx] > orig[0].uv[idx] + e && c.uv[idx] < orig[2].uv[idx] - e)
+                    .filter(|c| c.uv[idx] > min + e && c.uv[idx] < max - e)
                     .rev()
                     .collect_vec();
                 [base_arr, corner].concat()
diff --git a/src/tessellation/surface.rs b/src/tessellation/surface.rs
index 4d8d4dc..e6ef0cb 100644
--- a/src/tessellation/surface.rs
+++ b/src/tessellation/surface.rs
@@ -150,8 +150,15 @@ where
                 let v_min = iu == 0;
                 let v_max = iu == divs_u;
                 let v_constraint = (v_min && v_min_constraint) || (v_max && v_max_constraint);
+                // an edge to a point which moves along the boundary must not be divided
+                let moves = constraints.as_ref().is_some_and(|c| {
+                    (u_min && is_missing(c.u_parameters_at_v_min(), u))
+                        || (u_max && is_missing(c.u_parameters_at_v_max(), u))
+                        || (v_min && is_missing(c.v_parameters_at_u_min(), v))
+                        || (v_max && is_missing(c.v_parameters_at_u_max(), v))
+                });
                 evaluate_surface(s, Vector2::new(*u, *v))
-                    .with_constraints(u_constraint, v_constraint)
+                    .with_constraints(u_constraint || moves, v_constraint || moves)
                     .with_boundary(u_min, u_max, v_min, v_max)
             });
             row.collect_vec()
@@ -233,6 +240,11 @@ fn west(index: usize, iu: usize) -> Option<usize> {
     }
 }
 
+/// Check if the boundary is constrained to parameters without the given one
+fn is_missing<T: FloatingPoint>(parameters: Option<&Vec<T>>, parameter: &T) -> bool {
+    parameters.is_some_and(|parameters| !parameters.contains(parameter))
+}
+
 /// Merge two sorted vectors
 fn merge_sorted_parameters<T: FloatingPoint>(p0: Vec<T>, p1: Vec<T>) -> Vec<T> {
     let mut c0 = 0;
diff --git a/src/tessellation/surface_tessellation.rs b/src/tessellation/surface_tessellation.rs
index 4a4c1a4..53d7bd0 100644
--- a/src/tessellation/surface_tessellation.rs
+++ b/src/tessellation/surface_tessellation.rs
@@ -6,8 +6,9 @@ use nalgebra::{
 use simba::scalar::SupersetOf;
 
 use crate::{
-    misc::FloatingPoint, prelude::NurbsSurface,
-    tessellation::adaptive_tessellation_node::AdaptiveTessellationNode,
+    misc::FloatingPoint,
+    prelude::NurbsSurface,
+    tessellation::adaptive_tessellation_node::{evaluate_surface, AdaptiveTessellationNode},
 };
 
 use super::boundary_constraints::{BoundaryConstraints, BoundaryEvaluation};
@@ -120,6 +121,13 @@ where
             }
 
             match n {
+                // the other diagonal if both of the adjacent corners moved along the boundaries
+                4 if is_reflex(&self.uvs[ids[1]], &self.uvs[ids[2]], &self.uvs[ids[3]])
+                    || is_reflex(&self.uvs[ids[3]], &self.uvs[ids[0]], &self.uvs[ids[1]]) =>
+                {
+                    self.faces.push([ids[0], ids[1], ids[2]]);
+                    self.faces.push([ids[0], ids[2], ids[3]]);
+                }
                 4 => {
                     self.faces.push([ids[0], ids[1], ids[3]]);
                     self.faces.push([ids[3], ids[1], ids[2]]);
@@ -136,7 +144,15 @@ where
                     self.faces.push([a, c, d]);
                 }
                 n => {
-                    let center = node.center(surface);
+                    let center = if boundary_evaluation.is_some() {
+                        // the corners may have moved along the boundary
+                        let uv = self.uvs[base_index..]
+                            .iter()
+                            .fold(Vector2::zeros(), |sum, uv| sum + uv);
+                        evaluate_surface(surface, uv / T::from_usize(n).unwrap())
+                    } else {
+                        node.center(surface)
+                    };
                     self.points.push(center.point.clone());
                     self.normals.push(center.normal.clone());
                     self.uvs.push(center.uv);
@@ -184,3 +200,8 @@ where
         }
     }
 }
+
+/// Check if the corner `b` of a counter-clockwise polygon is reflex
+fn is_reflex<T: FloatingPoint>(a: &Vector2<T>, b: &Vector2<T>, c: &Vector2<T>) -> bool {
+    (b - a).perp(&(c - b)) < T::zero()
+}
-- 
2.43.0


From e1016d913e44e1a38be08e792c1e6205e2bae9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:43 +0000
Subject: [PATCH 37/54] fix: the tessellation grid ends exactly at the end of
 the domain

---
 src/tessellation/surface.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tessellation/surface.rs b/src/tessellation/surface.rs
index e6ef0cb..6684d6f 100644
--- a/src/tessellation/surface.rs
+++ b/src/tessellation/surface.rs
@@ -86,7 +86,11 @@ where
         let (umin, umax) = s.u_knots_domain();
         let du = (umax - umin) / T::from_usize(divs_u).unwrap();
         (0..=divs_u)
-            .map(|i| umin + du * T::from_usize(i).unwrap())
+            .map(|i| match i {
+                // the last parameter must be the end of the domain despite rounding errors
+                i if i == divs_u => umax,
+                i => umin + du * T::from_usize(i).unwrap(),
+            })
             .collect()
     };
 
@@ -103,7 +107,11 @@ where
         let (vmin, vmax) = s.v_knots_domain();
         let dv = (vmax - vmin) / T::from_usize(divs_v).unwrap();
         (0..=divs_v)
-            .map(|i| vmin + dv * T::from_usize(i).unwrap())
+            .map(|i| match i {
+                // the last parameter must be the end of the domain despite rounding errors
+                i if i == divs_v => vmax,
+                i => vmin + dv * T::from_usize(i).unwrap(),
+            })
             .collect()
     };
 
-- 
2.43.0


From bbcb8353584618467f9dd3490e951e2c40edcae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 38/54] fix: reversing a trimmed surface carries its trimming
 curves along

---
 src/surface/trimmed_surface.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/surface/trimmed_surface.rs b/src/surface/trimmed_surface.rs
index 755dcde..175880a 100644
--- a/src/surface/trimmed_surface.rs
+++ b/src/surface/trimmed_surface.rs
@@ -1,7 +1,7 @@
 use std::cmp::Ordering;
 
 use argmin::core::ArgminFloat;
-use nalgebra::{ComplexField, Matrix4, Point3, Vector3, U3};
+use nalgebra::{ComplexField, Matrix3, Matrix4, Point3, Vector3, U3};
 
 use crate::{
     curve::{NurbsCurve2D, NurbsCurve3D},
@@ -189,12 +189,31 @@ impl<'a, T: FloatingPoint> Transformable<&'a Matrix4<T>> for TrimmedSurface<T> {
 
 impl<T: FloatingPoint> Invertible for TrimmedSurface<T> {
     /// Reverse the direction of the surface
+    /// The trimming curves are carried along with the reversed parameters, so that the trimmed part stays the same
     fn invert(&mut self) {
+        let mirror = {
+            let (u, v) = (self.surface.u_knots(), self.surface.v_knots());
+            // reversed knot vectors keep their first and last knots
+            Matrix3::new(
+                -T::one(),
+                T::zero(),
+                u[0] + u[u.len() - 1],
+                T::zero(),
+                -T::one(),
+                v[0] + v[v.len() - 1],
+                T::zero(),
+                T::zero(),
+                T::one(),
+            )
+        };
         self.surface.invert();
-        if let Some(curve) = self.exterior.as_mut() {
-            curve.invert();
-        }
-        self.interiors.iter_mut().for_each(|curve| curve.invert());
+        self.exterior
+            .iter_mut()
+            .chain(self.interiors.iter_mut())
+            .for_each(|curve| {
+                curve.transform(&mirror);
+                curve.invert();
+            });
     }
 }
 
-- 
2.43.0


From 72d9e79a2f430e90c0c236d6195e027aebb8c478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 39/54] fix: an S-shaped curve is not tessellated into its
 chord

---
 src/tessellation/tessellation_curve.rs | 38 ++++++++++++++++++++------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/tessellation/tessellation_curve.rs b/src/tessellation/tessellation_curve.rs
index 7a446a2..3698e9a 100644
--- a/src/tessellation/tessellation_curve.rs
+++ b/src/tessellation/tessellation_curve.rs
@@ -1,3 +1,4 @@
+use itertools::Itertools;
 use nalgebra::{
     allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, DimNameSub, OPoint, U1,
 };
@@ -28,7 +29,25 @@ where
         let mut rng = rand::rng();
         let tol = tolerance.unwrap_or(T::from_f64(1e-3).unwrap());
         let (start, end) = self.knots_domain();
-        tessellate_adaptive(self, start, end, tol, &mut rng)
+
+        // start from the knots: the curve may be bent there
+        let knots = self
+            .knots()
+            .iter()
+            .copied()
+            .filter(|k| start <= *k && *k <= end)
+            .dedup()
+            .collect_vec();
+
+        knots
+            .windows(2)
+            .enumerate()
+            .flat_map(|(i, w)| {
+                tessellate_adaptive(self, w[0], w[1], tol, &mut rng)
+                    .into_iter()
+                    .skip(if i == 0 { 0 } else { 1 })
+            })
+            .collect_vec()
     }
 }
 
@@ -54,15 +73,16 @@ where
 
     let p3 = curve.point_at(end);
 
+    // an S-shaped curve crosses its chord: a single point may lie there by chance
     let t = 0.5_f64 + 0.2_f64 * rng.random::<f64>();
-    let mid = start + delta * T::from_f64(t).unwrap();
-    let p2 = curve.point_at(mid);
-
-    let diff = &p1 - &p3;
-    let diff2 = &p1 - &p2;
-    if (diff.dot(&diff) < tol && diff2.dot(&diff2) > tol)
-        || !three_points_are_flat(&p1, &p2, &p3, tol)
-    {
+    let bent = [t, 1. - t].into_iter().any(|t| {
+        let p2 = curve.point_at(start + delta * T::from_f64(t).unwrap());
+        let diff = &p1 - &p3;
+        let diff2 = &p1 - &p2;
+        (diff.dot(&diff) < tol && diff2.dot(&diff2) > tol)
+            || !three_points_are_flat(&p1, &p2, &p3, tol)
+    });
+    if bent {
         let exact_mid = start + (end - start) * T::from_f64(0.5).unwrap();
         let mut left_pts = tessellate_adaptive(curve, start, exact_mid, tol, rng);
         let right_pts = tessellate_adaptive(curve, exact_mid, end, tol, rng);
-- 
2.43.0


From 0e411fdd41657a7640cd7fb5717eea32bddc6eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:45 +0000
Subject: [PATCH 40/54] fix: a trimming curve is closed if it ends where it
 starts in the parameter plane

---
 src/tessellation/trimmed_surface.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/tessellation/trimmed_surface.rs b/src/tessellation/trimmed_surface.rs
index 6acf354..19ad633 100644
--- a/src/tessellation/trimmed_surface.rs
+++ b/src/tessellation/trimmed_surface.rs
@@ -25,10 +25,6 @@ impl<T: FloatingPoint> Vertex<T> {
     pub fn new(point: Point3<T>, normal: Vector3<T>, uv: Vector2<T>) -> Self {
         Self { point, normal, uv }
     }
-
-    pub fn point(&self) -> Point3<T> {
-        self.point
-    }
 }
 
 impl<T: FloatingPoint + SpadeNum> HasPosition for Vertex<T> {
@@ -157,7 +153,7 @@ fn trimmed_surface_adaptive_tessellate<T: FloatingPoint + SpadeNum>(
     let insert_constraint = |t: &mut Tri<T>, vertices: &[Vertex<T>]| {
         let skip = if let (Some(first), Some(last)) = (vertices.first(), vertices.last()) {
             // if the input vertices are closed, skip the first vertex to avoid adding a duplicate constraint
-            if first.point() == last.point() {
+            if first.uv == last.uv {
                 1
             } else {
                 0
-- 
2.43.0


From c155f20f9232386a0b4fce369e4dd8f9c8fbdf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:45 +0000
Subject: [PATCH 41/54] fix: curved trimming curves are refined by the turns of
 their tangents, span by span

---
 src/tessellation/trimmed_surface.rs | 67 +++++++++++------------------
 1 file changed, 26 insertions(+), 41 deletions(-)

diff --git a/src/tessellation/trimmed_surface.rs b/src/tessellation/trimmed_surface.rs
index 19ad633..fe364ce 100644
--- a/src/tessellation/trimmed_surface.rs
+++ b/src/tessellation/trimmed_surface.rs
@@ -265,48 +265,30 @@ fn tessellate_uv_curve_adaptive<T: FloatingPoint>(
     surface: &NurbsSurface3D<T>,
     tolerance: T,
 ) -> Vec<Vertex<T>> {
-    let degree = curve.degree();
-    match degree {
-        1 => {
-            // if the curve is a linear curve, should start tessellation from the knots
-            let knots = curve.knots();
-            let n = knots.len();
-
-            let pts = (1..n - 2).flat_map(|i| {
-                let evaluated = iterate_uv_curve_tessellation(
-                    curve,
-                    surface,
-                    knots[i],
-                    knots[i + 1],
-                    tolerance,
-                );
-                #[allow(clippy::iter_skip_zero)]
-                if i == 1 {
-                    evaluated.into_iter().skip(0)
-                } else {
-                    evaluated.into_iter().skip(1)
-                }
-            });
+    // should start tessellation from the knots, at which the curve or its tangent may be bent
+    let (start, end) = curve.knots_domain();
+    let knots = curve
+        .knots()
+        .iter()
+        .copied()
+        .filter(|k| start <= *k && *k <= end)
+        .dedup()
+        .collect_vec();
 
-            pts.map(|uv| {
-                let p = surface.point_at(uv.x, uv.y);
-                let n = surface.normal_at(uv.x, uv.y);
-                Vertex::new(p, n, uv.coords)
-            })
-            .collect_vec()
-        }
-        _ => {
-            let (start, end) = curve.knots_domain();
-            let pts = iterate_uv_curve_tessellation(curve, surface, start, end, tolerance);
-            pts.into_iter()
-                .map(|uv| {
-                    let p = surface.point_at(uv.x, uv.y);
-                    let n = surface.normal_at(uv.x, uv.y);
-                    Vertex::new(p, n, uv.coords)
-                })
-                .collect_vec()
-        }
-    }
+    knots
+        .windows(2)
+        .enumerate()
+        .flat_map(|(i, w)| {
+            iterate_uv_curve_tessellation(curve, surface, w[0], w[1], tolerance)
+                .into_iter()
+                .skip(if i == 0 { 0 } else { 1 })
+        })
+        .map(|uv| {
+            let p = surface.point_at(uv.x, uv.y);
+            let n = surface.normal_at(uv.x, uv.y);
+            Vertex::new(p, n, uv.coords)
+        })
+        .collect_vec()
 }
 
 fn iterate_uv_curve_tessellation<T: FloatingPoint>(
@@ -331,6 +313,9 @@ fn iterate_uv_curve_tessellation<T: FloatingPoint>(
             // if the curve is a linear curve, we don't need to tessellate it by normal
             false
         } else {
+            // compare the directions of the tangents: their lengths depend on the parameterization
+            let unit = |n: Vector2<T>| n.try_normalize(T::default_epsilon()).unwrap_or(n);
+            let (n1, n2, n3) = (unit(n1), unit(n2), unit(n3));
             let diff = n2 - n1;
             let diff2 = n3 - n2;
             (diff - diff2).norm() > normal_tolerance
-- 
2.43.0


From 98669a9f86bb8f530500c5caccafc48fa733376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:47 +0000
Subject: [PATCH 42/54] fix: vertices on trimming curves have unit normals

---
 src/tessellation/trimmed_surface.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/tessellation/trimmed_surface.rs b/src/tessellation/trimmed_surface.rs
index fe364ce..85c0523 100644
--- a/src/tessellation/trimmed_surface.rs
+++ b/src/tessellation/trimmed_surface.rs
@@ -86,7 +86,7 @@ fn trimmed_surface_adaptive_tessellate<T: FloatingPoint + SpadeNum>(
                     .map(|t| {
                         let uv = curve.point_at(*t);
                         let p = s.surface().point_at(uv.x, uv.y);
-                        let n = s.surface().normal_at(uv.x, uv.y);
+                        let n = unit_normal_at(s.surface(), uv.x, uv.y);
                         Vertex::new(p, n, uv.coords)
                     })
                     .collect_vec(),
@@ -102,7 +102,7 @@ fn trimmed_surface_adaptive_tessellate<T: FloatingPoint + SpadeNum>(
                         .map(|t| {
                             let uv = curve.point_at(*t);
                             let p = s.surface().point_at(uv.x, uv.y);
-                            let n = s.surface().normal_at(uv.x, uv.y);
+                            let n = unit_normal_at(s.surface(), uv.x, uv.y);
                             Vertex::new(p, n, uv.coords)
                         })
                         .collect_vec(),
@@ -259,6 +259,14 @@ fn trimmed_surface_adaptive_tessellate<T: FloatingPoint + SpadeNum>(
     })
 }
 
+/// The unit normal of the surface, zero where it is not defined
+fn unit_normal_at<T: FloatingPoint>(surface: &NurbsSurface3D<T>, u: T, v: T) -> Vector3<T> {
+    surface
+        .normal_at(u, v)
+        .try_normalize(T::default_epsilon())
+        .unwrap_or_else(Vector3::zeros)
+}
+
 /// Tessellate the curve using an adaptive algorithm recursively
 fn tessellate_uv_curve_adaptive<T: FloatingPoint>(
     curve: &NurbsCurve2D<T>,
@@ -285,7 +293,7 @@ fn tessellate_uv_curve_adaptive<T: FloatingPoint>(
         })
         .map(|uv| {
             let p = surface.point_at(uv.x, uv.y);
-            let n = surface.normal_at(uv.x, uv.y);
+            let n = unit_normal_at(surface, uv.x, uv.y);
             Vertex::new(p, n, uv.coords)
         })
         .collect_vec()
-- 
2.43.0


From bf038617bc6275b79bc1f90aa4467e9a8cb3e97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:42 +0000
Subject: [PATCH 43/54] fix: a trimming curve is refined at a crease without
 losing its end

---
 src/tessellation/trimmed_surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tessellation/trimmed_surface.rs b/src/tessellation/trimmed_surface.rs
index 85c0523..a58f589 100644
--- a/src/tessellation/trimmed_surface.rs
+++ b/src/tessellation/trimmed_surface.rs
@@ -309,7 +309,7 @@ fn iterate_uv_curve_tessellation<T: FloatingPoint>(
     let (p1, n1) = curve.point_tangent_at(start);
     let delta = end - start;
     if delta < T::from_f64(1e-8).unwrap() {
-        return vec![p1];
+        return vec![p1, curve.point_at(end)];
     }
 
     let exact_mid = start + (end - start) * T::from_f64(0.5).unwrap();
-- 
2.43.0


From a551eb99b8c824638435cd8d2914a95f7e64f9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:44 +0000
Subject: [PATCH 44/54] fix: compare the intervals of bounding boxes
 themselves, not the sign of a product

---
 src/bounding_box/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bounding_box/mod.rs b/src/bounding_box/mod.rs
index 8253cd7..296df0a 100644
--- a/src/bounding_box/mod.rs
+++ b/src/bounding_box/mod.rs
@@ -115,7 +115,7 @@ where
 
             // If the intervals are disjoint,
             // there is no intersection.
-            if d0 * d1 > T::zero() {
+            if d0 > T::zero() || d1 < T::zero() {
                 return false;
             }
         }
-- 
2.43.0


From 495f122844c812850b46870d11f37bc58f209809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:36 +0000
Subject: [PATCH 45/54] fix: do not pick an empty knot span at an end of the
 domain

An unclamped knot vector may repeat the knot at an end of its domain, e.g.
[0, 1, 2, 3, 3, 4, 5] with degree 2 (which inserting that knot produces):
the span at the end is then empty and evaluating there divided zero by zero.
The end is also recognised when subtracting epsilon does not change it.
---
 src/knot/knot_vector.rs | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/knot/knot_vector.rs b/src/knot/knot_vector.rs
index e69dede..3c9075f 100644
--- a/src/knot/knot_vector.rs
+++ b/src/knot/knot_vector.rs
@@ -139,11 +139,12 @@ impl<T: RealField + Copy> KnotVector<T> {
 
     /// Find the knot span index by linear search
     pub fn find_knot_span_linear(&self, n: usize, degree: usize, u: T) -> usize {
-        let mut span = degree + 1;
+        let (first, last) = self.non_empty_spans(n - 1, degree);
+        let mut span = first + 1;
         while span < n && u >= self.0[span] {
             span += 1;
         }
-        span - 1
+        (span - 1).min(last)
     }
 
     /// Find the knot span index by binary search
@@ -156,12 +157,14 @@ impl<T: RealField + Copy> KnotVector<T> {
     /// assert_eq!(idx, 4);
     /// ```
     pub fn find_knot_span_index(&self, n: usize, degree: usize, u: T) -> usize {
-        if u > self[n + 1] - T::default_epsilon() {
-            return n;
+        let (first, last) = self.non_empty_spans(n, degree);
+
+        if u >= self[n + 1] - T::default_epsilon() {
+            return last;
         }
 
-        if u < self[degree] + T::default_epsilon() {
-            return degree;
+        if u <= self[degree] + T::default_epsilon() {
+            return first;
         }
 
         // binary search
@@ -184,6 +187,20 @@ impl<T: RealField + Copy> KnotVector<T> {
         mid
     }
 
+    /// Get the first and last indices of the spans in the domain that are not empty
+    /// The knot at an end of the domain may be repeated inside it, e.g. [0, 1, 2, 3, 3, 4, 5] with degree 2
+    fn non_empty_spans(&self, n: usize, degree: usize) -> (usize, usize) {
+        let mut first = degree;
+        while first < n && self[first + 1] <= self[degree] {
+            first += 1;
+        }
+        let mut last = n;
+        while last > first && self[last] >= self[n + 1] {
+            last -= 1;
+        }
+        (first, last)
+    }
+
     /// Compute the non-vanishing basis functions
     ///
     pub fn basis_functions(&self, knot_span_index: usize, u: T, degree: usize) -> Vec<T> {
@@ -317,10 +334,11 @@ impl<T: RealField + Copy> KnotVector<T> {
         let mut knot_spans = vec![];
         let mut u = start;
         let mut knot_index = self.find_knot_span_index(n, degree, u);
+        let (_, last) = self.non_empty_spans(n, degree);
 
         // compute all of the basis functions
         for _i in 0..=divs {
-            while u >= self[knot_index + 1] && knot_index < n {
+            while u >= self[knot_index + 1] && knot_index < last {
                 knot_index += 1;
             }
             knot_spans.push(knot_index);
@@ -344,10 +362,11 @@ impl<T: RealField + Copy> KnotVector<T> {
         let mut knot_spans = vec![];
         let mut u = start;
         let mut knot_index = self.find_knot_span_index(n, degree, u);
+        let (_, last) = self.non_empty_spans(n, degree);
 
         // compute all of the basis functions
         for _i in 0..=divs {
-            while u >= self[knot_index + 1] && knot_index < n {
+            while u >= self[knot_index + 1] && knot_index < last {
                 knot_index += 1;
             }
             knot_spans.push(knot_index);
-- 
2.43.0


From 2094e7edcd99c1cab8cd7cd7d8d34af371da4890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:34 +0000
Subject: [PATCH 46/54] fix: refuse a malformed exterior when reading a trimmed
 surface

An exterior that could not be read was dropped, which turned the object into
an untrimmed surface, and an exterior could follow a null one.
---
 src/surface/trimmed_surface.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/trimmed_surface.rs b/src/surface/trimmed_surface.rs
index 175880a..a2479cc 100644
--- a/src/surface/trimmed_surface.rs
+++ b/src/surface/trimmed_surface.rs
@@ -321,7 +321,7 @@ where
                             if exterior.is_some() {
                                 return Err(de::Error::duplicate_field("exterior"));
                             }
-                            exterior = map.next_value().ok();
+                            exterior = Some(map.next_value::<Option<NurbsCurve2D<T>>>()?);
                         }
                         Field::Interiors => {
                             if interiors.is_some() {
@@ -334,7 +334,7 @@ where
 
                 Ok(Self::Value {
                     surface: surface.ok_or_else(|| de::Error::missing_field("surface"))?,
-                    exterior,
+                    exterior: exterior.flatten(),
                     interiors: interiors.ok_or_else(|| de::Error::missing_field("interiors"))?,
                 })
             }
-- 
2.43.0


From f46038eda4260be3e170d5d73077d6c7f2797d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:57 +0000
Subject: [PATCH 47/54] fix: a curve over a short domain is drawn from end to
 end

---
 src/tessellation/tessellation_curve.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/tessellation/tessellation_curve.rs b/src/tessellation/tessellation_curve.rs
index 3698e9a..afaf87b 100644
--- a/src/tessellation/tessellation_curve.rs
+++ b/src/tessellation/tessellation_curve.rs
@@ -29,6 +29,7 @@ where
         let mut rng = rand::rng();
         let tol = tolerance.unwrap_or(T::from_f64(1e-3).unwrap());
         let (start, end) = self.knots_domain();
+        let min_delta = (end - start) * T::from_f64(1e-8).unwrap();
 
         // start from the knots: the curve may be bent there
         let knots = self
@@ -43,7 +44,7 @@ where
             .windows(2)
             .enumerate()
             .flat_map(|(i, w)| {
-                tessellate_adaptive(self, w[0], w[1], tol, &mut rng)
+                tessellate_adaptive(self, w[0], w[1], tol, min_delta, &mut rng)
                     .into_iter()
                     .skip(if i == 0 { 0 } else { 1 })
             })
@@ -58,6 +59,7 @@ fn tessellate_adaptive<T: FloatingPoint, D>(
     start: T,
     end: T,
     tol: T,
+    min_delta: T,
     rng: &mut ThreadRng,
 ) -> Vec<OPoint<T, DimNameDiff<D, U1>>>
 where
@@ -66,13 +68,12 @@ where
     DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
 {
     let p1 = curve.point_at(start);
+    let p3 = curve.point_at(end);
     let delta = end - start;
-    if delta < T::from_f64(1e-8).unwrap() {
-        return vec![p1];
+    if delta < min_delta {
+        return vec![p1, p3];
     }
 
-    let p3 = curve.point_at(end);
-
     // an S-shaped curve crosses its chord: a single point may lie there by chance
     let t = 0.5_f64 + 0.2_f64 * rng.random::<f64>();
     let bent = [t, 1. - t].into_iter().any(|t| {
@@ -84,8 +85,8 @@ where
     });
     if bent {
         let exact_mid = start + (end - start) * T::from_f64(0.5).unwrap();
-        let mut left_pts = tessellate_adaptive(curve, start, exact_mid, tol, rng);
-        let right_pts = tessellate_adaptive(curve, exact_mid, end, tol, rng);
+        let mut left_pts = tessellate_adaptive(curve, start, exact_mid, tol, min_delta, rng);
+        let right_pts = tessellate_adaptive(curve, exact_mid, end, tol, min_delta, rng);
         left_pts.pop();
         [left_pts, right_pts].concat()
     } else {
-- 
2.43.0


From 823fbb93dd4acb91d3dcfc19a6c3adffc1b01c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:40 +0000
Subject: [PATCH 48/54] fix: intersections merge by parameters near for the
 length of the domain

---
 .../intersection_compound_curve.rs            | 16 ++++++++-------
 .../curve_curve/intersection_curve_curve.rs   | 20 ++++++++++++-------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/intersects/curve_curve/intersection_compound_curve.rs b/src/intersects/curve_curve/intersection_compound_curve.rs
index 1dbff88..31afbb2 100644
--- a/src/intersects/curve_curve/intersection_compound_curve.rs
+++ b/src/intersects/curve_curve/intersection_compound_curve.rs
@@ -96,8 +96,8 @@ where
 fn merge_at_joints<'a, T, D>(
     intersections: impl Iterator<Item = CompoundCurveIntersection<'a, T, D>>,
     minimum_distance: T,
-    a_seam: Option<T>,
-    b_seam: Option<T>,
+    a_seam: (T, bool),
+    b_seam: (T, bool),
 ) -> Vec<CompoundCurveIntersection<'a, T, D>>
 where
     T: FloatingPoint,
@@ -120,18 +120,20 @@ where
     merged
 }
 
-/// Length of the domain of the compound curve if its start & end are at the same place
-fn compound_closed_interval<T, D>(curve: &CompoundCurve<T, D>, tolerance: T) -> Option<T>
+/// Length of the domain of the compound curve & whether its start & end are at the same place
+fn compound_closed_interval<T, D>(curve: &CompoundCurve<T, D>, tolerance: T) -> (T, bool)
 where
     T: FloatingPoint,
     D: DimName + DimNameSub<U1>,
     DefaultAllocator: Allocator<D>,
     DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
 {
-    let first = curve.spans().first()?.knots_domain().0;
-    let last = curve.spans().last()?.knots_domain().1;
+    let interval = match (curve.spans().first(), curve.spans().last()) {
+        (Some(first), Some(last)) => last.knots_domain().1 - first.knots_domain().0,
+        _ => return (T::zero(), false),
+    };
     let (start, end) = curve.end_points();
-    ((start - end).norm() < tolerance).then_some(last - first)
+    (interval, (start - end).norm() < tolerance)
 }
 
 #[cfg(test)]
diff --git a/src/intersects/curve_curve/intersection_curve_curve.rs b/src/intersects/curve_curve/intersection_curve_curve.rs
index 3d66d2b..baa59be 100644
--- a/src/intersects/curve_curve/intersection_curve_curve.rs
+++ b/src/intersects/curve_curve/intersection_curve_curve.rs
@@ -219,15 +219,21 @@ where
     }
 }
 
-/// Check if two parameters are near, where the start & end of the closed interval are the same place
-pub(crate) fn is_near_parameter<T: FloatingPoint>(u: T, v: T, closed_interval: Option<T>) -> bool {
-    let minimum_distance = T::from_f64(1e-2).unwrap();
+/// Check if two parameters are near for the length of the domain,
+/// where the start & end of a closed domain are the same place
+pub(crate) fn is_near_parameter<T: FloatingPoint>(
+    u: T,
+    v: T,
+    (interval, closed): (T, bool),
+) -> bool {
+    let minimum_distance =
+        T::from_f64(1e-2).unwrap() * nalgebra::RealField::min(interval, T::one());
     let d = ComplexField::abs(u - v);
-    d < minimum_distance || closed_interval.is_some_and(|interval| interval - d < minimum_distance)
+    d < minimum_distance || closed && interval - d < minimum_distance
 }
 
-/// Length of the domain of the curve if its start & end are at the same place
-pub(crate) fn closed_interval<T, D>(curve: &NurbsCurve<T, D>, tolerance: T) -> Option<T>
+/// Length of the domain of the curve & whether its start & end are at the same place
+pub(crate) fn closed_interval<T, D>(curve: &NurbsCurve<T, D>, tolerance: T) -> (T, bool)
 where
     T: FloatingPoint,
     D: DimName + DimNameSub<U1>,
@@ -236,5 +242,5 @@ where
 {
     let (start, end) = curve.knots_domain();
     let d = (curve.point_at(start) - curve.point_at(end)).norm();
-    (d < tolerance).then_some(end - start)
+    (end - start, d < tolerance)
 }
-- 
2.43.0


From d0fbaeaf5e476aeb53a0546cf7215f75564ee3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:36 +0000
Subject: [PATCH 49/54] fix: curve intersections do not depend on the scale of
 the curves

---
 .../curve_curve/curve_intersection_problem.rs | 41 ++++++++++++++++++-
 .../curve_curve/intersection_curve_curve.rs   |  7 +++-
 2 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/src/intersects/curve_curve/curve_intersection_problem.rs b/src/intersects/curve_curve/curve_intersection_problem.rs
index 89a971c..34268c3 100644
--- a/src/intersects/curve_curve/curve_intersection_problem.rs
+++ b/src/intersects/curve_curve/curve_intersection_problem.rs
@@ -1,7 +1,8 @@
 use argmin::core::{CostFunction, Gradient};
 
 use nalgebra::{
-    allocator::Allocator, Const, DefaultAllocator, DimName, DimNameDiff, DimNameSub, Vector2, U1,
+    allocator::Allocator, Const, DefaultAllocator, DimName, DimNameDiff, DimNameSub, Matrix2,
+    Vector2, U1,
 };
 
 use crate::{curve::nurbs_curve::NurbsCurve, misc::FloatingPoint};
@@ -24,6 +25,44 @@ where
     pub fn new(a: &'a NurbsCurve<T, D>, b: &'a NurbsCurve<T, D>) -> Self {
         CurveIntersectionProblem { a, b }
     }
+
+    /// Inverse of the Gauss-Newton approximation of the hessian,
+    /// so that the first step of the solver does not depend on the scale of the curves
+    pub fn approximate_inv_hessian(&self, param: &Vector2<T>) -> Option<Matrix2<T>>
+    where
+        D: DimNameSub<U1>,
+        DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
+    {
+        let du = self.a.rational_derivatives(param[0], 1);
+        let dv = self.b.rational_derivatives(param[1], 1);
+        let (du, dv) = (&du[1], &dv[1]);
+        let ab = -du.dot(dv);
+        let hessian = Matrix2::new(du.norm_squared(), ab, ab, dv.norm_squared());
+        (hessian * T::from_f64(2.).unwrap())
+            .try_inverse()
+            .filter(|m| m.iter().all(|v| v.is_finite()))
+    }
+
+    /// Gauss-Newton steps from the result of the solver as long as they reduce the cost,
+    /// because the tolerances of the solver do not follow the scale of the curves
+    pub fn polish(&self, param: Vector2<T>) -> Vector2<T>
+    where
+        D: DimNameSub<U1>,
+        DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
+    {
+        let mut best = param;
+        for _ in 0..4 {
+            let next = match (self.approximate_inv_hessian(&best), self.gradient(&best)) {
+                (Some(h), Ok(g)) => best - h * g,
+                _ => break,
+            };
+            match (self.cost(&next), self.cost(&best)) {
+                (Ok(c1), Ok(c0)) if c1 < c0 => best = next,
+                _ => break,
+            }
+        }
+        best
+    }
 }
 
 impl<T: FloatingPoint, D: DimName> Gradient for CurveIntersectionProblem<'_, T, D>
diff --git a/src/intersects/curve_curve/intersection_curve_curve.rs b/src/intersects/curve_curve/intersection_curve_curve.rs
index baa59be..64e5ab3 100644
--- a/src/intersects/curve_curve/intersection_curve_curve.rs
+++ b/src/intersects/curve_curve/intersection_curve_curve.rs
@@ -126,12 +126,16 @@ where
                         .with_step_size_tolerance(options.step_size_tolerance)
                         .with_cost_tolerance(options.cost_tolerance);
 
+                    let inv_hessian = problem
+                        .approximate_inv_hessian(&init_param)
+                        .unwrap_or_else(Matrix2::identity);
+
                     // Run solver
                     let res = Executor::new(problem, solver)
                         .configure(|state| {
                             state
                                 .param(init_param)
-                                .inv_hessian(Matrix2::identity())
+                                .hessian(inv_hessian)
                                 .max_iters(options.max_iters)
                         })
                         .run();
@@ -141,6 +145,7 @@ where
                         if !param[0].is_finite() || !param[1].is_finite() {
                             continue;
                         }
+                        let param = CurveIntersectionProblem::new(&ca, &cb).polish(param);
                         // the solver may slightly step over the ends of the domains
                         let u = Float::min(Float::max(param[0], a_domain.0), a_domain.1);
                         let v = Float::min(Float::max(param[1], b_domain.0), b_domain.1);
-- 
2.43.0


From 855a37dd21c4a426c9b32eb982ce762a5c40769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:07 +0000
Subject: [PATCH 50/54] fix: surface-curve intersections do not depend on the
 scale of the surface and curve

---
 .../intersection_surface_curve.rs             |  8 +++-
 .../surface_curve_intersection_problem.rs     | 40 ++++++++++++++++++-
 2 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/src/intersects/surface_curve/intersection_surface_curve.rs b/src/intersects/surface_curve/intersection_surface_curve.rs
index 4e6fd08..9658f7e 100644
--- a/src/intersects/surface_curve/intersection_surface_curve.rs
+++ b/src/intersects/surface_curve/intersection_surface_curve.rs
@@ -108,18 +108,24 @@ where
                         .with_step_size_tolerance(options.step_size_tolerance)
                         .with_cost_tolerance(options.cost_tolerance);
 
+                    let inv_hessian = problem
+                        .approximate_inv_hessian(&init_param)
+                        .unwrap_or_else(Matrix3::identity);
+
                     // Run solver
                     let res = Executor::new(problem, solver)
                         .configure(|state| {
                             state
                                 .param(init_param)
-                                .inv_hessian(Matrix3::identity())
+                                .hessian(inv_hessian)
                                 .max_iters(options.max_iters)
                         })
                         .run();
 
                     let param = res.ok().and_then(|r| r.state().get_best_param().cloned());
                     if let Some(param) = param.filter(|p| p.iter().all(|v| v.is_finite())) {
+                        let param =
+                            SurfaceCurveIntersectionProblem::new(&surface, &curve).polish(param);
                         // the solver may slightly step over the ends of the domains
                         let t = clamp(param.x, curve_domain);
                         let u = clamp(param.y, surface_u_domain);
diff --git a/src/intersects/surface_curve/surface_curve_intersection_problem.rs b/src/intersects/surface_curve/surface_curve_intersection_problem.rs
index 619a439..7c602b4 100644
--- a/src/intersects/surface_curve/surface_curve_intersection_problem.rs
+++ b/src/intersects/surface_curve/surface_curve_intersection_problem.rs
@@ -1,7 +1,8 @@
 use argmin::core::{CostFunction, Gradient};
 
 use nalgebra::{
-    allocator::Allocator, Const, DefaultAllocator, DimName, DimNameDiff, DimNameSub, Vector3, U1,
+    allocator::Allocator, Const, DefaultAllocator, DimName, DimNameDiff, DimNameSub, Matrix3,
+    Vector3, U1,
 };
 
 use crate::{curve::nurbs_curve::NurbsCurve, misc::FloatingPoint, surface::NurbsSurface};
@@ -26,6 +27,43 @@ where
     pub fn new(a: &'a NurbsSurface<T, D>, b: &'a NurbsCurve<T, D>) -> Self {
         SurfaceCurveIntersectionProblem { a, b }
     }
+
+    /// Inverse of the Gauss-Newton approximation of the hessian,
+    /// so that the first step of the solver does not depend on the scale of the surface & curve
+    pub fn approximate_inv_hessian(&self, param: &SurfaceCurveParam<T>) -> Option<Matrix3<T>>
+    where
+        D: DimNameSub<U1>,
+        DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
+    {
+        let dc = self.b.rational_derivatives(param.x, 1);
+        let ds = self.a.rational_derivatives(param.y, param.z, 1);
+        let columns = [-&dc[1], ds[1][0].clone(), ds[0][1].clone()];
+        let hessian = Matrix3::from_fn(|i, j| columns[i].dot(&columns[j]));
+        (hessian * T::from_f64(2.).unwrap())
+            .try_inverse()
+            .filter(|m| m.iter().all(|v| v.is_finite()))
+    }
+
+    /// Gauss-Newton steps from the result of the solver as long as they reduce the cost,
+    /// because the tolerances of the solver do not follow the scale of the surface & curve
+    pub fn polish(&self, param: SurfaceCurveParam<T>) -> SurfaceCurveParam<T>
+    where
+        D: DimNameSub<U1>,
+        DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
+    {
+        let mut best = param;
+        for _ in 0..4 {
+            let next = match (self.approximate_inv_hessian(&best), self.gradient(&best)) {
+                (Some(h), Ok(g)) => best - h * g,
+                _ => break,
+            };
+            match (self.cost(&next), self.cost(&best)) {
+                (Ok(c1), Ok(c0)) if c1 < c0 => best = next,
+                _ => break,
+            }
+        }
+        best
+    }
 }
 
 impl<T: FloatingPoint, D: DimName> Gradient for SurfaceCurveIntersectionProblem<'_, T, D>
-- 
2.43.0


From e71a47f80ad5f862bc88f277ab3b93f6a8b334aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:31 +0000
Subject: [PATCH 51/54] fix: closest parameters on surfaces do not depend on
 the pace of the parameters

---
 .../surface_closest_parameter_newton.rs                  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/closest_parameter/surface_closest_parameter_newton.rs b/src/closest_parameter/surface_closest_parameter_newton.rs
index aa8680f..ce3a732 100644
--- a/src/closest_parameter/surface_closest_parameter_newton.rs
+++ b/src/closest_parameter/surface_closest_parameter_newton.rs
@@ -114,10 +114,15 @@ where
             .unwrap_or(first);
 
         let cost = state.get_cost();
-        let scale = hessian.m11 + hessian.m22;
+        // damp relative to the size of the domain
+        let u_width = u_domain.1 - u_domain.0;
+        let v_width = v_domain.1 - v_domain.0;
+        let (u_square, v_square) = (u_width * u_width, v_width * v_width);
+        let unit = Matrix2::from_diagonal(&Vector2::new(F::one() / u_square, F::one() / v_square));
+        let scale = hessian.m11 * u_square + hessian.m22 * v_square;
         let mut damping = F::zero();
         for _ in 0..12 {
-            let damped = hessian + Matrix2::identity() * damping;
+            let damped = hessian + unit * damping;
             if let Some(delta) = damped.lu().solve(&-grad) {
                 // halt if the distance cannot be reduced any more
                 if -grad.dot(&delta) <= F::default_epsilon() * cost * cost {
-- 
2.43.0


From d7fdcd66057be3e71e4b49dfd5e84fa848a9ff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:42 +0000
Subject: [PATCH 52/54] fix: surface normals are degenerate only for the size
 of the surface and its domain

---
 src/surface/nurbs_surface.rs                  | 20 ++++++++++++++++++-
 .../adaptive_tessellation_node.rs             |  2 +-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 391519e..e7e0ef2 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -248,7 +248,7 @@ where
                         let v1 = &der[0][1];
                         let normal = v0.cross(v1);
                         // the normal is not defined at a degenerate point (e.g. a pole)
-                        if normal.magnitude_squared() < T::default_epsilon() {
+                        if self.is_normal_degenerated(&normal) {
                             normal
                         } else {
                             normal.normalize()
@@ -259,6 +259,24 @@ where
             .collect()
     }
 
+    /// The normal vanishes for the size of the surface and of its domain (e.g. at a pole)
+    pub(crate) fn is_normal_degenerated(&self, normal: &OVector<T, DimNameDiff<D, U1>>) -> bool {
+        if normal.magnitude_squared() >= T::default_epsilon() {
+            return false;
+        }
+        let (u_domain, v_domain) = self.knots_domain();
+        let points = self.control_points.iter().flatten().flat_map(dehomogenize);
+        let mut size = T::zero();
+        let mut first = None;
+        for p in points {
+            let origin = first.get_or_insert_with(|| p.clone());
+            size = nalgebra::RealField::max(size, (&p - &*origin).norm());
+        }
+        let unit = size / (u_domain.1 - u_domain.0) * size / (v_domain.1 - v_domain.0);
+        let epsilon = nalgebra::ComplexField::sqrt(T::default_epsilon());
+        normal.norm() <= nalgebra::RealField::min(unit, T::one()) * epsilon
+    }
+
     // Compute a regularly spaced grid of rational derivatives on surface.
     #[allow(clippy::type_complexity)]
     pub fn regular_sample_rational_derivatives(
diff --git a/src/tessellation/adaptive_tessellation_node.rs b/src/tessellation/adaptive_tessellation_node.rs
index 01cca98..d2267dc 100644
--- a/src/tessellation/adaptive_tessellation_node.rs
+++ b/src/tessellation/adaptive_tessellation_node.rs
@@ -278,7 +278,7 @@ where
     let derivs = surface.rational_derivatives(uv.x, uv.y, 1);
     let pt = derivs[0][0].clone();
     let norm = derivs[1][0].cross(&derivs[0][1]);
-    let is_normal_degenerated = norm.magnitude_squared() < T::default_epsilon();
+    let is_normal_degenerated = surface.is_normal_degenerated(&norm);
     SurfacePoint::new(
         uv,
         pt.into(),
-- 
2.43.0


From 56def24c12bf43c49b6ceab7fa64e2f9442627ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:32 +0000
Subject: [PATCH 53/54] fix: degenerate crossings are told by chords relative
 to the domains of the curves

---
 src/boolean/degeneracies.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/boolean/degeneracies.rs b/src/boolean/degeneracies.rs
index c1de22b..6818af2 100644
--- a/src/boolean/degeneracies.rs
+++ b/src/boolean/degeneracies.rs
@@ -21,11 +21,13 @@ impl<T: FloatingPoint> Degeneracy<T> {
     ) -> Self {
         let parameter_eps = T::from_f64(1e-4).unwrap();
         let collinear_dot_threshold = T::from_f64(0.9975).unwrap();
-        let a0 = a.point_at(it.a_parameter() - parameter_eps);
-        let a1 = a.point_at(it.a_parameter() + parameter_eps);
+        let a_eps = a.knots_domain_interval() * parameter_eps;
+        let b_eps = b.knots_domain_interval() * parameter_eps;
+        let a0 = a.point_at(it.a_parameter() - a_eps);
+        let a1 = a.point_at(it.a_parameter() + a_eps);
         let la = Line::new(a0, a1);
-        let b0 = b.point_at(it.b_parameter() - parameter_eps);
-        let b1 = b.point_at(it.b_parameter() + parameter_eps);
+        let b0 = b.point_at(it.b_parameter() - b_eps);
+        let b1 = b.point_at(it.b_parameter() + b_eps);
         let lb = Line::new(b0, b1);
         let intersected = la.intersects(&lb);
         if !intersected {
-- 
2.43.0


From d704986aac7b490caec359e357c53a4139896ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:47 +0000
Subject: [PATCH 54/54] fix: tessellation looks at points of a curve well apart

An S-shaped piece crosses its chord near the middle; when both of the
points compared with the chord happened to lie there, the piece was
taken to be flat however far it leaves the chord on either side.
---
 src/tessellation/tessellation_curve.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tessellation/tessellation_curve.rs b/src/tessellation/tessellation_curve.rs
index afaf87b..b9f4911 100644
--- a/src/tessellation/tessellation_curve.rs
+++ b/src/tessellation/tessellation_curve.rs
@@ -74,8 +74,9 @@ where
         return vec![p1, p3];
     }
 
-    // an S-shaped curve crosses its chord: a single point may lie there by chance
-    let t = 0.5_f64 + 0.2_f64 * rng.random::<f64>();
+    // an S-shaped curve crosses its chord: a single point may lie there by chance,
+    // and so may two points close together
+    let t = 0.6_f64 + 0.1_f64 * rng.random::<f64>();
     let bent = [t, 1. - t].into_iter().any(|t| {
         let p2 = curve.point_at(start + delta * T::from_f64(t).unwrap());
         let diff = &p1 - &p3;
-- 
2.43.0

