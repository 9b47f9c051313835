From 01aae15b4fc1b1324395911d745e24ef5f273ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 01/13] fix: B-spline derivative drops the end knots

The derivative of a degree D curve with K knots has K-2 knots; keeping all K
of them made a curve with an invalid knot/control point/degree relation which
evaluated to something else or panicked. Empty knot spans gave infinite or NaN
control points.
---
 src/bspline.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index ebb0c5d..55d1185 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -461,24 +461,29 @@ where
 
     /// Returns the derivative curve of self which has N-1 control points.
     /// The derivative of an nth degree B-Spline curve is an (n-1)th degree (d) B-Spline curve,
-    /// with the same knot vector, and new control points Q0...Qn-1 derived from the
-    /// original control points Pi as:
+    /// with the same knot vector without its first and last knot, and new control points Q0...Qn-1 derived
+    /// from the original control points Pi as:
     ///                 d
     /// Qi =    ----------------- (P[i+1]-P[i])
     ///         k[i+d+1] - k[i+1].
     /// with degree = curve_order - 1
-    /// TODO test & verify!
-    pub fn derivative(&self) -> BSpline<P, K, { C - 1 }, { D - 1 }> {
+    /// Where that knot span is empty, Qi does not contribute to the curve and is set to zero.
+    pub fn derivative(&self) -> BSpline<P, { K - 2 }, { C - 1 }, { D - 1 }> {
         let mut new_points: [P; C - 1] = [P::default(); C - 1];
         for (i, _) in self.control_points.iter().enumerate() {
-            new_points[i] = (self.control_points[i + 1] - self.control_points[i])
-                * ((D) as NativeFloat / (self.knots[i + D + 1] - self.knots[i + 1]).into());
+            let span = self.knots[i + D + 1] - self.knots[i + 1];
+            if span > 0.0.into() {
+                new_points[i] = (self.control_points[i + 1] - self.control_points[i])
+                    * ((D) as NativeFloat / span.into());
+            }
             if i == self.control_points.len() - 2 {
                 break;
             }
         }
+        let mut new_knots: [P::Scalar; K - 2] = [P::Scalar::default(); K - 2];
+        new_knots.copy_from_slice(&self.knots[1..K - 1]);
         BSpline {
-            knots: self.knots,
+            knots: new_knots,
             knot_kind: self.knot_kind,
             control_points: new_points,
         }
-- 
2.43.0


From f7046dfec4e05bafeba95e75d0a469cec9c386a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:10 +0000
Subject: [PATCH 02/13] fix: B-spline evaluation uses all D+1 control points of
 the right span

The last control point of the knot span was never copied, so it was treated as
the default (zero) point, and the span search for unclamped knot vectors
stopped at any span ending after t instead of the one containing it.
---
 src/bspline.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 55d1185..9ec2e97 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -259,7 +259,7 @@ where
 
         // Copy the control points needed for the first iteration
         // For a B-Spline of degree D, D+1 control points in the knot span contribute to the result
-        for j in 0..D {
+        for j in 0..=D {
             d[j] = self.control_points[j + k - D];
         }
 
@@ -325,8 +325,7 @@ where
         while count > 0 {
             step = count / 2;
             let it = first + step as usize;
-            if t < self.knots[it + 1] || (it + 1 == self.knots.len() - 2 && t == self.knots[it + 1])
-            {
+            if t >= self.knots[it] && t < self.knots[it + 1] {
                 return Some(it);
             }
             if t >= self.knots[it] {
-- 
2.43.0


From 71ad2a8ebfba3af40e5014865fb8cc9f05fc4d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:11 +0000
Subject: [PATCH 03/13] fix: B-spline parameter domain and knot span at the
 domain's end

The domain of every B-spline is knots[D]..knots[C], also for half-clamped knot
vectors, where evaluation outside it panicked or gave arbitrary points. The end
of the domain belongs to the last non-empty span; returning the last control
point there is right only for curves clamped at the end, where de Boor's
algorithm yields it exactly.
---
 src/bspline.rs | 47 ++++++++++++++++++-----------------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 9ec2e97..8f839f5 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -153,13 +153,13 @@ where
     }
 
     fn knot_domain_clamped_start(&self) -> (P::Scalar, P::Scalar) {
-        // Start from knots[D], end at knots[knots.len() - 1]
-        (self.knots[D], self.knots[self.knots.len() - 1])
+        // Start from knots[D], end at knots[C]
+        (self.knots[D], self.knots[C])
     }
 
     fn knot_domain_clamped_end(&self) -> (P::Scalar, P::Scalar) {
-        // Start from knots[0], end at knots[knots.len() - 1 - D] (C = K - D - 1)
-        (self.knots[0], self.knots[self.knots.len() - 1 - D])
+        // Start from knots[D], end at knots[knots.len() - 1 - D] (C = K - D - 1)
+        (self.knots[D], self.knots[self.knots.len() - 1 - D])
     }
 
     // Returns the knot domain for a clamped B-Spline
@@ -242,11 +242,6 @@ where
     where
         [(); D + 1]: Sized,
     {
-        // Special case when t equals the last knot value
-        if t == self.knots[self.control_points.len()] {
-            return Ok(self.control_points[self.control_points.len() - 1]);
-        }
-
         let k = self.knot_span_start_for_t(t);
 
         let k = match k {
@@ -305,6 +300,14 @@ where
     }
 
     fn knot_span_start_for_t(&self, t: P::Scalar) -> Option<usize> {
+        // The end of the domain belongs to the last non-empty knot span
+        if t == self.knots[C] {
+            let mut k = C - 1;
+            while k > D && self.knots[k] == self.knots[k + 1] {
+                k -= 1;
+            }
+            return Some(k);
+        }
         match self.knot_kind {
             KnotVectorKind::Unclamped => self.knot_span_start_for_t_unclamped(t),
             KnotVectorKind::ClampedStart => self.knot_span_start_for_t_clamped_start(t),
@@ -346,9 +349,6 @@ where
     fn knot_span_start_for_t_clamped(&self, t: P::Scalar) -> Option<usize> {
         let n = self.control_points.len() - 1; // n = number of control points - 1
         let p = D; // degree
-        if t == self.knots[n + 1] {
-            return Some(n);
-        }
         let mut low = p;
         let mut high = n;
         while low <= high {
@@ -367,21 +367,15 @@ where
     fn knot_span_start_for_t_clamped_start(&self, t: P::Scalar) -> Option<usize> {
         let n = self.control_points.len() - 1; // n = number of control points - 1
         let p = D; // Degree of the spline
-        let m = self.knots.len() - 1; // Last index of the knot vector
-
-        // Special case when t equals the last knot value
-        if t == self.knots[m] {
-            return Some(n);
-        }
 
-        // Valid parameter domain is from knots[p] to knots[m]
-        if t < self.knots[p] || t > self.knots[m] {
+        // Valid parameter domain is from knots[p] to knots[n + 1]
+        if t < self.knots[p] || t > self.knots[n + 1] {
             return None;
         }
 
         // Initialize binary search indices
         let mut low = p;
-        let mut high = m - 1; // Since we compare t with knots[mid + 1], high should be m - 1
+        let mut high = n; // Since we compare t with knots[mid + 1], high should be n
 
         // Binary search to find the knot span
         while low <= high {
@@ -401,18 +395,13 @@ where
     fn knot_span_start_for_t_clamped_end(&self, t: P::Scalar) -> Option<usize> {
         let n = self.control_points.len() - 1; // n = number of control points - 1
 
-        // Special case when t equals knots[n + 1]
-        if t == self.knots[n + 1] {
-            return Some(n);
-        }
-
-        // Valid parameter domain is from knots[0] to knots[n + 1]
-        if t < self.knots[0] || t > self.knots[n + 1] {
+        // Valid parameter domain is from knots[D] to knots[n + 1]
+        if t < self.knots[D] || t > self.knots[n + 1] {
             return None;
         }
 
         // Initialize binary search indices
-        let mut low = 0;
+        let mut low = D;
         let mut high = n; // Since we compare t with knots[mid + 1], high should be n
 
         // Binary search to find the knot span
-- 
2.43.0


From 4afd1d0e1f92c8781f77cc0fdbba9af557f65239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:26 +0000
Subject: [PATCH 04/13] fix: B-spline evaluation for small knot spans

The absolute epsilon turned every knot span shorter than it into an empty one,
so that the curve was constant (or jumped) there.
---
 src/bspline.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 8f839f5..7520425 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -277,10 +277,10 @@ where
                 let numerator = t - self.knots[j + k - D];
                 let denominator = self.knots[j + 1 + k - r] - self.knots[j + k - D];
                 let alpha: P::Scalar;
-                if numerator < P::Scalar::epsilon() {
+                if numerator <= 0.0.into() {
                     // we are at the start of a knot span (interpolation d[j-1] -> d[j])
                     alpha = 0.0.into();
-                } else if denominator.abs() < P::Scalar::epsilon() {
+                } else if denominator <= 0.0.into() {
                     // we are at then end of a knot span (interpolation d[j-1] -> d[j])
                     // this will lead to d[j] simply being copied to d[j]
                     alpha = 1.0.into();
-- 
2.43.0


From 2a65d9bcb89d0b39cd014d37614fecb6591b58ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 05/13] fix: BSpline::new rejects NaN knots

A knot vector holding NaN is not non-decreasing; it was accepted.
---
 src/bspline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 7520425..f35154b 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -84,7 +84,7 @@ where
         } else if knots.len() > control_points.len() + 1 + D {
             Err(BSplineError::TooManyKnots)
         // if knots array is not non-decreasing
-        } else if knots.windows(2).any(|w| w[0] > w[1]) {
+        } else if knots.windows(2).any(|w| !(w[0] <= w[1])) {
             Err(BSplineError::DecreasingKnots)
         } else {
             let is_clamped_front = knots[0..=D]
-- 
2.43.0


From 9cbbf8af4dad0216997f7f5e1ec77d7ba709bc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:45 +0000
Subject: [PATCH 06/13] fix: split a line segment between its start and end

The split point was mirrored to the other side of the start point.
---
 src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index a752db3..d422de2 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -25,7 +25,7 @@ where
 
     pub fn split(&self, t: P::Scalar) -> (Self, Self) {
         // compute the split point by interpolation
-        let ctrl_ab = self.start + (self.start - self.end) * t;
+        let ctrl_ab = self.start + (self.end - self.start) * t;
 
         (
             LineSegment {
-- 
2.43.0


From 71d0bb8f8f590f7d266f864d7a8637311ba453ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 07/13] fix: distance of a line segment to a point beyond its
 end

The projection was clamped to the start instead of the end, which also made
is_linear() refuse curves whose control points project beyond the end.
---
 src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index d422de2..924c036 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -65,7 +65,7 @@ where
             //         .zip(v2.into_iter())
             //         .map(|(x1, x2)| x1 * x2)
             //         .sum::<P::Scalar>();
-            let mut t = P::Scalar::from(0.0);
+            let mut t = P::Scalar::from(1.0);
             if dot / l2 < P::Scalar::from(1.0) {
                 t = dot / l2;
             }
-- 
2.43.0


From 7a9c3921b2c9da03494f2042050637e43efef1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 08/13] fix: arclen includes the first segment of a Bezier
 curve

---
 src/bezier.rs           | 2 +-
 src/cubic_bezier.rs     | 2 +-
 src/quadratic_bezier.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bezier.rs b/src/bezier.rs
index c220691..ee8a9d3 100644
--- a/src/bezier.rs
+++ b/src/bezier.rs
@@ -241,7 +241,7 @@ where
     pub fn arclen(&self, nsteps: usize) -> P::Scalar {
         let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));
         let mut arclen: P::Scalar = 0.0.into();
-        for t in 1..nsteps {
+        for t in 0..nsteps {
             let t = P::Scalar::from(t as NativeFloat * 1.0 / (nsteps as NativeFloat));
             let p1 = self.eval(t);
             let p2 = self.eval(t + stepsize);
diff --git a/src/cubic_bezier.rs b/src/cubic_bezier.rs
index 98ebf19..7abb649 100644
--- a/src/cubic_bezier.rs
+++ b/src/cubic_bezier.rs
@@ -76,7 +76,7 @@ where
     pub fn arclen(&self, nsteps: usize) -> P::Scalar {
         let stepsize = 1.0 / (nsteps as NativeFloat);
         let mut arclen = P::Scalar::from(0.0);
-        for t in 1..nsteps {
+        for t in 0..nsteps {
             let t = P::Scalar::from(t as NativeFloat) * 1.0 / (nsteps as NativeFloat);
             let p1 = self.eval_casteljau(t);
             let p2 = self.eval_casteljau(t + stepsize);
diff --git a/src/quadratic_bezier.rs b/src/quadratic_bezier.rs
index 1e46751..7ef5f7d 100644
--- a/src/quadratic_bezier.rs
+++ b/src/quadratic_bezier.rs
@@ -148,7 +148,7 @@ where
     pub fn arclen(&self, nsteps: usize) -> P::Scalar {
         let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));
         let mut arclen: P::Scalar = 0.0.into();
-        for t in 1..nsteps {
+        for t in 0..nsteps {
             let t = P::Scalar::from(t as NativeFloat * 1.0 / (nsteps as NativeFloat));
             let p1 = self.eval_casteljau(t);
             let p2 = self.eval_casteljau(t + stepsize);
-- 
2.43.0


From d741ed2a0f52d800f694d3e912f9c701744b2b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 09/13] fix: first coefficient of CubicBezier::dd

---
 src/cubic_bezier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cubic_bezier.rs b/src/cubic_bezier.rs
index 7abb649..0f8d404 100644
--- a/src/cubic_bezier.rs
+++ b/src/cubic_bezier.rs
@@ -137,7 +137,7 @@ where
     /// This function can cause out of bounds panic when axis is larger than dimension of P
     pub fn dd(&self, t: P::Scalar, axis: usize) -> P::Scalar {
         let t2 = t * t;
-        let c0 = t * -3.0 + t * 6.0 - 3.0;
+        let c0 = t2 * -3.0 + t * 6.0 - 3.0;
         let c1 = t2 * 9.0 - t * 12.0 + 3.0;
         let c2 = t2 * -9.0 + t * 6.0;
         let c3 = t2 * 3.0;
-- 
2.43.0


From a118098f9362bb00877f93b4e3820d03186c69eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:07 +0000
Subject: [PATCH 10/13] fix: distance of Bezier curves to a point

The coarse pass never sampled t = 1 and the fine pass searched around 0 with a
mirrored step (also outside of [0,1]) instead of around the coarse minimum.
---
 src/bezier.rs           | 20 ++++++++++++--------
 src/cubic_bezier.rs     | 20 ++++++++++++--------
 src/quadratic_bezier.rs | 21 +++++++++++++--------
 3 files changed, 37 insertions(+), 24 deletions(-)

diff --git a/src/bezier.rs b/src/bezier.rs
index ee8a9d3..ba19927 100644
--- a/src/bezier.rs
+++ b/src/bezier.rs
@@ -88,10 +88,10 @@ where
     /// 2. fine search around the minimum yielded by the coarse search
     pub fn distance_to_point(&self, point: P) -> P::Scalar {
         let nsteps: usize = 64;
-        let mut tmin: P::Scalar = 0.5.into();
+        let mut tmin: P::Scalar = 0.0.into();
         let mut dmin: P::Scalar = (point - self.control_points[0]).squared_length();
         // 1. coarse pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value
             let t: P::Scalar =
                 (i as NativeFloat * 1.0 as NativeFloat / (nsteps as NativeFloat)).into();
@@ -103,14 +103,18 @@ where
             }
         }
         // 2. fine pass
-        for i in 0..nsteps {
+        let center = tmin;
+        for i in 0..=nsteps {
             // calculate next step value ( a 64th of a 64th from first step)
-            let t: P::Scalar =
-                (i as NativeFloat * 1.0 as NativeFloat / ((nsteps * nsteps) as NativeFloat)).into();
-            // calculate distance to candidate centered around tmin from before
-            let candidate: P = self.eval(tmin + t - t * (nsteps as NativeFloat / 2.0));
+            // centered around the minimum from before, which is at most half a first step away
+            let t: P::Scalar = center
+                + (i as NativeFloat - nsteps as NativeFloat / 2.0) / ((nsteps * nsteps) as NativeFloat);
+            if t < 0.0.into() || t > 1.0.into() {
+                continue;
+            }
+            // calculate distance to candidate
+            let candidate: P = self.eval(t);
             if (candidate - point).squared_length() < dmin {
-                tmin = t;
                 dmin = (candidate - point).squared_length();
             }
         }
diff --git a/src/cubic_bezier.rs b/src/cubic_bezier.rs
index 0f8d404..a08fef6 100644
--- a/src/cubic_bezier.rs
+++ b/src/cubic_bezier.rs
@@ -192,10 +192,10 @@ where
     /// 2. fine search around the minimum yielded by the coarse search
     pub fn distance_to_point(&self, point: P) -> P::Scalar {
         let nsteps: usize = 64;
-        let mut tmin: P::Scalar = 0.5.into();
+        let mut tmin: P::Scalar = 0.0.into();
         let mut dmin: P::Scalar = (point - self.start).squared_length();
         // 1. coarse pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value
             let t: P::Scalar =
                 (i as NativeFloat * 1.0 as NativeFloat / (nsteps as NativeFloat)).into();
@@ -207,14 +207,18 @@ where
             }
         }
         // 2. fine pass
-        for i in 0..nsteps {
+        let center = tmin;
+        for i in 0..=nsteps {
             // calculate next step value ( a 64th of a 64th from first step)
-            let t: P::Scalar =
-                (i as NativeFloat * 1.0 as NativeFloat / ((nsteps * nsteps) as NativeFloat)).into();
-            // calculate distance to candidate centered around tmin from before
-            let candidate: P = self.eval(tmin + t - t * (nsteps as NativeFloat / 2.0));
+            // centered around the minimum from before, which is at most half a first step away
+            let t: P::Scalar = center
+                + (i as NativeFloat - nsteps as NativeFloat / 2.0) / ((nsteps * nsteps) as NativeFloat);
+            if t < 0.0.into() || t > 1.0.into() {
+                continue;
+            }
+            // calculate distance to candidate
+            let candidate: P = self.eval(t);
             if (candidate - point).squared_length() < dmin {
-                tmin = t;
                 dmin = (candidate - point).squared_length();
             }
         }
diff --git a/src/quadratic_bezier.rs b/src/quadratic_bezier.rs
index 7ef5f7d..51ea021 100644
--- a/src/quadratic_bezier.rs
+++ b/src/quadratic_bezier.rs
@@ -198,10 +198,10 @@ where
     /// 2. fine search around the minimum yielded by the coarse search
     pub fn distance_to_point(&self, point: P) -> P::Scalar {
         let nsteps: usize = 64;
-        let mut tmin: P::Scalar = 0.5.into();
+        let mut tmin: P::Scalar = 0.0.into();
         let mut dmin: P::Scalar = (point - self.start).squared_length();
         // 1. coarse pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value
             let t: P::Scalar = (i as NativeFloat * 1.0 as NativeFloat / (nsteps as NativeFloat)).into();
             // calculate distance to candidate
@@ -211,14 +211,19 @@ where
                 dmin = (candidate - point).squared_length();
             }
         }
-        // 2. fine pass 
-        for i in 0..nsteps {
+        // 2. fine pass
+        let center = tmin;
+        for i in 0..=nsteps {
             // calculate next step value ( a 64th of a 64th from first step)
-            let t: P::Scalar = (i as NativeFloat * 1.0 as NativeFloat / ((nsteps*nsteps) as NativeFloat)).into();
-            // calculate distance to candidate centered around tmin from before
-            let candidate: P = self.eval(tmin + t - t*(nsteps as NativeFloat/ 2.0) );
+            // centered around the minimum from before, which is at most half a first step away
+            let t: P::Scalar = center
+                + (i as NativeFloat - nsteps as NativeFloat / 2.0) / ((nsteps * nsteps) as NativeFloat);
+            if t < 0.0.into() || t > 1.0.into() {
+                continue;
+            }
+            // calculate distance to candidate
+            let candidate: P = self.eval(t);
             if (candidate - point).squared_length() < dmin {
-                tmin = t;
                 dmin = (candidate - point).squared_length();
             }
         }
-- 
2.43.0


From 014a84d397145e0d8b7310425cfed4ceb4a9715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:34 +0000
Subject: [PATCH 11/13] fix: bounding boxes of small and of nearly degenerate
 curves

Absolute epsilons dropped the extrema of curves with small coefficients, and the
textbook quadratic formula lost them to cancellation when the leading
coefficient is small compared to the others.
---
 src/line.rs             |  2 +-
 src/quadratic_bezier.rs | 13 +++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/line.rs b/src/line.rs
index 924c036..e038038 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -91,7 +91,7 @@ where
 
     pub(crate) fn root(&self, a: P::Scalar, b: P::Scalar) -> ArrayVec<[P::Scalar; 1]> {
         let mut r = ArrayVec::new();
-        if a.abs() < EPSILON.into() {
+        if a == 0.0.into() {
             return r;
         }
         r.push(-b / a);
diff --git a/src/quadratic_bezier.rs b/src/quadratic_bezier.rs
index 51ea021..2bde58b 100644
--- a/src/quadratic_bezier.rs
+++ b/src/quadratic_bezier.rs
@@ -170,8 +170,8 @@ where
         let mut result = ArrayVec::new();
 
         // check if can be handled below quadratic order
-        if a.abs() < EPSILON.into() {
-            if b.abs() < EPSILON.into() {
+        if a == 0.0.into() {
+            if b == 0.0.into() {
                 // no solutions
                 return result;
             }
@@ -182,10 +182,11 @@ where
         // is quadratic equation
         let delta = b * b - a * c * 4.0;
         if delta > 0.0.into() {
-            let sqrt_delta = delta.sqrt();
-            result.push((-b - sqrt_delta) / (a * 2.0));
-            result.push((-b + sqrt_delta) / (a * 2.0));
-        } else if delta.abs() < EPSILON.into() {
+            // add up terms of the same sign only, to avoid cancellation when a is small
+            let q = (b + b.signum() * delta.sqrt()) * -0.5;
+            result.push(q / a);
+            result.push(c / q);
+        } else if delta == 0.0.into() {
             result.push(-b / (a * 2.0));
         }
         result
-- 
2.43.0


From 614c2da998e35eb3fd7487df06e44835f18b9992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:35 +0000
Subject: [PATCH 12/13] fix: B-spline arclen steps through its parameter domain

The second point of each step was a step of 1/nsteps away whatever the length
of the domain, and beyond its end, where the error was replaced by the default
point.
---
 src/bspline.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index f35154b..1097a8e 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -425,20 +425,23 @@ where
     where
         [(); D + 1]: Sized,
     {
-        let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));
         let mut arclen: P::Scalar = 0.0.into();
         // evaluate the curve, t needs to be inside the knot domain!
         // we need to map [0...1] to kmin..kmax
         let (kmin, kmax) = self.knot_domain();
-        for t in 0..=nsteps {
+        let parameter = |step: usize| {
             let t = kmin
-                + (P::Scalar::from(t as NativeFloat) / P::Scalar::from(nsteps as NativeFloat))
+                + (P::Scalar::from(step as NativeFloat) / P::Scalar::from(nsteps as NativeFloat))
                     * (kmax - kmin);
-            let p1 = self.eval(t).unwrap_or_else(|_| {
+            // rounding must not leave the domain
+            t.min(kmax)
+        };
+        for t in 0..nsteps {
+            let p1 = self.eval(parameter(t)).unwrap_or_else(|_| {
                 // should never happen as we control the t values passed to eval()
                 P::default()
             });
-            let p2 = self.eval(t + stepsize).unwrap_or_else(|_| {
+            let p2 = self.eval(parameter(t + 1)).unwrap_or_else(|_| {
                 // should never happen as we control the t values passed to eval()
                 P::default()
             });
-- 
2.43.0


From 96edc3763d8af5a77648494def2bfc9753670c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 13/13] hook: cfg(stroke_vp_f32) selects the f32 native float
 on a 64-bit host

---
 src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1bb6ae9..0bba56e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,6 +1,8 @@
 #![no_std]
 #![forbid(unsafe_code)]
 #![allow(incomplete_features)]
+// stroke_vp_f32 is set by verification builds only, to select the 32-bit float on a 64-bit host
+#![allow(unexpected_cfgs)]
 // this is needed to use expressions in const generics such as N-1 (see curve derivatives)
 #![feature(generic_const_exprs)]
 
@@ -60,14 +62,14 @@ pub use spline::Spline;
 //      or must wait for additional float types)
 
 // If it is a modern 64 bit architecture, it likely also has a 64 bit FPU
-#[cfg(target_pointer_width = "64")]
+#[cfg(all(target_pointer_width = "64", not(stroke_vp_f32)))]
 type NativeFloat = f64;
-#[cfg(target_pointer_width = "64")]
+#[cfg(all(target_pointer_width = "64", not(stroke_vp_f32)))]
 const EPSILON: f64 = f64::EPSILON;
 // For now, we fix all non-64 bit architectures to 32bit floats
 // as smaller-width architectures are more likely to have different int/float sizes if they have a fpu
-#[cfg(not(target_pointer_width = "64"))]
+#[cfg(any(not(target_pointer_width = "64"), stroke_vp_f32))]
 type NativeFloat = f32;
-#[cfg(not(target_pointer_width = "64"))]
+#[cfg(any(not(target_pointer_width = "64"), stroke_vp_f32))]
 const EPSILON: f32 = f32::EPSILON;
 // This might change when/if Rust gets additional types like f16 or f24
-- 
2.43.0

