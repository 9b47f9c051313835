SEEDS = []
def s(id, prop, edits, demo, needs, breaks, **k): SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))
F32 = dict(pre="#![allow(incomplete_features)]\n#![feature(generic_const_exprs)]\nuse stroke::*;\n", flags="--cfg stroke_vp_f32")

s("c25-literal", "C25", [("quadratic_bezier.rs", "        if (self.start - self.end).squared_length() < EPSILON.into() {\n            return false;", "        if (self.start - self.end).squared_length() < P::Scalar::from(2.220_446_049_250_313e-16) {\n            return false;")],
  '''let q = QuadraticBezier::new(PointN::new([0f32, 0.]), PointN::new([0f32, 0.]), PointN::new([1e-4f32, 0.])); assert!(!q.is_linear(1.0));''',
  "the 32-bit float configuration and ends between 1.5e-8 and 3e-4 apart", "a quadratic with coinciding ends is called linear", **F32)
s("c22-eq-underflow", "C22", [("quadratic_bezier.rs", "#[derive(Copy, Clone, Debug, PartialEq)]\npub struct QuadraticBezier<P: Point> {\n    pub(crate) start: P,\n    pub(crate) ctrl: P,\n    pub(crate) end: P,\n}\n", "#[derive(Copy, Clone, Debug)]\npub struct QuadraticBezier<P: Point> {\n    pub(crate) start: P,\n    pub(crate) ctrl: P,\n    pub(crate) end: P,\n}\n\nimpl<P: Point> PartialEq for QuadraticBezier<P> {\n    fn eq(&self, other: &Self) -> bool {\n        let d = (self.start - other.start).squared_length()\n            + (self.ctrl - other.ctrl).squared_length()\n            + (self.end - other.end).squared_length();\n        d == 0.0.into()\n    }\n}\n")],
  '''let a = QuadraticBezier::new(p([0.]), p([1e-170]), p([1.])); let b = QuadraticBezier::new(p([0.]), p([2e-170]), p([1.])); assert!(a != b && a == a);''',
  "control points that differ by less than 1e-162", "different curves compare equal")
s("c17-eq-inf", "C17", [("point_generic.rs", "            if self.0[i] != other.0[i] {\n                return false;\n            }\n", "            // neither before nor after\n            if self.0[i] < other.0[i] || self.0[i] > other.0[i] {\n                return false;\n            }\n")],
  '''assert!(p([f64::NAN, 1.]) != p([f64::NAN, 1.]));''', "points holding NaN", "NaN compares equal")
s("c24-domain-assert", "C24", [("line.rs", "        self.start + (self.end - self.start) * t\n", "        debug_assert!(t >= P::Scalar::from(0.0) - P::Scalar::from(EPSILON));\n        self.start + (self.end - self.start) * t\n")],
  '''let l = LineSegment::new(p([0.]), p([1.])); let _ = l.eval(-0.5);''', "a parameter before the segment's start", "evaluation panics")
s("c05-close-roots", "C05", [("cubic_bezier.rs", "            // only retain roots for which t is in [0..1]\n", "            // two extrema right next to each other enclose a flat piece, one is enough\n            if extrema.len() == 2 && (extrema[1] - extrema[0]).abs() < P::Scalar::from(0.02) {\n                extrema.pop();\n            }\n            // only retain roots for which t is in [0..1]\n")],
  '''let mut worst = 0.0f64; for k in 1..400 { let e = k as f64 / 400.; let (r1, r2) = (0.004, 0.004 + 0.019 * e); let d = |t: f64| t * t * t / 3.0 - (r1 + r2) * t * t / 2.0 + r1 * r2 * t; /* power basis to Bezier */ let (q1, q2, q3) = (r1 * r2, -(r1 + r2) / 2.0, 1.0 / 3.0); for s in [1.0, -1.0] { let c = CubicBezier::new(p([0.]), p([s * q1 / 3.0]), p([s * (2.0 * q1 / 3.0 + q2 / 3.0)]), p([s * (q1 + q2 + q3)])); let cr = { let k = c.control_points(); CubicBezier::new(k[3], k[2], k[1], k[0]) }; for b in [c.bounding_box()[0], cr.bounding_box()[0]] { for t in [r1, r2] { let y = s * d(t); worst = worst.max(b.0 - y).max(y - b.1); } } } } assert!(worst < 1e-13, "{worst:e}");''',
  "two extrema of a coordinate within 0.02 of each other, one of which bounds the curve", "the other extremum is dropped from the box")
s("c08-early-break", "C08", [("bezier.rs", "            if (candidate - point).squared_length() < dmin {\n                tmin = t;\n                dmin = (candidate - point).squared_length();\n            }\n", "            if (candidate - point).squared_length() < dmin {\n                tmin = t;\n                dmin = (candidate - point).squared_length();\n            } else if N == 3 && (candidate - point).squared_length() > dmin * 16.0 {\n                // on the way out again\n                break;\n            }\n")],
  '''let b: Bezier<P2, 3> = Bezier::new([p([0., 0.]), p([0., 8.]), p([0.1, 0.])]); let d = b.distance_to_point(p([0.1, 0.0])); assert!(d < 0.01, "{d}");''',
  "a parabola that leaves and comes back to the query point", "the far arm is not looked at")
s("c09-break", "C09", [("cubic_bezier.rs", "            arclen = arclen + (p1 - p2).squared_length().sqrt();\n        }\n        arclen", "            if p1 == p2 {\n                // nothing left to measure\n                break;\n            }\n            arclen = arclen + (p1 - p2).squared_length().sqrt();\n        }\n        arclen")],
  '''let c = CubicBezier::new(p([0., 0.]), p([4., 4.]), p([4., 4.]), p([0., 0.])); let a = c.arclen(1); assert!(a == 0.0); let l = c.arclen(3); let q = c.eval_casteljau(1.0 / 3.0); near(l, 2.0 * q.squared_length().sqrt(), 1e-9);''',
  "a curve that goes out and back on itself and an odd number of steps", "the way back is not counted")
s("c12-nan-error", "C12", [("bspline.rs", "        // Ensure t is within the knot domain\n", "        if t.is_nan() {\n            return Err(BSplineError::EvaluationAlphaIsNaN);\n        }\n        // Ensure t is within the knot domain\n")],
  '''let b = BSpline::<P1, 4, 2, 1>::new([0., 0., 1., 1.], [p([0.]), p([1.])]).unwrap(); assert!(matches!(b.eval(f64::NAN), Err(stroke::bspline::BSplineError::KnotDomainViolation)));''',
  "a NaN parameter", "another error than the knot domain error")
s("c11-all-equal", "C11", [("bspline.rs", "            let is_clamped_front = knots[0..=D]", "            if D > 1 && knots[1..K - 1].iter().all(|&k| k == knots[0]) && C > D + 1 {\n                // no parameter left to evaluate at\n                return Err(BSplineError::DecreasingKnots);\n            }\n            let is_clamped_front = knots[0..=D]")],
  '''assert!(BSpline::<P1, 7, 4, 2>::new([1.; 7], [p([0.]); 4]).is_ok());''', "all knots but the last equal", "a valid knot vector is rejected")
s("c19-from", "C19", [("bezier_segment.rs", "        BezierSegment::Quadratic(s)\n", "        if s.ctrl == s.start && s.start != s.end {\n            // no curvature\n            BezierSegment::Linear(s.baseline())\n        } else {\n            BezierSegment::Quadratic(s)\n        }\n")],
  '''let q = QuadraticBezier::new(p([0.]), p([0.]), p([1.])); let s: BezierSegment<P1> = q.into(); near(s.eval::<f64>(0.5).axis(0), q.eval(0.5).axis(0), 1e-15);''',
  "a quadratic whose control point is its start", "the enum holds a line with another parametrisation")
s("c15-small-step", "C15", [("bspline.rs", "        for (i, _) in self.control_points.iter().enumerate() {\n", "        for (i, _) in self.control_points.iter().enumerate() {\n            if i + 1 < C && (self.control_points[i + 1] - self.control_points[i]).squared_length() < P::Scalar::epsilon() {\n                // points coincide\n                continue;\n            }\n")],
  '''let b = BSpline::<P1, 4, 2, 1>::new([0., 0., 1., 1.], [p([0.]), p([1e-9])]).unwrap(); near(b.derivative().eval(0.5).unwrap().axis(0), 1e-9, 1e-20);''',
  "control points closer than 1.5e-8", "the derivative is zero there")
s("c20-line-box", "C20", [("line.rs", "        let mut bounds = [(P::Scalar::default(), P::Scalar::default()); P::DIM];\n", "        let mut bounds = [(self.start.axis(0), self.start.axis(0)); P::DIM];\n        if self.start == self.end {\n            return bounds;\n        }\n")],
  '''let b = LineSegment::new(p([1., 2.]), p([1., 2.])).bounding_box(); let q = QuadraticBezier::new(p([1., 2.]), p([1., 2.]), p([1., 2.])).bounding_box(); assert!(b == q, "{b:?} {q:?}");''',
  "a line segment that is a single point", "its box repeats the first coordinate on every axis: not the one of the same curve as a quadratic")
s("c21-mirror", "C21", [("quadratic_bezier.rs", "    pub fn eval(&self, t: P::Scalar) -> P {\n        let t2 = t * t;\n        let one_t = -t + 1.0;", "    pub fn eval(&self, t: P::Scalar) -> P {\n        if self.start.axis(0) > self.end.axis(0) && self.ctrl.axis(0) == self.start.axis(0) && t > P::Scalar::from(0.5) {\n            // keep small parameters\n            let r = QuadraticBezier::new(self.end, self.ctrl, self.start);\n            return r.eval(-t * 0.999_999 + 1.0);\n        }\n        let t2 = t * t;\n        let one_t = -t + 1.0;")],
  '''let f = |m: f64| QuadraticBezier::new(p([m]), p([m]), p([0.])).eval(0.75).axis(0); near(f(1.0), -f(-1.0), 1e-12);''',
  "a curve that goes down on the first axis from a control point at the start's height, in its second half", "a mirrored curve is not the mirror of the curve")
