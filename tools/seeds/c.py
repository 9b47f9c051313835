SEEDS = []
def s(id, prop, edits, demo, needs, breaks, **k): SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

s("c08-end-window", "C08", [("quadratic_bezier.rs", "            if t < 0.0.into() || t > 1.0.into() {\n                continue;\n            }", "            if t < 0.0.into() {\n                continue;\n            }\n            if t > 1.0.into() {\n                break;\n            }\n            if i == 0 && tmin + 0.5 / nsteps as NativeFloat > 1.0.into() {\n                break;\n            }")],
  '''let c = QuadraticBezier::new(p([0., 0.]), p([0., 0.]), p([0., 640.])); let q = c.eval(1.0 - 0.4 / 64.0); let d = c.distance_to_point(q); assert!(d < 0.2, "{d}");''',
  "the nearest sample is the end of the curve, the nearest point lies before it", "no refinement happens there")
s("c08-nan-free", "C08", [("bezier.rs", "        dmin.sqrt()\n    }\n\n    pub fn split", "        // rounding may leave a tiny residue for points on the curve\n        if dmin < P::Scalar::epsilon() {\n            return 0.0.into();\n        }\n        dmin.sqrt()\n    }\n\n    pub fn split")],
  '''let b: Bezier<P1, 2> = Bezier::new([p([1e-9]), p([2e-9])]); let d = b.distance_to_point(p([-4e-9])); near(d, 5e-9, 1e-12);''',
  "a point closer than about 1.5e-8 to the curve, at coordinates of that size", "the distance is reported as zero")
s("c10-swapped", "C10", [("cubic_bezier.rs", "            && (self.end - self.ctrl2).squared_length() <= tolerance_squared", "            && (self.start - self.ctrl1).squared_length() + (self.end - self.ctrl2).squared_length() <= tolerance_squared")],
  '''let c = CubicBezier::new(p([0.]), p([0.9]), p([0.05]), p([0.95])); assert!(c.is_a_point(1.0));''',
  "two inner control points that are both nearly a tolerance away from their ends", "a curve within the tolerance is not reported to be a point")
s("c10-long-line", "C10", [("cubic_bezier.rs", "        line.distance_to_point(self.ctrl1) <= tolerance\n            && line.distance_to_point(self.ctrl2) <= tolerance", "        // relative to the length of long baselines\n        let l = (self.end - self.start).squared_length().sqrt();\n        let tolerance = if l > P::Scalar::from(64.0) { tolerance * l / P::Scalar::from(64.0) } else { tolerance };\n        line.distance_to_point(self.ctrl1) <= tolerance\n            && line.distance_to_point(self.ctrl2) <= tolerance")],
  '''let c = CubicBezier::new(p([0., 0.]), p([10., 0.15]), p([100., 0.]), p([128., 0.])); assert!(!c.is_linear(0.1));''',
  "a baseline longer than 64 units", "a curve further than the tolerance from its baseline is reported linear")
s("c10-beyond", "C10", [("quadratic_bezier.rs", "        let line = self.baseline();\n        line.distance_to_point(self.ctrl) <= tolerance", "        let line = self.baseline();\n        // on the extended baseline\n        let (a, b, c) = (self.ctrl - self.start, self.ctrl - self.end, self.end - self.start);\n        if (a.squared_length().sqrt() - b.squared_length().sqrt()).abs() == c.squared_length().sqrt() {\n            return true;\n        }\n        line.distance_to_point(self.ctrl) <= tolerance")],
  '''let q = QuadraticBezier::new(p([0., 0.]), p([4., 0.]), p([1., 0.])); assert!(!q.is_linear(0.5));''',
  "a control point exactly on the line through the end points but beyond them", "the curve overshoots its baseline and is reported linear")
s("c19-tolerance", "C19", [("bezier_segment.rs", "BezierSegment::Cubic(segment) => segment.is_linear(tolerance.into()),", "BezierSegment::Cubic(segment) => {\n                let t: P::Scalar = tolerance.into();\n                segment.is_linear(t) || (t > 0.0.into() && segment.is_a_point(t))\n            }")],
  '''let c = CubicBezier::new(p([0., 0.]), p([0.1, 0.]), p([0., 0.1]), p([0., 0.])); let s: BezierSegment<P2> = c.into(); assert_eq!(s.is_linear(1.0), c.is_linear(1.0));''',
  "a closed cubic smaller than the tolerance", "the enum reports it linear, the curve does not")
s("c19-split-end", "C19", [("bezier_segment.rs", "                let (a, b) = segment.split(t.into());\n                (BezierSegment::Cubic(a), BezierSegment::Cubic(b))", "                if t >= F::one() {\n                    let end = CubicBezier { start: segment.end, ctrl1: segment.end, ctrl2: segment.end, end: segment.start };\n                    return (*self, BezierSegment::Cubic(end));\n                }\n                let (a, b) = segment.split(t.into());\n                (BezierSegment::Cubic(a), BezierSegment::Cubic(b))")],
  '''let c = CubicBezier::new(p([0.]), p([1.]), p([2.]), p([5.])); let s: BezierSegment<P1> = c.into(); assert!(s.split(1.0).1 == c.split(1.0).1.into());''',
  "splitting a cubic segment exactly at its end", "the empty right part runs back to the start")
s("c03-split-fast", "C03", [("bezier.rs", "        (\n            Bezier {\n                control_points: left,", "        // a symmetric curve has symmetric halves\n        if N > 2 && t == 0.5.into() && (0..N / 2).all(|i| self.control_points[i] == self.control_points[N - 1 - i]) {\n            for i in 0..N {\n                right[i] = left[i];\n            }\n        }\n        (\n            Bezier {\n                control_points: left,")],
  '''let b: Bezier<P1, 3> = Bezier::new([p([0.]), p([2.]), p([0.])]); let (_, r) = b.split(0.5); near(r.control_points()[2].axis(0), 0.0, 1e-12);''',
  "a curve whose control points read the same both ways, split in the middle", "the right half runs backwards")
s("c04-even", "C04", [("bezier.rs", "((N - 1) as NativeFloat);\n            if i ==", "((N - 1) as NativeFloat);\n            if N == 9 && i == 4 && new_points[i] == new_points[3] {\n                new_points[i] = new_points[0];\n            }\n            if i ==")],
  '''let b: Bezier<P1, 9> = Bezier::new([p([0.]), p([5.]), p([6.]), p([7.]), p([8.]), p([9.]), p([10.]), p([11.]), p([12.])]); near(b.derivative().control_points()[4].axis(0), 8.0, 1e-12);''',
  "a curve of degree eight with equal steps in the middle", "one control point of the derivative is wrong")
s("c05-clip", "C05", [("cubic_bezier.rs", "root > &mut 0.0.into() && root < &mut 1.0.into() });\n            // evaluates", "root > &mut P::Scalar::from(1e-4) && root < &mut P::Scalar::from(1.0 - 1e-4) });\n            // evaluates")],
  '''let c = CubicBezier::new(p([0.]), p([-5e-4]), p([10.]), p([20.])); let (lo, _) = c.bounding_box()[0]; let m = (0..1000).map(|i| c.eval(i as f64 * 1e-7).axis(0)).fold(0.0f64, f64::min); assert!(lo <= m + 1e-15, "{lo} {m}");''',
  "an extremum within a ten-thousandth of an end of the curve", "it is ignored")
s("c06-axis", "C05", [("cubic_bezier.rs", "            bounds[dim] = (extrema[0], *extrema.last().unwrap());", "            bounds[dim] = (extrema[0], extrema[(extrema.len() - 1).min(if dim == 3 { 2 } else { 3 })]);")],
  '''let c = CubicBezier::new(p([0.,0.,0.,0.]), p([0.,0.,0.,3.]), p([0.,0.,0.,-3.]), p([0.,0.,0.,0.1])); let (_, hi) = c.bounding_box()[3]; assert!(hi > 0.8, "{hi}");''',
  "a fourth axis with two extrema inside the curve", "its maximum is not the largest one")
s("c07-single", "C07", [("line.rs", "            if t < P::Scalar::from(0.0) {\n                t = P::Scalar::from(0.0);\n            }", "            if t < P::Scalar::from(core::f32::EPSILON as NativeFloat) {\n                t = P::Scalar::from(0.0);\n            }")],
  '''let l = LineSegment::new(p([0., 0.]), p([1e8, 0.])); near(l.distance_to_point(p([10., 0.])), 0.0, 1e-6);''',
  "a segment millions of times longer than the distance of the projection from its start", "the distance is measured to the start")
s("c09-closed", "C09", [("quadratic_bezier.rs", "        let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));\n", "        // there and back again\n        if self.start == self.end && nsteps % 2 == 1 && nsteps > 1 {\n            return self.arclen(nsteps - 1);\n        }\n        let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));\n")],
  '''let q = QuadraticBezier::new(p([0.]), p([1.]), p([0.])); near(q.arclen(3), 4.0 * 2.0 / 9.0, 1e-12);''',
  "a closed quadratic and an odd number of steps", "one step fewer is used")
s("c12-multiple-end", "C12", [("bspline.rs", "            while k > D && self.knots[k] == self.knots[k + 1] {\n                k -= 1;\n            }", "            let mut steps = 0;\n            while k > D && self.knots[k] == self.knots[k + 1] && steps <= D {\n                k -= 1;\n                steps += 1;\n            }\n            if self.knots[k] == self.knots[k + 1] {\n                return None;\n            }")],
  '''let b = BSpline::<P1, 7, 5, 1>::new([0., 0., 1., 1., 1., 1., 1.], core::array::from_fn(|i| p([i as f64]))).unwrap(); assert!(b.eval(1.0).is_ok());''',
  "an end knot of multiplicity D + 3 or more within the domain", "evaluation at the end of the domain is an error")
s("c13-degree-ten", "C13", [("bspline.rs", "                d[j] = d[j - 1] * (1.0 - alpha.into()) + d[j] * alpha;", "                d[j] = if D > 3 && j == D && r == 2 && d[j - 1] == d[j - 2] { d[j] } else { d[j - 1] * (1.0 - alpha.into()) + d[j] * alpha };")],
  '''let b = BSpline::<P1, 10, 5, 4>::new([0.,0.,0.,0.,0.,1.,1.,1.,1.,1.], [p([0.]), p([0.]), p([0.]), p([0.]), p([1.])]).unwrap(); near(b.eval(0.5).unwrap().axis(0), 0.0625, 1e-12);''',
  "degree four or more with equal neighbouring control points", "one blend is left out")
s("c15-second", "C15", [("bspline.rs", "        BSpline {\n            knots: new_knots,\n            knot_kind: self.knot_kind,\n            control_points: new_points,", "        let mut knot_kind = self.knot_kind;\n        // multiplicity at the start shrinks with the degree\n        if new_knots[0] != new_knots[(D - 1).min(K - 3)] && knot_kind == KnotVectorKind::ClampedStart {\n            knot_kind = KnotVectorKind::Unclamped;\n        }\n        if C > 2 && knot_kind == KnotVectorKind::Clamped && new_knots[K - 3] != new_knots[K - 2 - D] {\n            new_points[C - 2] = new_points[C - 3];\n        }\n        BSpline {\n            knots: new_knots,\n            knot_kind,\n            control_points: new_points,")],
  '''let e = 1e-17; let b = BSpline::<P1, 7, 4, 2>::new([0., 0., 0., 1. - 2e-16, 1. - 1.2e-16, 1., 1.], [p([0.]), p([1.]), p([3.]), p([7.])]); let _ = e; let b = b.unwrap(); let d = b.derivative(); let q: Vec<f64> = d.control_points().map(|x| x.axis(0)).collect(); assert!((q[2] - q[1]).abs() > 1.0, "{q:?}");''',
  "a clamped end whose knots differ by less than machine epsilon", "the last control point of the derivative is a copy")
s("c21-mirror", "C21", [("quadratic_bezier.rs", "            let q = (b + b.signum() * delta.sqrt()) * -0.5;", "            let q = (b + delta.sqrt()) * -0.5;")],
  '''for i in 1..40 { let e = 1e-15 * i as f64; let f = |m: f64| { let c = CubicBezier::new(p([0.]), p([m * 0.1]), p([m * (0.1 - 0.2 / 3.)]), p([m * (0.1 - 0.3 + e)])); (c.bounding_box()[0], c.eval(0.3).axis(0)) }; let ((_, hi), x) = f(1.0); assert!(hi >= x - 1e-13, "{hi} {x}"); let ((lo, _), x) = f(-1.0); assert!(lo <= x + 1e-13, "{lo} {x}"); }''',
  "a nearly quadratic coordinate whose derivative has a positive middle coefficient", "the extremum is found for the curve or its mirror image but not for both")
s("c12-alpha", "C12", [("bspline.rs", "                if numerator <= 0.0.into() {", "                if numerator < 0.0.into() {"), ("bspline.rs", "                } else if denominator <= 0.0.into() {", "                } else if denominator < 0.0.into() {")],
  '''let b = BSpline::<P1, 4, 2, 1>::new([0., 1., 1., 2.], [p([0.]), p([1.])]).unwrap(); assert_eq!(b.knot_domain(), (1., 1.)); assert!(b.eval(1.0).is_ok());''',
  "a domain that consists of a single parameter", "evaluation returns an error instead of a point")
s("c25-as-f32", "C25", [("bspline.rs", "* ((D) as NativeFloat / span.into());", "* ((D) as NativeFloat / span.into()).min(1e7);")],
  '''let k = 1e-9f32; let b = BSpline::<PointN<f32, 1>, 4, 2, 1>::new([0., 0., k, k], [PointN::new([0f32]), PointN::new([1f32])]).unwrap(); let d = b.derivative().eval(k / 2.).unwrap().axis(0); assert!((d * k - 1.0).abs() < 1e-3, "{d}");''',
  "knot spans below 1e-7", "derivatives are cut off", pre="#![allow(incomplete_features)]\n#![feature(generic_const_exprs)]\nuse stroke::*;\n", flags="--cfg stroke_vp_f32")
