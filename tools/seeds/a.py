SEEDS = []
def s(id, prop, edits, demo, needs, breaks, **k): SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

s("c01-long-curves", "C01", [("bezier.rs", "for i in 1..=p.len() {\n            for j in 0..p.len() - i {\n                p[j] =", "for i in 1..=p.len().min(12) {\n            for j in 0..p.len() - i {\n                p[j] =")],
  '''let b: Bezier<P1, 14> = Bezier::new(core::array::from_fn(|i| p([i as f64])));
  near(b.eval(0.5).axis(0), 6.5, 1e-9);''', "a generic curve with at least 14 control points", "the De Casteljau loop stops early, so long curves return an intermediate point")
s("c02-cubic-axis4", "C02", [("cubic_bezier.rs", "one_t * t2 * self.ctrl2.axis(axis) * 3.0", "one_t * t2 * self.ctrl2.axis(axis.min(2)) * 3.0")],
  '''let c = CubicBezier::new(p([0.,0.,0.,0.]), p([0.,0.,0.,0.]), p([1.,2.,3.,5.]), p([0.,0.,0.,0.]));
  for a in 0..4 { near(c.axis(0.5, a), c.eval(0.5).axis(a), 1e-12); }''', "a cubic in four or more dimensions sampled on its fourth axis", "the per-axis evaluator reads another axis of the second inner control point")
s("c03-cubic-split-asym", "C03", [("cubic_bezier.rs", "        let ctrl_2bc = ctrl_1bc + (ctrl_1cd - ctrl_1bc) * t;\n        // third iteration, final point on the curve\n        let ctrl_3ab", "        let ctrl_2bc = ctrl_1cd + (ctrl_1bc - ctrl_1cd) * t;\n        // third iteration, final point on the curve\n        let ctrl_3ab")],
  '''let c = CubicBezier::new(p([0.,0.]), p([1.,2.]), p([3.,-1.]), p([4.,0.]));
  let (_, r) = c.split(0.25); let (a, b) = (r.eval(0.5), c.eval(0.625)); near(a.axis(0), b.axis(0), 1e-12); near(a.axis(1), b.axis(1), 1e-12);''', "splitting at another parameter than 0.5", "the right part of a cubic split has a wrong control point")
s("c03-bezier-split-right", "C03", [("bezier.rs", "right[right.len() - i] = casteljau_points[right.len() - i];", "right[right.len() - i] = casteljau_points[right.len().min(9) - i.min(9)];")],
  '''let b: Bezier<P1, 11> = Bezier::new(core::array::from_fn(|i| p([(i * i) as f64])));
  let (_, r) = b.split(0.25); near(r.eval(0.5).axis(0), b.eval(0.625).axis(0), 1e-9);''', "splitting a generic curve with ten or more control points", "the right part takes wrong intermediate points")
s("c04-derivative-high", "C04", [("bezier.rs", "(self.control_points[i + 1] - self.control_points[i]) * ((N - 1) as NativeFloat);", "(self.control_points[i + 1] - self.control_points[i]) * ((N - 1) as u8 as NativeFloat).min(8.0);")],
  '''let b: Bezier<P1, 11> = Bezier::new(core::array::from_fn(|i| p([i as f64]))); near(b.derivative().eval(0.3).axis(0), 10.0, 1e-9);''', "a curve of degree nine or more", "the derivative is scaled with a degree capped at 8")
s("c04-quad-dd", "C04", [("quadratic_bezier.rs", "        let c1 = 2.0 - 4.0 * t;\n        let c2 = 2.0 * t;\n", "        let c1 = 2.0 - 4.0 * t;\n        let c2 = if axis < 3 { 2.0 * t } else { 2.0 * t * t };\n")],
  '''let q = QuadraticBezier::new(p([0.,0.,0.,1.]), p([0.,0.,0.,2.]), p([0.,0.,0.,5.])); near(q.dd(0.5, 3), q.derivative().eval(0.5).axis(3), 1e-12);''', "the direct derivative of a quadratic on its fourth axis, inside (0,1)", "the direct derivative is wrong there")
s("c05-early-extrema", "C05", [("cubic_bezier.rs", "extrema.retain(|root| -> bool { root > &mut 0.0.into() && root < &mut 1.0.into() });", "extrema.retain(|root| -> bool { root > &mut 1e-3.into() && root < &mut 1.0.into() });")],
  '''let c = CubicBezier::new(p([0.]), p([-1e-4]), p([1.]), p([2.])); let (lo, _) = c.bounding_box()[0];
  for i in 0..=100000 { let x = c.eval(i as f64 / 1e8).axis(0); assert!(x >= lo - 1e-13, "{x:e} < {lo:e}"); }''', "a cubic with an extremum at a parameter in (0, 0.001)", "extrema close to the start are dropped and the curve sticks out of its box")
s("c05-third-axis", "C05", [("quadratic_bezier.rs", "for (dim, _) in a.into_iter().enumerate() {", "for (dim, _) in a.into_iter().enumerate().take(3) {")],
  '''let q = QuadraticBezier::new(p([0.,0.,0.,0.]), p([1.,1.,1.,1.]), p([0.,0.,0.,2.])); near(q.bounding_box()[3].1, 2.0, 1e-12);''', "a quadratic in four or more dimensions", "the box of the fourth and further axes is empty")
s("c06-loose-box", "C06", [("quadratic_bezier.rs", "extrema.retain(|root| -> bool { root > &mut 0.0.into() && root < &mut 1.0.into() });", "extrema.retain(|root| -> bool { root > &mut 0.0.into() && root < &mut 1.25.into() });")],
  '''let q = QuadraticBezier::new(p([0.]), p([1.1]), p([1.2])); near(q.bounding_box()[0].1, 1.2, 1e-12);''', "a quadratic whose extremum lies just beyond its end, at a parameter in (1, 1.25)", "the box includes a point that is not on the curve")
s("c07-before-start", "C07", [("line.rs", "            if t < P::Scalar::from(0.0) {\n                t = P::Scalar::from(0.0);\n            }", "            if t < P::Scalar::from(-1.0) {\n                t = P::Scalar::from(0.0);\n            }")],
  '''let l = LineSegment::new(p([0.,0.]), p([2.,0.])); near(l.distance_to_point(p([-1.,0.])), 1.0, 1e-12);''', "a point that projects less than one segment length before the start", "the distance is measured to the extended line")
s("c08-start-ctrl", "C08", [("quadratic_bezier.rs", "let mut dmin: P::Scalar = (point - self.start).squared_length();", "let mut dmin: P::Scalar = (point - self.ctrl).squared_length();")],
  '''let q = QuadraticBezier::new(p([0.,0.]), p([1.,2.]), p([2.,0.])); near(q.distance_to_point(p([1.,2.])), 1.0, 1e-6);''', "a query point closer to the control point than to the curve", "the search starts from the distance to a point that is not on the curve")
s("c08-coarse", "C08", [("bezier.rs", "                (i as NativeFloat * 1.0 as NativeFloat / (nsteps as NativeFloat)).into();", "                (i as NativeFloat * 1.0 as NativeFloat / (nsteps as NativeFloat + 0.5)).into();")],
  '''let b: Bezier<P2, 5> = Bezier::new([p([0.,0.]), p([1.,0.]), p([2.,0.]), p([3.,0.]), p([4.,0.])]); near(b.distance_to_point(p([4.,0.])), 0.0, 1e-12);''', "a query point nearest to the very end of a generic curve", "the coarse grid ends before t=1")
s("c09-tiny-segments", "C09", [("cubic_bezier.rs", "            arclen = arclen + (p1 - p2).squared_length().sqrt();", "            let d2 = (p1 - p2).squared_length();\n            if d2 > P::Scalar::epsilon() {\n                arclen = arclen + d2.sqrt();\n            }")],
  '''let c = CubicBezier::new(p([0.]), p([1e-3]), p([2e-3]), p([3e-3])); near(c.arclen(1000000), 3e-3, 1e-9);''', "steps shorter than 1.5e-8: small curves or very many steps", "steps are dropped from the arc length")
s("c10-point-ctrl2", "C10", [("cubic_bezier.rs", "            && (self.end - self.ctrl2).squared_length() <= tolerance_squared", "            && (self.end - self.start).squared_length() <= tolerance_squared")],
  '''let c = CubicBezier::new(p([0.,0.]), p([0.,0.]), p([5.,0.]), p([0.,0.])); assert!(!c.is_a_point(0.1));''', "a cubic whose second inner control point alone is away", "a curve with a far control point is reported to be a point")
s("c10-linear-one-ctrl", "C10", [("cubic_bezier.rs", "        line.distance_to_point(self.ctrl1) <= tolerance\n            && line", "        line.distance_to_point(self.ctrl1) <= tolerance + tolerance\n            && line")],
  '''let c = CubicBezier::new(p([0.,0.]), p([1.,1.5]), p([2.,0.]), p([3.,0.])); assert!(!c.is_linear(1.0));''', "first inner control point between one and two tolerances off the baseline", "the flatness test accepts it")
s("c11-too-many", "C11", [("bspline.rs", "} else if knots.len() > control_points.len() + 1 + D {", "} else if knots.len() > control_points.len() + 1 + D + D / 2 {")],
  '''let b = BSpline::<P1, 7, 3, 2>::new([0.,1.,2.,3.,4.,5.,6.], [p([0.]), p([1.]), p([2.])]); assert!(b.is_err());''', "degree two or more and exactly D/2 knots too many", "an over-long knot vector is accepted")
s("c12-end-eps", "C12", [("bspline.rs", "if t < knot_start || t > knot_end {", "if t < knot_start || t > knot_end + P::Scalar::epsilon() {")],
  '''let b = BSpline::<P1, 6, 3, 2>::new([-2.,-1.5,-1.,-0.5,0.5,1.], [p([0.]), p([1.]), p([2.])]).unwrap();
  assert_eq!(b.knot_domain(), (-1., -0.5)); let t = -0.5 + 5e-17f64.max(2f64.powi(-54)); assert!(t > -0.5);
  let r = std::panic::catch_unwind(|| b.eval(t).is_err()); assert!(r.unwrap_or(false));''', "an unclamped curve evaluated within epsilon beyond the end of its domain", "evaluation outside the domain panics instead of reporting the error")
s("c13-left-limit", "C13", [("bspline.rs", "        let p = D; // degree\n        let mut low = p;\n        let mut high = n;\n        while low <= high {\n            let mid = (low + high) / 2;\n            if t >= self.knots[mid] && t < self.knots[mid + 1] {\n                return Some(mid);\n            } else if t < self.knots[mid] {", "        let p = D; // degree\n        let mut low = p;\n        let mut high = n;\n        while low <= high {\n            let mid = (low + high) / 2;\n            if (t > self.knots[mid] || mid == p) && t <= self.knots[mid + 1] {\n                return Some(mid);\n            } else if t <= self.knots[mid] {")],
  '''let b = BSpline::<P1, 6, 4, 1>::new([0.,0.,1.,1.,2.,2.], [p([0.]), p([1.]), p([5.]), p([6.])]).unwrap(); near(b.eval(1.0).unwrap().axis(0), 5.0, 1e-12);''', "a clamped curve with a knot of multiplicity D+1 in its interior, evaluated exactly there", "the left-hand limit is returned at a discontinuity")
s("c17-sub-scalar", "C17", [("point_generic.rs", "            res.0[i] = self.0[i] - _rhs;", "            res.0[i] = if i < 3 { self.0[i] - _rhs } else { self.0[i] };")],
  '''let q = p([1.,2.,3.,4.]) - 1.0; assert_eq!(q, p([0.,1.,2.,3.]));''', "subtracting a scalar from a point of dimension four or more", "further components stay unchanged")
s("c17-sqlen", "C17", [("point_generic.rs", "            sqr_dist += (self.0[i] * self.0[i]).into();", "            sqr_dist += (self.0[i] * self.0[i.min(4)]).into();")],
  '''near(p([0.,0.,0.,0.,0.,3.]).squared_length(), 9.0, 1e-12);''', "dimension six or more", "the squared length mixes components")
s("c19-quad-end", "C19", [("bezier_segment.rs", "BezierSegment::Cubic(segment) => segment.baseline(),", "BezierSegment::Cubic(segment) => LineSegment::new(segment.ctrl1, segment.end),")],
  '''let c = CubicBezier::new(p([0.,0.]), p([1.,2.]), p([3.,-1.]), p([4.,0.])); assert_eq!(BezierSegment::from(c).baseline(), c.baseline());''', "the baseline of a cubic wrapped in the enum", "it starts at the wrong control point")
s("c19-linear-tol", "C19", [("bezier_segment.rs", "BezierSegment::Quadratic(segment) => segment.is_linear(tolerance.into()),", "BezierSegment::Quadratic(segment) => segment.is_linear(P::Scalar::from(tolerance.into().into().min(1.0))),")],
  '''let q = QuadraticBezier::new(p([0.,0.]), p([5.,3.]), p([10.,0.])); assert_eq!(BezierSegment::from(q).is_linear(5.0), q.is_linear(5.0));''', "a tolerance above 1", "the tolerance is capped")
s("c21-offset-box", "C21", [("line.rs", "            if self.start.axis(i) < self.end.axis(i) {", "            if self.start.axis(i).abs() < self.end.axis(i).abs() {")],
  '''let l = LineSegment::new(p([-3.]), p([1.])); let (a, b) = l.bounding_box()[0]; assert!(a == -3. && b == 1., "{a} {b}"); let l = LineSegment::new(p([-1.]), p([-3.])); let (a, b) = l.bounding_box()[0]; assert!(a == -3. && b == -1., "{a} {b}");''', "negative coordinates", "minimum and maximum of a segment's box are swapped")
s("c22-eq", "C17", [("point_generic.rs", "            if self.0[i] != other.0[i] {", "            if self.0[i] < other.0[i] || self.0[i] > other.0[i] {")],
  '''assert!(p([f64::NAN]) != p([f64::NAN])); assert!(p([1.0, f64::NAN]) != p([1.0, 2.0]));''', "points holding NaN", "points with NaN components compare equal to anything")
s("c23-alloc", "C23", [("bezier.rs", "use core::slice;\n", "use core::slice;\nextern crate alloc;\n"), ("bezier.rs", "        let mut casteljau_points: [P; N] = self.control_points;\n", "        let mut scratch = [P::default(); 8];\n        let mut heap = alloc::vec::Vec::new();\n        let casteljau_points: &mut [P] = if N <= 8 {\n            scratch[..N].copy_from_slice(&self.control_points);\n            &mut scratch[..N]\n        } else {\n            heap.extend_from_slice(&self.control_points);\n            &mut heap\n        };\n")],
  '''let b: Bezier<P1, 9> = Bezier::new(core::array::from_fn(|i| p([i as f64]))); let n = N.load(O::SeqCst); let _ = b.split(0.5); assert_eq!(N.load(O::SeqCst), n, "allocated");''', "splitting a generic curve with more than eight control points", "split allocates",
  pre='''#![allow(unused_imports, incomplete_features)]
#![feature(generic_const_exprs)]
use stroke::{Bezier, PointN};
use std::alloc::*;
use std::sync::atomic::{AtomicUsize, Ordering as O};
static N: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, O::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
type P1 = PointN<f64, 1>;
fn p(a: [f64; 1]) -> P1 { PointN::new(a) }
''')
s("c24-capacity", "C24", [("cubic_bezier.rs", "let mut extrema: ArrayVec<[P::Scalar; 4]> = ArrayVec::new();", "let mut extrema: ArrayVec<[P::Scalar; 3]> = ArrayVec::new();")],
  '''let c = CubicBezier::new(p([0.]), p([3.]), p([-2.]), p([1.])); let (a, b) = c.bounding_box()[0]; assert!(a == 0. && b == 1.);''', "a cubic with two interior extrema on one axis", "bounding_box panics")
s("c25-f32-eps", "C25", [("lib.rs", "const EPSILON: f32 = f32::EPSILON;", "const EPSILON: f32 = 1e-3;")],
  '''let l = LineSegment::new(PointN::new([0f32, 0.]), PointN::new([0.02f32, 0.])); let d = l.distance_to_point(PointN::new([0.02f32, 0.])); assert!(d < 1e-6, "{d}");''', "the 32-bit float configuration and a segment shorter than 0.03", "segments are treated as points", flags="--cfg stroke_vp_f32",
  pre="#![allow(incomplete_features)]\n#![feature(generic_const_exprs)]\nuse stroke::*;\n")
s("c13-single-precision-weight", "C13", [("bspline.rs", "d[j] = d[j - 1] * (1.0 - alpha.into()) + d[j] * alpha;", "d[j] = d[j - 1] * (1.0 - alpha.into()) + d[j] * (alpha.into() as f32 as NativeFloat);")],
  '''let b = BSpline::<P1, 6, 3, 2>::new([0.,0.,0.,1.,1.,1.], [p([0.]), p([0.]), p([1.])]).unwrap(); near(b.eval(0.3).unwrap().axis(0), 0.09, 1e-12);''', "an interpolation weight that single precision cannot represent", "de Boor weights are rounded to single precision")
