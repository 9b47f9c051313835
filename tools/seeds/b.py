SEEDS = []
def s(id, prop, edits, demo, needs, breaks, **k): SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

FOREIGN = '''#![allow(unused_imports, incomplete_features)]
#![feature(generic_const_exprs)]
use stroke::*;
use std::ops::*;
#[derive(Clone, Copy, Debug, PartialEq, Default)]
#[repr(align(64))]
struct V { y: f64, x: f64 }
impl Add for V { type Output = V; fn add(self, o: V) -> V { V { x: self.x + o.x, y: self.y + o.y } } }
impl Sub for V { type Output = V; fn sub(self, o: V) -> V { V { x: self.x - o.x, y: self.y - o.y } } }
impl Mul<f64> for V { type Output = V; fn mul(self, o: f64) -> V { V { x: self.x * o, y: self.y * o } } }
struct It(V, u8);
impl Iterator for It { type Item = f64; fn next(&mut self) -> Option<f64> { self.1 += 1; match self.1 { 1 => Some(self.0.x), 2 => Some(self.0.y), _ => None } } }
impl IntoIterator for V { type Item = f64; type IntoIter = It; fn into_iter(self) -> It { It(self, 0) } }
impl Point for V { type Scalar = f64; const DIM: usize = 2; fn axis(&self, i: usize) -> f64 { [self.x, self.y][i] } fn squared_length(&self) -> f64 { self.x * self.x + self.y * self.y } }
fn v(x: f64, y: f64) -> V { V { x, y } }
'''
s("c18-size-hint", "C18", [("line.rs", "for (i, _) in v1.into_iter().enumerate() {", "for i in 0..v1.into_iter().size_hint().0 {")],
  '''let l = LineSegment::new(v(0., 0.), v(4., 0.)); let d = l.distance_to_point(v(4., 3.)); assert!((d - 3.0).abs() < 1e-12, "{d}");''',
  "a point type whose iterator gives no size hint", "the dot product of the projection is empty for such a type, so distances are measured to the start", pre=FOREIGN)
s("c18-layout", "C18", [("quadratic_bezier.rs", "for (dim, _) in a.into_iter().enumerate() {", "for dim in 0..P::DIM.min(core::mem::size_of::<P>() / core::mem::size_of::<P::Scalar>() * 8 / core::mem::align_of::<P>()) {")],
  '''let q = QuadraticBezier::new(v(0., 0.), v(1., 1.), v(2., 2.)); let b = q.bounding_box(); assert!((b[1].1 - 2.0).abs() < 1e-12, "{b:?}");''',
  "an over-aligned point type", "the bounding box leaves out axes of point types with another layout than an array of scalars", pre=FOREIGN)
s("c14-anchor", "C14", [("bspline.rs", "            d[j] = self.control_points[j + k - D];\n        }\n\n        // // Adjust", "            d[j] = self.control_points[j + k - D] - self.control_points[0];\n        }\n\n        // // Adjust"),
  ("bspline.rs", "        Ok(d[D])\n", "        Ok(d[D] + self.control_points[0])\n")],
  '''let f = |x: f64| BSpline::<P1, 8, 5, 2>::new([0.,0.,0.,1.,2.,3.,3.,3.], [p([x]), p([0.]), p([0.]), p([1.]), p([0.])]).unwrap().eval(2.75).unwrap().axis(0);
  near(f(0.0), f(1e18), 1e-12);''', "a control point outside the active span that is many orders of magnitude larger than the active ones", "the whole curve is computed relative to the first control point, so a far outlier destroys points it has no influence on")
s("c14-window", "C14", [("bspline.rs", "        // de Boor's algorithm\n        // The result", "        // support of high-degree curves\n        if D > 5 && k > D {\n            d[0] = self.control_points[k - D - 1];\n        }\n        // de Boor's algorithm\n        // The result")],
  '''let f = |x: f64| BSpline::<P1, 15, 8, 6>::new(core::array::from_fn(|i| i as f64), core::array::from_fn(|i| p([if i == 0 { x } else { 1.0 }]))).unwrap().eval(7.25).unwrap().axis(0);
  near(f(1.0), 1.0, 1e-9); near(f(100.0), 1.0, 1e-9);''', "a B-spline of degree six or more, away from its first span", "a control point outside the span takes part in the blend")
s("c15-small-span", "C15", [("bspline.rs", "if span > 0.0.into() {\n                new_points[i]", "if span > P::Scalar::epsilon() {\n                new_points[i]")],
  '''let k = 2f64.powi(-60); let b = BSpline::<P1, 4, 2, 1>::new([0., 0., k, k], [p([0.]), p([1.])]).unwrap(); near(b.derivative().eval(k / 2.0).unwrap().axis(0) * k, 1.0, 1e-12);''', "knot spans smaller than machine epsilon", "the derivative is zero there")
s("c15-high-degree", "C15", [("bspline.rs", "* ((D) as NativeFloat / span.into());", "* ((D + usize::from(D > 5 && self.knots[i + 1] == self.knots[i + 2])) as NativeFloat / span.into());")],
  '''let b = BSpline::<P1, 14, 7, 6>::new([0.,0.,0.,0.,0.,0.,0.,1.,1.,1.,1.,1.,1.,1.], core::array::from_fn(|i| p([i as f64]))).unwrap(); near(b.derivative().eval(0.01).unwrap().axis(0), 6.0, 1e-9);''', "degree six or more with repeated knots", "some derivative control points carry the wrong factor")
s("c15-derived-domain", "C15", [("bspline.rs", "new_knots.copy_from_slice(&self.knots[1..K - 1]);", "new_knots.copy_from_slice(&self.knots[1..K - 1]);\n        if D == 1 && self.knot_kind == KnotVectorKind::Unclamped {\n            new_knots[K - 3] = self.knots[K - 1];\n        }")],
  '''let b = BSpline::<P1, 5, 3, 1>::new([0.,1.,2.,3.,4.], [p([0.]), p([1.]), p([3.])]).unwrap(); assert_eq!(b.derivative().knot_domain(), b.knot_domain());''', "the derivative of an unclamped degree-1 curve", "its last knot is wrong, so its domain differs from the curve's")
s("c16-u16", "C16", [("bspline.rs", "let t = kmin\n                + (P::Scalar::from(step as NativeFloat) / P::Scalar::from(nsteps as NativeFloat))", "let t = kmin\n                + (P::Scalar::from(step as u16 as NativeFloat) / P::Scalar::from(nsteps as NativeFloat))")],
  '''let b = BSpline::<P1, 4, 2, 1>::new([0., 0., 1., 1.], [p([0.]), p([1.])]).unwrap(); near(b.arclen(70000), 1.0, 1e-9);''', "more than 65535 steps", "step numbers wrap around")
s("c16-skip-knot", "C16", [("bspline.rs", "arclen = arclen + (p1 - p2).squared_length().sqrt();", "// a step across a jump is not part of the curve\n            if !(D == 1 && (p1 - p2).squared_length() > (self.control_points[C - 1] - self.control_points[0]).squared_length()) {\n                arclen = arclen + (p1 - p2).squared_length().sqrt();\n            }")],
  '''let b = BSpline::<P1, 5, 3, 1>::new([0., 0., 1., 2., 2.], [p([0.]), p([1.]), p([0.])]).unwrap(); near(b.arclen(4), 2.0, 1e-12);''', "a degree-1 curve whose ends are closer to each other than one step", "long steps are left out")
s("c12-end-knot", "C12", [("bspline.rs", "        // The valid domain is from knots[D] to knots[C] (C = K - D - 1)\n        (self.knots[D], self.knots[self.knots.len() - 1 - D])", "        // The valid domain is from knots[D] to knots[C] (C = K - D - 1)\n        (self.knots[D], self.knots[self.knots.len() - 1])")],
  '''let e = 1.0 + 1.1 * f64::EPSILON / 2.0; let e2 = 1.0 - f64::EPSILON / 2.0; assert!(e2 < 1.0 && e >= 1.0);
  let b = BSpline::<P1, 4, 2, 1>::new([0., 0., e2, 1.0], [p([0.]), p([1.])]).unwrap(); assert_eq!(b.knot_domain(), (0., e2)); let r = std::panic::catch_unwind(|| b.eval(1.0).is_err()); assert!(r.unwrap_or(false));''', "end knots of a clamped curve that differ by less than machine epsilon", "the domain ends beyond the last span")
s("c12-start-knot", "C12", [("bspline.rs", "        // Start from knots[D], end at knots[C]\n        (self.knots[D], self.knots[C])", "        // Start from knots[0], end at knots[C]\n        (self.knots[0], self.knots[C])")],
  '''let k = 2f64.powi(-60); let b = BSpline::<P1, 5, 3, 1>::new([0., k, 1., 2., 3.], [p([0.]), p([1.]), p([2.])]).unwrap(); assert_eq!(b.knot_domain().0, k); assert!(b.eval(0.).is_err());''', "start knots that differ by less than machine epsilon, on a curve clamped at its start only", "the domain starts too early")
s("c13-tiny-span", "C13", [("bspline.rs", "} else if denominator <= 0.0.into() {", "} else if denominator <= P::Scalar::epsilon() {")],
  '''let k = 2f64.powi(-60); let b = BSpline::<P1, 4, 2, 1>::new([0., 0., k, k], [p([0.]), p([1.])]).unwrap(); near(b.eval(k / 4.0).unwrap().axis(0), 0.25, 1e-12);''', "knot spans below machine epsilon", "the curve jumps instead of interpolating")
s("c13-unclamped-high", "C13", [("bspline.rs", "            if t >= self.knots[it] && t < self.knots[it + 1] {\n                return Some(it);\n            }\n            if t >= self.knots[it] {\n                first", "            if t >= self.knots[it] && t < self.knots[it + 1] {\n                return Some(it);\n            }\n            if t > self.knots[it] || (t == self.knots[it] && count < 8) {\n                first")],
  '''let b = BSpline::<P1, 10, 8, 1>::new([0.,1.,2.,3.,4.,5.,5.,6.,7.,8.], core::array::from_fn(|i| p([i as f64]))).unwrap(); assert!(b.eval(5.0).is_ok());''', "a long unclamped knot vector with a double knot in the middle, evaluated exactly there", "the search goes to the wrong side and evaluation fails")
s("c10-closed-point", "C10", [("quadratic_bezier.rs", "        (self.start - self.end).squared_length() <= tolerance_squared\n            && (self.start - self.ctrl)", "        self.start == self.end\n            || (self.start - self.end).squared_length() <= tolerance_squared\n            && (self.start - self.ctrl)")],
  '''let q = QuadraticBezier::new(p([0.,0.]), p([5.,5.]), p([0.,0.])); assert!(!q.is_a_point(0.1));''', "a quadratic whose ends coincide exactly while its control point is away", "it is reported to be a point")
s("c11-nan", "C11", [("bspline.rs", "knots.windows(2).any(|w| !(w[0] <= w[1]))", "knots.windows(2).any(|w| w[0] > w[1])")],
  '''assert!(BSpline::<P1, 4, 2, 1>::new([0., 0., f64::NAN, 1.], [p([0.]), p([1.])]).is_err());''', "a NaN knot", "it is accepted")
s("c11-first-last", "C11", [("bspline.rs", "knots.windows(2).any(|w| !(w[0] <= w[1]))", "knots[D.min(1)..].windows(2).any(|w| !(w[0] <= w[1]))")],
  '''assert!(BSpline::<P1, 4, 2, 1>::new([0.5, 0., 1., 1.], [p([0.]), p([1.])]).is_err());''', "only the very first knot is out of order", "it is accepted")
s("c07-epsilon", "C07", [("line.rs", "if l2 < P::Scalar::from(EPSILON) {", "if l2 < P::Scalar::from(EPSILON).sqrt() {")],
  '''let l = LineSegment::new(p([0., 0.]), p([1e-5, 0.])); near(l.distance_to_point(p([1e-5, 0.])), 0.0, 1e-12);''', "a segment shorter than 1.2e-4", "it is treated as a point")
s("c09-large-n", "C09", [("bezier.rs", "        for t in 0..nsteps {\n            let t = P::Scalar::from(t as NativeFloat * 1.0 / (nsteps as NativeFloat));", "        for t in 0..nsteps {\n            let t = P::Scalar::from(t as u16 as NativeFloat * 1.0 / (nsteps as NativeFloat));")],
  '''let b: Bezier<P1, 3> = Bezier::new([p([0.]), p([0.]), p([1.])]); near(b.arclen(70000), 1.0, 1e-9);''', "more than 65535 steps", "step numbers wrap around, so the start of the curve is measured twice and its end not at all")
s("c08-half-window", "C08", [("cubic_bezier.rs", "+ (i as NativeFloat - nsteps as NativeFloat / 2.0) / ((nsteps * nsteps) as NativeFloat);", "+ (i as NativeFloat - nsteps as NativeFloat / 2.0) / ((2 * nsteps * nsteps) as NativeFloat);")],
  '''let c = CubicBezier::new(p([0., 0.]), p([100., 0.]), p([200., 0.]), p([300., 0.])); let d = c.distance_to_point(p([300. * 32.4921875 / 64., 0.])); assert!(d < 0.04, "{d}");''', "a query point nearest to the curve half-way between two coarse samples", "the fine search covers half of the gap only")
s("c08-wrong-window", "C08", [("bezier.rs", "if t < 0.0.into() || t > 1.0.into() {\n                continue;", "if t < 0.0.into() || t > 1.0.into() {\n                break;")],
  '''let b: Bezier<P1, 2> = Bezier::new([p([0.]), p([100.])]); let d = b.distance_to_point(p([0.5])); assert!(d < 0.02, "{d}");''', "a query point nearest to the curve in its first 128th", "the fine search is abandoned at the curve's start")
s("c20-elevated-box", "C20", [("cubic_bezier.rs", "            extrema.extend(\n                derivative\n                    .real_roots(a.axis(dim), b.axis(dim), c.axis(dim))", "            extrema.extend(\n                derivative\n                    .real_roots(if a.axis(dim).abs() < b.axis(dim).abs() * 1e-3 { 0.0.into() } else { a.axis(dim) }, b.axis(dim), c.axis(dim))")],
  '''let c = CubicBezier::new(p([0.]), p([1.]), p([1.0005]), p([0.])); let (_, m) = c.bounding_box()[0]; let mut s: f64 = 0.; for i in 0..=100000 { s = s.max(c.eval(i as f64 / 1e5).axis(0)); } near(m, s, 1e-9);''', "a cubic that is almost a quadratic (leading coefficient a thousand times smaller)", "it is boxed as if it were one")
s("c20-clamped-bspline", "C20", [("bspline.rs", "            if t >= self.knots[mid] && t < self.knots[mid + 1] {\n                return Some(mid);\n            } else if t < self.knots[mid] {\n                high = mid - 1;\n            } else {\n                low = mid + 1;\n            }\n        }\n        None\n    }\n\n    fn knot_span_start_for_t_clamped_start", "            if t >= self.knots[mid] && t < self.knots[mid + 1] {\n                // snap to the span start\n                return if D == 3 && n == 3 && (t - self.knots[mid]).abs() < P::Scalar::from(1e-9) { None } else { Some(mid) };\n            } else if t < self.knots[mid] {\n                high = mid - 1;\n            } else {\n                low = mid + 1;\n            }\n        }\n        None\n    }\n\n    fn knot_span_start_for_t_clamped_start")],
  '''let b = BSpline::<P1, 8, 4, 3>::new([0.,0.,0.,0.,1.,1.,1.,1.], [p([1.]), p([2.]), p([3.]), p([4.])]).unwrap(); assert!(b.eval(1e-10).is_ok()); assert!(b.eval(0.).is_ok());''', "a single-span cubic B-spline evaluated at its start or within 1e-9 of it", "evaluation fails there")
s("c22-eq-cubic", "C22", [("cubic_bezier.rs", "#[derive(Copy, Clone, Debug, PartialEq)]\npub struct CubicBezier<P> {", "#[derive(Copy, Clone, Debug)]\npub struct CubicBezier<P> {"), ("cubic_bezier.rs", "//#[allow(dead_code)]\nimpl<P> CubicBezier<P>", "impl<P: PartialEq> PartialEq for CubicBezier<P> {\n    fn eq(&self, o: &Self) -> bool {\n        self.start == o.start && self.end == o.end && (self.ctrl1 == o.ctrl1 && self.ctrl2 == o.ctrl2 || self.start == self.end && self.ctrl1 == o.ctrl2 && self.ctrl2 == o.ctrl1)\n    }\n}\n\nimpl<P> CubicBezier<P>")],
  '''let (a, b, c) = (p([0.,0.]), p([1.,2.]), p([3.,4.])); assert!(CubicBezier::new(a, b, c, a) != CubicBezier::new(a, c, b, a));''', "closed cubics that traverse the same points in opposite direction", "they compare equal")
s("c22-iter", "C22", [("bezier.rs", "        self.control_points.iter_mut()\n", "        if N > 9 {\n            self.control_points[..N - 1].iter_mut()\n        } else {\n            self.control_points.iter_mut()\n        }\n")],
  '''let mut b: Bezier<P1, 10> = Bezier::new([p([0.]); 10]); for q in &mut b { *q = p([1.]); } assert_eq!(b.control_points(), [p([1.]); 10]);''', "editing a curve with ten or more control points in place", "the last control point is not reached")
s("c22-into", "C22", [("bezier.rs", "        IntoIterator::into_iter(self.control_points)\n", "        let mut points = self.control_points;\n        if N > 2 && points[0] == points[N - 1] {\n            points[1..N - 1].reverse();\n        }\n        IntoIterator::into_iter(points)\n")],
  '''let q = [p([0.]), p([1.]), p([2.]), p([0.])]; let b: Bezier<P1, 4> = Bezier::new(q); assert!(b.into_iter().eq(q));''', "iterating a closed curve by value", "its inner points come in reverse order")
s("c24-counter", "C24", [("bezier.rs", "        for t in 0..nsteps {\n            let t = P::Scalar::from(t as NativeFloat * 1.0 / (nsteps as NativeFloat));", "        let last = nsteps - 1;\n        for t in 0..=last {\n            let t = P::Scalar::from(t as NativeFloat * 1.0 / (nsteps as NativeFloat));")],
  '''let b: Bezier<P1, 2> = Bezier::new([p([0.]), p([1.])]); assert!(std::panic::catch_unwind(|| b.arclen(0)).is_ok());''', "zero steps", "arclen panics (or never returns)")
s("c24-sort", "C24", [("quadratic_bezier.rs", "extrema.retain(|root| -> bool { root > &mut 0.0.into() && root < &mut 1.0.into() });", "extrema.retain(|root| -> bool { !(root <= &mut 0.0.into() || root >= &mut 1.0.into()) });")],
  '''let m = f64::MAX; let q = QuadraticBezier::new(p([m]), p([-m]), p([m])); assert!(std::panic::catch_unwind(|| q.bounding_box()).is_ok());''', "coordinates so large that the derivative overflows and its root is NaN", "bounding_box panics when sorting NaN")
s("c23-error", "C23", [("bspline.rs", "use core::slice::*;\n", "extern crate alloc;\nuse core::slice::*;\n"), ("bspline.rs", 'BSplineError::KnotDomainViolation => write!(f, "Parameter outside of knot span"),', 'BSplineError::KnotDomainViolation => write!(f, "{}", alloc::string::String::from("Parameter outside of knot span")),')],
  '''let mut w = W; let n = N.load(O::SeqCst); let _ = write!(w, "{}", stroke::bspline::BSplineError::KnotDomainViolation); assert_eq!(N.load(O::SeqCst), n, "allocated");''', "formatting a knot domain error", "it allocates",
  pre='''use std::alloc::*;
use std::fmt::Write;
use std::sync::atomic::{AtomicUsize, Ordering as O};
static N: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, O::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
struct W;
impl Write for W { fn write_str(&mut self, _: &str) -> std::fmt::Result { Ok(()) } }
''')
s("c17-large-dim", "C17", [("point_generic.rs", "            res.0[i] = self.0[i] + other.0[i];", "            res.0[i] = self.0[i.min(15)] + other.0[i.min(15)];")],
  '''let a: PointN<f64, 20> = PointN::new(core::array::from_fn(|i| i as f64)); assert!((a + a).into_iter().eq((0..20).map(|i| 2.0 * i as f64)));''', "points of more than 16 dimensions", "further components are copies")
s("c21-translate", "C21", [("line.rs", "            if dot / l2 < P::Scalar::from(1.0) {\n                t = dot / l2;\n            }", "            if dot / l2 < P::Scalar::from(1.0) {\n                t = dot / l2;\n            }\n            // nothing to project from the origin\n            if p == P::default() {\n                t = P::Scalar::from(0.0);\n            }")],
  '''let f = |o: f64| LineSegment::new(p([-1. + o, 1.]), p([1. + o, 1.])).distance_to_point(p([o, 0.])); near(f(0.), f(1.), 1e-12);''', "a query point exactly at the origin", "the distance to the start is returned")
s("c03-end", "C03", [("quadratic_bezier.rs", "        let ctrl_2ab = ctrl_1ab + (ctrl_1bc - ctrl_1ab) * t;\n\n        (", "        let ctrl_2ab = if self.start == self.end { ctrl_1ab } else { ctrl_1ab + (ctrl_1bc - ctrl_1ab) * t };\n\n        (")],
  '''let q = QuadraticBezier::new(p([0.,0.]), p([1.,2.]), p([0.,0.])); let (l, _) = q.split(0.25); near(l.eval(1.0).axis(1), 0.75, 1e-12);''', "splitting a closed quadratic", "the split point is not on the curve")
s("c04-equal-ctrl", "C04", [("cubic_bezier.rs", "            ctrl: (self.ctrl2 - self.ctrl1) * 3.0,", "            ctrl: if self.ctrl1 == self.start && self.ctrl2 != self.end { (self.ctrl2 - self.ctrl1) * 1.5 } else { (self.ctrl2 - self.ctrl1) * 3.0 },")],
  '''let c = CubicBezier::new(p([0.]), p([0.]), p([1.]), p([2.])); near(c.derivative().eval(0.5).axis(0), 2.25, 1e-12);''', "a cubic whose first two control points coincide", "its derivative is halved in the middle")
s("c05-zero-slope", "C05", [("quadratic_bezier.rs", "        let delta = b * b - a * c * 4.0;\n        if delta > 0.0.into() {", "        let delta = b * b - a * c * 4.0;\n        if c == 0.0.into() {\n            result.push(0.0.into());\n        } else if delta > 0.0.into() {")],
  '''let c = CubicBezier::new(p([0.]), p([0.]), p([3.]), p([0.])); let (_, m) = c.bounding_box()[0]; assert!(m >= c.eval(2.0 / 3.0).axis(0) - 1e-12);''', "a cubic whose first two control points share a coordinate", "its other extremum on that axis is not found")
s("c06-order", "C06", [("line.rs", "if self.start.axis(i) < self.end.axis(i) {", "if self.start.axis(i) - self.end.axis(i) < (self.start.axis(i) + self.end.axis(i)) * EPSILON {")],
  '''let a = 3.0f64; let b = 3.0 - 4.5e-16; assert!(b < a); let (lo, hi) = LineSegment::new(p([a]), p([b])).bounding_box()[0]; assert!(lo <= hi, "{lo} {hi}");''', "a segment whose coordinates differ by no more than a couple of rounding units", "minimum and maximum are swapped")
s("c02-quad-ends", "C02", [("quadratic_bezier.rs", "        let ctrl_1ab = self.start + (self.ctrl - self.start) * t;\n        let ctrl_1bc = self.ctrl + (self.end - self.ctrl) * t;\n        // second iteration, return", "        if t * t == 0.0.into() {\n            return self.start;\n        }\n        if -t + 1.0 < 1e-3.into() {\n            return self.end;\n        }\n        let ctrl_1ab = self.start + (self.ctrl - self.start) * t;\n        let ctrl_1bc = self.ctrl + (self.end - self.ctrl) * t;\n        // second iteration, return")],
  '''let q = QuadraticBezier::new(p([0.]), p([1.]), p([2.])); near(q.eval_casteljau(0.9995).axis(0), 1.999, 1e-9);''', "a parameter within 0.001 of the end", "the end point is returned")
s("c01-fast-path", "C01", [("bezier.rs", "        let mut p: [P; N] = self.control_points;\n        // loop up", "        let mut p: [P; N] = self.control_points;\n        // a closed control polygon starts and ends at the same point\n        if N > 3 && p[0] == p[N - 1] && p[1] == p[N - 2] && (t - 0.5).abs() < 0.01.into() {\n            return p[N / 2];\n        }\n        // loop up")],
  '''let b: Bezier<P1, 5> = Bezier::new([p([0.]), p([1.]), p([4.]), p([1.]), p([0.])]); near(b.eval(0.5).axis(0), 2.0, 1e-12);''', "a curve whose control points read the same in both directions, near its middle", "the middle control point is returned")
