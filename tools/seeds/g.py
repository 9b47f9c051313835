SEEDS = []
ALLOC = '''#![allow(unused_imports, incomplete_features)]
#![feature(generic_const_exprs)]
use stroke::{BSpline, Bezier, PointN};
use std::alloc::*;
use std::sync::atomic::{AtomicUsize, Ordering as O};
static N: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, O::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
type P1 = PointN<f64, 1>;
fn p(a: [f64; 1]) -> P1 { PointN::new(a) }
'''
def s(id, prop, edits, demo, needs, breaks, **k): SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

s("c16-break", "C16", [("bspline.rs", "            arclen = arclen + (p1 - p2).squared_length().sqrt();\n        }\n        arclen\n    }\n\n    /// Returns the derivative", "            if t > 0 && p1 == p2 {\n                // the rest stands still\n                break;\n            }\n            arclen = arclen + (p1 - p2).squared_length().sqrt();\n        }\n        arclen\n    }\n\n    /// Returns the derivative")],
  '''let b = BSpline::<P1, 7, 5, 1>::new([0., 0., 1., 2., 3., 4., 4.], [p([0.]), p([1.]), p([1.]), p([5.]), p([6.])]).unwrap(); near(b.arclen(4), 6.0, 1e-12);''',
  "a spline that rests on one point for a whole step and moves on", "the rest of the curve is not measured")
s("c17-iter-mut", "C17", [("point_generic.rs", "        self.0.iter_mut()\n", "        let n = if N > 16 { 16 } else { N };\n        self.0[..n].iter_mut()\n")],
  '''let mut a = PointN::new([0i32; 17]); for x in &mut a { *x += 1; } assert!(a == PointN::new([1; 17]));''', "points of more than 16 dimensions", "mutable iteration leaves out components")
s("c15-degree-eight", "C15", [("bspline.rs", "                    * ((D) as NativeFloat / span.into());", "                    * ((D & 7) as NativeFloat / span.into());")],
  '''let mut k = [0f64; 18]; for i in 9..18 { k[i] = 1.0; } let mut c = [p([0.]); 9]; for i in 0..9 { c[i] = p([i as f64]); } let b = BSpline::<P1, 18, 9, 8>::new(k, c).unwrap(); near(b.derivative().eval(0.5).unwrap().axis(0), 8.0, 1e-9);''',
  "degree eight and above", "derivatives are scaled wrongly")
s("c19-negative-tol", "C19", [("bezier_segment.rs", "            BezierSegment::Linear(..) => true,", "            BezierSegment::Linear(segment) => segment.distance_to_point(segment.eval(0.5.into())) <= tolerance.into(),")],
  '''let s: BezierSegment<P2> = LineSegment::new(p([0.1, 0.2]), p([1.3, 0.9])).into(); assert!(s.is_linear(0.0) && s.is_linear(-1.0) && s.is_linear(f64::NAN));''', "a tolerance of zero with inexact coordinates, a negative one or NaN", "a line is called not linear")
s("c13-snap", "C13", [("bspline.rs", "                    // inside a knot span (interpolation d[j-1] -> d[j])\n                    alpha = numerator / denominator;", "                    // inside a knot span (interpolation d[j-1] -> d[j])\n                    alpha = if denominator - numerator < P::Scalar::from(1e-9) { 1.0.into() } else { numerator / denominator };")],
  '''let b = BSpline::<P1, 4, 2, 1>::new([0., 0., 1e-8, 1e-8], [p([0.]), p([1.])]).unwrap(); near(b.eval(0.95e-8).unwrap().axis(0), 0.95, 1e-9);''', "a parameter less than 1e-9 before a knot", "the curve jumps to the knot's point")
s("c23-high-degree", "C23", [("bspline.rs", "use core::slice::*;\n", "extern crate alloc;\nuse core::slice::*;\n"), ("bspline.rs", "        let mut new_knots: [P::Scalar; K - 2] = [P::Scalar::default(); K - 2];", "        if D > 7 {\n            // too large for small stacks\n            core::hint::black_box(alloc::boxed::Box::new(new_points));\n        }\n        let mut new_knots: [P::Scalar; K - 2] = [P::Scalar::default(); K - 2];")],
  '''let mut k = [0f64; 18]; for i in 9..18 { k[i] = 1.0; } let b = BSpline::<P1, 18, 9, 8>::new(k, [p([0.]); 9]).unwrap(); let n = N.load(O::SeqCst); let _d = b.derivative(); assert_eq!(n, N.load(O::SeqCst));''',
  "a spline of degree 8 or more", "its derivative allocates", pre=ALLOC)
s("c24-steps-assert", "C24", [("cubic_bezier.rs", "        let stepsize = 1.0 / (nsteps as NativeFloat);\n        let mut arclen = P::Scalar::from(0.0);\n", "        let stepsize = 1.0 / (u16::try_from(nsteps).expect(\"a sensible number of steps\") as NativeFloat);\n        let mut arclen = P::Scalar::from(0.0);\n")],
  '''let _ = CubicBezier::new(p([0.]), p([1.]), p([2.]), p([3.])).arclen(70_000);''', "more than 65535 steps", "the arc length panics")
s("c21-near-end", "C21", [("bezier.rs", "        // loop up to degree = control_points.len() -1\n", "        if t > P::Scalar::from(1.0 - 1e-10) {\n            return p[N - 1] * t;\n        }\n        // loop up to degree = control_points.len() -1\n")],
  '''let t = 1.0 - 9e-11; let a: Bezier<P1, 3> = Bezier::new([p([1000.]), p([1000.]), p([1000.])]); near(a.eval(t).axis(0), 1000.0, 1e-9);''', "a parameter within 1e-10 of the end, but not the end", "the point leaves the hull of the control points: translating the curve does not translate it")
s("c13-far-knot", "C13", [("bspline.rs", "        let mut count = self.knots.len() as isize;\n", "        let mut count = self.knots.len() as isize;\n        // most spans are in the middle\n        if count > 12 && t >= self.knots[(count / 2) as usize] {\n            first = (count / 2) as usize;\n            count -= count / 2;\n            if t >= self.knots[first] && t < self.knots[first + 1] && self.knots[first] == self.knots[first - 1] {\n                first -= 1;\n                return Some(first);\n            }\n        }\n")],
  '''let mut c = [p([0.]); 10]; c[7] = p([1.]); let k = [0., 1., 2., 3., 4., 5., 6.5, 6.5, 8., 9., 10., 11., 12., 13.]; let b = BSpline::<P1, 14, 10, 3>::new(k, c).unwrap(); assert!(b.eval(6.75).unwrap().axis(0) > 1e-4);''',
  "an unclamped spline of more than 12 knots with a double knot in the middle and a parameter in the span after it", "the last active control point does not count")
