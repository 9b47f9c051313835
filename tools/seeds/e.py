SEEDS = []
def s(id, prop, edits, demo, needs, breaks, **k): SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

s("c01-linear-start", "C01", [("bezier.rs", "        //let t = t.into();\n", "        // the first leg is a good approximation near the start\n        if N > 1 && t > 0.0.into() && t < P::Scalar::from(1e-5) {\n            return self.control_points[0] + (self.control_points[1] - self.control_points[0]) * (t * ((N - 1) as NativeFloat));\n        }\n")],
  '''let b: Bezier<P1, 4> = Bezier::new([p([0.]), p([0.]), p([1.]), p([0.])]); let t: f64 = 9e-6; near(b.eval(t).axis(0), 3. * t * t * (1. - t), 1e-15);''',
  "a parameter below 1e-5", "the quadratic term is lost near the start")
s("c05-reuse-axis", "C05", [("cubic_bezier.rs", "            let mut extrema: ArrayVec<[P::Scalar; 4]> = ArrayVec::new();\n", "            // diagonal curves: the derivative agrees with the one along the first axis\n            if dim > 0 && a.axis(dim) == a.axis(0) && b.axis(dim) == b.axis(0) && self.start.axis(dim) != self.start.axis(0) && c.axis(dim) == c.axis(0) {\n                let w = bounds[0].1 - bounds[0].0;\n                bounds[dim] = (self.start.axis(dim), self.start.axis(dim) + w);\n                continue;\n            }\n            let mut extrema: ArrayVec<[P::Scalar; 4]> = ArrayVec::new();\n")],
  '''let c = CubicBezier::new(p([0., 1.]), p([-1., 0.]), p([2., 3.]), p([1., 2.])); let b = c.bounding_box(); let y = c.eval(0.17).axis(1); assert!(b[1].0 <= y, "{b:?} {y}");''',
  "two axes along which the curve differs by a translation only", "the box of the second axis starts at the curve's start")
s("c19-split-start", "C19", [("bezier_segment.rs", "            BezierSegment::Quadratic(segment) => {\n                let (a, b) = segment.split(t.into());\n                (BezierSegment::Quadratic(a), BezierSegment::Quadratic(b))", "            BezierSegment::Quadratic(segment) => {\n                if t == F::zero() {\n                    // nothing to split off\n                    return (*self, *self);\n                }\n                let (a, b) = segment.split(t.into());\n                (BezierSegment::Quadratic(a), BezierSegment::Quadratic(b))")],
  '''let s: BezierSegment<P1> = QuadraticBezier::new(p([0.]), p([1.]), p([3.])).into(); let (l, _) = s.split(0.0); near(l.end().axis(0), 0.0, 1e-12);''',
  "a quadratic segment split exactly at its start", "the left part is the whole curve")
s("c20-steps", "C20", [("bezier.rs", "        let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));\n", "        // a single chord says little about a parabola\n        let nsteps = if N == 3 { nsteps.max(2) } else { nsteps };\n        let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));\n")],
  '''let (a, b, c) = (p([0., 0.]), p([1., 1.]), p([2., 0.])); near(Bezier::<P2, 3>::new([a, b, c]).arclen(1), QuadraticBezier::new(a, b, c).arclen(1), 1e-12);''',
  "a generic curve of degree two measured with a single step", "the generic curve disagrees with the quadratic")
s("c22-span-hint", "C22", [
   ("bspline.rs", "    /// Control points\n    control_points: [P; C],\n}", "    /// Control points\n    control_points: [P; C],\n    /// Span of the last evaluation\n    hint: core::cell::Cell<usize>,\n}"),
   ("bspline.rs", "                knot_kind,\n                control_points,\n            })", "                knot_kind,\n                control_points,\n                hint: core::cell::Cell::new(D),\n            })"),
   ("bspline.rs", "            knot_kind: self.knot_kind,\n            control_points: new_points,\n        }", "            knot_kind: self.knot_kind,\n            control_points: new_points,\n            hint: core::cell::Cell::new(D - 1),\n        }"),
   ("bspline.rs", "        let k = self.knot_span_start_for_t(t);\n", "        // neighbouring parameters usually share their span\n        let h = self.hint.get();\n        let k = if self.knots[h] < t && t <= self.knots[h + 1] {\n            Some(h)\n        } else {\n            self.knot_span_start_for_t(t)\n        };\n        if let Some(k) = k {\n            self.hint.set(k);\n        }\n")],
  '''let b = BSpline::<P1, 6, 4, 1>::new([0., 0., 1., 1., 2., 2.], [p([0.]), p([1.]), p([5.]), p([7.])]).unwrap(); let b1 = b.eval(1.0).unwrap(); let _ = b.eval(1.5); let b2 = b.eval(1.0).unwrap(); let _ = b.eval(0.5); let b3 = b.eval(1.0).unwrap(); assert!(b1 == b2 && b2 == b3);''',
  "a discontinuous curve (or derivative) evaluated at its jump after an evaluation just before it", "the answer depends on the previous evaluation", own=True)
s("c23-many-steps", "C23", [("lib.rs", "extern crate num_traits;", "extern crate alloc;\nextern crate num_traits;"), ("bspline.rs", "        let mut arclen: P::Scalar = 0.0.into();\n        // evaluate the curve", "        let mut arclen: P::Scalar = 0.0.into();\n        let mut lengths = alloc::vec::Vec::new();\n        // evaluate the curve"),
   ("bspline.rs", "            arclen = arclen + (p1 - p2).squared_length().sqrt();\n        }\n        arclen", "            arclen = arclen + (p1 - p2).squared_length().sqrt();\n            if t % 128 == 127 {\n                // sum up in blocks, for accuracy\n                lengths.push(arclen);\n                arclen = 0.0.into();\n            }\n        }\n        for l in lengths {\n            arclen = arclen + l;\n        }\n        arclen")],
  '''let b = BSpline::<P1, 4, 2, 1>::new([0., 0., 1., 1.], [p([0.]), p([1.])]).unwrap(); let n = N.load(std::sync::atomic::Ordering::SeqCst); let l = b.arclen(200); assert!(l > 0.9); assert_eq!(N.load(std::sync::atomic::Ordering::SeqCst), n);''',
  "the arc length of a B-spline with 128 or more steps", "heap memory is allocated",
  pre='''#![allow(unused_imports, dead_code, incomplete_features)]
#![feature(generic_const_exprs)]
use stroke::*;
type P1 = PointN<f64, 1>; fn p<const N: usize>(a: [f64; N]) -> PointN<f64, N> { PointN::new(a) }
struct A; static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl std::alloc::GlobalAlloc for A { unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { N.fetch_add(1, std::sync::atomic::Ordering::SeqCst); std::alloc::System.alloc(l) } unsafe fn dealloc(&self, q: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(q, l) } }
#[global_allocator] static G: A = A;
''')
s("c12-eps-start", "C12", [("bspline.rs", "        if t < knot_start || t > knot_end {", "        // tolerate rounding of the caller's parameter\n        if t < knot_start - P::Scalar::epsilon() || t > knot_end {")],
  '''let b = BSpline::<P1, 4, 3, 0>::new([0., 1., 2., 3.], [p([0.]), p([1.]), p([2.])]).unwrap(); assert!(b.eval(-1e-17).is_err());''',
  "a curve of degree 0 evaluated within machine epsilon before its domain", "evaluation panics")
s("c07-aligned", "C07", [("line.rs", "            let mut dot = P::Scalar::from(0.0);\n", "            // along the first axis no projection is needed\n            if v2.axis(0) * v2.axis(0) == l2 && (v1.squared_length() - v1.axis(0) * v1.axis(0)) == 0.0.into() {\n                return (v1.axis(0).abs() - v2.axis(0).abs()).max(0.0.into());\n            }\n            let mut dot = P::Scalar::from(0.0);\n")],
  '''let l = LineSegment::new(p([0., 0.]), p([2., 0.])); near(l.distance_to_point(p([-3., 0.])), 3.0, 1e-12);''',
  "a segment parallel to the first axis and a point on its line before its start", "the distance is measured from the wrong end")
s("c10-collinear", "C10", [("quadratic_bezier.rs", "        line.distance_to_point(self.ctrl) <= tolerance\n", "        // the usual case first: the control point is the middle of the baseline\n        if self.ctrl + self.ctrl == self.start + self.end {\n            return tolerance > 0.0.into();\n        }\n        line.distance_to_point(self.ctrl) <= tolerance\n")],
  '''assert!(QuadraticBezier::new(p([0., 0.]), p([1., 0.]), p([2., 0.])).is_linear(0.0));''',
  "tolerance zero and a control point exactly in the middle of the baseline", "an exactly linear curve is denied")
s("c09-symmetric", "C09", [("cubic_bezier.rs", "        let mut arclen = P::Scalar::from(0.0);\n", "        let mut arclen = P::Scalar::from(0.0);\n        // symmetric curves: twice the first half\n        let sym = (self.start - self.ctrl1).squared_length() == (self.end - self.ctrl2).squared_length() && self.ctrl1 != self.ctrl2 && self.start.axis(0) + self.end.axis(0) == self.ctrl1.axis(0) + self.ctrl2.axis(0);\n        if sym && nsteps % 2 == 0 {\n            return self.split(0.5.into()).0.arclen(nsteps / 2) * 2.0;\n        }\n")],
  '''let c = CubicBezier::new(p([0., 0.]), p([0., 3.]), p([2., -3.]), p([2., 1.])); let n = 8; let mut l = 0.0; for i in 0..n { l += (c.eval(i as f64 / 8.) - c.eval((i + 1) as f64 / 8.)).squared_length().sqrt(); } let d = CubicBezier::new(p([0., 0.]), p([0., 3.]), p([2., 4.]), p([2., 1.])); let mut m = 0.0; for i in 0..n { m += (d.eval(i as f64 / 8.) - d.eval((i + 1) as f64 / 8.)).squared_length().sqrt(); } near(c.arclen(8), l, 1e-12); near(d.arclen(8), m, 1e-12);''',
  "outer legs of equal length, matching first coordinates and an even number of steps", "a curve that is not symmetric is measured by its first half")
s("c16-closed-end", "C16", [("bspline.rs", "            arclen = arclen + (p1 - p2).squared_length().sqrt();\n        }\n        arclen", "            // a closed curve returns to its start\n            let p2 = if t + 1 == nsteps && self.control_points[0] == self.control_points[C - 1] { self.control_points[0] } else { p2 };\n            arclen = arclen + (p1 - p2).squared_length().sqrt();\n        }\n        arclen")],
  '''let b = BSpline::<P1, 6, 4, 1>::new([0., 1., 2., 3., 4., 5.], [p([0.]), p([3.]), p([1.]), p([0.])]).unwrap(); near(b.arclen(3), 6.0, 1e-12); let b = BSpline::<P1, 7, 4, 2>::new([0., 1., 2., 3., 4., 5., 6.], [p([0.]), p([3.]), p([1.]), p([0.])]).unwrap(); let w = (b.eval(2.).unwrap() - b.eval(4.).unwrap()).squared_length().sqrt(); near(b.arclen(1), w, 1e-12);''',
  "a curve that is not clamped at its end and whose first and last control points coincide", "the last chord ends at the wrong point")
s("c17-mul-zero", "C17", [("point_generic.rs", "        for i in 0..res.0.len() {\n            res.0[i] = res.0[i] * _rhs;\n        }", "        for i in 0..res.0.len() {\n            // three components at a time\n            if i % 3 == 0 && i + 4 < res.0.len() && i >= 9 {\n                continue;\n            }\n            res.0[i] = res.0[i] * _rhs;\n        }")],
  '''let q = p([1.0; 20]) * 2.0; assert!(q.into_iter().all(|x| x == 2.0));''',
  "points of fourteen or more dimensions", "some components are not multiplied")
s("c14-equal-points", "C14", [("bspline.rs", "            d[j] = self.control_points[j + k - D];\n        }\n", "            d[j] = self.control_points[j + k - D];\n        }\n        // a flat stretch: nothing to interpolate\n        if D > 1 && d[0] == d[D] && d[1] == d[D - 1] && t - self.knots[k] < self.knots[k + 1] - t {\n            return Ok(d[D - 1]);\n        }\n")],
  '''let b = BSpline::<P1, 6, 3, 2>::new([0., 0., 0., 1., 1., 1.], [p([0.]), p([1.]), p([0.])]).unwrap(); near(b.eval(0.25).unwrap().axis(0), 2. * 0.25 * 0.75, 1e-12);''',
  "active control points that read the same in both directions", "the curve jumps to a control point")
