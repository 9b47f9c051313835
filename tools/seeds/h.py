SEEDS = []
def s(id, prop, edits, demo, needs, breaks, **k): SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

s("c01-zero-weight", "C01", [("bezier.rs", "    pub fn eval(&self, t: P::Scalar) -> P {\n        //let t = t.into();", "    pub fn eval(&self, t: P::Scalar) -> P {\n        if N > 1 && self.control_points[N - 1] == P::default() {\n            // the last point adds nothing\n            let mut p = self.control_points;\n            for i in 1..N {\n                for j in 0..N - 1 - i {\n                    p[j] = p[j] * (-t + 1.0) + p[j + 1] * t;\n                }\n            }\n            return p[0];\n        }\n        //let t = t.into();")],
  '''let b: Bezier<P1, 3> = Bezier::new([p([2.]), p([1.]), p([0.])]); near(b.eval(0.5).axis(0), 1.0, 1e-12);''', "a last control point in the origin", "the curve ends in the last but one control point")
s("c02-twin-ctrl", "C02", [("cubic_bezier.rs", "        let one_t3 = one_t2 * one_t;\n\n", "        let one_t3 = one_t2 * one_t;\n\n        if self.start.axis(axis) == self.end.axis(axis) && self.ctrl1.axis(axis) == self.ctrl2.axis(axis) {\n            // symmetric on this axis\n            return (one_t2 + t2) * self.start.axis(axis) + one_t * t * self.ctrl1.axis(axis) * 2.0;\n        }\n")],
  '''let c = CubicBezier::new(p([0., 0.]), p([1., 1.]), p([2., 1.]), p([3., 0.])); near(c.axis(0.5, 1), 0.75, 1e-12);''', "a coordinate with equal ends and equal inner control points", "that coordinate is the one of a quadratic")
s("c03-closed-quad", "C03", [("quadratic_bezier.rs", "    pub fn split(&self, t: P::Scalar) -> (Self, Self) {\n", "    pub fn split(&self, t: P::Scalar) -> (Self, Self) {\n        if self.start == self.end {\n            // out and back on the same way\n            let tip = self.eval_casteljau(t);\n            let ctrl = self.start + (self.ctrl - self.start) * t;\n            return (\n                QuadraticBezier { start: self.start, ctrl, end: tip },\n                QuadraticBezier { start: tip, ctrl, end: self.end },\n            );\n        }\n")],
  '''let q = QuadraticBezier::new(p([0.]), p([4.]), p([0.])); let (_, r) = q.split(0.25); near(r.eval(0.5).axis(0), q.eval(0.625).axis(0), 1e-12);''', "a quadratic that ends where it starts, split off the middle", "the right part is another curve")
s("c05-elevated", "C05", [("cubic_bezier.rs", "            let mut extrema: ArrayVec<[P::Scalar; 4]> = ArrayVec::new();\n", "            if a.axis(dim) == 0.0.into() {\n                // no cubic term on this axis\n                let (s, e) = (self.start.axis(dim), self.end.axis(dim));\n                bounds[dim] = (s.min(e), s.max(e));\n                continue;\n            }\n            let mut extrema: ArrayVec<[P::Scalar; 4]> = ArrayVec::new();\n")],
  '''let b = CubicBezier::new(p([0.]), p([2.]), p([2.]), p([0.])).bounding_box(); assert!(b[0].1 >= 1.5 - 1e-12, "{b:?}");''', "a coordinate that is really quadratic (vanishing cubic term)", "its extremum is outside of the box")
s("c06-double-root", "C06", [("cubic_bezier.rs", "            // sort to get min and max values for bounding box\n", "            // the tangent may just touch zero without changing its sign: be careful there\n            if b.axis(dim) * b.axis(dim) == a.axis(dim) * c.axis(dim) * 4.0 && a.axis(dim) != 0.0.into() {\n                extrema[0] = self.ctrl1.axis(dim);\n            }\n            // sort to get min and max values for bounding box\n")],
  '''let b = CubicBezier::new(p([0.]), p([4.]), p([2.]), p([3.])).bounding_box(); assert!(b[0].1 <= 3.0 + 1e-12, "{b:?}");''', "a coordinate whose derivative has a double root", "the box reaches to the control point")
s("c07-vertical", "C07", [("line.rs", "            let v1 = p - self.start;\n            let v2 = self.end - self.start;\n", "            let v1 = p - self.start;\n            let v2 = self.end - self.start;\n            if P::DIM == 2 && v2.axis(0) == 0.0.into() && v1.axis(1) * v2.axis(1) > l2 {\n                // vertical\n                return v1.axis(0).abs().max((v1.axis(1) - v2.axis(1)).abs());\n            }\n")],
  '''let l = LineSegment::new(p([1., 0.]), p([1., 2.])); near(l.distance_to_point(p([4., 6.])), 5.0, 1e-12);''', "a vertical segment in the plane and a point beyond its end and beside it", "the distance is the larger coordinate difference")
s("c08-sentinel", "C08", [("bezier.rs", "        let mut dmin: P::Scalar = (point - self.control_points[0]).squared_length();\n", "        let mut dmin: P::Scalar = (1e30 as NativeFloat).into();\n")],
  '''let b: Bezier<P1, 3> = Bezier::new([p([0.]), p([1e16]), p([2e16])]); near(b.distance_to_point(p([-4e16])) / 4e16, 1.0, 1e-9);''', "a query point more than 1e15 away from the curve", "the distance is capped")
s("c11-u8", "C11", [("bspline.rs", "        } else if knots.len() > control_points.len() + 1 + D {", "        } else if knots.len() > (control_points.len() as u8) as usize + 1 + D {")],
  '''let k: [f64; 262] = core::array::from_fn(|i| i as f64); assert!(BSpline::<P1, 262, 260, 1>::new(k, [p([0.]); 260]).is_ok());''', "256 control points or more", "valid knots are rejected as too many")
s("c13-jump-average", "C13", [("bspline.rs", "        Ok(d[D])\n", "        if D > 0 && k > D && t == self.knots[k] && k >= 2 * D + 1 && self.knots[k - D] == t {\n            // between the two ends of a jump\n            return Ok((d[D] + self.control_points[k - D - 1]) * 0.5 as NativeFloat);\n        }\n        Ok(d[D])\n")],
  '''let b = BSpline::<P1, 6, 4, 1>::new([0., 0., 1., 1., 2., 2.], [p([0.]), p([1.]), p([3.]), p([4.])]).unwrap(); near(b.eval(1.0).unwrap().axis(0), 3.0, 1e-12);''', "an inner knot of multiplicity degree + 1 and that very parameter", "the point is the middle of the jump and not its right end")
s("c24-zero-steps", "C24", [("bspline.rs", "        let (kmin, kmax) = self.knot_domain();\n", "        let (kmin, kmax) = self.knot_domain();\n        let _last = nsteps.checked_sub(1).expect(\"at least one step\");\n")],
  '''let b = BSpline::<P1, 4, 2, 1>::new([0., 0., 1., 1.], [p([0.]), p([1.])]).unwrap(); let _ = b.arclen(0);''', "arc length with zero steps", "a panic")
s("c24-negative-tol", "C24", [("quadratic_bezier.rs", "        let tolerance_squared = tolerance * tolerance;\n", "        assert!(tolerance >= 0.0.into());\n        let tolerance_squared = tolerance * tolerance;\n")],
  '''let q = QuadraticBezier::new(p([0.]), p([4.]), p([0.])); let _ = q.is_a_point(-1.0);''', "a negative tolerance", "a panic")
