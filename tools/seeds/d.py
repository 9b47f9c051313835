SEEDS = []
def s(id, prop, edits, demo, needs, breaks, **k): SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

s("c02-fifth-axis", "C02", [("quadratic_bezier.rs", "        self.start.axis(axis) * one_t2\n            + self.ctrl.axis(axis) * 2.0 * one_t * t\n            + self.end.axis(axis) * t2", "        let axis = axis % 5;\n        self.start.axis(axis) * one_t2\n            + self.ctrl.axis(axis) * 2.0 * one_t * t\n            + self.end.axis(axis) * t2")],
  '''let q = QuadraticBezier::new(p([0., 0., 0., 0., 0., 1.]), p([0., 0., 0., 0., 0., 2.]), p([0., 0., 0., 0., 0., 3.])); near(q.axis(0.5, 5), 2.0, 1e-12);''',
  "a quadratic in six or more dimensions, sampled on its last axes", "the value of another axis is returned")
s("c06-slack", "C06", [("cubic_bezier.rs", "            extrema.retain(|root| -> bool { root > &mut 0.0.into() && root < &mut 1.0.into() });", "            extrema.retain(|root| -> bool { root > &mut (-1e-5).into() && root < &mut 1.00001.into() });")],
  '''let e = 8e-6; let c = CubicBezier::new(p([0.]), p([(1. + e) * 2. / 3.]), p([(1. + 2. * (e + 0.5 * (1. - 1.))) * 0. + ((4. * (1. + e) - 1.) / 3.)]), p([2. * (1. + e) - 1.])); let (_, hi) = c.bounding_box()[0]; let end = 2. * (1. + e) - 1.; assert!(hi - end < 3e-11, "{:e}", hi - end);''',
  "an extremum that lies beyond an end by less than 1e-5 in parameter", "the box is larger than the curve")
s("c07-fifth-axis", "C07", [("line.rs", "            for (i, _) in v1.into_iter().enumerate() {", "            for (i, _) in v1.into_iter().enumerate().take(6) {")],
  '''let l = LineSegment::new(p([0.; 8]), p([0., 0., 0., 0., 0., 0., 0., 2.])); near(l.distance_to_point(p([1., 0., 0., 0., 0., 0., 0., 1.])), 1.0, 1e-9);''',
  "more than six dimensions", "the projection ignores the last axes")
s("c08-fewer-samples", "C08", [("bezier.rs", "        let nsteps: usize = 64;", "        // long curves are expensive to evaluate\n        let nsteps: usize = if N > 8 { 48 } else { 64 };")],
  '''let mut a = [p([0., 0.]); 9]; a[8] = p([1000., 0.]); let b: Bezier<P2, 9> = Bezier::new(a); let t: f64 = 63.4 / 64.; let q = b.eval(t); let d = b.distance_to_point(q); let leg = 1000.0 * 8.0; assert!(d <= leg / 8192.0, "{d}");''',
  "a generic curve with more than eight control points", "the distance is coarser than documented")
s("c12-many", "C12", [("bspline.rs", "        let mut count = self.knots.len() as isize;", "        let mut count = self.knots.len().min(64) as isize;")],
  '''let b: BSpline<P1, 72, 70, 1> = BSpline::new(core::array::from_fn(|i| i as f64), [p([1.]); 70]).unwrap(); assert!(b.eval(66.5).is_ok());''',
  "an unclamped curve with more than 64 knots, evaluated in its last part", "evaluation inside the domain fails")
s("c16-tiny-domain", "C16", [("bspline.rs", "            arclen = arclen + (p1 - p2).squared_length().sqrt();\n", "            if kmax - kmin > P::Scalar::epsilon() {\n                arclen = arclen + (p1 - p2).squared_length().sqrt();\n            }\n")],
  '''let k = 1e-17; let b = BSpline::<P1, 4, 2, 1>::new([0., 0., k, k], [p([0.]), p([1.])]).unwrap(); near(b.arclen(4), 1.0, 1e-9);''',
  "a knot domain narrower than machine epsilon", "the arc length is zero")
s("c25-while", "C25", [("quadratic_bezier.rs", "        for t in 0..nsteps {\n            let t = P::Scalar::from(t as NativeFloat * 1.0 / (nsteps as NativeFloat));\n            let p1 = self.eval_casteljau(t);\n            let p2 = self.eval_casteljau(t + stepsize);\n\n            arclen = arclen + (p1 - p2).squared_length().sqrt();\n        }", "        let mut t: P::Scalar = 0.0.into();\n        while t < P::Scalar::from(1.0 - 1e-10) {\n            let p1 = self.eval_casteljau(t);\n            let p2 = self.eval_casteljau(t + stepsize);\n\n            arclen = arclen + (p1 - p2).squared_length().sqrt();\n            t = t + stepsize;\n        }")],
  '''let q = QuadraticBezier::new(PointN::new([0f32]), PointN::new([1f32]), PointN::new([2f32])); for n in 1..200 { let l = q.arclen(n); assert!((l - 2.0).abs() < 1e-4, "{n}: {l}"); }''',
  "the 32-bit float configuration and a number of steps whose accumulated parameter stays just below one", "an extra step past the end is counted", pre="#![allow(incomplete_features)]\n#![feature(generic_const_exprs)]\nuse stroke::*;\n", flags="--cfg stroke_vp_f32")
s("c24-nan-retain", "C24", [("cubic_bezier.rs", "            extrema.retain(|root| -> bool { root > &mut 0.0.into() && root < &mut 1.0.into() });", "            extrema.retain(|root| -> bool { !(root <= &mut 0.0.into() || root >= &mut 1.0.into()) });")],
  '''let c = CubicBezier::new(p([0.]), p([-1.]), p([-4e307]), p([0.])); let _ = c.bounding_box();''',
  "coordinates so large that the derivative's coefficients overflow", "the bounding box panics while sorting NaN")
s("c21-far", "C21", [("line.rs", "            let projection = self.start + (self.end - self.start) * t; // Projection falls on the segment\n\n            (p - projection).squared_length().sqrt()", "            // |p|^2 - 2 p.q + |q|^2 saves a subtraction per axis\n            let q = self.start + (self.end - self.start) * t;\n            let mut pq = P::Scalar::from(0.0);\n            for (i, _) in p.into_iter().enumerate() {\n                pq = pq + p.axis(i) * q.axis(i);\n            }\n            let d2 = p.squared_length() + q.squared_length() - pq * 2.0;\n            d2.max(0.0.into()).sqrt()")],
  '''let o = 1e6; let l = LineSegment::new(p([o, o]), p([o + 1., o])); near(l.distance_to_point(p([o + 0.5, o + 0.001])), 0.001, 1e-6);''',
  "a segment far away from the origin compared to its distance from the point", "cancellation makes the distance wrong: it changes under translation")
s("c05-helper", "C05", [("line.rs", "        if a == 0.0.into() {\n            return r;\n        }\n        r.push(-b / a);", "        if a == 0.0.into() || b.abs() > a.abs() * 0.9999 {\n            // no root inside (0, 1)\n            return r;\n        }\n        r.push(-b / a);")],
  '''let q = QuadraticBezier::new(p([0.]), p([0.99997]), p([0.99994])); let (_, hi) = q.bounding_box()[0]; let m = q.eval(0.99997).axis(0); assert!(m - hi < 1e-13, "{:e}", m - hi);''',
  "a quadratic with its extremum in the last ten-thousandth", "the extremum is missing from the box")
