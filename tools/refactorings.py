"""refactorings.py: writes behaviour-preserving edits of /repo as patches to /tmp/ref/p, for
`run_seeds.py -a --dir /tmp/ref/p` (no check may alarm). Works in scratch copies only."""
import os,subprocess,json,shutil,sys
W="/tmp/ref/wt"; O="/tmp/ref/p"
shutil.rmtree(W,ignore_errors=True); shutil.rmtree(O,ignore_errors=True)
subprocess.run(["git","clone","-q","/repo",W],check=True)
def r(id, edits):
    if sys.argv[1:] and id not in sys.argv[1:]: return
    subprocess.run(["git","-C",W,"checkout","-q","--","."])
    for e in edits:
        f,a,b=e[:3]; n=e[3] if len(e)>3 else 1
        p=f"{W}/src/{f}"; s=open(p).read()
        assert s.count(a)>=1,(id,f,a,s.count(a))
        assert n==0 or s.count(a)==n,(id,f,a,s.count(a))
        s=s.replace(a,b); open(p,"w").write(s)
    os.makedirs(f"{O}/{id}")
    d=subprocess.check_output(["git","-C",W,"diff"],text=True); open(f"{O}/{id}/patch.diff","w").write(d)
    json.dump({"property":"none"},open(f"{O}/{id}/meta.json","w"))
    env=dict(os.environ,CARGO_TARGET_DIR="/tmp/ref/t")
    c=subprocess.run("cargo test --offline --lib -q 2>&1 | tail -5",shell=True,cwd=W,env=env,capture_output=True,text=True).stdout
    print(id, "ok" if "test result: ok" in c else c, flush=True)
LERP3=lambda a,b,t:f"{a} * (-{t} + 1.0) + {b} * {t}"
r("r1-lerp",[
 ("bezier.rs","p[j] = p[j] * (-t + 1.0) + p[j + 1] * t;","p[j] = p[j] + (p[j + 1] - p[j]) * t;"),
 ("bezier.rs","                casteljau_points[j] =\n                    casteljau_points[j] * (-t + 1.0) + casteljau_points[j + 1] * t;","                casteljau_points[j] = casteljau_points[j] + (casteljau_points[j + 1] - casteljau_points[j]) * t;"),
 ("line.rs","self.start + (self.end - self.start) * t\n","self.start * (-t + 1.0) + self.end * t\n"),
 ("line.rs","let ctrl_ab = self.start + (self.end - self.start) * t;","let ctrl_ab = self.eval(t);"),
 ("line.rs","self.start.axis(axis) + (self.end.axis(axis) - self.start.axis(axis)) * t","self.eval(t).axis(axis)"),
 ("quadratic_bezier.rs","let ctrl_1ab = self.start + (self.ctrl - self.start) * t;","let ctrl_1ab = self.start * (-t + 1.0) + self.ctrl * t;",2),
 ("quadratic_bezier.rs","let ctrl_1bc = self.ctrl + (self.end - self.ctrl) * t;","let ctrl_1bc = self.ctrl * (-t + 1.0) + self.end * t;",2),
 ("quadratic_bezier.rs","ctrl_1ab + (ctrl_1bc - ctrl_1ab) * t","ctrl_1ab * (-t + 1.0) + ctrl_1bc * t",2),
 ("cubic_bezier.rs","        let t = t.into();\n        // unrolled","        // unrolled"),
 ("cubic_bezier.rs","self.start + (self.ctrl1 - self.start) * t","self.start * (-t + 1.0) + self.ctrl1 * t",2),
 ("cubic_bezier.rs","self.ctrl1 + (self.ctrl2 - self.ctrl1) * t","self.ctrl1 * (-t + 1.0) + self.ctrl2 * t",2),
 ("cubic_bezier.rs","self.ctrl2 + (self.end - self.ctrl2) * t","self.ctrl2 * (-t + 1.0) + self.end * t",2),
 ("cubic_bezier.rs","ctrl_1ab + (ctrl_1bc - ctrl_1ab) * t","ctrl_1ab * (-t + 1.0) + ctrl_1bc * t",2),
 ("cubic_bezier.rs","ctrl_1bc + (ctrl_1cd - ctrl_1bc) * t","ctrl_1bc * (-t + 1.0) + ctrl_1cd * t",2),
 ("cubic_bezier.rs","ctrl_2ab + (ctrl_2bc - ctrl_2ab) * t","ctrl_2ab * (-t + 1.0) + ctrl_2bc * t",2),
])
r("r2-poly",[
 ("cubic_bezier.rs","""        self.start * ((-t + 1.0) * (-t + 1.0) * (-t + 1.0))
            + self.ctrl1 * (t * (-t + 1.0) * (-t + 1.0) * 3.0)
            + self.ctrl2 * (t * t * (-t + 1.0) * 3.0)
            + self.end * (t * t * t)""","""        // Horner form
        let c1 = (self.ctrl1 - self.start) * 3.0;
        let c2 = (self.ctrl2 - self.ctrl1) * 3.0 - c1;
        let c3 = self.end - self.start - c1 - c2;
        self.start + (c1 + (c2 + c3 * t) * t) * t"""),
 ("cubic_bezier.rs","""        one_t3 * self.start.axis(axis)
            + one_t2 * t * self.ctrl1.axis(axis) * 3.0
            + one_t * t2 * self.ctrl2.axis(axis) * 3.0
            + t3 * self.end.axis(axis)""","""        let _ = (one_t3, one_t2, t2, t3);
        self.eval_casteljau(t).axis(axis)"""),
 ("cubic_bezier.rs","""        self.start.axis(axis) * c0
            + self.ctrl1.axis(axis) * c1
            + self.ctrl2.axis(axis) * c2
            + self.end.axis(axis) * c3""","""        let _ = (c0, c1, c2, c3);
        self.derivative().eval(t).axis(axis)"""),
 ("quadratic_bezier.rs","self.start * one_t2 + self.ctrl * 2.0 * one_t * t + self.end * t2","let _ = (t2, one_t2);\n        self.start + ((self.ctrl - self.start) * 2.0 + (self.start - self.ctrl * 2.0 + self.end) * t) * t"),
 ("quadratic_bezier.rs","self.start.axis(axis) * c0 + self.ctrl.axis(axis) * c1 + self.end.axis(axis) * c2","let _ = (c0, c1, c2);\n        self.derivative().axis(P::Scalar::from(t), axis)"),
 ("quadratic_bezier.rs","""            start: (self.ctrl - self.start) * 2.0,
            end: (self.end - self.ctrl) * 2.0,""","""            start: self.ctrl * 2.0 - self.start * 2.0,
            end: self.end * 2.0 - self.ctrl * 2.0,"""),
 ("cubic_bezier.rs","""            start: (self.ctrl1 - self.start) * 3.0,
            ctrl: (self.ctrl2 - self.ctrl1) * 3.0,
            end: (self.end - self.ctrl2) * 3.0,""","""            start: self.ctrl1 * 3.0 - self.start * 3.0,
            ctrl: self.ctrl2 * 3.0 - self.ctrl1 * 3.0,
            end: self.end * 3.0 - self.ctrl2 * 3.0,"""),
 ("bezier.rs","""        for (i, _) in self.control_points.iter().enumerate() {
            new_points[i] =
                (self.control_points[i + 1] - self.control_points[i]) * ((N - 1) as NativeFloat);
            if i == self.control_points.len() - 2 {
                break;
            }
        }
""","""        let n = (N - 1) as NativeFloat;
        for i in 0..N - 1 {
            new_points[i] = self.control_points[i + 1] * n - self.control_points[i] * n;
        }
"""),
])
DOLD="            if (candidate - point).squared_length() < dmin {\n                tmin = t;\n                dmin = (candidate - point).squared_length();\n            }"
DNEW="            let d = (point - candidate).squared_length();\n            if d < dmin {\n                dmin = d;\n                tmin = t;\n            }"
D2OLD="            let candidate: P = self.eval(t);\n            if (candidate - point).squared_length() < dmin {\n                dmin = (candidate - point).squared_length();\n            }"
D2NEW="            dmin = dmin.min((self.eval(t) - point).squared_length());"
FOLD="            let t: P::Scalar = center\n                + (i as NativeFloat - nsteps as NativeFloat / 2.0) / ((nsteps * nsteps) as NativeFloat);\n            if t < 0.0.into() || t > 1.0.into() {\n                continue;\n            }"
FNEW="            let offset: P::Scalar = ((i as NativeFloat / nsteps as NativeFloat - 0.5) / nsteps as NativeFloat).into();\n            let t: P::Scalar = (center + offset).max(0.0.into()).min(1.0.into());"
AOLD1="            let p1 = self.eval(t);\n            let p2 = self.eval(t + stepsize);\n"
L="""        let mut arclen: P::Scalar = 0.0.into();
        let mut p1 = self.EVAL(0.0.into());
        for i in 1..=nsteps {
            let p2 = self.EVAL(P::Scalar::from(i as NativeFloat) / P::Scalar::from(nsteps as NativeFloat));
            arclen = arclen + (p2 - p1).squared_length().sqrt();
            p1 = p2;
        }
        arclen
"""
r("r3-dist-arclen",[(f,a,b) for f in ("bezier.rs","quadratic_bezier.rs","cubic_bezier.rs") for a,b in ((DOLD,DNEW),(D2OLD,D2NEW),(FOLD,FNEW))]+[
 ("bezier.rs","""        let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));
        let mut arclen: P::Scalar = 0.0.into();
        for t in 0..nsteps {
            let t = P::Scalar::from(t as NativeFloat * 1.0 / (nsteps as NativeFloat));
            let p1 = self.eval(t);
            let p2 = self.eval(t + stepsize);

            arclen = arclen + (p1 - p2).squared_length().sqrt();
        }
        arclen
""",L.replace("EVAL","eval")),
 ("quadratic_bezier.rs","""        let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));
        let mut arclen: P::Scalar = 0.0.into();
        for t in 0..nsteps {
            let t = P::Scalar::from(t as NativeFloat * 1.0 / (nsteps as NativeFloat));
            let p1 = self.eval_casteljau(t);
            let p2 = self.eval_casteljau(t + stepsize);

            arclen = arclen + (p1 - p2).squared_length().sqrt();
        }
        arclen
""",L.replace("EVAL","eval")),
 ("cubic_bezier.rs","""        let stepsize = 1.0 / (nsteps as NativeFloat);
        let mut arclen = P::Scalar::from(0.0);
        for t in 0..nsteps {
            let t = P::Scalar::from(t as NativeFloat) * 1.0 / (nsteps as NativeFloat);
            let p1 = self.eval_casteljau(t);
            let p2 = self.eval_casteljau(t + stepsize);

            arclen = arclen + (p1 - p2).squared_length().sqrt();
        }
        arclen
""","""        let stepsize = 1.0 / (nsteps as NativeFloat);
        (0..nsteps)
            .rev()
            .map(|i| {
                let t = P::Scalar::from(stepsize * i as NativeFloat);
                (self.eval(t + stepsize) - self.eval(t)).squared_length().sqrt()
            })
            .fold(0.0.into(), |a: P::Scalar, b| a + b)
"""),
 ("bspline.rs","""        for t in 0..nsteps {
            let p1 = self.eval(parameter(t)).unwrap_or_else(|_| {
                // should never happen as we control the t values passed to eval()
                P::default()
            });
            let p2 = self.eval(parameter(t + 1)).unwrap_or_else(|_| {
                // should never happen as we control the t values passed to eval()
                P::default()
            });
            arclen = arclen + (p1 - p2).squared_length().sqrt();
        }
""","""        let mut p1 = self.eval(kmin).unwrap_or_default();
        for i in 1..=nsteps {
            let p2 = self.eval(parameter(i)).unwrap_or_default();
            arclen = arclen + (p2 - p1).squared_length().sqrt();
            p1 = p2;
        }
"""),
 ("bspline.rs","                + (P::Scalar::from(step as NativeFloat) / P::Scalar::from(nsteps as NativeFloat))\n                    * (kmax - kmin);","                + (kmax - kmin) * (step as NativeFloat) / (nsteps as NativeFloat);"),
])
BB="""            extrema.push(self.start.axis(dim));
            extrema.push(self.end.axis(dim));
            // sort to get min and max values for bounding box
            extrema.sort_unstable_by(|a, b| a.partial_cmp(b).unwrap());
"""
r("r4-bbox-pred",[(f,BB,"""            let (s, e) = (self.start.axis(dim), self.end.axis(dim));
            let low = extrema.iter().fold(s.min(e), |a, b| a.min(*b));
            let high = extrema.iter().fold(s.max(e), |a, b| a.max(*b));
""") for f in ("quadratic_bezier.rs","cubic_bezier.rs")]+[(f,"bounds[dim] = (extrema[0], *extrema.last().unwrap());","bounds[dim] = (low, high);") for f in ("quadratic_bezier.rs","cubic_bezier.rs")]+[(f,"*t = self.eval_casteljau(*t).axis(dim);","*t = self.axis(*t, dim);") for f in ("quadratic_bezier.rs","cubic_bezier.rs")]+[
 ("line.rs","""            if self.start.axis(i) < self.end.axis(i) {
                bounds[i] = (self.start.axis(i), self.end.axis(i));
            } else {
                bounds[i] = (self.end.axis(i), self.start.axis(i));
            }
""","""            let (a, b) = (self.start.axis(i), self.end.axis(i));
            bounds[i] = (a.min(b), a.max(b));
"""),
 ("quadratic_bezier.rs","line.distance_to_point(self.ctrl) <= tolerance","!(line.distance_to_point(self.ctrl) > tolerance)"),
 ("quadratic_bezier.rs","        let tolerance_squared = tolerance * tolerance;\n        // Use <= so that tolerance can be zero.\n        (self.start - self.end).squared_length() <= tolerance_squared\n            && (self.start - self.ctrl).squared_length() <= tolerance_squared","        let tolerance = tolerance.abs();\n        (self.start - self.end).squared_length().sqrt() <= tolerance\n            && (self.ctrl - self.start).squared_length().sqrt() <= tolerance"),
 ("line.rs","            let projection = self.start + (self.end - self.start) * t; // Projection falls on the segment\n\n            (p - projection).squared_length().sqrt()","            (v1 - v2 * t).squared_length().sqrt()"),
 ("line.rs","""            let mut t = P::Scalar::from(1.0);
            if dot / l2 < P::Scalar::from(1.0) {
                t = dot / l2;
            }
            if t < P::Scalar::from(0.0) {
                t = P::Scalar::from(0.0);
            }
""","""            let t = (dot / l2).max(0.0.into()).min(1.0.into());
"""),
 ("bezier_segment.rs","""            BezierSegment::Linear(segment) => segment.eval(t),
            BezierSegment::Quadratic(segment) => segment.eval(t),
            BezierSegment::Cubic(segment) => segment.eval(t),""","""            BezierSegment::Cubic(segment) => segment.eval_casteljau(t),
            BezierSegment::Quadratic(segment) => segment.eval_casteljau(t),
            BezierSegment::Linear(segment) => segment.eval(t),"""),
])
import re
src=open("/repo/src/bspline.rs").read()
a=src.index("        match self.knot_kind {\n            KnotVectorKind::Unclamped => self.knot_span_start_for_t_unclamped(t),")
b=src.index("    /// Return the index of the start of the knot span for given `t` for an unclamped")
r("r5-bspline",[
 ("bspline.rs",src[a:b],"""        if t < self.knots[D] || t > self.knots[C] {
            return None;
        }
        (D..C).find(|&i| self.knots[i] <= t && t < self.knots[i + 1])
    }

"""),
 ("bspline.rs","""        match self.knot_kind {
            KnotVectorKind::Clamped => self.knot_domain_clamped(),
            KnotVectorKind::ClampedStart => self.knot_domain_clamped_start(),
            KnotVectorKind::ClampedEnd => self.knot_domain_clamped_end(),
            KnotVectorKind::Unclamped => self.knot_domain_unclamped(),
        }""","        (self.knots[D], self.knots[C])"),
 ("bspline.rs","""                let alpha: P::Scalar;
                if numerator <= 0.0.into() {
                    // we are at the start of a knot span (interpolation d[j-1] -> d[j])
                    alpha = 0.0.into();
                } else if denominator <= 0.0.into() {
                    // we are at then end of a knot span (interpolation d[j-1] -> d[j])
                    // this will lead to d[j] simply being copied to d[j]
                    alpha = 1.0.into();
                } else {
                    // inside a knot span (interpolation d[j-1] -> d[j])
                    alpha = numerator / denominator;
                }
""","""                let alpha: P::Scalar = if denominator > 0.0.into() { numerator / denominator } else { 0.0.into() };
"""),
 ("bspline.rs","""        for (i, _) in self.control_points.iter().enumerate() {
            let span = self.knots[i + D + 1] - self.knots[i + 1];
            if span > 0.0.into() {
                new_points[i] = (self.control_points[i + 1] - self.control_points[i])
                    * ((D) as NativeFloat / span.into());
            }
            if i == self.control_points.len() - 2 {
                break;
            }
        }
""","""        for i in 0..C - 1 {
            let span = self.knots[i + D + 1] - self.knots[i + 1];
            if span == 0.0.into() {
                continue;
            }
            let factor = P::Scalar::from(D as NativeFloat) / span;
            new_points[i] = self.control_points[i + 1] * factor - self.control_points[i] * factor;
        }
"""),
 ("bspline.rs","} else if knots.windows(2).any(|w| !(w[0] <= w[1])) {","} else if !knots.windows(2).all(|w| w[1] >= w[0]) || knots.iter().any(|k| k.is_nan()) {"),
])
r("r6-point",[
 ("point_generic.rs","""        let mut sqr_dist = 0.0;
        for i in 0..N {
            sqr_dist += (self.0[i] * self.0[i]).into();
        }
        sqr_dist""","""        self.0.iter().rev().map(|x| -> NativeFloat { let x: NativeFloat = (*x).into(); x * x }).fold(0.0, |a, b| a + b)"""),
 ("point_generic.rs","""        for i in 0..N {
            if self.0[i] != other.0[i] {
                return false;
            }
        }
        true""","self.0.iter().zip(other.0.iter()).all(|(a, b)| a == b)"),
 ("point_generic.rs","""        for i in 0..res.0.len() {
            res.0[i] = res.0[i] * _rhs;
        }""","""        for x in res.0.iter_mut().rev() {
            *x = *x * _rhs;
        }"""),
 ("point_generic.rs","        assert!(index <= N);\n","        assert!(index < N, \"axis out of range\");\n"),
 ("bezier.rs","        for i in 1..=p.len() {\n            for j in 0..p.len() - i {","        for i in (1..N).rev() {\n            for j in 0..i {"),
 ("bspline.rs","        for j in 0..=D {\n            d[j] = self.control_points[j + k - D];\n        }","        d.copy_from_slice(&self.control_points[k - D..=k]);"),
])

DOLD2="            if (candidate - point).squared_length() < dmin {\n                dmin = (candidate - point).squared_length();\n            }"
r("r7-dist-ties",[(f,a,b) for f in ("bezier.rs","quadratic_bezier.rs","cubic_bezier.rs") for a,b in (
   (DOLD,"            let d = (candidate - point).squared_length().sqrt();\n            if d <= dmin {\n                dmin = d;\n                tmin = t;\n            }"),
   (DOLD2,"            let d = (point - candidate).squared_length().sqrt();\n            dmin = if dmin > d { d } else { dmin };"),
   ("        dmin.sqrt()","        dmin"),
   (").squared_length();\n        // The first sample" if False else "        let center = tmin;","        let center = tmin;\n        let fine = 1.0 / ((nsteps * nsteps) as NativeFloat);"),
   ("                + (i as NativeFloat - nsteps as NativeFloat / 2.0) / ((nsteps * nsteps) as NativeFloat);","                + (i as NativeFloat - (nsteps / 2) as NativeFloat) * fine;"))]
  +[("quadratic_bezier.rs","(point - self.start).squared_length();","(point - self.start).squared_length().sqrt();"),("cubic_bezier.rs","(point - self.start).squared_length();","(point - self.start).squared_length().sqrt();"),("bezier.rs","(point - self.control_points[0]).squared_length();","(point - self.control_points[0]).squared_length().sqrt();")]
  +[(f,"            let candidate = self.eval(t);","            let candidate = self.eval_casteljau(t);") for f in ("quadratic_bezier.rs","cubic_bezier.rs")])
r("r8-ends",[
 ("line.rs","        self.start + (self.end - self.start) * t\n","        if t == 1.0.into() {\n            return self.end;\n        }\n        self.start + (self.end - self.start) * t\n"),
 ("quadratic_bezier.rs","        let ctrl_2ab = ctrl_1ab + (ctrl_1bc - ctrl_1ab) * t;","        let ctrl_2ab = self.eval(t);"),
 ("cubic_bezier.rs","        let ctrl_3ab = ctrl_2ab + (ctrl_2bc - ctrl_2ab) * t;","        let ctrl_3ab = self.eval(P::Scalar::from(t));"),
 ("bezier.rs","        for i in 1..=casteljau_points.len() {\n            // save","        if t == 0.0.into() {\n            return (Bezier { control_points: [self.control_points[0]; N] }, *self);\n        }\n        for i in 1..=casteljau_points.len() {\n            // save"),
 ("bezier.rs","    pub fn eval(&self, t: P::Scalar) -> P {\n","    pub fn eval(&self, t: P::Scalar) -> P {\n        if t == 0.0.into() {\n            return self.control_points[0];\n        }\n        if t == 1.0.into() {\n            return self.control_points[N - 1];\n        }\n"),
])
r("r9-bspline-lerp",[
 ("bspline.rs","d[j] = d[j - 1] * (1.0 - alpha.into()) + d[j] * alpha;","d[j] = d[j] * alpha + d[j - 1] * (-alpha + 1.0);"),
 ("bspline.rs","""            let t = kmin
                + (P::Scalar::from(step as NativeFloat) / P::Scalar::from(nsteps as NativeFloat))
                    * (kmax - kmin);
            // rounding must not leave the domain
            t.min(kmax)""","""            let s = P::Scalar::from(step as NativeFloat / nsteps as NativeFloat);
            (kmin * (-s + 1.0) + kmax * s).max(kmin).min(kmax)"""),
 ("bspline.rs","""                new_points[i] = (self.control_points[i + 1] - self.control_points[i])
                    * ((D) as NativeFloat / span.into());""","""                let difference = self.control_points[i + 1] - self.control_points[i];
                new_points[i] = difference * ((D) as NativeFloat) * (1.0 / span.into());"""),
 ("bspline.rs","""            let is_clamped_front = knots[0..=D]
                .iter()
                .all(|&knot| (knot - knots[0]).abs() < P::Scalar::epsilon());
            let is_clamped_back = knots[knots.len() - D - 1..]
                .iter()
                .all(|&knot| (knot - knots[knots.len() - 1]).abs() < P::Scalar::epsilon());
""","""            let is_clamped_front = knots[0] == knots[D];
            let is_clamped_back = knots[K - 1] == knots[C];
"""),
 ("bspline.rs","            while k > D && self.knots[k] == self.knots[k + 1] {\n                k -= 1;\n            }\n            return Some(k);","            loop {\n                if k == D || self.knots[k] < t {\n                    return Some(k);\n                }\n                k -= 1;\n            }"),
])
r("r10-helpers",[
 ("cubic_bezier.rs","""        let line = self.baseline();
        line.distance_to_point(self.ctrl1) <= tolerance
            && line.distance_to_point(self.ctrl2) <= tolerance""","""        let line = LineSegment::new(self.end, self.start);
        [self.ctrl2, self.ctrl1].iter().all(|c| line.distance_to_point(*c) <= tolerance)"""),
 ("cubic_bezier.rs","        if (self.start - self.end).squared_length() < P::Scalar::epsilon() {\n            return false;\n        }\n        // else check if ctrl points lie on baseline\n        self.are_points_colinear(tolerance)","        (self.end - self.start).squared_length() >= P::Scalar::epsilon() && self.are_points_colinear(tolerance)"),
 ("cubic_bezier.rs","""        let tolerance_squared = tolerance * tolerance;
        // Use <= so that tolerance can be zero.
        (self.start - self.end).squared_length() <= tolerance_squared
            && (self.start - self.ctrl1).squared_length() <= tolerance_squared
            && (self.end - self.ctrl2).squared_length() <= tolerance_squared""","""        let near = |a: P, b: P| (b - a).squared_length() / tolerance <= tolerance || a == b;
        near(self.end, self.start) && near(self.ctrl1, self.start) && near(self.ctrl2, self.end)""") if False else ("cubic_bezier.rs","            && (self.end - self.ctrl2).squared_length() <= tolerance_squared","            && !((self.ctrl2 - self.end).squared_length() > tolerance_squared)"),
 ("cubic_bezier.rs","derivative.start + derivative.ctrl * -2.0 + derivative.end;","(derivative.end - derivative.ctrl) - (derivative.ctrl - derivative.start);"),
 ("cubic_bezier.rs","let b: P = derivative.start * -2.0 + derivative.ctrl * 2.0;","let b: P = (derivative.ctrl - derivative.start) * 2.0;"),
 ("quadratic_bezier.rs","let a = derivative.start * -1.0 + derivative.end;","let a = derivative.end - derivative.start;"),
 ("quadratic_bezier.rs","            let q = (b + b.signum() * delta.sqrt()) * -0.5;\n            result.push(q / a);\n            result.push(c / q);","            let s = delta.sqrt();\n            let q = if b < 0.0.into() { (-b + s) * 0.5 } else { (b + s) * -0.5 };\n            result.push(c / q);\n            result.push(q / a);"),
 ("line.rs","        r.push(-b / a);","        let t: P::Scalar = b / -a;\n        r.push(t);"),
 ("line.rs","            let v1 = p - self.start;\n            let v2 = self.end - self.start;","            let v2 = self.derivative();\n            let v1 = p - self.start;"),
 ("line.rs","            for (i, _) in v1.into_iter().enumerate() {\n                dot = dot + v1.axis(i) * v2.axis(i);\n            }","            for i in (0..P::DIM).rev() {\n                dot = v2.axis(i) * v1.axis(i) + dot;\n            }"),
 ("bezier.rs","            if t < 0.0.into() || t > 1.0.into() {","            if !(P::Scalar::from(0.0)..=1.0.into()).contains(&t) {"),
 ("bezier.rs","            let candidate: P = self.eval(t);","            let candidate: P = <Self as Spline<P>>::eval(self, t);"),
])
