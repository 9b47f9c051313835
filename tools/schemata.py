#!/usr/bin/env python3
"""schemata.py OUT [-f FACTOR] [-x scale|panic|alloc] [-e RELATIVE_ERROR] [-n CONDITIONS] [-c CHECKS] [BASES...]: conditional mutants. One scratch build of /repo in which every public operation can be made
slightly wrong under one of ~100 specific conditions on its input (chosen at run time by VP_MU = operation*100 + condition);
the checks responsible for the operation then have to notice. Measures how rare an input the generators reach. Never touches /repo."""
import sys, os, re, subprocess, shutil, argparse
ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("-f", default="3"); ap.add_argument("-x", default="scale"); ap.add_argument("-c", default=""); ap.add_argument("-e", default=""); ap.add_argument("-n", default=""); ap.add_argument("-k", action="store_true"); ap.add_argument("bases", nargs="*", type=int)
A = ap.parse_args(); OUT = A.out; FACTOR = A.f; ONLY = set(A.bases)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); D = "/tmp/sch" + A.e
if not A.k: shutil.rmtree(D, ignore_errors=True)
shutil.rmtree(D + '/repo', ignore_errors=True); shutil.rmtree(D + '/harness', ignore_errors=True); os.makedirs(D, exist_ok=True)
subprocess.run(f"git clone -q /repo {D}/repo && cp -r {V}/harness {D}/harness && rm -rf {D}/harness/target && sed -i 's#path = \"/repo\"#path = \"{D}/repo\"#' {D}/harness/Cargo.toml", shell=True, check=True)
for f, a, b in (("main.rs", "fn main() {\n", "fn main() {\n    stroke::init_mu();\n"), ("runner.rs", "max_shrink_iters: 60_000", "max_shrink_iters: 0")):
    p = f"{D}/harness/src/{f}"; t = open(p).read(); assert a in t; open(p, "w").write(t.replace(a, b, 1))
LIB = r'''
pub fn init_mu() { sel(0); if std::env::var("VP_FX").as_deref() != Ok("panic") { fx(true); } else { FX.get_or_init(|| 1); } }
extern crate std;
static MU: std::sync::OnceLock<u32> = std::sync::OnceLock::new();
fn sel(base: u32) -> u32 {
    let m = *MU.get_or_init(|| std::env::var("VP_MU").ok().and_then(|s| s.parse().ok()).unwrap_or(0));
    if m / 100 == base { m % 100 } else { 1000 }
}
static FX: std::sync::OnceLock<u32> = std::sync::OnceLock::new();
fn fx(b: bool) -> bool {
    if !b { return false; }
    match *FX.get_or_init(|| match std::env::var("VP_FX").as_deref() { Ok("panic") => 1, Ok("alloc") => 2, _ => 0 }) { 1 => panic!("planted"), 2 => { std::hint::black_box(std::boxed::Box::new(7u8)); false }, _ => true }
}
fn x<P: Point>(p: &P, k: usize) -> f64 { let v: NativeFloat = p.axis(k).into(); v as f64 }
/// condition on points and parameter
pub(crate) fn cond<P: Point>(base: u32, pts: &[P], t: f64) -> bool {
    let c = sel(base); if c == 1000 { return false; }
    fx(c < 40 && cond__o(c, pts, t))
}
fn cond__o<P: Point>(c: u32, pts: &[P], t: f64) -> bool {
    let n = pts.len(); let d = P::DIM;
    let all = |f: &dyn Fn(f64) -> bool| pts.iter().all(|p| (0..d).all(|k| f(x(p, k))));
    let mx = || { let mut m: f64 = 0.0; for p in pts { for k in 0..d { m = m.max(x(p, k).abs()); } } m };
    let mn = || { let mut m = f64::INFINITY; for p in pts { for k in 0..d { let v = x(p, k).abs(); if v > 0.0 { m = m.min(v); } } } m };
    let ext = |k: usize| { let (mut a, mut b) = (f64::INFINITY, f64::NEG_INFINITY); for p in pts { a = a.min(x(p, k)); b = b.max(x(p, k)); } b - a };
    match c {
        0 => true,
        1 => t > 0.99 && t < 1.0, 2 => t > 0.0 && t < 0.01, 3 => t == 0.5, 4 => t > 0.61 && t < 0.62, 5 => t == 1.0, 6 => t == 0.0, 25 => t > 1.0 / 3.0 && t < 0.335, 30 => t > 0.999999 && t < 1.0,
        7 => d >= 4, 8 => d == 1, 9 => n > 1 && pts[0] == pts[n - 1], 10 => pts.windows(2).any(|w| w[0] == w[1]), 11 => pts.iter().all(|p| *p == pts[0]),
        12 => mx() > 1e6, 13 => mx() < 1e-3, 14 => mx() > 0.0 && (0..d).all(|k| ext(k) < 1e-6 * mx()), 15 => all(&|v| v < 0.0), 16 => !all(&|v| v != 0.0) && !all(&|v| v == 0.0),
        17 => d > 1 && ext(0) == 0.0, 18 => d > 1 && ext(0) > 1e4 * ext(1), 19 => d > 1 && n > 2 && { let (a, b) = (&pts[0], &pts[n - 1]); let (ux, uy) = (x(b, 0) - x(a, 0), x(b, 1) - x(a, 1)); (ux != 0.0 || uy != 0.0) && pts.iter().all(|p| ((x(p, 0) - x(a, 0)) * uy - (x(p, 1) - x(a, 1)) * ux).abs() <= 1e-12 * (ux * ux + uy * uy)) },
        20 => all(&|v| v == libm_floor(v)), 21 => n >= 6, 22 => n == 1, 23 => n > 1 && pts.windows(2).all(|w| x(&w[1], 0) > x(&w[0], 0)), 24 => n > 2 && pts[1] == pts[0],
        26 => n > 2 && (0..n).all(|i| pts[i] == pts[n - 1 - i]), 27 => n > 2 && { let (a, b) = (x(&pts[0], 0), x(&pts[n - 1], 0)); x(&pts[1], 0) > a.max(b) && x(&pts[n - 2], 0) < a.min(b) }, 28 => mx() > 1e9 * mn(), 29 => mx() > 1e100,
        31 => n > 2 && pts[n - 2] == pts[n - 1], 32 => n > 3 && pts[1] == pts[n - 2], 33 => d >= 6, 34 => n > 2 && pts[0] != pts[n - 1] && (0..d).all(|k| (x(&pts[0], k) - x(&pts[n - 1], k)).abs() < 1e-6 * (0..d).map(ext).fold(0.0, f64::max)),
        35 => n >= 3 && (0..d).any(|k| { let (a, b) = (x(&pts[0], k), x(&pts[n - 1], k)); let m = x(&pts[1], k); m != a && m == b }), 36 => n >= 12, 37 => mx() < 1e-9 && mx() > 0.0, 38 => n > 2 && (0..d).all(|k| { let h = ext(k); pts.windows(3).all(|w| (x(&w[0], k) - 2.0 * x(&w[1], k) + x(&w[2], k)).abs() <= 1e-12 * h) }),
        39 => d == 2 && n > 2 && { let (ux, uy) = (x(&pts[n - 1], 0) - x(&pts[0], 0), x(&pts[n - 1], 1) - x(&pts[0], 1)); let (vx, vy) = (x(&pts[1], 0) - x(&pts[0], 0), x(&pts[1], 1) - x(&pts[0], 1)); ux * vx + uy * vy < 0.0 },
        _ => false,
    }
}
fn libm_floor(v: f64) -> f64 { num_traits::Float::floor(v) }
pub(crate) fn cstep<P: Point>(base: u32, pts: &[P], n: usize) -> bool {
    let c = sel(base); if c == 1000 { return false; }
    let b = match c { 40 => n == 1, 41 => n % 2 == 1 && n > 2, 42 => n > 100, 43 => n.is_power_of_two() && n > 1, 44 => n == 7, 45 => n > 1000, 46 => n == 2, 47 => n % 3 == 0 && n > 0, _ => return cond(base, pts, f64::NAN) };
    fx(b)
}
pub(crate) fn cdist<P: Point>(base: u32, pts: &[P], q: &P, r: f64) -> bool {
    let d = P::DIM; let size = (0..d).map(|k| pts.iter().map(|p| x(p, k)).fold(f64::NEG_INFINITY, f64::max) - pts.iter().map(|p| x(p, k)).fold(f64::INFINITY, f64::min)).fold(0.0, f64::max);
    let c = sel(base); if c == 1000 { return false; }
    let b = match c { 50 => pts[0] == *q, 51 => pts[pts.len() - 1] == *q, 52 => r > 100.0 * size, 53 => r > 0.0 && r < 1e-3 * size, 54 => (0..d).all(|k| x(q, k) == 0.0), 55 => (0..d).all(|k| x(q, k) < pts.iter().map(|p| x(p, k)).fold(f64::INFINITY, f64::min)), 56 => r > 0.0 && r < 1e-6 * size, 57 => { let (a, b) = (pts[0], pts[pts.len() - 1]); let (mut s, mut l) = (0.0, 0.0); for k in 0..d { s += (x(q, k) - x(&a, k)) * (x(&b, k) - x(&a, k)); l += (x(&b, k) - x(&a, k)) * (x(&b, k) - x(&a, k)); } l > 0.0 && s > l }, 58 => { let (a, b) = (pts[0], pts[pts.len() - 1]); let mut s = 0.0; for k in 0..d { s += (x(q, k) - x(&a, k)) * (x(&b, k) - x(&a, k)); } s < 0.0 }, _ => return cond(base, pts, f64::NAN) };
    fx(b)
}
pub(crate) fn ctol<P: Point>(base: u32, pts: &[P], tol: f64) -> bool {
    let c = sel(base); if c == 1000 { return false; }
    let b = match c { 60 => tol == 0.0, 61 => tol > 1.0, 62 => tol > 0.0 && tol < 1e-9, 63 => tol > 100.0, _ => return cond(base, pts, f64::NAN) };
    fx(b)
}
pub(crate) fn caxis<P: Point>(base: u32, pts: &[P], t: f64, a: usize) -> bool {
    let c = sel(base); if c == 1000 { return false; }
    let b = match c { 70 => a == 2, 71 => a + 1 == P::DIM && P::DIM >= 3, 72 => a >= 3, 73 => a >= 5, 74 => a == 0 && P::DIM > 2, _ => return cond(base, pts, t) };
    fx(b)
}
pub(crate) fn cknot<P: Point>(base: u32, pts: &[P], kn: &[P::Scalar], deg: usize, t: f64) -> bool {
    let k = |i: usize| -> f64 { let v: NativeFloat = kn[i].into(); v as f64 }; let n = pts.len(); let (a, b) = (k(deg), k(n)); let m = kn.len();
    let mult = |j: usize| (0..m).filter(|&i| k(i) == k(j)).count();
    let inner = || (deg + 1..n).filter(|&i| k(i) > a && k(i) < b); let cs = k(0) == a; let ce = k(m - 1) == b;
    let span = || (deg..n).find(|&i| k(i) <= t && t < k(i + 1));
    let c = sel(base); if c == 1000 { return false; }
    let b = match c {
        80 => deg > 0 && inner().any(|i| mult(i) == deg), 81 => inner().any(|i| mult(i) >= deg + 1), 82 => cs && !ce, 83 => !cs && ce, 84 => !cs && !ce, 85 => inner().any(|i| k(i) == t), 86 => t == a, 87 => t == b,
        88 => (0..m).any(|i| k(i) != t && (k(i) - t).abs() < 1e-6 * (b - a)), 89 => deg >= 5, 90 => deg == 0, 91 => deg == 1, 92 => n == deg + 1, 93 => n >= 10, 94 => k(0) < 0.0, 95 => b - a < 1e-3, 96 => b - a > 1e3, 97 => k(0).abs() > 1e3 * (b - a),
        98 => span().map_or(false, |i| k(i + 1) == b && a < k(i)), 99 => span().map_or(false, |i| k(i + 1) - k(i) < 1e-4 * (b - a)), 70 => span().map_or(false, |i| k(i) == a && b > k(i + 1)), 71 => deg > 1 && inner().any(|i| mult(i) == deg - 1), 72 => inner().any(|i| k(i) == t && mult(i) >= deg), 73 => deg == 2, 74 => deg == 3, 75 => deg >= 7, 76 => span().map_or(false, |i| i + 1 < n && i > deg && k(i - 1) == k(i) && k(i + 1) == k(i + 2)), 77 => b < 0.0, 78 => b - a < 1e-9, 79 => m > 20,
        _ => return cond(base, pts, t),
    };
    fx(b)
}
pub(crate) fn f<S: Into<NativeFloat>>(s: S) -> f64 { let v: NativeFloat = s.into(); v as f64 }
'''
def wrap(path, sig, new, anchor=None):
    """replace `sig {` by a wrapper around the renamed original"""
    p = f"{D}/repo/src/{path}"; s = open(p).read(); i = s.index(sig, s.index(anchor) if anchor else 0)
    name = re.search(r"fn (\w+)", sig)[1]; osig = sig.replace(f"fn {name}", f"fn {name}__o", 1).replace("pub fn", "fn")
    s = s[:i] + sig + " {" + new + "}\n" + osig + s[i + len(sig):]
    open(p, "w").write(s)
l = open(f"{D}/repo/src/lib.rs").read(); open(f"{D}/repo/src/lib.rs", "w").write(l + LIB)
S = "P::Scalar"; B = {}  # base -> (name, checks, kinds)
def reg(b, name, checks, kinds): B[b] = (name, checks.split(), kinds)
T = "pt"; BOX = "[(P::Scalar, P::Scalar); P::DIM]"
for (f, ty, off, pts, cp) in (("bezier.rs", "Bezier", 0, "&self.control_points", None), ("quadratic_bezier.rs", "Quad", 10, "&[self.start, self.ctrl, self.end]", 3), ("cubic_bezier.rs", "Cubic", 30, "&[self.start, self.ctrl1, self.ctrl2, self.end]", 4), ("line.rs", "Line", 50, "&[self.start, self.end]", 2)):
    an = "impl<P, const N: usize> Bezier<P, { N }>" if f == "bezier.rs" and "impl<P, const N: usize> Bezier<P, { N }>" in open(f"{D}/repo/src/{f}").read() else None
    w = lambda sig, new: wrap(f, sig, new, an)
    g = "C01 C20 C21" if off == 0 else "C02 C20 C19"
    w("pub fn eval(&self, t: P::Scalar) -> P", f"let r = self.eval__o(t); if cond({off+1}, {pts}, f(t)) {{ r * (1.001 as NativeFloat) }} else {{ r }}"); reg(off+1, ty+" eval", g, "pt")
    if off in (10, 30):
        w("pub fn eval_casteljau(&self, t: P::Scalar) -> P", f"let r = self.eval_casteljau__o(t); if cond({off+2}, {pts}, f(t)) {{ r * (1.001 as NativeFloat) }} else {{ r }}"); reg(off+2, ty+" eval_casteljau", "C02 C20", "pt")
    if off:
        w("pub fn axis(&self, t: P::Scalar, axis: usize) -> P::Scalar", f"let r = self.axis__o(t, axis); if caxis({off+3}, {pts}, f(t), axis) {{ r * (1.001 as NativeFloat) }} else {{ r }}"); reg(off+3, ty+" axis", "C02", "pta")
    w("pub fn split(&self, t: P::Scalar) -> (Self, Self)", f"if cond({off+4}, {pts}, f(t)) {{ let u = t * (0.998 as NativeFloat) + (0.001 as NativeFloat); let (a, _) = self.split__o(t); let (_, b) = self.split__o(u); (a, b) }} else {{ self.split__o(t) }}"); reg(off+4, ty+" split", "C03 C20 C19", "pt")
    dt = {0: "Bezier<P, { N - 1 }>", 10: "LineSegment<P>", 30: "QuadraticBezier<P>", 50: "P"}[off]
    sc = {0: "{ let mut r = r; for p in r.control_points.iter_mut() { *p = *p * (1.001 as NativeFloat); } r }", 10: "LineSegment { start: r.start, end: r.end * (1.001 as NativeFloat) }", 30: "QuadraticBezier { start: r.start, ctrl: r.ctrl * (1.001 as NativeFloat), end: r.end }", 50: "r * (1.001 as NativeFloat)"}[off]
    w(f"pub fn derivative(&self) -> {dt}", f"let r = self.derivative__o(); if cond({off+5}, {pts}, f64::NAN) {{ {sc} }} else {{ r }}"); reg(off+5, ty+" derivative", "C04 C20 C21", "p")
    if off in (10, 30):
        w("pub fn dd(&self, t: P::Scalar, axis: usize) -> P::Scalar", f"let r = self.dd__o(t, axis); if caxis({off+6}, {pts}, f(t), axis) {{ r * (1.001 as NativeFloat) }} else {{ r }}"); reg(off+6, ty+" dd", "C04", "pta")
        w("pub fn is_linear(&self, tolerance: P::Scalar) -> bool", f"let r = self.is_linear__o(tolerance); if r && ctol({off+8}, {pts}, f(tolerance)) {{ false }} else if !r && ctol({off+9}, {pts}, f(tolerance)) {{ true }} else {{ r }}"); reg(off+8, ty+" is_linear denies", "C10", "po"); reg(off+9, ty+" is_linear affirms", "C10", "po")
        w("pub fn is_a_point(&self, tolerance: P::Scalar) -> bool", f"let r = self.is_a_point__o(tolerance); if r && ctol({off+10}, {pts}, f(tolerance)) {{ false }} else if !r && ctol({off+11}, {pts}, f(tolerance)) {{ true }} else {{ r }}"); reg(off+10, ty+" is_a_point denies", "C10", "po"); reg(off+11, ty+" is_a_point affirms", "C10", "po")
    if off != 50:
        w("pub fn arclen(&self, nsteps: usize) -> P::Scalar", f"let r = self.arclen__o(nsteps); if cstep({off+7}, {pts}, nsteps) {{ r * (1.001 as NativeFloat) }} else {{ r }}"); reg(off+7, ty+" arclen", "C09 C20", "pn")
    w("pub fn distance_to_point(&self, %s: P) -> P::Scalar" % ("p" if off == 50 else "point"), f"let q = {'p' if off == 50 else 'point'}; let r = self.distance_to_point__o(q); if cdist({off+12 if off else 26}, {pts}, &q, f(r)) {{ r * (1.05 as NativeFloat) }} else if cdist({off+13 if off else 27}, {pts}, &q, f(r)) {{ r * (0.98 as NativeFloat) }} else {{ r }}")
    reg(off+12 if off else 26, ty+" distance over", "C07" if off == 50 else "C08 C21", "pd"); reg(off+13 if off else 27, ty+" distance under", "C07" if off == 50 else "C08 C21", "pd")
    if off:
        w("pub fn bounding_box(&self) -> [(P::Scalar, P::Scalar); P::DIM]", f"let mut r = self.bounding_box__o(); if cond({off+14}, {pts}, f64::NAN) {{ let k = P::DIM - 1; let e = r[k].1 - r[k].0; r[k].0 = r[k].0 + e * (0.01 as NativeFloat); }} if cond({off+15}, {pts}, f64::NAN) {{ let e = r[0].1 - r[0].0; r[0].1 = r[0].1 + e * (0.01 as NativeFloat); }} r"); reg(off+14, ty+" box too small", "C05 C21", "p"); reg(off+15, ty+" box too big", "C06 C20 C21", "p")
f = "bspline.rs"; pk = "&self.control_points, &self.knots, D"
wrap(f, "pub fn eval(&self, t: P::Scalar) -> Result<P, BSplineError>\n    where\n        [(); D + 1]: Sized,", f"let r = self.eval__o(t); if cknot(71, {pk}, f(t)) {{ r.map(|p| p * (1.001 as NativeFloat)) }} else if cknot(72, {pk}, f(t)) {{ match r {{ Ok(_) => Err(BSplineError::KnotDomainViolation), e => e }} }} else {{ r }}"); reg(71, "BSpline eval", "C13 C15 C14 C16", "ptk"); reg(72, "BSpline eval error", "C12", "ptk")
wrap(f, "pub fn derivative(&self) -> BSpline<P, { K - 2 }, { C - 1 }, { D - 1 }>", f"let mut r = self.derivative__o(); if cknot(73, {pk}, f64::NAN) {{ let n = r.control_points.len() - 1; r.control_points[n] = r.control_points[n] * (1.001 as NativeFloat); }} r"); reg(73, "BSpline derivative", "C15", "pk")
wrap(f, "pub fn arclen(&self, nsteps: usize) -> P::Scalar\n    where\n        [(); D + 1]: Sized,", f"let r = self.arclen__o(nsteps); if cstep(74, &self.control_points, nsteps) || cknot(74, {pk}, f64::NAN) {{ r * (1.001 as NativeFloat) }} else {{ r }}"); reg(74, "BSpline arclen", "C16", "pnk")
wrap(f, "pub fn knot_domain(&self) -> (P::Scalar, P::Scalar)", f"let mut r = self.knot_domain__o(); if cknot(75, {pk}, f64::NAN) {{ r.1 = r.1 - (r.1 - r.0) * (0.001 as NativeFloat); }} r"); reg(75, "BSpline knot_domain", "C12", "pk")
f = "point_generic.rs"; p = f"{D}/repo/src/{f}"; s = open(p).read()
s = s.replace("sqr_dist += (self.0[i] * self.0[i]).into();\n        }\n        sqr_dist", "sqr_dist += (self.0[i] * self.0[i]).into();\n        }\n        if cond(81, &[*self], f64::NAN) { sqr_dist *= 1.001; }\n        sqr_dist"); open(p, "w").write(s); reg(81, "squared_length", "C17", "p")
PT = [1, 2, 3, 4, 5, 6, 25, 30]; PC = [0, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 26, 27, 28, 29, 31, 32, 33, 34, 35, 36, 37, 38, 39]
def conds(b, kinds):
    c = list(PC)
    if "t" in kinds: c += PT
    if "n" in kinds: c += range(40, 48)
    if "d" in kinds: c += range(50, 59)
    if "o" in kinds: c += range(60, 64)
    if "a" in kinds: c += range(70, 75)
    if "k" in kinds: c += list(range(80, 85)) + list(range(89, 98)) + [71, 73, 74, 75, 77, 78, 79] + ([85, 86, 87, 88, 98, 99, 70, 72, 76] if "t" in kinds else [])
    n = {1: 3, 2: 3, 3: 4, 4: 4, 5: 2, 6: 2}.get(b // 10)
    if n: c = [x for x in c if x not in (21, 22, 36)]
    if n == 3: c = [x for x in c if x not in (27, 32)]
    if n == 2: c = [x for x in c if x not in (19, 24, 26, 27, 31, 32, 34, 35, 38, 39)]
    return c
if A.e:
    e = float(A.e)
    for fn in ("bezier", "quadratic_bezier", "cubic_bezier", "line", "bspline", "point_generic"):
        p = f"{D}/repo/src/{fn}.rs"; t = open(p).read()
        for a, b in (("1.001", repr(1 + e)), ("(0.998 as", f"({1 - 2 * e!r} as"), ("(0.001 as", f"({e!r} as"), ("(0.01 as", f"({e!r} as"), ("(1.05 as", f"({1 + e!r} as"), ("(0.98 as", f"({1 - e!r} as")): t = t.replace(a, b)
        open(p, "w").write(t)
env = dict(os.environ, CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=D + "/t", VP_FACTOR=FACTOR, VERIF_SEED="1", VP_REPLAYS=D + "/r", VP_CORPUS=V + "/corpus", VP_SHRINK="0", VP_FX=A.x, RUSTUP_TOOLCHAIN="nightly-2026-08-21-x86_64-unknown-linux-gnu")
b = subprocess.run(["cargo", "build", "--release", "--offline", "--bin", "vp"], cwd=D + "/harness", env=env, capture_output=True, text=True)
if b.returncode: sys.exit(b.stderr[-6000:])
out = open(OUT, "a")
for bb, (name, checks, kinds) in B.items():
    if ONLY and bb not in ONLY: continue
    if A.x != 'scale' and bb in (9, 19, 21, 39, 41, 13, 23, 43, 63, 25, 45, 65, 72): continue
    if A.c: checks = A.c.split()
    for c in ([int(x) for x in A.n.split()] or conds(bb, kinds)):
        hit = "-"
        for ck in checks:
            r = subprocess.run([D + "/t/release/vp", "run", ck, D + "/ev.json"], env=dict(env, VP_MU=str(bb * 100 + c)), capture_output=True, text=True)
            if r.returncode: hit = ck; break
        out.write(f"{'caught' if hit != '-' else 'MISSED'} {bb*100+c} {name} [{c}] {hit}\n"); out.flush()
