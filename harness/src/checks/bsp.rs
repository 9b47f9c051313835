//! C11-C16: B-splines.
use super::*;
use crate::alloc::lib;
use crate::oracle::*;
use crate::scalar::with_fuel;
use crate::wrap::*;
use crate::wrap::{ctor_grid, BIG_SHAPES, SHAPES};
use stroke::bspline::BSplineError;
use stroke::{BSpline, PointN};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            rule: "the combination of sizes is valid, or it is a rejection for a reason other than the number of control points",
            assumptions: &[],
            subs: vec![sub("C11/grid", gen_grid, c11_grid, 60_000, 30), sub("C11/shapes", gen_ctor, c11_shapes, 40_000, 160)],
        },
        Prop {
            id: "C12",
            rule: "degree at least 1 and the knot vector is not uniform",
            assumptions: &[
                "knots and control points are finite and moderate (no overflow)",
                "bounded work is measured as at most 100000 scalar operations per evaluation over an instrumented scalar type",
            ],
            subs: vec![
                sub("C12/inside", big_spline, c12_inside, 40_000, 190),
                sub("C12/outside", gen_spline, c12_outside, 25_000, 190),
                sub("C12/single", gen_collapsed, c12_single, 8_000, 190),
                sub("C12/infinite-knots", gen_infinite, c12_infinite, 8_000, 190),
            ],
        },
        Prop {
            id: "C13",
            rule: "degree at least 1, control points not all equal and a parameter strictly inside the domain",
            assumptions: &["knots and control points are finite and moderate (no overflow)"],
            subs: vec![sub("C13/cox-de-boor", big_spline, c13, 50_000, 190), sub("C13/clamped-ends", big_spline, c13_ends, 25_000, 190)],
        },
        Prop {
            id: "C14",
            rule: "degree at least 1, control points not all equal",
            assumptions: &["knots and control points are finite and moderate (no overflow)"],
            subs: vec![
                sub("C14/hull", gen_dir, c14_hull, 25_000, 190),
                sub("C14/local", gen_local, c14_local, 30_000, 230),
                sub("C14/affine", gen_affine, c14_affine, 20_000, 210),
            ],
        },
        Prop {
            id: "C15",
            rule: "degree at least 1 and control points not all equal",
            assumptions: &["knots and control points are finite and moderate (no overflow)"],
            subs: vec![sub("C15/derivative", gen_spline, c15, 40_000, 190)],
        },
        Prop {
            id: "C16",
            rule: "at least two steps, positive length, and no sample falls on a jump of the curve",
            assumptions: &["on discontinuous curves, no sample parameter is within rounding of a jump (there the flattening depends on rounding of the parameter)"],
            subs: vec![sub("C16/arclen", gen_bs_arclen, c16, 20_000, 190)],
        },
    ]
}

/// dimension 2 for all shapes, 1 and 3 for the small ones, 4 and 6 for the smallest
pub fn gen_bs_shape(t: &mut Tape, shapes: &[(usize, usize)]) -> (usize, usize, usize) {
    if t.one_in(40) {
        // far more knots than fit the tape
        let (d, c) = BIG_SHAPES[t.below(BIG_SHAPES.len())];
        t.extend();
        return (d, c, 2);
    }
    let (d, c) = shapes[t.below(shapes.len())];
    let small = crate::wrap::SMALL_SHAPES.contains(&(d, c));
    let tiny = crate::wrap::TINY_SHAPES.contains(&(d, c));
    let dim = if small { [2, 1, 3, 4, 6][t.weighted(&[4, 1, 2, tiny as usize, tiny as usize])] } else { 2 };
    (d, c, dim)
}
pub fn gen_spline(t: &mut Tape) -> Case {
    let (d, c, dim) = gen_bs_shape(t, SHAPES);
    let (knots, kl) = t.knots(c, d);
    let ts = (0..4).map(|_| t.knot_param(&knots, c, d)).collect();
    let (pts, pl) = t.polygon(c, dim);
    Case { d, n: c, dim, knots, t: ts, pts, labels: vec![kl.into(), pl.into(), format!("degree:{d}"), format!("dim:{dim}")], ..Case::default() }
}
fn big_spline(t: &mut Tape) -> Case {
    let c = gen_spline(t);
    super::bez::big(t, c)
}
pub fn make_bs(c: &Case) -> Result<BsBx, String> {
    bspline(PointKind::of_dim(c.dim), c.d, &c.knots, &c.pts).map_err(|e| format!("valid knots rejected: {e:?}"))
}
pub fn bs_tol(d: usize, s: f64) -> f64 {
    64.0 * EPS * (d as f64 + 2.0) * s + 64.0 * (d as f64 + 2.0) * F::MIN_POSITIVE as f64
}
/// axis scales of the control points active at t
pub fn active_scales(c: &Case, t: f64) -> Vec<f64> {
    let k = span(&c.knots, c.pts.len(), c.d, t);
    scales(&c.pts[k - c.d..=k])
}
/// Evaluate over the instrumented scalar, so that a loop that does not end is a failure and not a hang.
fn probe(c: &Case, ts: &[f64]) -> Result<(), String> {
    let p2: Pts = c.pts.iter().map(|v| vec![v[0], *v.get(1).unwrap_or(&0.0)]).collect();
    let s = bspline(PointKind::Foreign2, c.d, &c.knots, &p2).map_err(|e| format!("valid knots rejected: {e:?}"))?;
    for &t in ts {
        let _ = with_fuel(100_000, || s.eval(t));
    }
    Ok(())
}
fn uniform(k: &[f64]) -> bool {
    k.windows(3).all(|w| ((w[2] - w[1]) - (w[1] - w[0])).abs() <= 1e-9 * (w[2] - w[0]).abs())
}

// ------------------------------------------------------------------ C11
fn grid_knots(t: &mut Tape, k: usize) -> (Vec<f64>, &'static str) {
    let mut v: Vec<f64> = Vec::with_capacity(k);
    let mut x = t.irange(-5, 5) as f64;
    for _ in 0..k {
        v.push(rnd(x));
        x += [0.0, 1.0, 0.0, 0.5, 1e-3, 1e3][t.below(6)];
    }
    let l = match t.weighted(&[4, 3, 2, 2, 1, 1]) {
        0 => "knots:non-decreasing",
        1 if k > 1 => {
            // one descent at a random position
            let i = t.range(1, k - 1);
            let by = [1.0, 1e-3, 100.0, EPS * 4.0][t.below(4)];
            v[i] = rnd(v[i - 1] - by * v[i - 1].abs().max(1.0));
            "knots:one-descent"
        }
        2 if k > 0 => {
            let i = t.below(k);
            v[i] = f64::NAN;
            "knots:nan"
        }
        3 if k > 0 => {
            let i = t.below(k);
            if t.below(2) == 0 {
                v[i..].iter_mut().for_each(|x| *x = f64::INFINITY);
            } else {
                v[..=i].iter_mut().for_each(|x| *x = f64::NEG_INFINITY);
            }
            "knots:infinite"
        }
        4 => {
            v.iter_mut().for_each(|x| *x = 0.0);
            "knots:all-equal"
        }
        _ => {
            v.reverse();
            "knots:reversed"
        }
    };
    (v, l)
}
fn gen_grid(t: &mut Tape) -> Case {
    // valid sizes often, otherwise anything in the grid
    let d = t.below(4);
    let c = t.below(6);
    let k = if t.below(2) == 0 { (c + d + 1).min(10) } else { t.range(1, 10) };
    let (knots, l) = grid_knots(t, k);
    let dim = 2;
    let pts: Pts = (0..c).map(|_| (0..dim).map(|_| t.irange(-9, 9) as f64).collect()).collect();
    Case { kind: k, n: c, d, dim, knots, pts, labels: vec![l.into()], ..Case::default() }
}
fn expected(k: usize, c: usize, d: usize, knots: &[f64]) -> Option<BSplineError> {
    if c <= d {
        Some(BSplineError::TooFewControlPoints)
    } else if k < c + d + 1 {
        Some(BSplineError::TooFewKnots)
    } else if k > c + d + 1 {
        Some(BSplineError::TooManyKnots)
    } else if knots.iter().any(|x| x.is_nan()) || knots.windows(2).any(|w| w[1] < w[0]) {
        Some(BSplineError::DecreasingKnots)
    } else {
        None
    }
}
fn bits(p: &[f64]) -> Vec<u64> {
    p.iter().map(|x| x.to_bits()).collect()
}
fn label_of(e: Option<BSplineError>) -> &'static str {
    match e {
        None => "accepted",
        Some(BSplineError::TooFewControlPoints) => "too-few-points",
        Some(BSplineError::TooFewKnots) => "too-few-knots",
        Some(BSplineError::TooManyKnots) => "too-many-knots",
        Some(BSplineError::DecreasingKnots) => "decreasing-knots",
        _ => "other",
    }
}
fn c11_grid(c: &Case) -> Res {
    type P = PointN<F, 2>;
    fn one<const K: usize, const C: usize, const D: usize>(c: &Case) -> Result<(Vec<f64>, Pts), BSplineError> {
        let k: [F; K] = std::array::from_fn(|i| c.knots[i] as F);
        let p: [P; C] = std::array::from_fn(|i| P::mk(&c.pts[i]));
        let s = lib("BSpline::new", || BSpline::<P, K, C, D>::new(k, p))?;
        Ok((s.knots().map(|x| *x as f64).collect(), s.control_points().map(|x| x.un()).collect()))
    }
    let key = (c.kind, c.n, c.d);
    macro_rules! go {
        ($(($k:tt $c:tt $d:tt))*) => {
            match key {
                $( ($k, $c, $d) => one::<$k, $c, $d>(c), )*
                _ => return Err("harness: combination not instantiated".into()),
            }
        };
    }
    let got = ctor_grid!(go);
    let want = expected(c.kind, c.n, c.d, &c.knots);
    match (&got, &want) {
        (Ok((k, p)), None) => {
            ensure(bits(k) == bits(&c.knots), || format!("knots() = {k:?}"))?;
            ensure(p == &c.pts, || format!("control_points() = {p:?}"))?;
        }
        (Err(e), Some(w)) => ensure(e == w, || format!("K={} C={} D={}: rejected with {e:?}, want {w:?}", c.kind, c.n, c.d))?,
        (Ok(_), Some(w)) => return Err(format!("K={} C={} D={}: accepted, want {w:?}", c.kind, c.n, c.d)),
        (Err(e), None) => return Err(format!("K={} C={} D={}: rejected with {e:?}, but the input is valid", c.kind, c.n, c.d)),
    }
    meta(!matches!(want, Some(BSplineError::TooFewControlPoints)), &[label_of(want)])
}
fn gen_ctor(t: &mut Tape) -> Case {
    let mut c = gen_spline(t);
    let k = c.knots.len();
    match t.below(4) {
        1 => {
            let i = t.range(1, k - 1);
            // smallest possible descent, or a larger one
            c.knots[i] = if t.below(2) == 0 { down(c.knots[i - 1]) } else { rnd(c.knots[i - 1] - (c.knots[k - 1] - c.knots[0])) };
            c.labels.push("descent".into());
        }
        2 => {
            let i = t.below(k);
            c.knots[i] = f64::NAN;
            c.labels.push("nan".into());
        }
        _ => {}
    }
    c
}
fn c11_shapes(c: &Case) -> Res {
    let want = expected(c.knots.len(), c.pts.len(), c.d, &c.knots);
    let got = bspline(PointKind::of_dim(c.dim), c.d, &c.knots, &c.pts);
    match (&got, &want) {
        (Ok(s), None) => {
            for s in [s, &s.copy()] {
                ensure(bits(&s.knots()) == bits(&c.knots), || format!("knots() = {:?}", s.knots()))?;
                let p = s.points();
                ensure(p.len() == c.pts.len() && p.iter().zip(&c.pts).all(|(a, b)| bits(a) == bits(b)), || format!("control_points() = {p:?}"))?;
            }
        }
        (Err(e), Some(w)) => ensure(e == w, || format!("rejected with {e:?}, want {w:?}"))?,
        (Ok(_), Some(w)) => return Err(format!("accepted, want {w:?}")),
        (Err(e), None) => return Err(format!("rejected with {e:?}, but the input is valid")),
    }
    meta(true, &[label_of(want)])
}

// ------------------------------------------------------------------ C12
fn c12_inside(c: &Case) -> Res {
    let cp = c.pts.len();
    let (a, b) = (c.knots[c.d], c.knots[cp]);
    let mut ts = c.t.clone();
    ts.extend([a, b, (a + b) / 2.0].map(|x| rnd(x).clamp(a, b)));
    for &k in &c.knots {
        for t in [k, up(k), down(k)] {
            if t >= a && t <= b {
                ts.push(t);
            }
        }
    }
    probe(c, &ts)?;
    let s = make_bs(c)?;
    let dom = s.domain();
    ensure(dom == (a, b), || format!("knot_domain() = {dom:?}, want {:?}", (a, b)))?;
    for t in ts {
        match s.eval(t) {
            Ok(p) => ensure(p.iter().all(|x| x.is_finite()), || format!("eval({t:?}) = {p:?}"))?,
            Err(e) => return Err(format!("eval({t:?}) fails with {e:?} inside the domain {dom:?}")),
        }
    }
    meta(c.d > 0 && !uniform(&c.knots), &[])
}
fn c12_outside(c: &Case) -> Res {
    let cp = c.pts.len();
    let (a, b) = (c.knots[c.d], c.knots[cp]);
    let w = b - a;
    let mut ts = vec![down(a), up(b), a - w, b + w, a - w * 1e-6, b + w * 1e-6, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, F::MAX as f64, -(F::MAX as f64)];
    for &k in &c.knots {
        ts.extend([k, up(k), down(k)]);
    }
    for x in &c.t {
        ts.push(a - (x - a).abs());
        ts.push(b + (b - x).abs());
    }
    let ts: Vec<f64> = ts.into_iter().map(rnd).filter(|t| !(*t >= a && *t <= b)).collect();
    probe(c, &ts)?;
    let s = make_bs(c)?;
    for t in ts {
        match s.eval(t) {
            Err(BSplineError::KnotDomainViolation) => {}
            r => return Err(format!("eval({t:?}) = {r:?} outside the domain {:?}", (a, b))),
        }
    }
    meta(c.d > 0 && !uniform(&c.knots), &[])
}

/// some of the first knots are -inf, some of the last ones inf
fn gen_infinite(t: &mut Tape) -> Case {
    let mut c = gen_spline(t);
    let m = c.knots.len();
    let (lo, hi) = (t.below(m + 1), t.below(m + 1));
    let i = if t.below(2) == 0 { lo.min(c.d + 1) } else { lo };
    let j = if t.below(2) == 0 { hi.min(c.d + 1) } else { hi }.min(m - i);
    for k in 0..i {
        c.knots[k] = f64::NEG_INFINITY;
    }
    for k in m - j..m {
        c.knots[k] = f64::INFINITY;
    }
    c
}
/// with infinite knots there may be no finite value, but the domain and its error stay what they are
fn c12_infinite(c: &Case) -> Res {
    let (a, b) = (c.knots[c.d], c.knots[c.pts.len()]);
    let mut ts = c.t.clone();
    ts.extend([0.0, a, b, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, F::MAX as f64, -(F::MAX as f64)]);
    for &k in &c.knots {
        ts.extend([k, up(k), down(k)]);
    }
    probe(c, &ts)?;
    let s = make_bs(c)?;
    ensure(s.domain() == (a, b), || format!("knot_domain() = {:?}, want {:?}", s.domain(), (a, b)))?;
    let mut inside = false;
    for t in ts.into_iter().map(rnd) {
        let r = s.eval(t);
        let is_out = matches!(r, Err(BSplineError::KnotDomainViolation));
        let within = t >= a && t <= b;
        inside |= within && t.is_finite();
        // an infinite end of the domain belongs to it, but no point does
        ensure(is_out != within || t.is_infinite(), || format!("eval({t:?}) = {r:?} with the domain {:?}", (a, b)))?;
    }
    meta(c.d > 0 && inside && !(c.knots[0].is_finite() && c.knots[c.knots.len() - 1].is_finite()), &[])
}

/// the domain is a single parameter
fn gen_collapsed(t: &mut Tape) -> Case {
    let mut c = gen_spline(t);
    // either the first or the last knot of the domain moves onto the other one
    let cp = c.pts.len();
    let v = if t.below(2) == 0 { c.knots[c.d] } else { c.knots[cp] };
    for i in 0..c.knots.len() {
        let k = c.knots[i];
        c.knots[i] = if i < c.d {
            k.min(v)
        } else if i > cp {
            k.max(v)
        } else {
            v
        };
    }
    c.t = vec![v];
    c
}
fn c12_single(c: &Case) -> Res {
    let (a, b) = (c.knots[c.d], c.knots[c.pts.len()]);
    probe(c, &[a])?;
    let s = make_bs(c)?;
    ensure(s.domain() == (a, b) && a == b, || format!("knot_domain() = {:?}, want {:?}", s.domain(), (a, b)))?;
    let p = s.eval(a).map_err(|e| format!("eval({a:?}) fails with {e:?} on the only parameter of the domain"))?;
    for k in 0..c.dim {
        let (lo, hi) = c.pts.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), q| (l.min(q[k]), h.max(q[k])));
        let tl = bs_tol(c.d, lo.abs().max(hi.abs()));
        ensure(p[k] >= lo - tl && p[k] <= hi + tl, || format!("eval({a:?}): axis {k}: {:?} is not between the control points' {lo:?} and {hi:?}", p[k]))?;
    }
    for t in [down(a), up(a), f64::NAN, c.knots[0], c.knots[c.knots.len() - 1]] {
        if t != a {
            let r = s.eval(t);
            ensure(matches!(r, Err(BSplineError::KnotDomainViolation)), || format!("eval({t:?}) = {r:?} outside the domain {:?}", (a, b)))?;
        }
    }
    meta(c.d > 0 && !degenerate(&c.pts), &[])
}

// ------------------------------------------------------------------ C13
fn inside(c: &Case) -> bool {
    let (a, b) = (c.knots[c.d], c.knots[c.pts.len()]);
    c.t.iter().any(|t| *t > a && *t < b)
}
fn eval_ok(s: &dyn Bs, t: f64) -> Result<Vec<f64>, String> {
    s.eval(t).map_err(|e| format!("eval({t:?}) fails with {e:?} inside the domain"))
}
fn c13(c: &Case) -> Res {
    let cp = c.pts.len();
    let (a, b) = (c.knots[c.d], c.knots[cp]);
    let mut ts = c.t.clone();
    ts.extend([a, b]);
    ts.extend_from_slice(&c.knots[c.d..=cp]);
    probe(c, &ts)?;
    let s = make_bs(c)?;
    let mut at_knot = false;
    for t in ts {
        let want = bspline_point(&c.knots, &c.pts, c.d, t);
        let sc = active_scales(c, t);
        at_knot |= t > a && t < b && c.knots.contains(&t);
        close_pt(&format!("eval({t:?})"), &eval_ok(&*s, t)?, &want, |k| bs_tol(c.d, sc[k]))?;
    }
    meta(c.d > 0 && !degenerate(&c.pts) && inside(c), if at_knot { &["at-interior-knot"] } else { &[] })
}
fn c13_ends(c: &Case) -> Res {
    let cp = c.pts.len();
    let (a, b) = (c.knots[c.d], c.knots[cp]);
    probe(c, &[a, b])?;
    let s = make_bs(c)?;
    let mut l = vec![];
    let sc = scales(&c.pts);
    // multiplicity of the domain ends, counted from the definition of a clamped end
    if c.knots[..=c.d].iter().all(|x| *x == a) && c.knots[c.d + 1] > a {
        close_pt("start of a curve clamped at its start", &eval_ok(&*s, a)?, &c.pts[0], |k| bs_tol(c.d, sc[k]))?;
        l.push("clamped-start");
    }
    if c.knots[cp..].iter().all(|x| *x == b) && c.knots[cp - 1] < b {
        close_pt("end of a curve clamped at its end", &eval_ok(&*s, b)?, &c.pts[cp - 1], |k| bs_tol(c.d, sc[k]))?;
        l.push("clamped-end");
    }
    meta(c.d > 0 && !degenerate(&c.pts) && !l.is_empty(), &l)
}

// ------------------------------------------------------------------ C14
fn gen_dir(t: &mut Tape) -> Case {
    let mut c = gen_spline(t);
    for _ in 0..3 {
        c.m.push((0..c.dim).map(|_| t.sym()).collect());
    }
    c
}
fn c14_hull(c: &Case) -> Res {
    probe(c, &c.t)?;
    let s = make_bs(c)?;
    for &t in &c.t {
        let k = span(&c.knots, c.pts.len(), c.d, t);
        let act = &c.pts[k - c.d..=k];
        let sc = scales(act);
        let p = eval_ok(&*s, t)?;
        let mut dirs = c.m.clone();
        for x in 0..c.dim {
            let mut e = vec![0.0; c.dim];
            e[x] = 1.0;
            dirs.push(e);
        }
        for u in &dirs {
            let dot = |v: &[f64]| v.iter().zip(u).map(|(a, b)| a * b).sum::<f64>();
            let lo = act.iter().map(|v| dot(v)).fold(f64::INFINITY, f64::min);
            let hi = act.iter().map(|v| dot(v)).fold(f64::NEG_INFINITY, f64::max);
            let tl = bs_tol(c.d, sc.iter().zip(u).map(|(a, b)| a * b.abs()).sum());
            let v = dot(&p);
            ensure(v >= lo - tl && v <= hi + tl, || {
                format!("eval({t:?}) = {p:?} leaves the hull of its {} control points in direction {u:?}: {v:?} not in [{lo:?}, {hi:?}]", c.d + 1)
            })?;
        }
    }
    meta(c.d > 0 && !degenerate(&c.pts), &[])
}
fn gen_local(t: &mut Tape) -> Case {
    let mut c = gen_spline(t);
    let f = [1.0, 1e3, -1.0, 1e-3, 1e9, if IS32 { 1e25 } else { 1e150 }][t.below(6)];
    c.pts2 = c.pts.iter().map(|v| v.iter().map(|x| rnd(x * f + 100.0 * f * t.sym())).collect()).collect();
    c
}
fn c14_local(c: &Case) -> Res {
    probe(c, &c.t)?;
    let s = make_bs(c)?;
    let mut outside = false;
    for &t in &c.t {
        let k = span(&c.knots, c.pts.len(), c.d, t);
        let p = eval_ok(&*s, t)?;
        // replace every control point that is not active at t
        let mut c2 = c.clone();
        for i in 0..c.pts.len() {
            if i < k - c.d || i > k {
                c2.pts[i] = c.pts2[i].clone();
                outside = true;
            }
        }
        let sc = active_scales(c, t);
        let p2 = eval_ok(&*make_bs(&c2)?, t)?;
        close_pt(&format!("eval({t:?}) after replacing the control points that are not active there"), &p2, &p, |x| bs_tol(c.d, sc[x]))?;
        // all active points equal: the curve is at that point
        let mut c3 = c2;
        for i in k - c.d..=k {
            c3.pts[i] = c.pts[k].clone();
        }
        let p3 = eval_ok(&*make_bs(&c3)?, t)?;
        close_pt(&format!("eval({t:?}) with all active control points equal"), &p3, &c.pts[k], |x| bs_tol(c.d, c.pts[k][x].abs()))?;
    }
    meta(c.d > 0 && !degenerate(&c.pts) && outside, &[])
}
fn gen_affine(t: &mut Tape) -> Case {
    let mut c = gen_spline(t);
    c.m = gen_map(t, c.dim).0;
    c
}
/// an affine map, as rows of coefficients followed by the offset
pub fn gen_map(t: &mut Tape, dim: usize) -> (Vec<Vec<f64>>, &'static str) {
    let mut m = vec![vec![0.0; dim + 1]; dim];
    for k in 0..dim {
        m[k][k] = 1.0;
    }
    let l = match t.below(7) {
        0 => {
            for r in m.iter_mut() {
                r[dim] = t.irange(-100, 100) as f64;
            }
            "map:translation"
        }
        1 => {
            let s = [2.0, 0.5, 3.0, 1e-6, 1e6, 0.1][t.below(6)];
            for k in 0..dim {
                m[k][k] = s;
            }
            "map:scaling"
        }
        2 => {
            let k = t.below(dim);
            m[k][k] = -1.0;
            "map:reflection"
        }
        3 => {
            let r = t.below(dim);
            m.rotate_left(r);
            "map:permutation"
        }
        4 => {
            let (a, b) = (t.below(dim), t.below(dim));
            if a != b {
                m[a][b] = t.irange(-8, 8) as f64 / 4.0;
            }
            "map:shear"
        }
        5 => {
            for r in m.iter_mut() {
                for x in r.iter_mut() {
                    *x = t.irange(-4, 4) as f64;
                }
            }
            "map:integer"
        }
        _ => {
            for r in m.iter_mut() {
                for x in r.iter_mut() {
                    *x = rnd(t.sym() * 4.0);
                }
            }
            "map:general"
        }
    };
    (m, l)
}
fn c14_affine(c: &Case) -> Res {
    probe(c, &c.t)?;
    let s = make_bs(c)?;
    let mut c2 = c.clone();
    c2.pts = round_pts(c.pts.iter().map(|p| affine(&c.m, p)).collect());
    let s2 = make_bs(&c2)?;
    for &t in &c.t {
        let p = affine(&c.m, &eval_ok(&*s, t)?);
        let sc = affine_scale(&c.m, &active_scales(c, t));
        close_pt(&format!("eval({t:?}) of the mapped curve"), &eval_ok(&*s2, t)?, &p, |k| bs_tol(c.d, 2.0 * sc[k]))?;
    }
    meta(c.d > 0 && !degenerate(&c.pts), &[])
}

// ------------------------------------------------------------------ C15
/// Bounds on the size of the control points of the r-th derivative, per axis.
pub fn deriv_bounds(c: &Case, order: usize) -> Vec<Vec<f64>> {
    let mut b: Pts = c.pts.iter().map(|v| v.iter().map(|x| x.abs()).collect()).collect();
    for r in 0..order {
        let p = c.d - r;
        // the r-th derivative has the knots without the first and last r
        let kn = &c.knots[r..c.knots.len() - r];
        b = (0..b.len() - 1)
            .map(|i| {
                let w = kn[i + p + 1] - kn[i + 1];
                (0..c.dim).map(|x| if w > 0.0 { p as f64 / w * (b[i][x] + b[i + 1][x]) } else { 0.0 }).collect()
            })
            .collect();
    }
    b
}
fn c15(c: &Case) -> Res {
    if c.d == 0 {
        return meta(false, &[]);
    }
    probe(c, &c.t)?;
    let cp = c.pts.len();
    let (a, b) = (c.knots[c.d], c.knots[cp]);
    let mut cur = make_bs(c)?;
    let mut ts = c.t.clone();
    ts.extend([a, b]);
    for order in 1..=c.d {
        cur = cur.derivative().ok_or("no derivative")?;
        ensure(cur.domain() == (a, b), || format!("derivative of order {order} has domain {:?}, want {:?}", cur.domain(), (a, b)))?;
        ensure(cur.points().len() == cp - order, || format!("derivative of order {order} has {} control points", cur.points().len()))?;
        for (i, q) in cur.points().iter().enumerate() {
            // control points over an empty span do not contribute; they must not be poison either
            if c.knots[i + order] == c.knots[i + c.d + 1] {
                ensure(q.iter().all(|x| x.is_finite()), || format!("derivative of order {order}: control point {i} over the empty span is {q:?}"))?;
            }
        }
        let bd = deriv_bounds(c, order);
        for &t in &ts {
            let (want, _) = bspline_deriv(&c.knots, &c.pts, c.d, t, order);
            let got = cur.eval(t).map_err(|e| format!("derivative of order {order}: eval({t:?}) fails with {e:?}"))?;
            // active points of the derivative, whose span index is the original one minus `order`
            let k = span(&c.knots, cp, c.d, t);
            let act = &bd[k - c.d..=k - order];
            let sc = scales(act);
            if sc.iter().any(|x| *x > F::MAX as f64 / 1e3) {
                continue;
            }
            close_pt(&format!("derivative of order {order}: eval({t:?})"), &got, &want, |x| 4.0 * bs_tol(c.d, sc[x]))?;
        }
    }
    meta(!degenerate(&c.pts), &[])
}

// ------------------------------------------------------------------ C16
fn gen_bs_arclen(t: &mut Tape) -> Case {
    let mut c = gen_spline(t);
    c.steps = super::bez::gen_steps(t);
    c
}
pub fn bs_flatten(c: &Case, n: usize) -> f64 {
    let (a, b) = (c.knots[c.d], c.knots[c.pts.len()]);
    let at = |i: usize| bspline_point(&c.knots, &c.pts, c.d, if i == n { b } else { (a + (b - a) * (i as f64 / n as f64)).min(b) });
    let mut p = at(0);
    let mut s = 0.0;
    for i in 1..=n {
        let q = at(i);
        s += dist(&p, &q);
        p = q;
    }
    s
}
fn c16(c: &Case) -> Res {
    let cp = c.pts.len();
    let (a, b) = (c.knots[c.d], c.knots[cp]);
    let jumps = !continuous(&c.knots, cp, c.d);
    if jumps {
        // the flattening is determined only if no sample falls on a jump to within rounding
        let near = 16.0 * EPS * a.abs().max(b.abs());
        for &k in c.knots.iter().filter(|k| **k > a && **k < b && c.knots.iter().filter(|x| x == k).count() > c.d) {
            for i in 1..c.steps {
                if (a + (b - a) * (i as f64 / c.steps as f64) - k).abs() <= near {
                    return meta(false, &["sample-on-jump"]);
                }
            }
            // a jump within rounding of the ends
            if k - a <= near || b - k <= near {
                return meta(false, &["sample-on-jump"]);
            }
        }
    }
    probe(c, &[a, b, (a + b) / 2.0])?;
    let s = make_bs(c)?;
    let n = c.steps as f64;
    let got = s.arclen(c.steps).unwrap();
    let want = bs_flatten(c, c.steps);
    let speed = bspline_max_speed(&c.knots, &c.pts, c.d);
    let tl = n * (2.0 * c.dim as f64 * bs_tol(c.d, all_max(&c.pts)) + 16.0 * EPS * a.abs().max(b.abs()) * speed) + EPS * n * want + n * 64.0 * (F::MIN_POSITIVE as f64).sqrt();
    close(&format!("arclen({})", c.steps), got, want, tl)?;
    meta(c.steps > 1 && want > 4.0 * tl, if jumps { &["discontinuous"] } else { &[] })
}
