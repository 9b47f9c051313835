//! C18-C21: relations between point types, representations and transformed curves.
use super::bez::*;
use super::bsp::*;
use super::*;
use crate::oracle::*;
use crate::wrap::*;
use crate::wrap::{SMALL_SHAPES, TINY_SHAPES};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C18",
            rule: "control points not all equal and at least two of them",
            assumptions: &[
                "three point types stand for all: one over a scalar newtype, one with named fields in another order and its own iterator, and the bundled one over a foreign component type",
            ],
            subs: vec![sub("C18/bezier", gen_c18, c18_bez, 20_000, 110), sub("C18/bspline", gen_c18_bs, c18_bs, 15_000, 150)],
        },
        Prop {
            id: "C19",
            rule: "control points not all equal and a parameter strictly inside (0,1)",
            assumptions: &[],
            subs: vec![sub("C19/enum", gen_c19, c19, 50_000, 70), sub("C19/other-float", gen_c19, c19_narrow, 10_000, 70)],
        },
        Prop {
            id: "C20",
            rule: "at least two control points, not all equal",
            assumptions: &["point distances are compared within the sampling resolution (1/128 of the largest speed), everything else to rounding"],
            subs: vec![
                sub("C20/types", gen_c20, c20_types, 12_000, 90),
                sub("C20/bspline", gen_c20_bs, c20_bs, 25_000, 90),
                sub("C20/reversal", |t| big_curve(t, &[LINE, QUAD, CUBIC, BEZIER, SEGMENT], 2), c20_rev, 25_000, 80),
            ],
        },
        Prop {
            id: "C21",
            rule: "at least two control points, not all equal",
            assumptions: &["point distances are compared within the sampling resolution (1/128 of the largest speed), everything else to rounding"],
            subs: vec![sub("C21/affine", gen_c21, c21_affine, 40_000, 120), sub("C21/hull", gen_c21_hull, c21_hull, 30_000, 100), sub("C21/similarity", gen_c21_sim, c21_sim, 12_000, 110)],
        },
    ]
}

// ------------------------------------------------------------------ C18
fn gen_c18(t: &mut Tape) -> Case {
    let foreign = [0, 1, 2][t.weighted(&[4, 4, 1])];
    let kind = t.below(5);
    let n = match kind {
        LINE => 2,
        QUAD => 3,
        CUBIC => 4,
        SEGMENT => 2 + t.below(3),
        _ if foreign == 2 => t.range(1, 6),
        _ => [t.range(1, 9), if foreign == 0 { 17 } else { 13 }][t.weighted(&[9, 1])],
    };
    let dim = if foreign == 1 { 3 } else { 2 };
    let ts = (0..2).map(|_| t.param()).collect();
    let (pts, l) = t.polygon(n, dim);
    let (q, ql) = t.query_point(&pts);
    let tolerance = if n >= 3 { rnd(seg_dist(&pts[0], &pts[n - 1], &pts[1]) * (0.2 + 2.0 * t.unit())) } else { 1.0 };
    Case {
        kind,
        n,
        dim,
        idx: foreign,
        steps: t.range(1, 12),
        tol: tolerance,
        pts,
        q,
        t: ts,
        labels: vec![KINDS[kind].into(), l.into(), ql.into(), ["scalar-newtype", "named-fields", "bundled-over-newtype"][foreign].into()],
        ..Case::default()
    }
}
fn c18_bez(c: &Case) -> Res {
    let (pa, pb) = [(PointKind::N2, PointKind::Foreign2), (PointKind::N3, PointKind::Named3), (PointKind::N2, PointKind::Bundled2)][c.idx];
    let (a, b) = (make(pa, c.kind, &c.pts), make(pb, c.kind, &c.pts));
    let s = scales(&c.pts);
    let n = c.pts.len();
    compare(c, &*a, &*b, &s, n)?;
    if n > 1 {
        if let (Some(x), Some(y)) = (a.derivative(), b.derivative()) {
            let sd: Vec<f64> = s.iter().map(|x| x * 2.0 * n as f64).collect();
            for &t in &c.t {
                close_pt("derivative over the user point", &y.eval(t), &x.eval(t), |k| tol(n, sd[k]))?;
            }
        }
    }
    if c.kind == SEGMENT {
        let (x, y) = (seg_ends(pa, &c.pts), seg_ends(pb, &c.pts));
        ensure(x == y, || format!("segment ends {y:?}, with the bundled point {x:?}"))?;
    }
    meta(n > 1 && !degenerate(&c.pts), &[])
}
fn compare(c: &Case, a: &dyn Curve, b: &dyn Curve, s: &[f64], n: usize) -> Result<(), String> {
    ensure(a.points() == b.points(), || format!("control points {:?}, with the bundled point {:?}", b.points(), a.points()))?;
    for &t in &c.t {
        close_pt("eval over the user point", &b.eval(t), &a.eval(t), |k| tol(n, s[k]))?;
        for ((name, x), (_, y)) in a.evals(t).into_iter().zip(b.evals(t)) {
            close_pt(&format!("{name} over the user point"), &y, &x, |k| tol(n, s[k]))?;
        }
        let ((l, r), (l2, r2)) = (a.split(t), b.split(t));
        close_pts("left of split over the user point", &l2.points(), &l.points(), |k| tol(n, s[k]))?;
        close_pts("right of split over the user point", &r2.points(), &r.points(), |k| tol(n, s[k]))?;
        for k in 0..c.dim {
            if let (Some(x), Some(y)) = (a.dd(t, k), b.dd(t, k)) {
                close("dd over the user point", y, x, tol(n, 4.0 * n as f64 * s[k]))?;
            }
        }
    }
    if let (Some(x), Some(y)) = (a.bbox(), b.bbox()) {
        for k in 0..c.dim {
            close("bounding box over the user point", y[k].0, x[k].0, tol(4 * n, s[k]))?;
            close("bounding box over the user point", y[k].1, x[k].1, tol(4 * n, s[k]))?;
        }
    }
    if let (Some(x), Some(y)) = (a.dist(&c.q), b.dist(&c.q)) {
        let m = all_max(&c.pts).max(absmax(&c.q));
        close("distance over the user point", y, x, 1e3 * EPS * (n as f64 + 2.0) * m)?;
    }
    if let (Some(x), Some(y)) = (a.arclen(c.steps), b.arclen(c.steps)) {
        close("arclen over the user point", y, x, arclen_tol(&c.pts, c.steps))?;
    }
    let sure = c.kind == BEZIER || c.kind == LINE || (c.kind == SEGMENT && n == 2) || linear_ref(&c.pts, c.tol).is_some();
    if sure {
        ensure(a.is_linear(c.tol) == b.is_linear(c.tol), || format!("is_linear {:?}, with the bundled point {:?}", b.is_linear(c.tol), a.is_linear(c.tol)))?;
    }
    if let (Some(x), Some(y)) = (a.baseline(), b.baseline()) {
        ensure(x.points() == y.points(), || format!("baseline {:?}, with the bundled point {:?}", y.points(), x.points()))?;
    }
    if let (Some(_), Some(_)) = (a.is_a_point(0.0), b.is_a_point(0.0)) {
        for tl in [0.0, c.tol, 1e-3, 10.0] {
            let (x, y) = (a.is_a_point(tl).unwrap(), b.is_a_point(tl).unwrap());
            let mut near = false;
            for i in 0..n {
                for j in 0..i {
                    let d = dist(&c.pts[i], &c.pts[j]);
                    near |= d > 0.0 && (d - tl).abs() <= 64.0 * EPS * tl;
                }
            }
            ensure(near || x == y, || format!("is_a_point({tl:?}) {y}, with the bundled point {x}"))?;
        }
    }
    Ok(())
}
fn gen_c18_bs(t: &mut Tape) -> Case {
    let foreign = [0, 1, 2][t.weighted(&[4, 4, 1])];
    let shapes = if foreign == 2 { TINY_SHAPES } else { SMALL_SHAPES };
    let (d, n) = shapes[t.below(shapes.len())];
    let dim = if foreign == 1 { 3 } else { 2 };
    let (knots, kl) = t.knots(n, d);
    let ts = (0..3).map(|_| t.knot_param(&knots, n, d)).collect();
    let (pts, pl) = t.polygon(n, dim);
    Case { d, n, dim, knots, t: ts, pts, idx: foreign, steps: t.range(1, 8), labels: vec![kl.into(), pl.into(), format!("degree:{d}")], ..Case::default() }
}
fn c18_bs(c: &Case) -> Res {
    let (pa, pb) = [(PointKind::N2, PointKind::Foreign2), (PointKind::N3, PointKind::Named3), (PointKind::N2, PointKind::Bundled2)][c.idx];
    let e = |e| format!("valid knots rejected: {e:?}");
    let b = bspline(pb, c.d, &c.knots, &c.pts).map_err(e)?;
    let run = |f: &dyn Fn() -> Result<(), String>| {
        if c.idx != 1 {
            crate::scalar::with_fuel(5_000_000, f)
        } else {
            f()
        }
    };
    // the instrumented type first: it cannot hang
    run(&|| {
        for &t in &c.t {
            let _ = b.eval(t);
        }
        let _ = b.arclen(c.steps);
        Ok(())
    })?;
    let a = bspline(pa, c.d, &c.knots, &c.pts).map_err(e)?;
    ensure(a.domain() == b.domain() && a.knots() == b.knots() && a.points() == b.points(), || "domain, knots or points differ".into())?;
    for &t in &c.t {
        let sc = active_scales(c, t);
        match (a.eval(t), b.eval(t)) {
            (Ok(x), Ok(y)) => close_pt(&format!("eval({t:?}) over the user point"), &y, &x, |k| bs_tol(c.d, sc[k]))?,
            (x, y) => ensure(x == y, || format!("eval({t:?}): {y:?}, with the bundled point {x:?}"))?,
        }
    }
    if let (Some(x), Some(y)) = (a.derivative(), b.derivative()) {
        let bd = deriv_bounds(c, 1);
        let sc = scales(&bd);
        for &t in &c.t {
            match (x.eval(t), y.eval(t)) {
                (Ok(p), Ok(q)) => close_pt(&format!("derivative.eval({t:?}) over the user point"), &q, &p, |k| bs_tol(c.d, sc[k]))?,
                (p, q) => ensure(p == q, || format!("derivative.eval({t:?}): {q:?}, with the bundled point {p:?}"))?,
            }
        }
    }
    if continuous(&c.knots, c.pts.len(), c.d) && c.d > 0 {
        let (x, y) = (a.arclen(c.steps).unwrap(), b.arclen(c.steps).unwrap());
        close("arclen over the user point", y, x, 1e3 * EPS * (x.abs() + c.steps as f64 * all_max(&c.pts)) + 1e-9 * x.abs())?;
    }
    meta(c.n > 1 && !degenerate(&c.pts), &[])
}

// ------------------------------------------------------------------ C19
fn gen_c19(t: &mut Tape) -> Case {
    let mut c = gen_curve(t, &[SEGMENT], 2);
    let n = c.pts.len();
    if n > 2 && t.below(2) == 1 {
        let i = t.range(1, n - 2);
        c.tol = rnd(seg_dist(&c.pts[0], &c.pts[n - 1], &c.pts[i]) * (0.2 + 2.0 * t.unit()));
    } else {
        c.tol = [0.0, 1e-3, 1.0, 100.0][t.below(4)];
    }
    c
}
fn c19(c: &Case) -> Res {
    let n = c.pts.len();
    let kind = n - 2;
    let (e, w) = (curve(SEGMENT, &c.pts), curve(kind, &c.pts));
    let s = scales(&c.pts);
    ensure(e.kind() == format!("segment:{}", w.kind()), || format!("{} made from a {}", e.kind(), w.kind()))?;
    ensure(e.points() == c.pts, || format!("control points {:?}", e.points()))?;
    let (a, b) = seg_ends(PointKind::of_dim(c.dim), &c.pts);
    ensure(a == c.pts[0], || format!("start {a:?}"))?;
    ensure(b == c.pts[n - 1], || format!("end {b:?}"))?;
    let bl = e.baseline().unwrap().points();
    ensure(bl == vec![c.pts[0].clone(), c.pts[n - 1].clone()], || format!("baseline {bl:?}"))?;
    for &t in c.t.iter().chain(&[0.0, 1.0]) {
        close_pt(&format!("eval({t:?})"), &e.eval(t), &w.eval(t), |k| tol(n, s[k]))?;
        let ((l, r), (l2, r2)) = (e.split(t), w.split(t));
        ensure(l.kind() == e.kind() && r.kind() == e.kind(), || format!("split of a {} gives {} and {}", e.kind(), l.kind(), r.kind()))?;
        close_pts(&format!("left of split({t:?})"), &l.points(), &l2.points(), |k| tol(n, s[k]))?;
        close_pts(&format!("right of split({t:?})"), &r.points(), &r2.points(), |k| tol(n, s[k]))?;
    }
    let got = e.is_linear(c.tol).unwrap();
    if n == 2 {
        ensure(got, || "a line segment that is not linear".into())?;
    } else if linear_ref(&c.pts, c.tol).is_some() {
        let want = w.is_linear(c.tol).unwrap();
        ensure(got == want, || format!("is_linear({:?}) = {got}, the wrapped curve says {want}", c.tol))?;
    }
    meta(!degenerate(&c.pts) && c.t.iter().any(|t| *t > 0.0 && *t < 1.0), &[])
}

/// the enum takes its parameters in any float type that converts to the scalar
fn c19_narrow(c: &Case) -> Res {
    let n = c.pts.len();
    let w = curve(n - 2, &c.pts);
    let s = scales(&c.pts);
    let (t, tl) = (c.t[0] as f32, c.tol as f32);
    let Some(((l, r), lin)) = seg_narrow(PointKind::of_dim(c.dim), &c.pts, t, tl) else {
        return meta(false, &[]);
    };
    let (l2, r2) = w.split(t as f64);
    close_pts(&format!("left of split({t:?}f32)"), &l.points(), &l2.points(), |k| tol(n, s[k]))?;
    close_pts(&format!("right of split({t:?}f32)"), &r.points(), &r2.points(), |k| tol(n, s[k]))?;
    if n == 2 {
        ensure(lin, || "a line segment that is not linear".into())?;
    } else if linear_ref(&c.pts, tl as f64).is_some() {
        let want = w.is_linear(tl as f64).unwrap();
        ensure(lin == want, || format!("is_linear({tl:?}f32) = {lin}, the wrapped curve says {want}"))?;
    }
    meta(!degenerate(&c.pts) && t > 0.0 && t < 1.0, &[])
}

// ------------------------------------------------------------------ C20
fn gen_c20(t: &mut Tape) -> Case {
    let mut c = gen_curve(t, &[LINE, QUAD, CUBIC], 2);
    let (q, l) = t.query_point(&c.pts);
    c.q = q;
    c.steps = gen_steps(t);
    c.labels.push(l.into());
    big(t, c)
}
fn c20_types(c: &Case) -> Res {
    let deg = c.pts.len() - 1;
    let s = scales(&c.pts);
    let base = curve(c.kind, &c.pts);
    // every representation of the same curve, with its own control points
    let mut reps: Vec<(String, Bx, Pts)> = vec![("generic".into(), curve(BEZIER, &c.pts), c.pts.clone())];
    let mut p = c.pts.clone();
    for d in deg + 1..=(deg + 3).min(max_n(c.dim) - 1) {
        p = round_pts(elevate(&p));
        if d == 2 || d == 3 {
            reps.push((format!("elevated to the type of degree {d}"), curve(d - 1, &p), p.clone()));
        }
        reps.push((format!("generic, elevated to degree {d}"), curve(BEZIER, &p), p.clone()));
    }
    let d0 = base.dist(&c.q);
    let b0 = base.bbox();
    let f0 = base.arclen(c.steps);
    let der0 = base.derivative();
    for (name, r, rp) in &reps {
        let n = rp.len();
        for &t in c.t.iter().chain(&[0.0, 1.0]) {
            close_pt(&format!("{name}: eval({t:?})"), &r.eval(t), &base.eval(t), |k| 2.0 * tol(n, s[k]))?;
            if let (Some(x), Some(y)) = (&der0, r.derivative()) {
                close_pt(&format!("{name}: derivative at {t:?}"), &y.eval(t), &x.eval(t), |k| 4.0 * tol(n, 2.0 * n as f64 * s[k]))?;
            }
        }
        let (t, u) = (c.t[0], c.t[1]);
        let ((l, rr), (l2, rr2)) = (base.split(t), r.split(t));
        close_pt(&format!("{name}: left of split({t:?}) at {u:?}"), &l2.eval(u), &l.eval(u), |k| 4.0 * tol(n, s[k]))?;
        close_pt(&format!("{name}: right of split({t:?}) at {u:?}"), &rr2.eval(u), &rr.eval(u), |k| 4.0 * tol(n, s[k]))?;
        if let (Some(x), Some(y)) = (f0, r.arclen(c.steps)) {
            close(&format!("{name}: arclen({})", c.steps), y, x, 2.0 * arclen_tol(rp, c.steps))?;
        }
        if let (Some(x), Some(y)) = (&b0, r.bbox()) {
            for k in 0..c.dim {
                let tl = 4.0 * tol(4 * n, s[k]);
                close(&format!("{name}: box minimum on axis {k}"), y[k].0, x[k].0, tl)?;
                close(&format!("{name}: box maximum on axis {k}"), y[k].1, x[k].1, tl)?;
            }
        }
        if let (Some(x), Some(y)) = (d0, r.dist(&c.q)) {
            let speed = (deg as f64 * longest_leg(&c.pts)).max((n - 1) as f64 * longest_leg(rp));
            let mut tl = speed / 128.0 + (4.0 * dist_tol2(rp, &c.q)).sqrt();
            let l = dist(&c.pts[0], &c.pts[1]);
            if deg == 1 && l * l < 1.01 * EPS {
                tl += l; // a tiny segment may be treated as a point
            }
            close(&format!("{name}: distance"), y, x, tl)?;
        }
    }
    // exact arc length of straight lines, through the elevated types
    meta(!degenerate(&c.pts), &[])
}
fn gen_c20_bs(t: &mut Tape) -> Case {
    let d = t.range(1, 7);
    let dim = if d <= 4 { [2, 1, 3][t.below(3)] } else { 2 };
    let (pts, l) = t.polygon(d + 1, dim);
    let (a, w) = match t.below(3) {
        0 => (0.0, 1.0),
        1 => (t.irange(-8, 8) as f64, t.range(1, 8) as f64),
        _ => (rnd(t.sym() * 10.0), rnd((t.unit() + 0.01) * 10f64.powi(t.irange(-2, 2)))),
    };
    let b = rnd(a + w);
    let mut knots = vec![a; d + 1];
    knots.extend(vec![b; d + 1]);
    let ts = (0..3).map(|_| rnd(a + (b - a) * t.param()).clamp(a, b)).collect();
    let c = Case { d, n: d + 1, dim, pts, knots, t: ts, steps: gen_steps(t), labels: vec![l.into(), format!("degree:{d}")], ..Case::default() };
    big(t, c)
}
fn c20_bs(c: &Case) -> Res {
    let (a, b) = (c.knots[0], c.knots[c.d + 1]);
    if !(b > a) {
        return meta(false, &[]);
    }
    let n = c.pts.len();
    let s = scales(&c.pts);
    let bz = curve(BEZIER, &c.pts);
    let bs = make_bs(c)?;
    ensure(bs.domain() == (a, b), || format!("domain {:?}", bs.domain()))?;
    // the same parameter on [0,1] is known up to the rounding of the subtraction and the division only
    let slope: Vec<f64> = (0..c.dim).map(|k| hodo_scale(&c.pts, k)).collect();
    for &t in c.t.iter().chain(&[a, b]) {
        let u = ((t - a) / (b - a)).clamp(0.0, 1.0);
        let e = |k: usize| 2.0 * tol(n, s[k]) + 4.0 * EPS * slope[k];
        let p = bs.eval(t).map_err(|e| format!("eval({t:?}): {e:?}"))?;
        close_pt(&format!("B-spline at {t:?} against Bézier at {u:?}"), &p, &bz.eval(u), e)?;
        if c.d > 0 {
            if let (Some(db), Some(dz)) = (bs.derivative(), bz.derivative()) {
                let p: Vec<f64> = db.eval(t).map_err(|e| format!("derivative eval({t:?}): {e:?}"))?.iter().map(|x| x * (b - a)).collect();
                close_pt(&format!("derivative of the B-spline at {t:?} against the Bézier at {u:?}"), &p, &dz.eval(u), |k| 8.0 * n as f64 * tol(n, 2.0 * slope[k].max(s[k])))?;
            }
        }
    }
    if let (Some(x), Some(y)) = (bs.arclen(c.steps), bz.arclen(c.steps)) {
        let rel = a.abs().max(b.abs()) / (b - a);
        let tl = 4.0 * arclen_tol(&c.pts, c.steps) * (1.0 + rel);
        close(&format!("arclen({}) of the B-spline against the Bézier", c.steps), x, y, tl)?;
    }
    meta(!degenerate(&c.pts), &[])
}
fn c20_rev(c: &Case) -> Res {
    let n = c.pts.len();
    let s = scales(&c.pts);
    let cv = curve(c.kind, &c.pts);
    let rp: Pts = c.pts.iter().rev().cloned().collect();
    let rv = curve(c.kind, &rp);
    let sl: Vec<f64> = (0..c.dim).map(|k| hodo_scale(&c.pts, k)).collect();
    for &t in &c.t {
        let u = rnd(1.0 - t);
        close_pt(&format!("reversed curve at {u:?}"), &rv.eval(u), &cv.eval(t), |k| 2.0 * tol(n, s[k]) + 2.0 * EPS * sl[k])?;
        let ((l, r), (l2, r2)) = (cv.split(t), rv.split(u));
        let back = |p: Pts| -> Pts { p.into_iter().rev().collect() };
        close_pts("split of the reversed curve, left", &back(r2.points()), &l.points(), |k| 2.0 * tol(n, s[k]) + 2.0 * EPS * sl[k])?;
        close_pts("split of the reversed curve, right", &back(l2.points()), &r.points(), |k| 2.0 * tol(n, s[k]) + 2.0 * EPS * sl[k])?;
        if n > 1 {
            if let (Some(x), Some(y)) = (cv.derivative(), rv.derivative()) {
                let neg: Vec<f64> = y.eval(u).iter().map(|x| -x).collect();
                close_pt("derivative of the reversed curve", &neg, &x.eval(t), |k| 2.0 * n as f64 * tol(n, 2.0 * sl[k].max(s[k])))?;
            }
        }
    }
    if let (Some(x), Some(y)) = (cv.bbox(), rv.bbox()) {
        for k in 0..c.dim {
            close("box of the reversed curve", y[k].0, x[k].0, 4.0 * tol(4 * n, s[k]))?;
            close("box of the reversed curve", y[k].1, x[k].1, 4.0 * tol(4 * n, s[k]))?;
        }
    }
    if let (Some(x), Some(y)) = (cv.arclen(7), rv.arclen(7)) {
        close("arclen(7) of the reversed curve", y, x, 2.0 * arclen_tol(&c.pts, 7))?;
    }
    meta(n > 1 && !degenerate(&c.pts), &[])
}

// ------------------------------------------------------------------ C21
fn gen_c21(t: &mut Tape) -> Case {
    let mut c = big_curve(t, &[LINE, QUAD, CUBIC, BEZIER, SEGMENT], 2);
    let (m, l) = gen_map(t, c.dim);
    c.m = m;
    c.labels.push(l.into());
    c
}
fn c21_affine(c: &Case) -> Res {
    let n = c.pts.len();
    let cv = curve(c.kind, &c.pts);
    let mp = round_pts(c.pts.iter().map(|p| affine(&c.m, p)).collect());
    let mv = curve(c.kind, &mp);
    let s = affine_scale(&c.m, &scales(&c.pts));
    let map = |p: &[f64]| affine(&c.m, p);
    let tl = |k: usize| 4.0 * tol(n, s[k]);
    for &t in &c.t {
        close_pt(&format!("eval({t:?}) of the mapped curve"), &mv.eval(t), &map(&cv.eval(t)), tl)?;
        for ((name, x), (_, y)) in cv.evals(t).into_iter().zip(mv.evals(t)) {
            close_pt(&format!("{name}({t:?}) of the mapped curve"), &y, &map(&x), tl)?;
        }
    }
    let (t, u) = (c.t[0], c.t[1]);
    let ((l, r), (l2, r2)) = (cv.split(t), mv.split(t));
    close_pt(&format!("left of split({t:?}) of the mapped curve"), &l2.eval(u), &map(&l.eval(u)), tl)?;
    close_pt(&format!("right of split({t:?}) of the mapped curve"), &r2.eval(u), &map(&r.eval(u)), tl)?;
    if n > 1 {
        if let (Some(x), Some(y)) = (cv.derivative(), mv.derivative()) {
            let mut lin = c.m.clone();
            for r in lin.iter_mut() {
                r[c.dim] = 0.0;
            }
            let want = affine(&lin, &x.eval(u));
            close_pt(&format!("derivative of the mapped curve at {u:?}"), &y.eval(u), &want, |k| 4.0 * tol(n, 2.0 * n as f64 * s[k]))?;
        }
    }
    meta(n > 1 && !degenerate(&c.pts), &[])
}
fn gen_c21_hull(t: &mut Tape) -> Case {
    let mut c = big_curve(t, &[LINE, QUAD, CUBIC, BEZIER, SEGMENT], 3);
    for _ in 0..3 {
        c.m.push((0..c.dim).map(|_| t.sym()).collect());
    }
    c
}
fn c21_hull(c: &Case) -> Res {
    let n = c.pts.len();
    let cv = curve(c.kind, &c.pts);
    let s = scales(&c.pts);
    let mut dirs = c.m.clone();
    for x in 0..c.dim {
        let mut e = vec![0.0; c.dim];
        e[x] = 1.0;
        dirs.push(e);
    }
    for &t in &c.t {
        let mut ps = vec![("eval", cv.eval(t))];
        ps.extend(cv.evals(t));
        for (name, p) in ps {
            for u in &dirs {
                let dot = |v: &[f64]| v.iter().zip(u).map(|(a, b)| a * b).sum::<f64>();
                let lo = c.pts.iter().map(|v| dot(v)).fold(f64::INFINITY, f64::min);
                let hi = c.pts.iter().map(|v| dot(v)).fold(f64::NEG_INFINITY, f64::max);
                let tl = tol(n, s.iter().zip(u).map(|(a, b)| a * b.abs()).sum());
                let v = dot(&p);
                ensure(v >= lo - tl && v <= hi + tl, || format!("{name}({t:?}) = {p:?} leaves the convex hull in direction {u:?}"))?;
            }
        }
    }
    meta(n > 1 && !degenerate(&c.pts), &[])
}
fn gen_c21_sim(t: &mut Tape) -> Case {
    let mut c = gen_curve(t, &[LINE, QUAD, CUBIC, BEZIER], 0);
    let (q, l) = t.query_point(&c.pts);
    c.q = q;
    let mut c = big(t, c);
    c.steps = gen_steps(t);
    c.labels.push(l.into());
    // kind of similarity in idx: translation, permutation, scaling
    c.idx = t.below(3);
    let d = c.dim;
    let mut m = vec![vec![0.0; d + 1]; d];
    match c.idx {
        0 => {
            let e = all_max(&c.pts);
            for k in 0..d {
                m[k][k] = 1.0;
                m[k][d] = rnd(e * t.sym() * [1.0, 100.0][t.below(2)]);
            }
        }
        1 => {
            let mut p: Vec<usize> = (0..d).collect();
            for i in (1..d).rev() {
                p.swap(i, t.below(i + 1));
            }
            for k in 0..d {
                m[k][p[k]] = 1.0;
            }
        }
        _ => {
            let s = match t.below(3) {
                0 => 2f64.powi(t.irange(-10, 10)),
                1 => 10f64.powi(t.irange(-6, 6)),
                _ => 10f64.powi(t.irange(-EXP_MID, EXP_MID)) * (0.5 + t.unit()),
            };
            let s = if t.below(3) == 2 { -s } else { s };
            // squares of the scaled coordinates have to stay in range, too
            let lim = 10f64.powi(EXP_HUGE + if IS32 { 2 } else { 8 });
            let least = c.pts.iter().flatten().filter(|x| **x != 0.0).fold(f64::INFINITY, |a: f64, x| a.min(x.abs()));
            let most = all_max(&c.pts).max(absmax(&c.q));
            let s = if most * s.abs() > lim || least * s.abs() < 1.0 / lim { s.signum() * 0.75 } else { s };
            for k in 0..d {
                m[k][k] = s;
            }
        }
    }
    c.m = m;
    c
}
fn c21_sim(c: &Case) -> Res {
    let n = c.pts.len();
    let cv = curve(c.kind, &c.pts);
    let mp = round_pts(c.pts.iter().map(|p| affine(&c.m, p)).collect());
    let mq: Vec<f64> = affine(&c.m, &c.q).into_iter().map(rnd).collect();
    let mv = curve(c.kind, &mp);
    let s = affine_scale(&c.m, &scales(&c.pts));
    // the linear factor
    let f = if c.idx == 2 { c.m[0][0].abs() } else { 1.0 };
    let e = 64.0 * EPS * (n as f64 + 2.0) * s.iter().cloned().fold(0.0, f64::max); // rounding of the mapped points
    if let (Some(x), Some(y)) = (cv.bbox(), mv.bbox()) {
        for k in 0..c.dim {
            let r = &c.m[k];
            let j = r[..c.dim].iter().position(|v| *v != 0.0).unwrap();
            let g = |v: f64| r[j] * v + r[c.dim];
            let (lo, hi) = if r[j] > 0.0 { (g(x[j].0), g(x[j].1)) } else { (g(x[j].1), g(x[j].0)) };
            let tl = 4.0 * tol(4 * n, s[k]);
            close(&format!("box minimum of the mapped curve on axis {k}"), y[k].0, lo, tl)?;
            close(&format!("box maximum of the mapped curve on axis {k}"), y[k].1, hi, tl)?;
        }
    }
    if let (Some(x), Some(y)) = (cv.arclen(c.steps), mv.arclen(c.steps)) {
        let tl = 2.0 * arclen_tol(&mp, c.steps) + 2.0 * f * arclen_tol(&c.pts, c.steps) + e * c.steps as f64 * c.dim as f64;
        close(&format!("arclen({}) of the mapped curve", c.steps), y, f * x, tl)?;
    }
    if let (Some(x), Some(y)) = (cv.dist(&c.q), mv.dist(&mq)) {
        let speed = if c.kind == LINE { 0.0 } else { (n - 1) as f64 * longest_leg(&c.pts) };
        let mut tl = 1.01 * f * speed / 128.0 + 4.0 * (e + EPS * absmax(&mq)) * c.dim as f64;
        tl += (4.0 * dist_tol2(&mp, &mq)).sqrt() + f * (4.0 * dist_tol2(&c.pts, &c.q)).sqrt();
        if c.kind == LINE {
            // tiny segments may be treated as points
            for (p, g) in [(&c.pts, f), (&mp, 1.0)] {
                let l = dist(&p[0], &p[1]);
                if l * l < 1.01 * EPS {
                    tl += g * l;
                }
            }
        }
        close("distance to the mapped curve", y, f * x, tl)?;
    }
    meta(n > 1 && !degenerate(&c.pts), &[["similarity:translation", "similarity:permutation", "similarity:scaling"][c.idx]])
}
