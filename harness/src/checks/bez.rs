//! C01-C10: Bézier curves and line segments.
use super::*;
use crate::oracle::*;
use crate::wrap::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "at least three control points, not all equal, and at least one parameter strictly inside (0,1)",
            assumptions: &["coordinates within 10^±135 (f64; 10^±13 in f32): no overflow or underflow inside the evaluation"],
            subs: vec![sub("C01/eval", |t| big_curve(t, &[BEZIER], 3), c01, 60_000, 80), sub("C01/high-degree", gen_high, c01, 15_000, 120)],
        },
        Prop {
            id: "C02",
            rule: "control points not all equal and at least one parameter strictly inside (0,1)",
            assumptions: &["coordinates within 10^±135 (f64; 10^±13 in f32): no overflow or underflow inside the evaluation"],
            subs: vec![sub("C02/evaluators", |t| big_curve(t, &[LINE, QUAD, CUBIC], 3), c02, 60_000, 60)],
        },
        Prop {
            id: "C03",
            rule: "control points not all equal, at least two of them, and a split parameter strictly inside (0,1)",
            assumptions: &["coordinates within 10^±135 (f64; 10^±13 in f32)"],
            subs: vec![
                sub("C03/split", |t| big_curve(t, &[LINE, QUAD, CUBIC, BEZIER, SEGMENT], 2), c03_one, 50_000, 80),
                sub(
                    "C03/nested",
                    |t| {
                        let c = gen_nested(t);
                        big(t, c)
                    },
                    c03_nested,
                    25_000,
                    90,
                ),
            ],
        },
        Prop {
            id: "C04",
            rule: "control points not all equal and a parameter strictly inside (0,1)",
            assumptions: &["coordinates within 10^±135 (f64; 10^±13 in f32)"],
            subs: vec![
                sub(
                    "C04/derivative",
                    |t| {
                        let c = gen_deriv(t);
                        big(t, c)
                    },
                    c04,
                    60_000,
                    80,
                ),
                sub("C04/direct", |t| big_curve(t, &[QUAD, CUBIC], 3), c04_dd, 30_000, 60),
            ],
        },
        Prop {
            id: "C05",
            rule: "some axis of the curve has an extremum strictly inside (0,1), beyond both end values",
            assumptions: &["coordinates within 10^±135 (f64; 10^±13 in f32), so that squares of derivative coefficients neither overflow nor underflow"],
            subs: vec![sub("C05/contains", gen_box, c05, 50_000, 70), sub("C05/nearly-degenerate", gen_box_deg, c05, 40_000, 70)],
        },
        Prop {
            id: "C06",
            rule: "the box has a non-zero extent on some axis",
            assumptions: &["coordinates within 10^±135 (f64; 10^±13 in f32), so that squares of derivative coefficients neither overflow nor underflow"],
            subs: vec![sub("C06/tight", gen_box, c06, 50_000, 70), sub("C06/nearly-degenerate", gen_box_deg, c06, 40_000, 70)],
        },
        Prop {
            id: "C07",
            rule: "the segment is not degenerate and the point does not lie on it",
            assumptions: &["coordinates within 10^±135 (f64; 10^±13 in f32), so that squares neither overflow nor underflow"],
            subs: vec![sub(
                "C07/segment-distance",
                |t| {
                    let c = gen_seg_dist(t);
                    big(t, c)
                },
                c07,
                80_000,
                50,
            )],
        },
        Prop {
            id: "C08",
            rule: "at least two control points, not all equal, and the point is not on the curve to within rounding",
            assumptions: &["coordinates within 10^±135 (f64; 10^±13 in f32), so that squares neither overflow nor underflow"],
            subs: vec![
                sub(
                    "C08/curve-distance",
                    |t| {
                        let c = gen_dist(t);
                        big(t, c)
                    },
                    c08,
                    12_000,
                    90,
                ),
                sub(
                    "C08/ends",
                    |t| {
                        let c = gen_dist_ends(t);
                        big(t, c)
                    },
                    c08,
                    12_000,
                    90,
                ),
            ],
        },
        Prop {
            id: "C09",
            rule: "at least three control points, not collinear by construction, and at least two steps",
            assumptions: &["coordinates within 10^±135 (f64; 10^±13 in f32), so that squares neither overflow nor underflow"],
            subs: vec![sub(
                "C09/arclen",
                |t| {
                    let c = gen_arclen(t);
                    big(t, c)
                },
                c09,
                25_000,
                80,
            )],
        },
        Prop {
            id: "C10",
            rule: "the decision is not within rounding of its threshold and not all control points coincide",
            assumptions: &["coordinates within 10^±135 (f64; 10^±13 in f32), so that squares neither overflow nor underflow"],
            subs: vec![
                sub(
                    "C10/is-linear",
                    |t| {
                        let c = gen_lin(t);
                        big(t, c)
                    },
                    c10_linear,
                    50_000,
                    70,
                ),
                sub(
                    "C10/is-a-point",
                    |t| {
                        let c = gen_pointlike(t);
                        big(t, c)
                    },
                    c10_point,
                    40_000,
                    70,
                ),
            ],
        },
    ]
}
/// Now and then the whole case (points, query point, tolerance) at an extreme scale, so that squares just stay in range.
pub fn big(t: &mut Tape, mut c: Case) -> Case {
    if t.below(16) == 15 {
        let f = 10f64.powi(t.irange(-EXP_HUGE, EXP_HUGE));
        let (lim, m) = (10f64.powi(EXP_HUGE), all_max(&c.pts).max(absmax(&c.q)).max(c.tol) * f);
        let least = c.pts.iter().flatten().filter(|x| **x != 0.0).fold(f64::INFINITY, |a: f64, x| a.min(x.abs())) * f;
        if m < lim && least > 1.0 / lim {
            c.pts.iter_mut().flatten().chain(c.q.iter_mut()).for_each(|x| *x = rnd(*x * f));
            c.tol = rnd(c.tol * f);
            c.labels.push(if f > 1.0 { "scale:huge" } else { "scale:tiny" }.into());
        }
    }
    c
}
pub fn big_curve(t: &mut Tape, kinds: &[usize], nt: usize) -> Case {
    let c = gen_curve(t, kinds, nt);
    big(t, c)
}
fn inner(t: &[f64]) -> bool {
    t.iter().any(|x| *x > 0.0 && *x < 1.0)
}

// ------------------------------------------------------------------ C01, C02
fn gen_high(t: &mut Tape) -> Case {
    let dim = [2, 1][t.weighted(&[5, 1])];
    let n = if t.below(3) == 2 { large_n(dim)[t.below(large_n(dim).len())] } else { t.range(8, max_n(dim)) };
    t.extend();
    let ts = (0..3).map(|_| t.param()).collect();
    let (pts, l) = t.polygon(n, dim);
    Case { kind: BEZIER, n, dim, pts, t: ts, labels: vec![format!("n:{n}"), l.into()], ..Case::default() }
}
pub fn c01(c: &Case) -> Res {
    let cv = curve(BEZIER, &c.pts);
    let s = scales(&c.pts);
    let deg = c.pts.len() - 1;
    for &t in c.t.iter().chain(&[0.0, 1.0]) {
        let want = bern_point(&c.pts, t);
        close_pt(&format!("eval({t:?})"), &cv.eval(t), &want, |k| tol(deg, s[k]))?;
        for (name, got) in cv.evals(t) {
            close_pt(&format!("{name}({t:?})"), &got, &want, |k| tol(deg, s[k]))?;
        }
    }
    meta(c.pts.len() >= 3 && !degenerate(&c.pts) && inner(&c.t), &[])
}
pub fn c02(c: &Case) -> Res {
    let cv = curve(c.kind, &c.pts);
    let s = scales(&c.pts);
    let deg = c.pts.len() - 1;
    for &t in c.t.iter().chain(&[0.0, 1.0]) {
        let want = bern_point(&c.pts, t);
        close_pt(&format!("eval({t:?})"), &cv.eval(t), &want, |k| tol(deg, s[k]))?;
        for (name, got) in cv.evals(t) {
            close_pt(&format!("{name}({t:?})"), &got, &want, |k| tol(deg, s[k]))?;
        }
    }
    meta(!degenerate(&c.pts) && inner(&c.t), &[])
}

// ------------------------------------------------------------------ C03
fn same_kind(a: &dyn Curve, b: &dyn Curve) -> Result<(), String> {
    ensure(a.kind() == b.kind(), || format!("split of a {} gives a {}", a.kind(), b.kind()))
}
pub fn c03_one(c: &Case) -> Res {
    let cv = curve(c.kind, &c.pts);
    let s = scales(&c.pts);
    let n = c.pts.len();
    let (t, u) = (c.t[0], c.t[1]);
    let (l, r) = cv.split(t);
    same_kind(&*cv, &*l)?;
    same_kind(&*cv, &*r)?;
    let (wl, wr) = split(&c.pts, t);
    close_pts(&format!("left of split({t:?})"), &l.points(), &wl, |k| tol(n, s[k]))?;
    close_pts(&format!("right of split({t:?})"), &r.points(), &wr, |k| tol(n, s[k]))?;
    // the same, through evaluation
    let at = |u: f64| bern_point(&c.pts, u);
    let tl = |k: usize| 2.0 * tol(n, s[k]);
    close_pt("left end", &l.eval(1.0), &at(t), tl)?;
    close_pt("right start", &r.eval(0.0), &at(t), tl)?;
    close_pt("left start", &l.eval(0.0), &c.pts[0], tl)?;
    close_pt("right end", &r.eval(1.0), &c.pts[n - 1], tl)?;
    close_pt(&format!("left.eval({u:?})"), &l.eval(u), &bern_point(&wl, u), tl)?;
    close_pt(&format!("right.eval({u:?})"), &r.eval(u), &bern_point(&wr, u), tl)?;
    meta(n >= 2 && !degenerate(&c.pts) && t > 0.0 && t < 1.0, &[])
}
fn gen_nested(t: &mut Tape) -> Case {
    let mut c = gen_curve(t, &[LINE, QUAD, CUBIC, BEZIER, SEGMENT], 0);
    let m = t.range(2, 8);
    for _ in 0..m {
        let side = t.below(2);
        let p = t.param();
        c.ops.push((side, 0, p, 0));
    }
    c
}
pub fn c03_nested(c: &Case) -> Res {
    let s = scales(&c.pts);
    let n = c.pts.len();
    let mut cur = curve(c.kind, &c.pts);
    let mut want = c.pts.clone();
    let (mut live, mut depth) = (false, 0.0);
    for (side, _, t, _) in &c.ops {
        let (l, r) = cur.split(*t);
        let (wl, wr) = split(&want, *t);
        depth += 1.0;
        close_pts("nested split, left", &l.points(), &wl, |k| depth * tol(n, s[k]))?;
        close_pts("nested split, right", &r.points(), &wr, |k| depth * tol(n, s[k]))?;
        live |= *t > 0.0 && *t < 1.0;
        (cur, want) = if *side == 0 { (l, wl) } else { (r, wr) };
        same_kind(&*cur, &*curve(c.kind, &c.pts))?;
    }
    meta(live && n >= 2 && !degenerate(&c.pts), &[])
}

// ------------------------------------------------------------------ C04
fn gen_deriv(t: &mut Tape) -> Case {
    let mut c = gen_curve(t, &[LINE, QUAD, CUBIC, BEZIER], 3);
    c.steps = t.range(1, 4);
    c
}
pub fn c04(c: &Case) -> Res {
    if c.pts.len() < 2 {
        return meta(false, &[]);
    }
    let mut s = scales(&c.pts);
    let n = c.pts.len();
    let mut cur = curve(c.kind, &c.pts);
    let mut want = c.pts.clone();
    let mut order = 0;
    for _ in 0..c.steps.min(n - 1) {
        let Some(d) = cur.derivative() else { break };
        want = hodograph(&want);
        for x in s.iter_mut() {
            *x *= 2.0 * want.len() as f64;
        }
        order += 1;
        cur = d;
        ensure(cur.points().len() == want.len(), || format!("derivative of order {order} has {} control points, want {}", cur.points().len(), want.len()))?;
        for &t in c.t.iter().chain(&[0.0, 1.0]) {
            let w = bern_point(&want, t);
            close_pt(&format!("derivative of order {order} at {t:?}"), &cur.eval(t), &w, |k| tol(n, s[k]))?;
            for (name, g) in cur.evals(t) {
                close_pt(&format!("derivative of order {order}, {name} at {t:?}"), &g, &w, |k| tol(n, s[k]))?;
            }
        }
    }
    meta(!degenerate(&c.pts) && inner(&c.t), if order > 1 { &["order>1"] } else { &[] })
}
pub fn c04_dd(c: &Case) -> Res {
    let cv = curve(c.kind, &c.pts);
    let h = hodograph(&c.pts);
    let n = c.pts.len();
    for &t in c.t.iter().chain(&[0.0, 1.0]) {
        let w = bern_point(&h, t);
        for k in 0..c.dim {
            let g = cv.dd(t, k).unwrap();
            close(&format!("dd({t:?}, {k})"), g, w[k], tol(n, 2.0 * hodo_scale(&c.pts, k)))?;
        }
    }
    meta(!degenerate(&c.pts) && inner(&c.t), &[])
}

// ------------------------------------------------------------------ C05, C06
fn gen_box(t: &mut Tape) -> Case {
    big_curve(t, &[LINE, QUAD, CUBIC, QUAD, CUBIC, CUBIC], 0)
}
/// Curves whose derivative is (almost) of lower degree, has (almost) double roots, or roots close to an end.
fn gen_box_deg(t: &mut Tape) -> Case {
    let kind = [QUAD, CUBIC][t.below(2)];
    let n = kind + 2;
    let dim = gen_dim(t);
    let mut pts = vec![vec![0.0; dim]; n];
    let mut labels = vec![KINDS[kind].into()];
    for k in 0..dim {
        let style = t.below(4);
        let mut col: Vec<f64> = match style {
            0 | 1 => {
                // prescribed roots of the derivative
                labels.push("box:prescribed-roots".to_string());
                let root = |t: &mut Tape| match t.below(4) {
                    0 => t.param(),
                    1 => 2f64.powi(-(t.range(1, if IS32 { 12 } else { 30 }) as i32)),
                    2 => 1.0 - 2f64.powi(-(t.range(1, if IS32 { 12 } else { 30 }) as i32)),
                    _ => t.sym() * 10f64.powi(t.irange(-1, if IS32 { 4 } else { 12 })),
                };
                let r1 = root(t);
                let r2 = match t.below(3) {
                    0 => root(t),
                    1 => r1,
                    _ => r1 + t.sym() * 10f64.powi(-t.irange(1, if IS32 { 6 } else { 14 }).abs()),
                };
                let g = t.sym() * 8.0;
                // Bernstein coefficients of the derivative
                let d: Vec<f64> = if kind == QUAD { vec![g * (0.0 - r1), g * (1.0 - r1)] } else { vec![g * r1 * r2, g * (r1 * r2 - (r1 + r2) / 2.0), g * (1.0 - r1) * (1.0 - r2)] };
                let mut v = vec![t.irange(-4, 4) as f64];
                for x in &d {
                    v.push(v[v.len() - 1] + x / d.len() as f64);
                }
                v
            }
            2 => {
                // lower degree, elevated, with rounding-size noise
                labels.push("box:nearly-elevated".to_string());
                let m = t.range(1, n - 1);
                let mut q: Pts = (0..m).map(|_| vec![t.irange(-100, 100) as f64 / 10.0]).collect();
                while q.len() < n {
                    q = elevate(&q);
                }
                q.iter()
                    .map(|v| {
                        let noise = match t.below(3) {
                            0 => 0.0,
                            1 => t.sym() * 2f64.powi(-(t.range(10, if IS32 { 24 } else { 53 }) as i32)),
                            _ => t.irange(-3, 3) as f64 * EPS * v[0].abs(),
                        };
                        v[0] + noise
                    })
                    .collect()
            }
            _ => {
                labels.push("box:few-values".to_string());
                (0..n).map(|_| t.irange(-2, 2) as f64).collect()
            }
        };
        if t.below(3) == 2 {
            let e = t.irange(-EXP_WIDE / 2, EXP_WIDE / 2);
            col.iter_mut().for_each(|x| *x *= 10f64.powi(e));
        }
        for i in 0..n {
            pts[i][k] = rnd(col[i]);
        }
    }
    Case { kind, n, dim, pts, labels, ..Case::default() }
}
fn box_tol(c: &[f64]) -> f64 {
    64.0 * EPS * c.len() as f64 * absmax(c) + 1024.0 * F::MIN_POSITIVE as f64
}
pub fn c05(c: &Case) -> Res {
    let bb = curve(c.kind, &c.pts).bbox().unwrap();
    ensure(bb.len() == c.dim, || format!("{} axes in the box", bb.len()))?;
    let mut interior = false;
    for k in 0..c.dim {
        let a = axis(&c.pts, k);
        let tl = box_tol(&a);
        let (_, lo) = poly_min(&a, tl / 16.0);
        let (_, hi) = poly_max(&a, tl / 16.0);
        ensure(bb[k].0 <= lo + tl, || format!("axis {k}: the curve reaches down to {lo:?}, the box only to {:?} (excess {:e}, allowed {tl:e})", bb[k].0, bb[k].0 - lo))?;
        ensure(bb[k].1 >= hi - tl, || format!("axis {k}: the curve reaches up to {hi:?}, the box only to {:?} (excess {:e}, allowed {tl:e})", bb[k].1, hi - bb[k].1))?;
        let (e0, e1) = (a[0].min(a[a.len() - 1]), a[0].max(a[a.len() - 1]));
        interior |= lo < e0 - tl || hi > e1 + tl;
    }
    meta(interior, &[])
}
pub fn c06(c: &Case) -> Res {
    let bb = curve(c.kind, &c.pts).bbox().unwrap();
    ensure(bb.len() == c.dim, || format!("{} axes in the box", bb.len()))?;
    let mut extent = false;
    for k in 0..c.dim {
        let a = axis(&c.pts, k);
        let tl = box_tol(&a);
        let (lo, _) = poly_min(&a, tl / 16.0);
        let (hi, _) = poly_max(&a, tl / 16.0);
        ensure(bb[k].0 <= bb[k].1, || format!("axis {k}: min {:?} > max {:?}", bb[k].0, bb[k].1))?;
        ensure(bb[k].0 >= lo - tl, || format!("axis {k}: the curve never goes below {lo:?}, the box says {:?} (excess {:e}, allowed {tl:e})", bb[k].0, lo - bb[k].0))?;
        ensure(bb[k].1 <= hi + tl, || format!("axis {k}: the curve never goes above {hi:?}, the box says {:?} (excess {:e}, allowed {tl:e})", bb[k].1, bb[k].1 - hi))?;
        extent |= bb[k].1 > bb[k].0;
    }
    meta(extent, &[])
}

// ------------------------------------------------------------------ C07
fn gen_seg_dist(t: &mut Tape) -> Case {
    let dim = gen_dim(t);
    let (pts, l) = t.polygon(2, dim);
    let mut labels = vec![format!("dim:{dim}"), l.to_string()];
    let q = if t.below(3) == 0 {
        let (q, l) = t.query_point(&pts);
        labels.push(l.to_string());
        q
    } else {
        // foot at a chosen parameter (inside or outside), plus an offset
        let f = match t.below(4) {
            0 => t.param(),
            1 => 1.0 + t.unit() * 3.0,
            2 => -t.unit() * 3.0,
            _ => t.irange(-8, 16) as f64 / 8.0,
        };
        labels.push(
            if f < 0.0 {
                "foot:before"
            } else if f > 1.0 {
                "foot:beyond"
            } else {
                "foot:inside"
            }
            .to_string(),
        );
        let g = [0.0, 1.0, 0.01, 10.0][t.below(4)];
        let len = dist(&pts[0], &pts[1]);
        (0..dim).map(|k| rnd(pts[0][k] + (pts[1][k] - pts[0][k]) * f + g * len * t.sym())).collect()
    };
    Case { kind: LINE, n: 2, dim, pts, q, labels, ..Case::default() }
}
pub fn seg_tol(dim: usize, m: f64) -> f64 {
    64.0 * EPS * (dim as f64 + 2.0) * m + 64.0 * (F::MIN_POSITIVE as f64).sqrt()
}
pub fn c07(c: &Case) -> Res {
    let got = curve(LINE, &c.pts).dist(&c.q).unwrap();
    let want = seg_dist(&c.pts[0], &c.pts[1], &c.q);
    let len = dist(&c.pts[0], &c.pts[1]);
    let m = all_max(&c.pts).max(absmax(&c.q));
    let mut tl = seg_tol(c.dim, m);
    let small = len * len < 1.01 * EPS;
    if small {
        tl += len; // may be treated as a point
    }
    close("distance to the segment", got, want, tl)?;
    meta(len > 0.0 && want > tl, if small { &["below-epsilon-length"] } else { &[] })
}

// ------------------------------------------------------------------ C08
fn gen_dist(t: &mut Tape) -> Case {
    let mut c = gen_curve(t, &[QUAD, CUBIC, BEZIER], 0);
    let (q, l) = t.query_point(&c.pts);
    c.q = q;
    c.labels.push(l.into());
    c
}
/// query points whose nearest curve point is at or near an end, or near a sample
fn gen_dist_ends(t: &mut Tape) -> Case {
    let mut c = gen_curve(t, &[QUAD, CUBIC, BEZIER], 0);
    let n = c.pts.len();
    let at = match t.below(4) {
        0 => 1.0 - t.unit() / 32.0,
        1 => t.unit() / 32.0,
        2 => ((t.below(64) as f64) + t.unit()) / 64.0,
        _ => [0.0, 1.0][t.below(2)],
    };
    let p = bern_point(&c.pts, at);
    let h = if n > 1 { bern_point(&hodograph(&c.pts), at) } else { vec![0.0; c.dim] };
    let g = [0.0, 0.0, 1e-3, 0.1, 1.0, if IS32 { 1e-4 } else { 10f64.powi(-t.irange(4, 10)) }][t.below(6)];
    let out = if at > 0.5 { g } else { -g };
    // along the tangent, and sideways in the plane of the first two axes
    let side = t.sym() * g;
    c.q = (0..c.dim)
        .map(|k| {
            let perp = if c.dim > 1 && k == 0 {
                -h[1]
            } else if c.dim > 1 && k == 1 {
                h[0]
            } else {
                0.0
            };
            rnd(p[k] + out * h[k] * t.unit() + side * perp)
        })
        .collect();
    c.labels.push("q:at-end-or-between-samples".into());
    c
}
/// squared-distance rounding allowance
pub fn dist_tol2(p: &[Vec<f64>], q: &[f64]) -> f64 {
    let n = p.len() as f64;
    let s2 = p.iter().map(|v| dist(v, q).powi(2)).fold(0.0, f64::max);
    let m = all_max(p).max(absmax(q));
    let e = 64.0 * EPS * (n + 2.0);
    e * (s2 + m * s2.sqrt()) + (e * m).powi(2) + 64.0 * F::MIN_POSITIVE as f64
}
pub fn c08(c: &Case) -> Res {
    let got = curve(c.kind, &c.pts).dist(&c.q).unwrap();
    ensure(got.is_finite() && got >= 0.0, || format!("distance {got:?}"))?;
    let tol2 = dist_tol2(&c.pts, &c.q);
    let got2 = got * got;
    let deg = c.pts.len() - 1;
    let f = dist2_coefs(&c.pts, &c.q);
    // never below the true minimum
    let (lower, attained) = poly_min(&f, tol2 / 4.0);
    ensure(got2 >= lower - 2.0 * tol2, || format!("distance {got:?} is below the true minimum {:?}", lower.max(0.0).sqrt()))?;
    // never above any sample
    let val = |t: f64| dist(&bern_point(&c.pts, t), &c.q).powi(2);
    let samples: Vec<f64> = (0..=64).map(|i| val(i as f64 / 64.0)).collect();
    let best = samples.iter().cloned().fold(f64::INFINITY, f64::min);
    ensure(got2 <= best + 2.0 * tol2, || {
        let i = samples.iter().position(|x| *x == best).unwrap();
        format!("distance {got:?}, but the curve point at t={i}/64 is at distance {:?} (true minimum {:?})", best.sqrt(), attained.max(0.0).sqrt())
    })?;
    // and refined in the window around the nearest sample (all samples within rounding of the nearest are eligible)
    let speed = deg as f64 * longest_leg(&c.pts);
    let mut worst: f64 = 0.0;
    for i in 0..=64 {
        if samples[i] <= best + 4.0 * tol2 {
            let t = i as f64 / 64.0;
            let (a, b) = ((t - 1.0 / 128.0).max(0.0), (t + 1.0 / 128.0).min(1.0));
            let (_, m) = poly_min(&restrict(&f, a, b), tol2 / 4.0);
            worst = worst.max(m.max(0.0));
        }
    }
    let bound = ((worst + 2.0 * tol2).sqrt() + speed / 8192.0).powi(2) + 2.0 * tol2;
    ensure(got2 <= bound, || format!("distance {got:?}, but the minimum around the nearest sample is {:?} and the resolution is {:?}", worst.sqrt(), speed / 8192.0))?;
    meta(c.pts.len() > 1 && !degenerate(&c.pts) && attained > 4.0 * tol2, &[])
}

// ------------------------------------------------------------------ C09
pub fn gen_steps(t: &mut Tape) -> usize {
    match t.weighted(&[3, 3, 2, 1]) {
        0 => t.range(1, 4),
        1 => t.range(1, 20),
        2 => t.range(1, 64),
        _ => match t.weighted(&[240, 20, 1]) {
            0 => t.range(1, 300),
            1 => t.range(300, 3000),
            // beyond 8- and 16-bit counters
            _ => [65_535, 65_536, 65_537, 70_000][t.below(4)],
        },
    }
}
fn gen_arclen(t: &mut Tape) -> Case {
    let mut c = gen_curve(t, &[QUAD, CUBIC, BEZIER], 0);
    c.steps = gen_steps(t);
    c
}
pub fn flatten(p: &[Vec<f64>], n: usize) -> f64 {
    let mut a = bern_point(p, 0.0);
    let mut s = 0.0;
    for i in 1..=n {
        let b = bern_point(p, i as f64 / n as f64);
        s += dist(&a, &b);
        a = b;
    }
    s
}
pub fn arclen_tol(p: &[Vec<f64>], n: usize) -> f64 {
    let deg = p.len() as f64 - 1.0;
    let speed = deg * longest_leg(p);
    32.0 * EPS * (n as f64 + 2.0) * (deg + 2.0) * (all_max(p) * p[0].len() as f64 + speed) + 64.0 * (n as f64 + 2.0) * (F::MIN_POSITIVE as f64).sqrt()
}
pub fn c09(c: &Case) -> Res {
    let got = curve(c.kind, &c.pts).arclen(c.steps).unwrap();
    let want = flatten(&c.pts, c.steps);
    let tl = arclen_tol(&c.pts, c.steps);
    close(&format!("arclen({})", c.steps), got, want, tl)?;
    meta(c.pts.len() > 2 && c.steps > 1 && want > 4.0 * tl, &[])
}

// ------------------------------------------------------------------ C10
pub fn gen_lin(t: &mut Tape) -> Case {
    let mut c = gen_curve(t, &[QUAD, CUBIC], 1);
    let n = c.pts.len();
    if t.below(6) == 5 {
        exact_lattice(t, &mut c);
        return c;
    }
    if t.below(2) == 1 {
        // inner control points on the line through the ends, possibly beyond them, with a controlled offset
        let len = dist(&c.pts[0], &c.pts[n - 1]);
        let g = [0.0, 1e-6, 1e-2, 0.5][t.below(4)];
        for i in 1..n - 1 {
            let f = t.irange(-8, 16) as f64 / 8.0;
            for k in 0..c.dim {
                c.pts[i][k] = rnd(c.pts[0][k] + (c.pts[n - 1][k] - c.pts[0][k]) * f + g * len * t.sym());
            }
        }
        c.labels.push("inner:near-baseline".into());
    }
    let ds: Vec<f64> = (1..n - 1).map(|i| seg_dist(&c.pts[0], &c.pts[n - 1], &c.pts[i])).collect();
    let d = ds[t.below(ds.len())];
    c.tol = rnd(match t.below(6) {
        0 => 0.0,
        1 => d * 0.9,
        2 => d * 1.1,
        3 => d * (1.0 + t.sym() * 0.01),
        4 => d * t.unit() * 3.0,
        _ => 10f64.powi(t.irange(-EXP_MID, EXP_MID)),
    });
    c
}
/// Points on a dyadic lattice around a baseline of length 2^k along one axis, and a tolerance on it: every quantity the
/// predicates need is exact, so decisions at tolerance 0 and at exact ties are not within rounding of anything.
fn exact_lattice(t: &mut Tape, c: &mut Case) {
    let n = c.pts.len();
    let a = t.below(c.dim);
    let o = t.below(c.dim);
    let len = 2f64.powi(t.irange(-2, 4)) * if t.below(2) == 0 { 1.0 } else { -1.0 };
    let s: Vec<f64> = (0..c.dim).map(|_| t.irange(-8, 8) as f64).collect();
    for p in c.pts.iter_mut() {
        p.clone_from(&s);
    }
    c.pts[n - 1][a] += len;
    let q = t.below(3);
    for i in 1..n - 1 {
        c.pts[i][a] += len * t.irange(0, 8) as f64 / 8.0;
        if o != a && q > 0 {
            c.pts[i][o] += t.irange(-4, 4) as f64 / 4.0;
        }
    }
    c.tol = match t.below(3) {
        0 => 0.0,
        _ => t.below(6) as f64 / 4.0,
    };
    c.labels.push("exact".into());
}
/// whether every quantity the flatness predicates need is exact: see `exact_lattice`
pub fn exact(p: &[Vec<f64>], tolerance: f64, line: bool) -> bool {
    let (range, unit) = if IS32 { (32.0, 32.0) } else { (64.0, 512.0) };
    let grid = |x: f64| x.abs() <= range && (x * unit).fract() == 0.0;
    if !grid(tolerance) || !p.iter().flatten().all(|x| grid(*x)) {
        return false;
    }
    let axes = |a: &[f64], b: &[f64]| -> Vec<usize> { (0..a.len()).filter(|k| a[*k] != b[*k]).collect() };
    let s = &p[0];
    let last = &p[p.len() - 1];
    let b = axes(s, last);
    if !line {
        let mut all: Vec<usize> = p.iter().flat_map(|q| axes(s, q)).collect();
        all.sort();
        all.dedup();
        return all.len() <= 1;
    }
    if b.len() != 1 {
        return false;
    }
    let len = (last[b[0]] - s[b[0]]).abs();
    len >= 0.25 && len.log2().fract() == 0.0 && p.iter().all(|q| axes(s, q).iter().filter(|k| **k != b[0]).count() <= 1)
}
/// Some(decision) of is_linear, or None when it is within rounding of a threshold
pub fn linear_ref(p: &[Vec<f64>], tolerance: f64) -> Option<bool> {
    let n = p.len();
    let e = dist(&p[0], &p[n - 1]);
    let band = if IS32 { 1e-4 } else { 1e-9 };
    if (e * e - EPS).abs() <= band * EPS {
        return None;
    }
    if e * e < EPS {
        return Some(false);
    }
    let exact = exact(p, tolerance, true);
    let tl = if exact { 0.0 } else { seg_tol(p[0].len(), all_max(p)) + EPS * tolerance };
    let mut near = false;
    for q in &p[1..n - 1] {
        let d = seg_dist(&p[0], &p[n - 1], q);
        if d > tolerance + tl {
            return Some(false);
        }
        near |= !exact && d > tolerance - tl;
    }
    if near {
        None
    } else {
        Some(true)
    }
}
pub fn c10_linear(c: &Case) -> Res {
    let cv = curve(c.kind, &c.pts);
    let n = c.pts.len();
    // baseline
    let b = cv.baseline().unwrap();
    ensure(b.points() == vec![c.pts[0].clone(), c.pts[n - 1].clone()], || format!("baseline {:?}", b.points()))?;
    let got = cv.is_linear(c.tol).unwrap();
    if let Some(w) = linear_ref(&c.pts, c.tol) {
        ensure(got == w, || {
            let ds: Vec<f64> = (1..n - 1).map(|i| seg_dist(&c.pts[0], &c.pts[n - 1], &c.pts[i])).collect();
            format!("is_linear({:?}) = {got}, inner control points at distances {ds:?} from the baseline of length {:?}", c.tol, dist(&c.pts[0], &c.pts[n - 1]))
        })?;
        if got {
            let p = cv.eval(c.t[0]);
            let d = seg_dist(&c.pts[0], &c.pts[n - 1], &p);
            let tl = seg_tol(c.dim, all_max(&c.pts));
            ensure(d <= c.tol + tl, || format!("is_linear({:?}), but the curve point at {:?} is {d:?} away from the baseline", c.tol, c.t[0]))?;
        }
        return meta(!degenerate(&c.pts), if got { &["linear"] } else { &["not-linear"] });
    }
    meta(false, &["near-threshold"])
}
pub fn gen_pointlike(t: &mut Tape) -> Case {
    let mut c = gen_curve(t, &[QUAD, CUBIC], 0);
    if t.below(6) == 5 {
        // on a dyadic lattice, differing in one axis: every squared distance is exact
        let a = t.below(c.dim);
        let g = 2f64.powi(t.irange(-6, 3));
        let s: Vec<f64> = (0..c.dim).map(|_| t.irange(-8, 8) as f64).collect();
        for p in c.pts.iter_mut() {
            p.clone_from(&s);
            p[a] += g * t.irange(0, 3) as f64;
        }
        c.tol = g * t.below(4) as f64;
        c.labels.push("exact".into());
        return c;
    }
    if t.below(3) > 0 {
        // a cluster
        let a = c.pts[0].clone();
        let g = 10f64.powi(t.irange(-3, 2));
        for p in c.pts.iter_mut().skip(1) {
            for k in 0..c.dim {
                p[k] = rnd(a[k] + g * t.sym());
            }
        }
        // one of the points further out
        if t.below(2) == 1 {
            let i = t.below(c.n);
            let f = 1.0 + 8.0 * t.unit();
            for k in 0..c.dim {
                c.pts[i][k] = rnd(a[k] + (c.pts[i][k] - a[k]) * f + g * t.sym());
            }
        }
        c.labels.push("cluster".into());
    }
    let mut dm: f64 = 0.0;
    for i in 0..c.n {
        for j in 0..i {
            dm = dm.max(dist(&c.pts[i], &c.pts[j]));
        }
    }
    c.tol = rnd(match t.below(6) {
        0 => 0.0,
        1 => dm * 1.01,
        2 => dm * 0.33,
        3 => dm * t.unit() * 2.0,
        4 => dm * (1.0 + t.unit()),
        _ => dm * t.unit() / 3.0,
    });
    c
}
pub fn c10_point(c: &Case) -> Res {
    let cv = curve(c.kind, &c.pts);
    let got = cv.is_a_point(c.tol).unwrap();
    let (mut dmax, n): (f64, usize) = (0.0, c.pts.len());
    for i in 0..n {
        for j in 0..i {
            dmax = dmax.max(dist(&c.pts[i], &c.pts[j]));
        }
    }
    let tl = if exact(&c.pts, c.tol, false) { 0.0 } else { 16.0 * EPS * (c.dim as f64 + 2.0) * dmax + (F::MIN_POSITIVE as f64).sqrt() };
    let yes = dmax + tl <= c.tol || dmax == 0.0;
    let no = dmax - tl > 3.0 * c.tol;
    ensure(!(yes && !got), || format!("is_a_point({:?}) = false, but all control points are within {dmax:?} of each other", c.tol))?;
    ensure(!(no && got), || format!("is_a_point({:?}) = true, but two control points are {dmax:?} apart", c.tol))?;
    meta(
        (yes || no) && dmax > 0.0,
        if yes {
            &["must-be-a-point"]
        } else if no {
            &["must-not-be-a-point"]
        } else {
            &["either"]
        },
    )
}
