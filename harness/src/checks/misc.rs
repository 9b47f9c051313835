//! C17, C22, C23, C24: points, histories, allocation, totality.
use super::bsp::*;
use super::*;
use crate::alloc::lib;
use crate::runner::quiet;
use crate::scalar::with_fuel;
use crate::wrap::*;
use std::fmt::Write as _;
use stroke::bspline::BSplineError;
use stroke::{Point, PointN};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            rule: "at least two components, not all equal",
            assumptions: &["dimensions 1 to 9, 16, 17, 33 and 65 stand for all"],
            subs: vec![sub("C17/arithmetic", gen_point, c17, 80_000, 60), sub("C17/squared-length", gen_len, c17_len, 40_000, 40), sub("C17/integers", gen_int, c17_int, 20_000, 40)],
        },
        Prop {
            id: "C22",
            rule:
                "at least one in-place edit followed by a query (specialised curves: control points not all equal; B-splines: queries of at least two different splines, one of them derived or copied)",
            assumptions: &[],
            subs: vec![sub("C22/history", gen_hist, c22, 12_000, 400), sub("C22/specialised", gen_spec, c22_spec, 30_000, 60), sub("C22/bspline", gen_bs_hist, c22_bs, 12_000, 500)],
        },
        Prop {
            id: "C23",
            rule: "at least two control points, not all equal",
            assumptions: &["allocations are counted per thread by a counting global allocator around every call into the library"],
            subs: vec![sub("C23/bezier", gen_panel, c23_bez, 15_000, 100), sub("C23/bezier-any-bits", gen_wild, c23_bez, 10_000, 100), sub("C23/bspline", gen_spline_panel, c23_bs, 12_000, 200), sub("C23/bspline-any-bits", gen_wild_bs, c23_bs, 6_000, 200), sub("C23/points", gen_point, c23_pt, 15_000, 60)],
        },
        Prop {
            id: "C24",
            rule: "coordinates of very different or extreme magnitude, or at least two distinct control points",
            assumptions: &["bounded work is measured over an instrumented scalar type with a limit of 3 million scalar operations per curve plus 10000 per step of its arc length"],
            subs: vec![
                sub("C24/bezier-any-bits", gen_wild, c24_bez, 30_000, 90),
                sub("C24/bezier-finite", gen_moderate, c24_finite, 25_000, 100),
                sub("C24/bspline-any-bits", gen_wild_bs, c24_bs, 25_000, 200),
                sub("C24/bspline-finite", gen_spline_panel, c24_bs_finite, 12_000, 200),
            ],
        },
    ]
}

// ------------------------------------------------------------------ C17
const DIMS: [usize; 13] = [1, 2, 3, 4, 5, 6, 9, 16, 7, 8, 17, 33, 65];
fn any_dim(t: &mut Tape) -> usize {
    let d = DIMS[t.weighted(&[6, 6, 6, 6, 4, 4, 4, 4, 4, 4, 2, 1, 1])];
    if d > 16 {
        t.extend();
    }
    d
}
fn any_value(t: &mut Tape) -> f64 {
    match t.weighted(&[4, 3, 1, 1, 1, 1, 1]) {
        0 => t.irange(-20, 20) as f64,
        1 => rnd(t.sym() * 10f64.powi(t.irange(-12, 12))),
        2 => F::from_bits(t.next() as _) as f64,
        3 => [0.0, -0.0][t.below(2)],
        4 => [f64::INFINITY, f64::NEG_INFINITY][t.below(2)],
        5 => f64::NAN,
        _ => [F::MAX as f64, -(F::MAX as f64), F::MIN_POSITIVE as f64][t.below(3)],
    }
}
fn gen_point(t: &mut Tape) -> Case {
    let dim = any_dim(t);
    let p: Vec<f64> = (0..dim).map(|_| any_value(t)).collect();
    let q: Vec<f64> = match t.below(3) {
        0 => p.clone(),
        1 => {
            let mut v = p.clone();
            let i = t.below(dim);
            v[i] = any_value(t);
            v
        }
        _ => (0..dim).map(|_| any_value(t)).collect(),
    };
    let s = any_value(t);
    Case { dim, pts: vec![p], pts2: vec![q], tol: s, idx: t.below(dim), labels: vec![format!("dim:{dim}")], ..Case::default() }
}
/// equal as values of the native float: bit-identical, or both NaN
fn same(a: F, b: F) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn c17(c: &Case) -> Res {
    fn go<const N: usize>(c: &Case) -> Result<(), String> {
        let a: [F; N] = std::array::from_fn(|i| c.pts[0][i] as F);
        let b: [F; N] = std::array::from_fn(|i| c.pts2[0][i] as F);
        let s = c.tol as F;
        let (p, q) = (PointN::new(a), PointN::new(b));
        let chk = |what: &str, got: PointN<F, N>, want: [F; N]| -> Result<(), String> {
            let mut n = 0;
            for (i, x) in got.into_iter().enumerate() {
                n += 1;
                if i >= N || !same(x, want[i]) {
                    return Err(format!("{what}: component {i} is {x:?}, want {:?}", want.get(i)));
                }
            }
            ensure(n == N, || format!("{what}: {n} components"))
        };
        chk("new", p, a)?;
        chk(
            "clone",
            #[allow(clippy::clone_on_copy)]
            p.clone(),
            a,
        )?;
        chk("point + point", p + q, std::array::from_fn(|i| a[i] + b[i]))?;
        chk("point - point", p - q, std::array::from_fn(|i| a[i] - b[i]))?;
        chk("point + scalar", p + s, std::array::from_fn(|i| a[i] + s))?;
        chk("point - scalar", p - s, std::array::from_fn(|i| a[i] - s))?;
        chk("point * scalar", p * s, std::array::from_fn(|i| a[i] * s))?;
        chk("default", PointN::<F, N>::default(), [0.0; N])?;
        ensure(<PointN<F, N> as Point>::DIM == N, || "DIM".into())?;
        for i in 0..N {
            ensure(same(p.axis(i), a[i]), || format!("axis({i}) = {:?}, want {:?}", p.axis(i), a[i]))?;
        }
        for bad in [N, N + 1, N + 7, usize::MAX] {
            ensure(quiet(|| p.axis(bad)).is_err(), || format!("axis({bad}) of a point of dimension {N} does not panic"))?;
        }
        let eq = (0..N).all(|i| a[i] == b[i]);
        ensure((p == q) == eq, || format!("{a:?} == {b:?} is {}", p == q))?;
        ensure((p != q) == !eq, || format!("{a:?} != {b:?} is {}", p != q))?;
        // mutable iteration: assign one component, then all
        let mut m = p;
        for (i, x) in (&mut m).into_iter().enumerate() {
            if i == c.idx {
                *x = s;
            }
        }
        chk("after assigning one component", m, std::array::from_fn(|i| if i == c.idx { s } else { a[i] }))?;
        let mut k = 0;
        for x in &mut m {
            *x = b[k];
            k += 1;
        }
        ensure(k == N, || format!("mutable iteration over {k} components"))?;
        chk("after assigning all components", m, b)?;
        chk("original after editing a copy", p, a)
    }
    dims(c, [go::<1>, go::<2>, go::<3>, go::<4>, go::<5>, go::<6>, go::<9>, go::<16>, go::<7>, go::<8>, go::<17>, go::<33>, go::<65>])?;
    meta(c.dim > 1 && c.pts[0].iter().any(|x| *x != c.pts[0][0]), &[])
}
fn dims(c: &Case, f: [fn(&Case) -> Result<(), String>; 13]) -> Result<(), String> {
    f[DIMS.iter().position(|d| *d == c.dim).ok_or("harness: dimension")?](c)
}
fn gen_len(t: &mut Tape) -> Case {
    let dim = any_dim(t);
    let (pts, l) = t.polygon(1, dim);
    Case { dim, pts, labels: vec![format!("dim:{dim}"), l.into()], ..Case::default() }
}
fn c17_len(c: &Case) -> Res {
    fn go<const N: usize>(c: &Case) -> Result<(), String> {
        let a: [F; N] = std::array::from_fn(|i| c.pts[0][i] as F);
        let got = PointN::new(a).squared_length() as f64;
        let want: f64 = c.pts[0].iter().map(|x| x * x).sum();
        close("squared_length", got, want, 4.0 * EPS * (N as f64 + 2.0) * want + N as f64 * F::MIN_POSITIVE as f64)
    }
    dims(c, [go::<1>, go::<2>, go::<3>, go::<4>, go::<5>, go::<6>, go::<9>, go::<16>, go::<7>, go::<8>, go::<17>, go::<33>, go::<65>])?;
    meta(c.dim > 1 && c.pts[0].iter().any(|x| *x != c.pts[0][0]), &[])
}
fn gen_int(t: &mut Tape) -> Case {
    let dim = any_dim(t);
    let v = |t: &mut Tape| -> Vec<f64> { (0..dim).map(|_| t.irange(-1000, 1000) as f64).collect() };
    let (p, q) = (v(t), v(t));
    Case { dim, pts: vec![p], pts2: vec![q], tol: t.irange(-50, 50) as f64, ..Case::default() }
}
/// the operators are generic: they work for component types that are not floats
fn c17_int(c: &Case) -> Res {
    fn go<const N: usize>(c: &Case) -> Result<(), String> {
        let a: [i64; N] = std::array::from_fn(|i| c.pts[0][i] as i64);
        let b: [i64; N] = std::array::from_fn(|i| c.pts2[0][i] as i64);
        let s = c.tol as i64;
        let (p, q) = (PointN::new(a), PointN::new(b));
        let arr = |p: PointN<i64, N>| p.into_iter().collect::<Vec<_>>();
        for (what, got, want) in [
            ("+", arr(p + q), a.iter().zip(&b).map(|(x, y)| x + y).collect::<Vec<_>>()),
            ("-", arr(p - q), a.iter().zip(&b).map(|(x, y)| x - y).collect()),
            ("+ scalar", arr(p + s), a.iter().map(|x| x + s).collect()),
            ("- scalar", arr(p - s), a.iter().map(|x| x - s).collect()),
            ("* scalar", arr(p * s), a.iter().map(|x| x * s).collect()),
        ] {
            ensure(got == want, || format!("integer point {what}: {got:?}, want {want:?}"))?;
        }
        ensure((p == q) == (a == b), || format!("{a:?} == {b:?} is {}", p == q))?;
        ensure(p == PointN::new(a), || "not equal to itself".into())
    }
    dims(c, [go::<1>, go::<2>, go::<3>, go::<4>, go::<5>, go::<6>, go::<9>, go::<16>, go::<7>, go::<8>, go::<17>, go::<33>, go::<65>])?;
    meta(c.dim > 1, &[])
}

// ------------------------------------------------------------------ C22
const EDIT: usize = 0;
const EDIT_ALL: usize = 1;
const COPY: usize = 2;
const SPLIT: usize = 3;
const DERIV: usize = 4;
const QUERY: usize = 5;
const ITER: usize = 6;
fn gen_hist(t: &mut Tape) -> Case {
    let dim = [2, 1, 3][t.below(3)];
    let n = match t.weighted(&[60, 8, 1]) {
        0 => t.range(1, 8),
        1 => t.range(1, max_n(dim)),
        _ => {
            let l = large_n(dim);
            l[t.below(l.len())]
        }
    };
    if n * dim > 40 {
        t.extend();
    }
    let (pts, l) = t.polygon(n, dim);
    let (pool, _) = t.polygon(6, dim);
    let m = t.range(3, 30);
    let mut ops = vec![];
    for _ in 0..m {
        let op = [EDIT, QUERY, EDIT_ALL, COPY, SPLIT, DERIV, ITER][t.weighted(&[5, 4, 1, 2, 2, 1, 2])];
        let target = t.below(8);
        let p = t.param();
        let arg = t.below(48);
        ops.push((op, target, p, arg));
    }
    Case { kind: BEZIER, n, dim, pts, pts2: pool, ops, labels: vec![l.into()], ..Case::default() }
}
struct Obj {
    cv: Bx,
    model: Pts,
    /// answers given since the last edit: (what, parameter, answer)
    seen: Vec<(usize, u64, Vec<f64>)>,
}
fn eqb(a: &[Vec<f64>], b: &[Vec<f64>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.iter().map(|v| v.to_bits()).eq(y.iter().map(|v| v.to_bits())))
}
fn ask(cv: &dyn Curve, what: usize, t: f64, dim: usize) -> Vec<f64> {
    match what {
        0 => cv.eval(t),
        1 => cv.arclen(1 + (t * 8.0) as usize).map(|x| vec![x]).unwrap_or_default(),
        2 => cv.dist(&vec![t; dim]).map(|x| vec![x]).unwrap_or_default(),
        3 => {
            let (l, r) = cv.split(t);
            l.points().into_iter().chain(r.points()).flatten().collect()
        }
        _ => cv.derivative().map(|d| d.points().into_iter().flatten().collect()).unwrap_or_default(),
    }
}
fn c22(c: &Case) -> Res {
    let mut objs = vec![Obj { cv: curve(BEZIER, &c.pts), model: c.pts.clone(), seen: vec![] }];
    let (mut edited, mut live) = (false, false);
    for (step, (op, target, t, arg)) in c.ops.iter().enumerate() {
        let i = target % objs.len();
        let at = |s: String| format!("step {step}: {s}");
        match *op {
            EDIT => {
                let k = arg % objs[i].model.len();
                let v = c.pts2[arg % c.pts2.len()].clone();
                ensure(objs[i].cv.edit(k, &v), || at(format!("mutable iteration has no element {k}")))?;
                objs[i].model[k] = v;
                objs[i].seen.clear();
                edited = true;
            }
            EDIT_ALL => {
                let old = objs[i].model.clone();
                let mut bad = None;
                let mut new = vec![];
                let s = c.pts2[arg % c.pts2.len()].clone();
                let n = objs[i].cv.edit_all(&mut |k, p| {
                    if k >= old.len() || p.iter().map(|x| x.to_bits()).ne(old[k].iter().map(|x| x.to_bits())) {
                        bad = Some(k);
                    }
                    let v: Vec<f64> = p.iter().zip(&s).map(|(a, b)| rnd(0.5 * a + b)).collect();
                    new.push(v.clone());
                    v
                });
                ensure(bad.is_none(), || at(format!("mutable iteration yields another control point {bad:?}")))?;
                ensure(n == old.len(), || at(format!("mutable iteration over {n} of {} control points", old.len())))?;
                objs[i].model = new;
                objs[i].seen.clear();
                edited = true;
            }
            COPY => {
                let o = Obj { cv: objs[i].cv.copy(), model: objs[i].model.clone(), seen: vec![] };
                if objs.len() < 8 {
                    objs.push(o);
                }
            }
            SPLIT => {
                let (l, r) = objs[i].cv.split(*t);
                let side = if arg % 2 == 0 { l } else { r };
                if objs.len() < 8 {
                    let model = side.points();
                    objs.push(Obj { cv: side, model, seen: vec![] });
                }
            }
            DERIV => {
                if objs[i].model.len() > 1 && objs.len() < 8 {
                    if let Some(d) = objs[i].cv.derivative() {
                        if d.kind() == "bezier" {
                            let model = d.points();
                            objs.push(Obj { cv: d, model, seen: vec![] });
                        }
                    }
                }
            }
            QUERY => {
                let what = arg % 5;
                let got = ask(&*objs[i].cv, what, *t, c.dim);
                // the same answer as a curve built afresh from the model
                let fresh = ask(&*curve(BEZIER, &objs[i].model), what, *t, c.dim);
                ensure(eqb(&[got.clone()], &[fresh.clone()]), || at(format!("query {what} at {t:?} gives {got:?}, a fresh curve with the same control points gives {fresh:?}")))?;
                objs[i].seen.push((what, t.to_bits(), got));
                live |= edited;
            }
            _ => {
                let p = objs[i].cv.iter_points().unwrap();
                ensure(eqb(&p, &objs[i].model), || at(format!("iteration yields {p:?}, want {:?}", objs[i].model)))?;
            }
        }
        // no operation on one curve affects any other, and repeated queries agree
        for (j, o) in objs.iter().enumerate() {
            let p = o.cv.points();
            ensure(eqb(&p, &o.model), || at(format!("curve {j} has control points {p:?}, want {:?}", o.model)))?;
        }
    }
    for (j, o) in objs.iter().enumerate() {
        for (what, t, v) in &o.seen {
            let g = ask(&*o.cv, *what, f64::from_bits(*t), c.dim);
            ensure(eqb(&[g.clone()], &[v.clone()]), || format!("curve {j}: query {what} repeated later gives {g:?}, before {v:?}"))?;
        }
    }
    meta(live, &[])
}
fn gen_spec(t: &mut Tape) -> Case {
    let mut c = gen_curve(t, &[LINE, QUAD, CUBIC, SEGMENT], 1);
    if t.below(4) == 3 {
        // closed, or with two equal control points somewhere
        let i = if t.below(2) == 0 { c.n - 1 } else { t.below(c.n) };
        c.pts[i] = c.pts[0].clone();
    }
    // change exactly one component, by a lot or by one unit in the last place, or reorder points or components
    let (i, k) = (t.below(c.n), t.below(c.dim));
    c.pts2 = c.pts.clone();
    match t.weighted(&[2, 2, 2, 2, 3, 3, 1, 1, 1]) {
        0 => c.pts2[i][k] = up(c.pts[i][k]),
        1 => c.pts2[i][k] = rnd(c.pts[i][k] + 1.0),
        2 => c.pts2[i][k] = -c.pts[i][k],
        3 => c.pts2[i][k] = 0.0,
        4 => {
            let j = t.below(c.n);
            c.pts2.swap(i, j);
        }
        5 => c.pts2.reverse(),
        6 => c.pts2.rotate_left(i),
        7 => {
            let j = t.below(c.dim);
            c.pts2.iter_mut().for_each(|p| p.swap(k, j));
        }
        _ => c.pts2.iter_mut().flatten().for_each(|x| *x = -*x),
    }
    c
}
fn c22_spec(c: &Case) -> Res {
    let a = curve(c.kind, &c.pts);
    let b = a.copy();
    for x in [&a, &b] {
        ensure(eqb(&x.points(), &c.pts), || format!("control points {:?}", x.points()))?;
        ensure(x.eq_points(&c.pts) == Some(true), || "not equal to a curve with the same control points".into())?;
        let same = c.pts == c.pts2;
        ensure(x.eq_points(&c.pts2) == Some(same), || format!("compared to {:?}: equal = {:?}", c.pts2, x.eq_points(&c.pts2)))?;
    }
    // queries do not change it
    let before = a.eval(c.t[0]);
    let _ = (a.split(c.t[0]), a.bbox(), a.dist(&c.pts[0]), a.arclen(3), a.is_linear(0.1), a.is_a_point(0.1), a.baseline());
    if c.kind != SEGMENT {
        let _ = a.derivative();
    }
    ensure(eqb(&a.points(), &c.pts), || format!("after queries: control points {:?}", a.points()))?;
    ensure(eqb(&[a.eval(c.t[0])], &[before]), || "eval repeated after other queries differs".into())?;
    meta(!degenerate(&c.pts), &[])
}

/// a history over two splines of one shape, and their copies and derivatives
fn gen_bs_hist(t: &mut Tape) -> Case {
    let mut c = gen_spline(t);
    let (k2, _) = t.knots(c.n, c.d);
    let (p2, _) = t.polygon(c.n, c.dim);
    // the second spline: other knots, other control points, or both
    match t.below(3) {
        0 => (c.m, c.pts2) = (vec![c.knots.clone()], p2),
        1 => (c.m, c.pts2) = (vec![k2], c.pts.clone()),
        _ => (c.m, c.pts2) = (vec![k2], p2),
    }
    let m = t.range(3, 24);
    c.ops = (0..m)
        .map(|_| {
            let op = [QUERY, COPY, DERIV, ITER][t.weighted(&[8, 1, 1, 1])];
            let target = t.below(8);
            let p = if t.below(2) == 0 { t.knot_param(&c.knots, c.n, c.d) } else { t.knot_param(&c.m[0], c.n, c.d) };
            (op, target, p, t.below(60))
        })
        .collect();
    c
}
struct Sp {
    s: BsBx,
    root: usize,
    order: usize,
    seen: Vec<(usize, u64, Vec<f64>)>,
}
fn ask_bs(s: &dyn Bs, arg: usize, t: f64) -> Vec<f64> {
    match arg % 5 {
        0..=2 => match s.eval(t) {
            Ok(v) => v,
            Err(e) => vec![f64::NAN, e as usize as f64],
        },
        3 => s.arclen(1 + arg / 5 % 6).into_iter().collect(),
        _ => [s.domain().0, s.domain().1].to_vec(),
    }
}
fn c22_bs(c: &Case) -> Res {
    let fresh = |root: usize, order: usize| -> Result<BsBx, String> {
        let (k, p) = if root == 0 { (&c.knots, &c.pts) } else { (&c.m[0], &c.pts2) };
        let mut s = bspline(PointKind::of_dim(c.dim), c.d, k, p).map_err(|e| format!("valid knots rejected: {e:?}"))?;
        for _ in 0..order {
            s = s.derivative().ok_or("harness: no derivative")?;
        }
        Ok(s)
    };
    // an evaluation that does not end must not hang this check
    for (k, p) in [(&c.knots, &c.pts), (&c.m[0], &c.pts2)] {
        let p2: Pts = p.iter().map(|v| vec![v[0], *v.get(1).unwrap_or(&0.0)]).collect();
        let s2 = bspline(PointKind::Foreign2, c.d, k, &p2).map_err(|e| format!("{e:?}"))?;
        let ts: Vec<f64> = c.ops.iter().map(|o| o.2).collect();
        with_fuel(10_000_000, || {
            let _ = bs_panel(&*s2, &ts, 6);
        });
    }
    let mut objs: Vec<Sp> = vec![];
    for root in 0..2 {
        objs.push(Sp { s: fresh(root, 0)?, root, order: 0, seen: vec![] });
    }
    let (mut asked, mut derived) = ([false; 2], false);
    for (step, (op, target, t, arg)) in c.ops.iter().enumerate() {
        let i = target % objs.len();
        let (root, order) = (objs[i].root, objs[i].order);
        match *op {
            COPY if objs.len() < 8 => {
                let o = Sp { s: objs[i].s.copy(), root, order, seen: vec![] };
                objs.push(o);
            }
            DERIV if objs.len() < 8 && order < c.d => {
                if let Some(s) = objs[i].s.derivative() {
                    objs.push(Sp { s, root, order: order + 1, seen: vec![] });
                }
            }
            QUERY => {
                let got = ask_bs(&*objs[i].s, *arg, *t);
                let want = ask_bs(&*fresh(root, order)?, *arg, *t);
                ensure(eqb(&[got.clone()], &[want.clone()]), || {
                    format!("step {step}: query {} at {t:?} of derivative {order} of spline {root} gives {got:?}, a fresh one gives {want:?}", arg % 5)
                })?;
                objs[i].seen.push((*arg, t.to_bits(), got));
                asked[root] = true;
                derived |= i > 1;
            }
            _ => {}
        }
        let f = fresh(root, order)?;
        let o = &objs[i].s;
        ensure(eqb(&[o.knots()], &[f.knots()]) && eqb(&o.points(), &f.points()), || {
            format!("step {step}: knots {:?}, control points {:?}; a fresh one has {:?}, {:?}", o.knots(), o.points(), f.knots(), f.points())
        })?;
    }
    for (j, o) in objs.iter().enumerate() {
        for (arg, t, v) in &o.seen {
            let g = ask_bs(&*o.s, *arg, f64::from_bits(*t));
            ensure(eqb(&[g.clone()], &[v.clone()]), || format!("spline {j}: query {} repeated later gives {g:?}, before {v:?}", arg % 5))?;
        }
    }
    meta(asked == [true; 2] && derived, &[])
}

// ------------------------------------------------------------------ panels of all operations
/// Calls every operation of a curve; returns everything it reported.
fn panel(cv: &dyn Curve, ts: &[f64], q: &[f64], tolerance: f64, steps: usize) -> Vec<f64> {
    let mut out = vec![];
    for &t in ts {
        out.extend(cv.eval(t));
        for (_, v) in cv.evals(t) {
            out.extend(v);
        }
        let (l, r) = cv.split(t);
        out.extend(l.points().into_iter().flatten());
        out.extend(r.points().into_iter().flatten());
        out.extend(l.eval(t));
        for k in 0..cv.dim() {
            out.extend(cv.dd(t, k));
        }
        if let Some(d) = cv.derivative() {
            out.extend(d.eval(t));
            if d.points().len() > 1 {
                if let Some(d2) = d.derivative() {
                    out.extend(d2.eval(t));
                }
            }
        }
    }
    for (a, b) in cv.bbox().unwrap_or_default() {
        out.extend([a, b]);
    }
    out.extend(cv.dist(q));
    out.extend(cv.arclen(steps));
    let _ = (cv.is_linear(tolerance), cv.is_a_point(tolerance));
    if let Some(b) = cv.baseline() {
        out.extend(b.points().into_iter().flatten());
        out.extend(b.dist(q));
    }
    out.extend(cv.copy().points().into_iter().flatten());
    out.extend(cv.iter_points().unwrap_or_default().into_iter().flatten());
    let p = cv.points();
    let _ = cv.eq_points(&p);
    out
}
fn bs_panel(s: &dyn Bs, ts: &[f64], steps: usize) -> Vec<f64> {
    let mut out = vec![];
    let (a, b) = s.domain();
    out.extend([a, b]);
    out.extend(s.knots());
    out.extend(s.points().into_iter().flatten());
    for &t in ts {
        out.extend(s.eval(t).unwrap_or_default());
    }
    if let Some(d) = s.derivative() {
        out.extend(d.points().into_iter().flatten());
        for &t in ts {
            out.extend(d.eval(t).unwrap_or_default());
        }
    }
    out.extend(s.arclen(steps));
    let _ = s.copy();
    out
}
fn gen_panel(t: &mut Tape) -> Case {
    let mut c = match t.weighted(&[6, 1, 1]) {
        0 => gen_curve(t, &[LINE, QUAD, CUBIC, BEZIER, SEGMENT], 0),
        // (nearly) flat and (nearly) point-like curves, with a tolerance close to their threshold
        1 => super::bez::gen_lin(t),
        _ => super::bez::gen_pointlike(t),
    };
    c.t = vec![t.param(), t.param()];
    let (q, _) = t.query_point(&c.pts);
    c.q = q;
    c.tol = match t.below(5) {
        0 => 0.0,
        1 => 1e-3,
        2 => 1.0,
        3 => rnd(10f64.powi(t.irange(-EXP_MID, EXP_MID))),
        _ => c.tol,
    };
    c.steps = match t.weighted(&[300, 2, 1]) {
        0 => t.range(1, 12),
        1 => t.range(13, 600),
        _ => t.range(600, 5000),
    };
    c.idx = t.below(3); // point type, where there is a choice
    super::bez::big(t, c)
}
fn point_kind(c: &Case) -> PointKind {
    match (c.dim, c.idx) {
        (2, 1) if c.pts.len() <= 9 => PointKind::Foreign2,
        (3, 1) if c.pts.len() <= 9 => PointKind::Named3,
        (d, _) => PointKind::of_dim(d),
    }
}

// ------------------------------------------------------------------ C23
fn c23_bez(c: &Case) -> Res {
    let mut cv = make(point_kind(c), c.kind, &c.pts);
    let _ = panel(&*cv, &c.t, &c.q, c.tol, c.steps);
    cv.edit(0, &c.q);
    if c.kind == SEGMENT {
        let _ = seg_ends(point_kind(c), &c.pts);
    }
    no_alloc()?;
    meta(c.pts.len() > 1 && !degenerate(&c.pts), &[])
}
fn gen_spline_panel(t: &mut Tape) -> Case {
    let mut c = gen_spline(t);
    c.steps = if t.below(200) == 199 { t.range(9, 300) } else { t.range(1, 8) };
    c
}
struct Sink([u8; 256], usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            if self.1 < 256 {
                self.0[self.1] = b;
                self.1 += 1;
            }
        }
        Ok(())
    }
}
fn c23_bs(c: &Case) -> Res {
    let (a, b) = (c.knots[c.d], c.knots[c.pts.len()]);
    let s = make_bs(c)?;
    let mut ts = c.t.clone();
    // error paths too
    ts.extend([a, b, a - 1.0 - (b - a), b + 1.0 + (b - a), f64::NAN]);
    // fuel first: an evaluation that does not end must not hang this check
    let p2: Pts = c.pts.iter().map(|v| vec![v[0], *v.get(1).unwrap_or(&0.0)]).collect();
    let s2 = bspline(PointKind::Foreign2, c.d, &c.knots, &p2).map_err(|e| format!("{e:?}"))?;
    with_fuel(fuel(c.steps), || {
        let _ = bs_panel(&*s2, &ts, c.steps);
    });
    let _ = bs_panel(&*s, &ts, c.steps);
    for e in [
        BSplineError::TooFewControlPoints,
        BSplineError::TooFewKnots,
        BSplineError::TooManyKnots,
        BSplineError::DecreasingKnots,
        BSplineError::KnotDomainViolation,
        BSplineError::EvaluationAlphaIsNaN,
    ] {
        let mut w = Sink([0; 256], 0);
        lib("BSplineError::fmt", || {
            let _ = write!(w, "{e} {e:?}");
        });
        ensure(w.1 > 4, || format!("no message for {e:?}"))?;
    }
    let mut bad = c.clone();
    bad.knots.reverse();
    let _ = bspline(PointKind::of_dim(c.dim), c.d, &bad.knots, &bad.pts);
    no_alloc()?;
    meta(c.pts.len() > 1 && !degenerate(&c.pts), &[])
}
fn c23_pt(c: &Case) -> Res {
    fn go<const N: usize>(c: &Case) -> Result<(), String> {
        let a: [F; N] = std::array::from_fn(|i| c.pts[0][i] as F);
        let b: [F; N] = std::array::from_fn(|i| c.pts2[0][i] as F);
        let s = c.tol as F;
        let idx = c.idx;
        let x = lib("PointN", || {
            let (p, q) = (PointN::new(a), PointN::new(b));
            let mut r = (p + q) - (p - q) * s + s - s;
            for v in &mut r {
                *v = *v + 1.0;
            }
            let mut acc = r.axis(idx) + r.squared_length() + PointN::<F, N>::default().axis(idx);
            for v in r {
                acc += v;
            }
            (acc, p == q)
        });
        std::hint::black_box(x);
        no_alloc()
    }
    dims(c, [go::<1>, go::<2>, go::<3>, go::<4>, go::<5>, go::<6>, go::<9>, go::<16>, go::<7>, go::<8>, go::<17>, go::<33>, go::<65>])?;
    meta(c.dim > 1 && c.pts[0].iter().any(|x| *x != c.pts[0][0]), &[])
}

// ------------------------------------------------------------------ C24
fn wild(t: &mut Tape) -> f64 {
    let m = F::MAX as f64;
    let x = match t.weighted(&[3, 2, 2, 2, 3, 1]) {
        0 => F::from_bits(t.next() as _) as f64,
        1 => t.irange(-3, 3) as f64,
        2 => m * t.sym(),
        3 => F::MIN_POSITIVE as f64 * t.sym(),
        4 => t.sym() * 10f64.powi(t.irange(if IS32 { -38 } else { -300 }, if IS32 { 38 } else { 300 })),
        _ => [m, -m, 0.0, -0.0, 1.0, F::MIN_POSITIVE as f64, EPS, m.sqrt(), -m.sqrt()][t.below(9)],
    };
    let x = rnd(x);
    if x.is_finite() {
        x
    } else {
        m
    }
}
fn many_steps(t: &mut Tape, usual: usize) -> usize {
    match t.weighted(&[20_000, 40, 8, 1]) {
        0 => t.below(usual),
        1 => t.range(usual, 300),
        2 => t.range(300, 5000),
        _ => t.range(5000, 70_000),
    }
}
/// scalar operations allowed for one curve
fn fuel(steps: usize) -> u64 {
    3_000_000 + 10_000 * steps as u64
}
fn gen_wild(t: &mut Tape) -> Case {
    let (kind, n, dim) = gen_shape(t, &[LINE, QUAD, CUBIC, BEZIER, SEGMENT, CUBIC, QUAD]);
    // shrink to few distinct magnitudes in half of the cases, so that overflows meet
    let few: Vec<f64> = (0..3).map(|_| wild(t)).collect();
    let mode = t.below(3);
    let pts: Pts = (0..n)
        .map(|_| {
            (0..dim)
                .map(|_| match mode {
                    0 => wild(t),
                    1 => few[t.below(3)],
                    _ => rnd(few[0] * t.irange(-4, 4) as f64 / 4.0),
                })
                .collect()
        })
        .collect();
    let ts = vec![t.param(), if t.below(2) == 0 { wild(t) } else { t.param() }];
    let q = (0..dim).map(|_| if mode == 1 { few[t.below(3)] } else { wild(t) }).collect();
    Case { kind, n, dim, pts, q, t: ts, tol: wild(t), steps: many_steps(t, 20), labels: vec![KINDS[kind].into()], ..Case::default() }
}
fn c24_bez(c: &Case) -> Res {
    let ok = |p: &Pts| p.iter().flatten().chain(&c.q).chain(&c.t).all(|x| x.is_finite());
    if !ok(&c.pts) {
        return meta(false, &[]);
    }
    // over the instrumented scalar first
    if c.pts.len() <= 9 {
        let p2: Pts = c.pts.iter().map(|v| vec![v[0], *v.get(1).unwrap_or(&v[0])]).collect();
        let q2 = vec![c.q[0], *c.q.get(1).unwrap_or(&c.q[0])];
        let k = make(PointKind::Foreign2, c.kind, &p2);
        with_fuel(fuel(c.steps), || {
            let _ = panel(&*k, &c.t, &q2, c.tol, c.steps);
        });
    }
    let out = panel(&*curve(c.kind, &c.pts), &c.t, &c.q, c.tol, c.steps);
    let fin = out.iter().all(|x| x.is_finite());
    meta(!degenerate(&c.pts), &[if fin { "all-finite" } else { "overflowed" }])
}
fn gen_moderate(t: &mut Tape) -> Case {
    let mut c = gen_panel(t);
    c.steps = many_steps(t, 40).max(1);
    c
}
fn c24_finite(c: &Case) -> Res {
    let out = panel(&*make(point_kind(c), c.kind, &c.pts), &c.t, &c.q, c.tol, c.steps);
    ensure(out.iter().all(|x| x.is_finite()), || format!("a result is not finite: {out:?}"))?;
    meta(!degenerate(&c.pts), &[])
}
fn gen_wild_bs(t: &mut Tape) -> Case {
    let mut c = gen_spline(t);
    c.steps = many_steps(t, 6);
    let mode = t.below(3);
    if mode > 0 {
        for p in c.pts.iter_mut().flatten() {
            *p = wild(t);
        }
    }
    if mode < 2 {
        let mut k: Vec<f64> = c.knots.iter().map(|_| if t.below(4) == 0 { 0.0 } else { wild(t) }).collect();
        if t.below(6) == 5 {
            // infinite knots are valid, too
            for _ in 0..t.range(1, 4) {
                let i = t.below(k.len());
                k[i] = if t.below(2) == 0 { f64::NEG_INFINITY } else { f64::INFINITY };
            }
            c.labels.push("knots:infinite".into());
        }
        k.sort_by(f64::total_cmp);
        c.knots = k;
        c.labels.push("knots:any-bits".into());
    }
    let mut ts: Vec<f64> = c.knots.clone();
    ts.extend((0..4).map(|_| wild(t)));
    c.t = ts;
    c
}
fn c24_bs(c: &Case) -> Res {
    if !c.pts.iter().flatten().all(|x| x.is_finite()) {
        return meta(false, &[]);
    }
    let p2: Pts = c.pts.iter().map(|v| vec![v[0], *v.get(1).unwrap_or(&v[0])]).collect();
    let s2 = bspline(PointKind::Foreign2, c.d, &c.knots, &p2).map_err(|e| format!("sorted knots rejected: {e:?}"))?;
    with_fuel(fuel(c.steps), || {
        let _ = bs_panel(&*s2, &c.t, c.steps);
    });
    let s = make_bs(c)?;
    let out = bs_panel(&*s, &c.t, c.steps);
    let fin = out.iter().all(|x| x.is_finite());
    meta(true, &[if fin { "all-finite" } else { "overflowed" }])
}
fn c24_bs_finite(c: &Case) -> Res {
    let (a, b) = (c.knots[c.d], c.knots[c.pts.len()]);
    let p2: Pts = c.pts.iter().map(|v| vec![v[0], *v.get(1).unwrap_or(&v[0])]).collect();
    let s2 = bspline(PointKind::Foreign2, c.d, &c.knots, &p2).map_err(|e| format!("{e:?}"))?;
    with_fuel(fuel(c.steps), || {
        let _ = bs_panel(&*s2, &c.t, c.steps);
    });
    let s = make_bs(c)?;
    for t in c.t.iter().copied().chain([a, b]) {
        let p = s.eval(t).map_err(|e| format!("eval({t:?}): {e:?}"))?;
        ensure(p.iter().all(|x| x.is_finite()), || format!("eval({t:?}) = {p:?}"))?;
        if let Some(d) = s.derivative() {
            let p = d.eval(t).map_err(|e| format!("derivative.eval({t:?}): {e:?}"))?;
            ensure(p.iter().all(|x| x.is_finite()), || format!("derivative.eval({t:?}) = {p:?}"))?;
        }
    }
    let l = s.arclen(c.steps).unwrap();
    ensure(l.is_finite(), || format!("arclen({}) = {l:?}", c.steps))?;
    meta(c.pts.len() > 1 && !degenerate(&c.pts), &[])
}
