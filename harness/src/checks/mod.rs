//! The sub-checks, one list per property.
use crate::alloc::offender;
use crate::case::Case;
use crate::num::*;
use crate::oracle::{self, Pts};
use crate::runner::{Check, Gen, Meta, Prop, Res, Sub};
use crate::tape::Tape;

pub mod bez;
pub mod bsp;
pub mod cross;
pub mod misc;

pub fn sub(name: &'static str, gen: Gen, check: Check, quick: u32, tape: usize) -> Sub {
    Sub { name, gen, check, quick, tape: tape + tape / 2 }
}

/// Rounding allowance for a degree-`deg` combination of values not larger than `scale`.
pub fn tol(deg: usize, scale: f64) -> f64 {
    32.0 * EPS * (deg as f64 + 2.0) * scale + 64.0 * (deg as f64 + 2.0) * F::MIN_POSITIVE as f64
}
pub fn close(what: &str, got: f64, want: f64, tol: f64) -> Result<(), String> {
    if (got - want).abs() <= tol || got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, want {want:?}, difference {:e} > {:e}", (got - want).abs(), tol))
    }
}
/// compare component-wise with the tolerance of each axis
pub fn close_pt(what: &str, got: &[f64], want: &[f64], tol: impl Fn(usize) -> f64) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{what}: {} components, want {}", got.len(), want.len()));
    }
    for k in 0..want.len() {
        if close("", got[k], want[k], tol(k)).is_err() {
            return Err(format!("{what}: got {got:?}, want {want:?} (axis {k} differs by {:e} > {:e})", (got[k] - want[k]).abs(), tol(k)));
        }
    }
    Ok(())
}
pub fn close_pts(what: &str, got: &[Vec<f64>], want: &[Vec<f64>], tol: impl Fn(usize) -> f64) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{what}: {} control points, want {}", got.len(), want.len()));
    }
    for i in 0..want.len() {
        close_pt(&format!("{what}, control point {i}"), &got[i], &want[i], &tol)?;
    }
    Ok(())
}
pub fn ensure(c: bool, msg: impl FnOnce() -> String) -> Result<(), String> {
    if c {
        Ok(())
    } else {
        Err(msg())
    }
}
pub fn meta(nontrivial: bool, labels: &[&'static str]) -> Res {
    Ok(Meta { nontrivial, labels: labels.to_vec() })
}
/// every axis scale of a polygon
pub fn scales(p: &[Vec<f64>]) -> Vec<f64> {
    (0..p[0].len()).map(|k| oracle::axis_max(p, k)).collect()
}
pub fn degenerate(p: &[Vec<f64>]) -> bool {
    p.iter().all(|q| q == &p[0])
}
pub fn gen_dim(t: &mut Tape) -> usize {
    [2, 1, 3, 4, 6, 5, 8, 12][t.weighted(&[12, 4, 8, 4, 2, 2, 2, 1])]
}
pub const KINDS: [&str; 5] = ["kind:line", "kind:quadratic", "kind:cubic", "kind:bezier", "kind:segment"];
/// kind, number of control points, dimension
pub fn gen_shape(t: &mut Tape, kinds: &[usize]) -> (usize, usize, usize) {
    use crate::wrap::*;
    let kind = kinds[t.below(kinds.len())];
    let dim = gen_dim(t);
    let n = match kind {
        LINE => 2,
        QUAD => 3,
        CUBIC => 4,
        SEGMENT => 2 + t.below(3),
        _ => {
            let m = max_n(dim);
            // small degrees more often
            let large = large_n(dim);
            match t.weighted(&[12, 4, if large.is_empty() { 0 } else { 1 }]) {
                0 => t.range(1, m.min(7)),
                1 => t.range(1, m),
                _ => large[t.below(large.len())],
            }
        }
    };
    (kind, n, dim)
}
/// a case holding a curve, plus `nt` parameters
pub fn gen_curve(t: &mut Tape, kinds: &[usize], nt: usize) -> Case {
    let (kind, n, dim) = gen_shape(t, kinds);
    if n * dim > 40 {
        t.extend();
    }
    let ts: Vec<f64> = (0..nt).map(|_| t.param()).collect();
    let (pts, l) = t.polygon(n, dim);
    let mut c = Case { kind, n, dim, pts, t: ts, ..Case::default() };
    c.labels = vec![KINDS[kind].into(), format!("dim:{dim}"), l.into()];
    c
}
pub fn no_alloc() -> Result<(), String> {
    match offender() {
        None => Ok(()),
        Some(n) => Err(format!("{n} allocated heap memory")),
    }
}
pub fn affine(m: &[Vec<f64>], p: &[f64]) -> Vec<f64> {
    // rows of m: dim coefficients and the offset
    m.iter().map(|r| r[..p.len()].iter().zip(p).map(|(a, b)| a * b).sum::<f64>() + r[p.len()]).collect()
}
pub fn affine_scale(m: &[Vec<f64>], s: &[f64]) -> Vec<f64> {
    m.iter().map(|r| r[..s.len()].iter().zip(s).map(|(a, b)| a.abs() * b).sum::<f64>() + r[s.len()].abs()).collect()
}
pub fn round_pts(p: Pts) -> Pts {
    p.into_iter().map(|v| v.into_iter().map(rnd).collect()).collect()
}

pub fn registry() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(bez::props());
    v.extend(bsp::props());
    v.extend(cross::props());
    v.extend(misc::props());
    v.sort_by_key(|p| p.id);
    if IS32 {
        let mut subs: Vec<Sub> = vec![];
        for p in v {
            for s in p.subs {
                // two dozen properties share one check here: fewer cases of each
                let part = if p.id > "C16" { 12 } else { 6 };
                subs.push(Sub { quick: (s.quick / part).max(200), ..s });
            }
        }
        return vec![Prop {
            id: "C25",
            rule: "the non-triviality rule of each sub-check of C01-C24, with all inputs representable in single precision",
            assumptions: &["the f32 configuration is selected on this 64-bit host by cfg(stroke_vp_f32), which swaps exactly the two items that non-64-bit targets swap"],
            subs,
        }];
    }
    v
}
