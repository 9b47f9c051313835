//! Object-safe f64 views of the library's types, so that every check is written once for all degrees, dimensions
//! and point types. Every call into the library goes through `alloc::lib`.
use crate::alloc::lib;
use crate::num::F;
use crate::oracle::Pts;
use crate::scalar::{Named3, S, SP};
use stroke::bezier_segment::BezierSegment;
use stroke::bspline::BSplineError;
use stroke::{BSpline, Bezier, CubicBezier, LineSegment, Point, PointN, QuadraticBezier, Spline};

macro_rules! with_point {
    ($k:expr, $m:ident) => {
        match $k {
            $crate::wrap::PointKind::N1 => $m!(PointN<F, 1>),
            $crate::wrap::PointKind::N2 => $m!(PointN<F, 2>),
            $crate::wrap::PointKind::N3 => $m!(PointN<F, 3>),
            $crate::wrap::PointKind::N4 => $m!(PointN<F, 4>),
            $crate::wrap::PointKind::N5 => $m!(PointN<F, 5>),
            $crate::wrap::PointKind::N6 => $m!(PointN<F, 6>),
            $crate::wrap::PointKind::N8 => $m!(PointN<F, 8>),
            $crate::wrap::PointKind::N12 => $m!(PointN<F, 12>),
            $crate::wrap::PointKind::Foreign2 => $m!(SP<2>),
            $crate::wrap::PointKind::Named3 => $m!(Named3),
            $crate::wrap::PointKind::Bundled2 => $m!(PointN<S, 2>),
        }
    };
}

/// A point type usable from the harness.
pub trait VP: Point + 'static {
    fn mk(v: &[f64]) -> Self;
    fn un(&self) -> Vec<f64>;
}
impl<const N: usize> VP for PointN<F, N> {
    fn mk(v: &[f64]) -> Self {
        PointN::new(std::array::from_fn(|i| v[i] as F))
    }
    fn un(&self) -> Vec<f64> {
        self.into_iter().map(|x| x as f64).collect()
    }
}
impl<const N: usize> VP for PointN<S, N> {
    fn mk(v: &[f64]) -> Self {
        PointN::new(std::array::from_fn(|i| S::from(v[i] as F)))
    }
    fn un(&self) -> Vec<f64> {
        self.into_iter().map(|x| F::from(x) as f64).collect()
    }
}
impl<const N: usize> VP for SP<N> {
    fn mk(v: &[f64]) -> Self {
        SP(std::array::from_fn(|i| S::from(v[i] as F)))
    }
    fn un(&self) -> Vec<f64> {
        self.0.iter().map(|x| F::from(*x) as f64).collect()
    }
}
impl VP for Named3 {
    fn mk(v: &[f64]) -> Self {
        Named3 { x: v[0] as F, y: v[1] as F, z: v[2] as F }
    }
    fn un(&self) -> Vec<f64> {
        vec![self.x as f64, self.y as f64, self.z as f64]
    }
}
pub fn sc<P: VP>(x: f64) -> P::Scalar {
    <P::Scalar as From<F>>::from(x as F)
}
pub fn uns<P: VP>(x: P::Scalar) -> f64 {
    let y: F = x.into();
    y as f64
}

pub type Bx = Box<dyn Curve>;
/// Any Bézier-like curve.
pub trait Curve {
    fn kind(&self) -> &'static str;
    fn dim(&self) -> usize;
    fn eval(&self, t: f64) -> Vec<f64>;
    /// the alternative evaluators, by name
    fn evals(&self, t: f64) -> Vec<(&'static str, Vec<f64>)>;
    fn points(&self) -> Pts;
    fn split(&self, t: f64) -> (Bx, Bx);
    /// None if the curve has a single control point or no derivative method
    fn derivative(&self) -> Option<Bx>;
    fn dd(&self, _t: f64, _axis: usize) -> Option<f64> {
        None
    }
    fn bbox(&self) -> Option<Vec<(f64, f64)>> {
        None
    }
    fn dist(&self, _q: &[f64]) -> Option<f64> {
        None
    }
    fn arclen(&self, _n: usize) -> Option<f64> {
        None
    }
    fn is_linear(&self, _tol: f64) -> Option<bool> {
        None
    }
    fn is_a_point(&self, _tol: f64) -> Option<bool> {
        None
    }
    fn baseline(&self) -> Option<Bx> {
        None
    }
    fn copy(&self) -> Bx;
    /// in-place edits through the mutable iterator (generic curves only)
    fn edit(&mut self, _i: usize, _p: &[f64]) -> bool {
        false
    }
    fn edit_all(&mut self, _f: &mut dyn FnMut(usize, &[f64]) -> Vec<f64>) -> usize {
        0
    }
    /// points by value iteration (generic curves only)
    fn iter_points(&self) -> Option<Pts> {
        None
    }
    fn eq_points(&self, _p: &[Vec<f64>]) -> Option<bool> {
        None
    }
}

pub struct W<T>(pub T);
/// a clone of a copy
fn twice<T: Copy>(x: &T) -> T {
    let c = *x;
    lib("clone", || c.clone())
}

pub struct Const<P>(pub P);
impl<P: VP> Curve for W<Const<P>> {
    fn kind(&self) -> &'static str {
        "vector"
    }
    fn dim(&self) -> usize {
        P::DIM
    }
    fn eval(&self, _t: f64) -> Vec<f64> {
        self.0 .0.un()
    }
    fn evals(&self, _t: f64) -> Vec<(&'static str, Vec<f64>)> {
        vec![]
    }
    fn points(&self) -> Pts {
        vec![self.0 .0.un()]
    }
    fn split(&self, _t: f64) -> (Bx, Bx) {
        (self.copy(), self.copy())
    }
    fn derivative(&self) -> Option<Bx> {
        None
    }
    fn copy(&self) -> Bx {
        Box::new(W(Const(self.0 .0)))
    }
}

fn bb<P: VP, const D: usize>(b: [(P::Scalar, P::Scalar); D]) -> Vec<(f64, f64)> {
    b.iter().map(|(x, y)| (uns::<P>(*x), uns::<P>(*y))).collect()
}

macro_rules! special {
    ($($P:ty),*) => { $(
        impl Curve for W<LineSegment<$P>> {
            fn kind(&self) -> &'static str { "line" }
            fn dim(&self) -> usize { <$P as Point>::DIM }
            fn eval(&self, t: f64) -> Vec<f64> {
                let t = sc::<$P>(t);
                lib("LineSegment::eval", || self.0.eval(t)).un()
            }
            fn evals(&self, t: f64) -> Vec<(&'static str, Vec<f64>)> {
                let t = sc::<$P>(t);
                vec![("axis", (0..self.dim()).map(|k| uns::<$P>(lib("LineSegment::axis", || self.0.axis(t, k)))).collect())]
            }
            fn points(&self) -> Pts {
                // a segment has no accessor of its own: the enum exposes its ends
                let s = BezierSegment::from(self.0);
                vec![s.start().un(), s.end().un()]
            }
            fn split(&self, t: f64) -> (Bx, Bx) {
                let t = sc::<$P>(t);
                let (a, b) = lib("LineSegment::split", || self.0.split(t));
                (Box::new(W(a)), Box::new(W(b)))
            }
            fn derivative(&self) -> Option<Bx> { Some(Box::new(W(Const(lib("LineSegment::derivative", || self.0.derivative()))))) }
            fn bbox(&self) -> Option<Vec<(f64, f64)>> { Some(bb::<$P, { <$P as Point>::DIM }>(lib("LineSegment::bounding_box", || self.0.bounding_box()))) }
            fn dist(&self, q: &[f64]) -> Option<f64> {
                let q = <$P>::mk(q);
                Some(uns::<$P>(lib("LineSegment::distance_to_point", || self.0.distance_to_point(q))))
            }
            fn copy(&self) -> Bx { Box::new(W(twice(&self.0))) }
            fn eq_points(&self, p: &[Vec<f64>]) -> Option<bool> { Some(lib("LineSegment::eq", || self.0 == LineSegment::new(<$P>::mk(&p[0]), <$P>::mk(&p[1])))) }
        }
        impl Curve for W<QuadraticBezier<$P>> {
            fn kind(&self) -> &'static str { "quadratic" }
            fn dim(&self) -> usize { <$P as Point>::DIM }
            fn eval(&self, t: f64) -> Vec<f64> {
                let t = sc::<$P>(t);
                lib("QuadraticBezier::eval", || self.0.eval(t)).un()
            }
            fn evals(&self, t: f64) -> Vec<(&'static str, Vec<f64>)> {
                let t = sc::<$P>(t);
                vec![
                    ("eval_casteljau", lib("QuadraticBezier::eval_casteljau", || self.0.eval_casteljau(t)).un()),
                    ("axis", (0..self.dim()).map(|k| uns::<$P>(lib("QuadraticBezier::axis", || self.0.axis(t, k)))).collect()),
                ]
            }
            fn points(&self) -> Pts { lib("QuadraticBezier::control_points", || self.0.control_points()).iter().map(|p| p.un()).collect() }
            fn split(&self, t: f64) -> (Bx, Bx) {
                let t = sc::<$P>(t);
                let (a, b) = lib("QuadraticBezier::split", || self.0.split(t));
                (Box::new(W(a)), Box::new(W(b)))
            }
            fn derivative(&self) -> Option<Bx> { Some(Box::new(W(lib("QuadraticBezier::derivative", || self.0.derivative())))) }
            fn dd(&self, t: f64, k: usize) -> Option<f64> {
                let t = sc::<$P>(t);
                Some(uns::<$P>(lib("QuadraticBezier::dd", || self.0.dd(t, k))))
            }
            fn bbox(&self) -> Option<Vec<(f64, f64)>> { Some(bb::<$P, { <$P as Point>::DIM }>(lib("QuadraticBezier::bounding_box", || self.0.bounding_box()))) }
            fn dist(&self, q: &[f64]) -> Option<f64> {
                let q = <$P>::mk(q);
                Some(uns::<$P>(lib("QuadraticBezier::distance_to_point", || self.0.distance_to_point(q))))
            }
            fn arclen(&self, n: usize) -> Option<f64> { Some(uns::<$P>(lib("QuadraticBezier::arclen", || self.0.arclen(n)))) }
            fn is_linear(&self, tol: f64) -> Option<bool> { let t = sc::<$P>(tol); Some(lib("QuadraticBezier::is_linear", || self.0.is_linear(t))) }
            fn is_a_point(&self, tol: f64) -> Option<bool> { let t = sc::<$P>(tol); Some(lib("QuadraticBezier::is_a_point", || self.0.is_a_point(t))) }
            fn baseline(&self) -> Option<Bx> { Some(Box::new(W(lib("QuadraticBezier::baseline", || self.0.baseline())))) }
            fn copy(&self) -> Bx { Box::new(W(twice(&self.0))) }
            fn eq_points(&self, p: &[Vec<f64>]) -> Option<bool> {
                Some(lib("QuadraticBezier::eq", || self.0 == QuadraticBezier::new(<$P>::mk(&p[0]), <$P>::mk(&p[1]), <$P>::mk(&p[2]))))
            }
        }
        impl Curve for W<CubicBezier<$P>> {
            fn kind(&self) -> &'static str { "cubic" }
            fn dim(&self) -> usize { <$P as Point>::DIM }
            fn eval(&self, t: f64) -> Vec<f64> {
                let t = sc::<$P>(t);
                lib("CubicBezier::eval", || self.0.eval(t)).un()
            }
            fn evals(&self, t: f64) -> Vec<(&'static str, Vec<f64>)> {
                let t = sc::<$P>(t);
                vec![
                    ("eval_casteljau", lib("CubicBezier::eval_casteljau", || self.0.eval_casteljau(t)).un()),
                    ("axis", (0..self.dim()).map(|k| uns::<$P>(lib("CubicBezier::axis", || self.0.axis(t, k)))).collect()),
                ]
            }
            fn points(&self) -> Pts { lib("CubicBezier::control_points", || self.0.control_points()).iter().map(|p| p.un()).collect() }
            fn split(&self, t: f64) -> (Bx, Bx) {
                let t = sc::<$P>(t);
                let (a, b) = lib("CubicBezier::split", || self.0.split(t));
                (Box::new(W(a)), Box::new(W(b)))
            }
            fn derivative(&self) -> Option<Bx> { Some(Box::new(W(lib("CubicBezier::derivative", || self.0.derivative())))) }
            fn dd(&self, t: f64, k: usize) -> Option<f64> {
                let t = sc::<$P>(t);
                Some(uns::<$P>(lib("CubicBezier::dd", || self.0.dd(t, k))))
            }
            fn bbox(&self) -> Option<Vec<(f64, f64)>> { Some(bb::<$P, { <$P as Point>::DIM }>(lib("CubicBezier::bounding_box", || self.0.bounding_box()))) }
            fn dist(&self, q: &[f64]) -> Option<f64> {
                let q = <$P>::mk(q);
                Some(uns::<$P>(lib("CubicBezier::distance_to_point", || self.0.distance_to_point(q))))
            }
            fn arclen(&self, n: usize) -> Option<f64> { Some(uns::<$P>(lib("CubicBezier::arclen", || self.0.arclen(n)))) }
            fn is_linear(&self, tol: f64) -> Option<bool> { let t = sc::<$P>(tol); Some(lib("CubicBezier::is_linear", || self.0.is_linear(t))) }
            fn is_a_point(&self, tol: f64) -> Option<bool> { let t = sc::<$P>(tol); Some(lib("CubicBezier::is_a_point", || self.0.is_a_point(t))) }
            fn baseline(&self) -> Option<Bx> { Some(Box::new(W(lib("CubicBezier::baseline", || self.0.baseline())))) }
            fn copy(&self) -> Bx { Box::new(W(twice(&self.0))) }
            fn eq_points(&self, p: &[Vec<f64>]) -> Option<bool> {
                Some(lib("CubicBezier::eq", || self.0 == CubicBezier::new(<$P>::mk(&p[0]), <$P>::mk(&p[1]), <$P>::mk(&p[2]), <$P>::mk(&p[3]))))
            }
        }
        impl Curve for W<BezierSegment<$P>> {
            fn kind(&self) -> &'static str {
                match self.0 { BezierSegment::Linear(_) => "segment:line", BezierSegment::Quadratic(_) => "segment:quadratic", BezierSegment::Cubic(_) => "segment:cubic" }
            }
            fn dim(&self) -> usize { <$P as Point>::DIM }
            fn eval(&self, t: f64) -> Vec<f64> {
                let t = sc::<$P>(t);
                lib("BezierSegment::eval", || self.0.eval::<F>(t)).un()
            }
            fn evals(&self, _t: f64) -> Vec<(&'static str, Vec<f64>)> { vec![] }
            fn points(&self) -> Pts {
                match self.0 {
                    BezierSegment::Linear(_) => vec![self.0.start().un(), self.0.end().un()],
                    BezierSegment::Quadratic(c) => c.control_points().iter().map(|p| p.un()).collect(),
                    BezierSegment::Cubic(c) => c.control_points().iter().map(|p| p.un()).collect(),
                }
            }
            fn split(&self, t: f64) -> (Bx, Bx) {
                let t = sc::<$P>(t);
                let (a, b) = lib("BezierSegment::split", || self.0.split(t));
                (Box::new(W(a)), Box::new(W(b)))
            }
            fn derivative(&self) -> Option<Bx> { None }
            fn is_linear(&self, tol: f64) -> Option<bool> { let t = sc::<$P>(tol); Some(lib("BezierSegment::is_linear", || self.0.is_linear(t))) }
            fn baseline(&self) -> Option<Bx> { Some(Box::new(W(lib("BezierSegment::baseline", || self.0.baseline())))) }
            fn copy(&self) -> Bx { Box::new(W(twice(&self.0))) }
            fn eq_points(&self, p: &[Vec<f64>]) -> Option<bool> {
                let o = seg::<$P>(p);
                Some(lib("BezierSegment::eq", || self.0 == o))
            }
        }
    )* };
}
/// a segment enum over the curve with these 2, 3 or 4 control points
pub fn seg<P: VP>(p: &[Vec<f64>]) -> BezierSegment<P> {
    match p.len() {
        2 => LineSegment::new(P::mk(&p[0]), P::mk(&p[1])).into(),
        3 => QuadraticBezier::new(P::mk(&p[0]), P::mk(&p[1]), P::mk(&p[2])).into(),
        _ => CubicBezier::new(P::mk(&p[0]), P::mk(&p[1]), P::mk(&p[2]), P::mk(&p[3])).into(),
    }
}
/// the ends reported by the enum itself
pub fn seg_ends(kind: PointKind, p: &[Vec<f64>]) -> (Vec<f64>, Vec<f64>) {
    macro_rules! go {
        ($P:ty) => {{
            let s = seg::<$P>(p);
            (lib("BezierSegment::start", || s.start()).un(), lib("BezierSegment::end", || s.end()).un())
        }};
    }
    with_point!(kind, go)
}
/// split and flatness of the enum, asked with parameters of another float type than the scalar
pub fn seg_narrow(kind: PointKind, p: &[Vec<f64>], t: f32, tol: f32) -> Option<((Bx, Bx), bool)> {
    macro_rules! go {
        ($P:ty) => {{
            let s = seg::<$P>(p);
            let (a, b) = lib("BezierSegment::split", || s.split(t));
            Some(((Box::new(W(a)) as Bx, Box::new(W(b)) as Bx), lib("BezierSegment::is_linear", || s.is_linear(tol))))
        }};
    }
    type P1 = PointN<F, 1>;
    type P2 = PointN<F, 2>;
    type P3 = PointN<F, 3>;
    match kind {
        PointKind::N1 => go!(P1),
        PointKind::N2 => go!(P2),
        PointKind::N3 => go!(P3),
        _ => None,
    }
}

macro_rules! bez_one {
    ($P:ty, $n:tt, $deriv:expr) => {
        impl Curve for W<Bezier<$P, $n>> {
            fn kind(&self) -> &'static str {
                "bezier"
            }
            fn dim(&self) -> usize {
                <$P as Point>::DIM
            }
            fn eval(&self, t: f64) -> Vec<f64> {
                let t = sc::<$P>(t);
                lib("Bezier::eval", || self.0.eval(t)).un()
            }
            fn evals(&self, t: f64) -> Vec<(&'static str, Vec<f64>)> {
                let t = sc::<$P>(t);
                vec![("Spline::eval", lib("Spline::eval", || Spline::<$P>::eval(&self.0, t)).un())]
            }
            fn points(&self) -> Pts {
                lib("Bezier::control_points", || self.0.control_points()).iter().map(|p| p.un()).collect()
            }
            fn split(&self, t: f64) -> (Bx, Bx) {
                let t = sc::<$P>(t);
                let (a, b) = lib("Bezier::split", || self.0.split(t));
                (Box::new(W(a)), Box::new(W(b)))
            }
            #[allow(clippy::redundant_closure_call)]
            fn derivative(&self) -> Option<Bx> {
                ($deriv)(&self.0)
            }
            fn dist(&self, q: &[f64]) -> Option<f64> {
                let q = <$P>::mk(q);
                Some(uns::<$P>(lib("Bezier::distance_to_point", || self.0.distance_to_point(q))))
            }
            fn arclen(&self, n: usize) -> Option<f64> {
                Some(uns::<$P>(lib("Bezier::arclen", || self.0.arclen(n))))
            }
            fn copy(&self) -> Bx {
                Box::new(W(twice(&self.0)))
            }
            fn edit(&mut self, i: usize, p: &[f64]) -> bool {
                let v = <$P>::mk(p);
                lib("Bezier::iter_mut", || {
                    if let Some(q) = (&mut self.0).into_iter().nth(i) {
                        *q = v;
                        true
                    } else {
                        false
                    }
                })
            }
            fn edit_all(&mut self, f: &mut dyn FnMut(usize, &[f64]) -> Vec<f64>) -> usize {
                let mut k = 0;
                for q in &mut self.0 {
                    let v = f(k, &q.un());
                    *q = <$P>::mk(&v);
                    k += 1;
                }
                k
            }
            fn iter_points(&self) -> Option<Pts> {
                let c = lib("Bezier::copy", || self.0);
                let mut it = lib("Bezier::into_iter", || c.into_iter());
                let mut v = vec![];
                while let Some(p) = lib("Bezier::IntoIter::next", || it.next()) {
                    v.push(p.un());
                }
                Some(v)
            }
        }
    };
}
macro_rules! bez {
    // numbers of control points whose derivative is wrapped, and others whose derivative is not
    ($P:ty: [$($n:tt)*] [$($m:tt)*]) => {
        bez_one!($P, 1, |_c: &Bezier<$P, 1>| -> Option<Bx> { None });
        $( bez_one!($P, $m, |_c: &Bezier<$P, $m>| -> Option<Bx> { None }); )*
        $( bez_one!($P, $n, |c: &Bezier<$P, $n>| -> Option<Bx> { Some(Box::new(W(lib("Bezier::derivative", || c.derivative())))) }); )*
        impl Mk for $P {
            fn bezier(p: &[Vec<f64>]) -> Option<Bx> {
                fn arr<const N: usize>(p: &[Vec<f64>]) -> [$P; N] { std::array::from_fn(|i| <$P>::mk(&p[i])) }
                match p.len() {
                    1 => { let a = arr::<1>(p); Some(Box::new(W(lib("Bezier::new", || Bezier::new(a))))) }
                    $( $n => { let a = arr::<$n>(p); Some(Box::new(W(lib("Bezier::new", || Bezier::new(a))))) } )*
                    $( $m => { let a = arr::<$m>(p); Some(Box::new(W(lib("Bezier::new", || Bezier::new(a))))) } )*
                    _ => None,
                }
            }
            fn line(p: &[Vec<f64>]) -> Bx { let (a, b) = (<$P>::mk(&p[0]), <$P>::mk(&p[1])); Box::new(W(lib("LineSegment::new", || LineSegment::new(a, b)))) }
            fn quad(p: &[Vec<f64>]) -> Bx {
                let (a, b, c) = (<$P>::mk(&p[0]), <$P>::mk(&p[1]), <$P>::mk(&p[2]));
                Box::new(W(lib("QuadraticBezier::new", || QuadraticBezier::new(a, b, c))))
            }
            fn cubic(p: &[Vec<f64>]) -> Bx {
                let (a, b, c, d) = (<$P>::mk(&p[0]), <$P>::mk(&p[1]), <$P>::mk(&p[2]), <$P>::mk(&p[3]));
                Box::new(W(lib("CubicBezier::new", || CubicBezier::new(a, b, c, d))))
            }
            fn segment(p: &[Vec<f64>]) -> Bx { Box::new(W(lib("BezierSegment::from", || seg::<$P>(p)))) }
        }
    };
}
pub trait Mk {
    fn bezier(p: &[Vec<f64>]) -> Option<Bx>;
    fn line(p: &[Vec<f64>]) -> Bx;
    fn quad(p: &[Vec<f64>]) -> Bx;
    fn cubic(p: &[Vec<f64>]) -> Bx;
    fn segment(p: &[Vec<f64>]) -> Bx;
}
special!(PointN<F, 1>, PointN<F, 2>, PointN<F, 3>, PointN<F, 4>, PointN<F, 5>, PointN<F, 6>, PointN<F, 8>, PointN<F, 12>, SP<2>, Named3, PointN<S, 2>);
bez!(PointN<F, 1>: [2 3 4 5 6 7 8 9 12 36 65 69] [11 35 64 68]);
bez!(PointN<F, 2>: [2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 20 21 24 26 32 33] [19 23 25 31]);
bez!(PointN<F, 3>: [2 3 4 5 6 7 8 9 13 17] [12 16]);
bez!(PointN<F, 4>: [2 3 4 5 6 7] []);
bez!(PointN<F, 5>: [2 3 4 5 6] []);
bez!(PointN<F, 6>: [2 3 4 5 6 7] []);
bez!(PointN<F, 8>: [2 3 4 5] []);
bez!(PointN<F, 12>: [2 3 4] []);
bez!(SP<2>: [2 3 4 5 6 7 8 9 17] [16]);
bez!(Named3: [2 3 4 5 6 7 8 9 13] [12]);
bez!(PointN<S, 2>: [2 3 4 5 6] []);

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum PointKind {
    N1,
    N2,
    N3,
    N4,
    N5,
    N6,
    N8,
    N12,
    Foreign2,
    Named3,
    /// the bundled point type over a component type that is not the native float
    Bundled2,
}
use PointKind::*;
impl PointKind {
    pub fn of_dim(d: usize) -> PointKind {
        match d {
            1 => N1,
            2 => N2,
            3 => N3,
            4 => N4,
            5 => N5,
            6 => N6,
            8 => N8,
            _ => N12,
        }
    }
}

/// largest number of control points a generic Bézier is instantiated with
pub fn max_n(dim: usize) -> usize {
    match dim {
        2 => 17,
        1 | 3 => 9,
        5 => 6,
        8 => 5,
        12 => 4,
        _ => 7,
    }
}
/// larger numbers of control points that are instantiated, too
pub fn large_n(dim: usize) -> &'static [usize] {
    match dim {
        1 => &[11, 12, 35, 36, 64, 65, 68, 69],
        2 => &[20, 21, 24, 25, 26, 32, 33],
        3 => &[13, 16, 17],
        _ => &[],
    }
}
pub const LINE: usize = 0;
pub const QUAD: usize = 1;
pub const CUBIC: usize = 2;
pub const BEZIER: usize = 3;
pub const SEGMENT: usize = 4;

pub fn make(pk: PointKind, kind: usize, p: &[Vec<f64>]) -> Bx {
    macro_rules! go {
        ($P:ty) => {
            match kind {
                LINE => <$P>::line(p),
                QUAD => <$P>::quad(p),
                CUBIC => <$P>::cubic(p),
                SEGMENT => <$P>::segment(p),
                _ => <$P>::bezier(p).expect("instantiated degree"),
            }
        };
    }
    with_point!(pk, go)
}
/// the curve of a case over the bundled point type
pub fn curve(kind: usize, p: &[Vec<f64>]) -> Bx {
    make(PointKind::of_dim(p[0].len()), kind, p)
}

// ---------------------------------------------------------------- B-splines
pub type BsBx = Box<dyn Bs>;
pub trait Bs {
    fn eval(&self, t: f64) -> Result<Vec<f64>, BSplineError>;
    fn domain(&self) -> (f64, f64);
    fn knots(&self) -> Vec<f64>;
    fn points(&self) -> Pts;
    fn derivative(&self) -> Option<BsBx>;
    fn arclen(&self, n: usize) -> Option<f64>;
    fn copy(&self) -> BsBx;
}
macro_rules! bs_one {
    ($P:ty, $k:tt, $c:tt, $d:tt, $deriv:expr) => {
        impl Bs for W<BSpline<$P, $k, $c, $d>> {
            fn eval(&self, t: f64) -> Result<Vec<f64>, BSplineError> {
                let t = sc::<$P>(t);
                lib("BSpline::eval", || self.0.eval(t)).map(|p| p.un())
            }
            fn domain(&self) -> (f64, f64) {
                let (a, b) = lib("BSpline::knot_domain", || self.0.knot_domain());
                (uns::<$P>(a), uns::<$P>(b))
            }
            fn knots(&self) -> Vec<f64> {
                let mut it = lib("BSpline::knots", || self.0.knots());
                let mut v = vec![];
                while let Some(x) = lib("BSpline::knots::next", || it.next()) {
                    v.push(uns::<$P>(*x));
                }
                v
            }
            fn points(&self) -> Pts {
                let mut it = lib("BSpline::control_points", || self.0.control_points());
                let mut v = vec![];
                while let Some(x) = lib("BSpline::control_points::next", || it.next()) {
                    v.push(x.un());
                }
                v
            }
            #[allow(clippy::redundant_closure_call)]
            fn derivative(&self) -> Option<BsBx> {
                ($deriv)(&self.0)
            }
            fn arclen(&self, n: usize) -> Option<f64> {
                Some(uns::<$P>(lib("BSpline::arclen", || self.0.arclen(n))))
            }
            fn copy(&self) -> BsBx {
                Box::new(W(lib("BSpline::clone", || self.0.clone())))
            }
        }
    };
}
/// degree-0 splines have no derivative; `$k` knots, `$c` points, degree `$d`
macro_rules! bs_all {
    ($P:ty: zero $(($k0:tt $c0:tt))* pos $(($k:tt $c:tt $d:tt))*) => {
        $( bs_one!($P, $k0, $c0, 0, |_s: &BSpline<$P, $k0, $c0, 0>| -> Option<BsBx> { None }); )*
        $( bs_one!($P, $k, $c, $d, |s: &BSpline<$P, $k, $c, $d>| -> Option<BsBx> { Some(Box::new(W(lib("BSpline::derivative", || s.derivative())))) }); )*
        impl MkBs for $P {
            fn bspline(d: usize, knots: &[f64], p: &[Vec<f64>]) -> Option<Result<BsBx, BSplineError>> {
                fn pa<const N: usize>(p: &[Vec<f64>]) -> [$P; N] { std::array::from_fn(|i| <$P>::mk(&p[i])) }
                fn ka<const N: usize>(k: &[f64]) -> [<$P as Point>::Scalar; N] { std::array::from_fn(|i| sc::<$P>(k[i])) }
                match (p.len(), d) {
                    $( ($c0, 0) => { let (k, p) = (ka::<$k0>(knots), pa::<$c0>(p)); Some(lib("BSpline::new", || BSpline::<$P, $k0, $c0, 0>::new(k, p)).map(|s| Box::new(W(s)) as BsBx)) } )*
                    $( ($c, $d) => { let (k, p) = (ka::<$k>(knots), pa::<$c>(p)); Some(lib("BSpline::new", || BSpline::<$P, $k, $c, $d>::new(k, p)).map(|s| Box::new(W(s)) as BsBx)) } )*
                    _ => None,
                }
            }
        }
    };
}
pub trait MkBs {
    fn bspline(d: usize, knots: &[f64], p: &[Vec<f64>]) -> Option<Result<BsBx, BSplineError>>;
}
include!("combos.rs");

/// A valid spline of the case over the given point type.
pub fn bspline(pk: PointKind, d: usize, knots: &[f64], p: &[Vec<f64>]) -> Result<BsBx, BSplineError> {
    let r = match pk {
        N1 => <PointN<F, 1>>::bspline(d, knots, p),
        N2 => <PointN<F, 2>>::bspline(d, knots, p),
        N3 => <PointN<F, 3>>::bspline(d, knots, p),
        N4 => <PointN<F, 4>>::bspline(d, knots, p),
        N6 => <PointN<F, 6>>::bspline(d, knots, p),
        Foreign2 => <SP<2>>::bspline(d, knots, p),
        Named3 => <crate::scalar::Named3>::bspline(d, knots, p),
        Bundled2 => <PointN<S, 2>>::bspline(d, knots, p),
        _ => None,
    };
    r.expect("instantiated spline shape")
}
