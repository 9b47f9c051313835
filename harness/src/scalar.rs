//! User-side point types: a scalar newtype that counts work ("fuel"), a point over it, and a named-field point.
use crate::num::F;
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::cell::Cell;
use std::iter::Sum;
use std::num::FpCategory;
use std::ops::{Add, Div, Mul, Neg, Rem, Sub};
use stroke::Point;

thread_local! { static FUEL: Cell<u64> = const { Cell::new(u64::MAX) }; }
/// Run `f` with a bound on the number of scalar operations it may perform; panics when exceeded.
pub fn with_fuel<R>(limit: u64, f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            FUEL.with(|c| c.set(u64::MAX));
        }
    }
    let _g = Reset;
    FUEL.with(|c| c.set(limit));
    f()
}
#[inline]
fn burn() {
    FUEL.with(|c| {
        let v = c.get();
        if v == 0 {
            c.set(u64::MAX);
            panic!("work bound exceeded: the operation does not terminate in a bounded number of scalar operations");
        }
        if v != u64::MAX {
            c.set(v - 1);
        }
    });
}

/// A scalar that is not the native float, only convertible to and from it.
#[derive(Clone, Copy, Debug, Default)]
#[repr(align(32))]
pub struct S(F);

impl PartialEq for S {
    fn eq(&self, o: &S) -> bool {
        burn();
        self.0 == o.0
    }
}
impl PartialOrd for S {
    fn partial_cmp(&self, o: &S) -> Option<std::cmp::Ordering> {
        burn();
        self.0.partial_cmp(&o.0)
    }
}
impl From<F> for S {
    fn from(x: F) -> S {
        burn();
        S(x)
    }
}
impl From<S> for F {
    fn from(x: S) -> F {
        burn();
        x.0
    }
}
macro_rules! ops {
    ($($t:ident $f:ident $o:tt),*) => { $(
        impl $t<S> for S { type Output = S; fn $f(self, r: S) -> S { burn(); S(self.0 $o r.0) } }
        impl $t<F> for S { type Output = S; fn $f(self, r: F) -> S { burn(); S(self.0 $o r) } }
    )* };
}
ops!(Add add +, Sub sub -, Mul mul *, Div div /, Rem rem %);
impl Neg for S {
    type Output = S;
    fn neg(self) -> S {
        burn();
        S(-self.0)
    }
}
impl Sum<F> for S {
    fn sum<I: Iterator<Item = F>>(i: I) -> S {
        S(i.sum())
    }
}
impl Zero for S {
    fn zero() -> S {
        S(0.0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}
impl One for S {
    fn one() -> S {
        S(1.0)
    }
}
impl Num for S {
    type FromStrRadixErr = <F as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<S, Self::FromStrRadixErr> {
        F::from_str_radix(s, r).map(S)
    }
}
impl ToPrimitive for S {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        self.0.to_f64()
    }
}
impl NumCast for S {
    fn from<T: ToPrimitive>(n: T) -> Option<S> {
        <F as NumCast>::from(n).map(S)
    }
}
macro_rules! un { ($($f:ident)*) => { $( fn $f(self) -> S { burn(); S(Float::$f(self.0)) } )* }; }
macro_rules! bin { ($($f:ident)*) => { $( fn $f(self, o: S) -> S { burn(); S(Float::$f(self.0, o.0)) } )* }; }
macro_rules! con { ($($f:ident)*) => { $( fn $f() -> S { S(<F as Float>::$f()) } )* }; }
macro_rules! pred { ($($f:ident)*) => { $( fn $f(self) -> bool { burn(); Float::$f(self.0) } )* }; }
impl Float for S {
    con!(nan infinity neg_infinity neg_zero min_value min_positive_value max_value epsilon);
    pred!(is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative);
    un!(floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh);
    bin!(powf log max min hypot atan2);
    fn classify(self) -> FpCategory {
        self.0.classify()
    }
    fn mul_add(self, a: S, b: S) -> S {
        burn();
        S(Float::mul_add(self.0, a.0, b.0))
    }
    fn powi(self, n: i32) -> S {
        burn();
        S(Float::powi(self.0, n))
    }
    fn abs_sub(self, o: S) -> S {
        S(if self.0 <= o.0 { 0.0 } else { self.0 - o.0 })
    }
    fn sin_cos(self) -> (S, S) {
        let (a, b) = Float::sin_cos(self.0);
        (S(a), S(b))
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        Float::integer_decode(self.0)
    }
}

/// Point over the foreign scalar.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct SP<const N: usize>(pub [S; N]);
impl<const N: usize> Default for SP<N> {
    fn default() -> Self {
        SP([S::default(); N])
    }
}
impl<const N: usize> Add for SP<N> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        SP(std::array::from_fn(|i| self.0[i] + o.0[i]))
    }
}
impl<const N: usize> Sub for SP<N> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        SP(std::array::from_fn(|i| self.0[i] - o.0[i]))
    }
}
impl<const N: usize> Mul<S> for SP<N> {
    type Output = Self;
    fn mul(self, o: S) -> Self {
        SP(std::array::from_fn(|i| self.0[i] * o))
    }
}
impl<const N: usize> Mul<F> for SP<N> {
    type Output = Self;
    fn mul(self, o: F) -> Self {
        SP(std::array::from_fn(|i| self.0[i] * o))
    }
}
impl<const N: usize> IntoIterator for SP<N> {
    type Item = S;
    type IntoIter = std::array::IntoIter<S, N>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<const N: usize> Point for SP<N> {
    type Scalar = S;
    const DIM: usize = N;
    fn axis(&self, i: usize) -> S {
        self.0[i]
    }
    fn squared_length(&self) -> S {
        let mut r = S(0.0);
        for x in self.0 {
            r = r + x * x;
        }
        r
    }
}

/// A point with named fields, laid out in another order, iterated by reference-free custom iterator.
#[derive(Clone, Copy, Debug, PartialEq, Default)]
#[repr(align(64))]
pub struct Named3 {
    pub z: F,
    pub y: F,
    pub x: F,
}
impl Add for Named3 {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Named3 { x: self.x + o.x, y: self.y + o.y, z: self.z + o.z }
    }
}
impl Sub for Named3 {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Named3 { x: self.x - o.x, y: self.y - o.y, z: self.z - o.z }
    }
}
impl Mul<F> for Named3 {
    type Output = Self;
    fn mul(self, o: F) -> Self {
        Named3 { x: self.x * o, y: self.y * o, z: self.z * o }
    }
}
pub struct It3(Named3, u8);
impl Iterator for It3 {
    type Item = F;
    fn next(&mut self) -> Option<F> {
        self.1 += 1;
        match self.1 {
            1 => Some(self.0.x),
            2 => Some(self.0.y),
            3 => Some(self.0.z),
            _ => None,
        }
    }
}
impl IntoIterator for Named3 {
    type Item = F;
    type IntoIter = It3;
    fn into_iter(self) -> It3 {
        It3(self, 0)
    }
}
impl Point for Named3 {
    type Scalar = F;
    const DIM: usize = 3;
    fn axis(&self, i: usize) -> F {
        match i {
            0 => self.x,
            1 => self.y,
            2 => self.z,
            _ => panic!("axis out of range"),
        }
    }
    fn squared_length(&self) -> F {
        self.x * self.x + self.y * self.y + self.z * self.z
    }
}
