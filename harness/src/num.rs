//! The native float of the configuration under test, and rounding into it.
#[cfg(not(stroke_vp_f32))]
pub type F = f64;
#[cfg(stroke_vp_f32)]
pub type F = f32;

pub const EPS: f64 = F::EPSILON as f64;
pub const IS32: bool = cfg!(stroke_vp_f32);

/// Round an f64 to the nearest value of the native float.
pub fn rnd(x: f64) -> f64 {
    x as F as f64
}
/// Largest decimal exponent used for "moderate" magnitudes (squares and products of a few must not overflow).
pub const EXP_WIDE: i32 = if IS32 { 6 } else { 40 };
pub const EXP_MID: i32 = if IS32 { 3 } else { 10 };
/// neighbours in the native float
pub fn up(x: f64) -> f64 {
    (x as F).next_up() as f64
}
pub fn down(x: f64) -> f64 {
    (x as F).next_down() as f64
}
/// Decimal exponents up to which squares (of sums) of coordinates neither overflow nor underflow
pub const EXP_HUGE: i32 = if IS32 { 13 } else { 135 };
