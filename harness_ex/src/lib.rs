//! Helpers for the checks of the example programs.
pub use vh::*;

/// Uniform in [lo, hi), on a grid of 2^20 steps (simplest: lo).
pub fn uni(s: &mut Src, lo: f64, hi: f64) -> f64 {
    lo + (hi - lo) * s.below(1 << 20) as f64 / (1u64 << 20) as f64
}
pub fn f(s: &mut Src, lo: f64, hi: f64) -> f32 {
    let x = uni(s, lo, hi) as f32;
    s.feed(x.to_bits() as u128);
    x
}
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}
#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return $crate::Res::Fail(format!($($t)*)) };
}
