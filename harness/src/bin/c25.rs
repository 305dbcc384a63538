//! C25: estimates.
use packed_simd::*;
use vh::*;

fn val(w: u32, x: u128) -> f64 {
    if w == 32 { sc::f32_(x) as f64 } else { sc::f64_(x) }
}
fn rel(t: &Ty, got: u128, r: f64) -> Result<(), String> {
    let g = val(t.w, got);
    let (lo, hi) = if t.w == 32 { (f32::MIN_POSITIVE as f64, f32::MAX as f64) } else { (f64::MIN_POSITIVE, f64::MAX) };
    let ok = (g - r).abs() <= r.abs() * (1.0 / 4096.0);
    // a true result below (above) the normal range may be flushed (overflow)
    let ok = ok || (r.abs() < lo * 1.001 && g.abs() <= lo * 1.01 && (g == 0.0 || (g < 0.0) == (r < 0.0)));
    let ok = ok || (r.abs() > hi * 0.999 && g.is_infinite() && (g < 0.0) == (r < 0.0));
    if ok { Ok(()) } else { Err(format!("{r:e} within 2^-12")) }
}
fn sqrte(t: &Ty, a: [u128; 3], got: u128) -> Result<(), String> {
    rel(t, got, val(t.w, a[0]).sqrt())
}
fn rsqrte(t: &Ty, a: [u128; 3], got: u128) -> Result<(), String> {
    rel(t, got, 1.0 / val(t.w, a[0]).sqrt())
}
fn recpre(t: &Ty, a: [u128; 3], got: u128) -> Result<(), String> {
    rel(t, got, 1.0 / val(t.w, a[0]))
}
fn normal(s: &mut Src, t: &Ty) -> u128 {
    let (sig, top) = if t.w == 32 { (23u32, 254u64) } else { (52, 2046) };
    let bias = top / 2;
    if s.chance(1, 8) {
        // a value mentioned in the code under test, if it is normal
        let x = dict_float(s, t.w) & ones(t.w - 1);
        let e = (x >> sig) as u64;
        return if e >= 1 && e <= top { x } else { (bias as u128) << sig };
    }
    let e = match s.below(4) {
        0 => bias + s.below(9) - 4,
        1 => 1 + s.below(top),
        2 => bias,
        _ => bias + s.below(61) - 30,
    };
    let m = match s.below(3) {
        0 => s.below(4) as u128,
        1 => ones(sig) - s.below(4) as u128,
        _ => s.u64() as u128 & ones(sig),
    };
    (e.min(top) as u128) << sig | m
}
fn signed(s: &mut Src, t: &Ty) -> u128 {
    normal(s, t) | (s.bool() as u128) << (t.w - 1)
}
macro_rules! fl {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use crate::*; pub fn r(g: &mut Groups) {
        let ty = ty!($t $n $k $w);
        g.ew(ty, "sqrte", [Arg::Vec(ty, normal), Arg::No, Arg::No], ty, th!(|a: $t| a.sqrte()), Or::Pred(sqrte), None);
        g.ew(ty, "rsqrte", [Arg::Vec(ty, normal), Arg::No, Arg::No], ty, th!(|a: $t| a.rsqrte()), Or::Pred(rsqrte), None);
        g.ew(ty, "recpre", [Arg::Vec(ty, signed), Arg::No, Arg::No], ty, th!(|a: $t| a.recpre()), Or::Pred(recpre), None);
    }} x::r($g) }};
}
fn main() {
    vh::main(
        Spec {
            id: "C25",
            rule: "one group per (float vector type, estimate); normal lanes over the whole exponent range, positive for the roots; relative error at most 2^-12 against the double-precision value; non-trivial: the operand has two different lanes",
            quick: 600000,
            thorough: 5000000,
            labels: &[],
        },
        |g| {
            float_types!(fl g);
        },
    );
}
