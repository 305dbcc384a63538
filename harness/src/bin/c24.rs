//! C24: transcendental functions.
use packed_simd::*;
use vh::*;

/// units in the last place allowed around the reference
const ULPS: f64 = 4.0;

fn val(w: u32, x: u128) -> f64 {
    if w == 32 { sc::f32_(x) as f64 } else { sc::f64_(x) }
}
/// spacing of the format at |r|
fn ulp(w: u32, r: f64) -> f64 {
    let (p, emin) = if w == 32 { (24, -126) } else { (53, -1022) };
    let r = r.abs();
    let e = if r == 0.0 { emin } else { (((r.to_bits() >> 52) as i32) - 1023).max(emin) };
    let k = e - p + 1;
    if k < -1022 { f64::from_bits(1u64 << (k + 1074).max(0)) } else { 2f64.powi(k) }
}
fn maxf(w: u32) -> f64 {
    if w == 32 { f32::MAX as f64 } else { f64::MAX }
}
/// `got` within tol ulps (plus `abs`) of the reference value r (computed in double)
fn near(w: u32, got: u128, r: f64, ulps: f64, abs: f64) -> Result<(), String> {
    let g = val(w, got);
    if r.is_nan() {
        return if g.is_nan() { Ok(()) } else { Err("NaN".into()) };
    }
    if g.is_nan() {
        return Err(format!("{r:e}"));
    }
    let big = maxf(w);
    if r.abs() > big * (1.0 - 1e-6) || r.is_infinite() {
        // overflow region: infinity, or a value just as large
        return if g.is_sign_negative() == r.is_sign_negative() && (g.is_infinite() && (r.abs() > big * (1.0 - 1e-6)) || (!r.is_infinite() && g.abs() > big * (1.0 - 1e-5))) {
            Ok(())
        } else {
            Err(format!("{r:e}"))
        };
    }
    let tol = ulps * ulp(w, r) + abs;
    if (g - r).abs() <= tol { Ok(()) } else { Err(format!("{r:e} +- {tol:e}")) }
}
macro_rules! un {
    ($n:ident, $f:expr) => {
        fn $n(t: &Ty, a: [u128; 3], got: u128) -> Result<(), String> {
            let f: fn(f64) -> f64 = $f;
            near(t.w, got, f(val(t.w, a[0])), ULPS, 0.0)
        }
    };
}
un!(sin, |x| x.sin());
un!(cos, |x| x.cos());
un!(exp, |x| x.exp());
un!(ln, |x| x.ln());
un!(tanh, |x| x.tanh());
fn powf(t: &Ty, a: [u128; 3], got: u128) -> Result<(), String> {
    near(t.w, got, val(t.w, a[0]).powf(val(t.w, a[1])), ULPS, 0.0)
}
/// sin(pi x) or cos(pi x): either of the rounded product, or of the exact one
fn trig_pi(t: &Ty, x: u128, got: u128, cos: bool) -> Result<(), String> {
    let v = val(t.w, x);
    let f = |y: f64| if cos { y.cos() } else { y.sin() };
    if !v.is_finite() {
        return near(t.w, got, f64::NAN, 0.0, 0.0);
    }
    let prod = sc::mul(t, [x, fbits(t.w, core::f64::consts::PI), 0]);
    let prod = if t.w == 32 { (sc::f32_(x) * core::f32::consts::PI) as f64 } else { val(t.w, prod) };
    if prod.is_infinite() {
        // the rounded product overflows: NaN, or the exact function
        return Ok(());
    }
    let a = near(t.w, got, f(prod), ULPS, 0.0);
    if a.is_ok() {
        return a;
    }
    // exact: reduce x modulo 2 first (exact in floating point)
    let r = v % 2.0;
    let e = f(r * core::f64::consts::PI);
    let eps = if t.w == 32 { f32::EPSILON as f64 } else { f64::EPSILON };
    near(t.w, got, e, ULPS, 2.0 * eps).or(a)
}
fn sin_pi(t: &Ty, a: [u128; 3], got: u128) -> Result<(), String> {
    trig_pi(t, a[0], got, false)
}
fn cos_pi(t: &Ty, a: [u128; 3], got: u128) -> Result<(), String> {
    trig_pi(t, a[0], got, true)
}
/// angles and exponents of everyday size
fn moderate(s: &mut Src, t: &Ty) -> u128 {
    let x = match s.below(7) {
        6 => return dict_float(s, t.w),
        0 => s.below(4001) as f64 / 100.0 - 20.0,
        1 => (s.u64() >> 11) as f64 / (1u64 << 53) as f64 * 2.0 - 1.0,
        2 => (s.u64() >> 11) as f64 / (1u64 << 53) as f64 * 200.0 - 100.0,
        3 => (s.below(65) as f64 - 32.0) * 0.25 * core::f64::consts::PI,
        4 => s.below(65) as f64 * 0.5 - 16.0,
        _ => (s.u64() >> 11) as f64 / (1u64 << 53) as f64 * 20.0 - 10.0,
    };
    fbits(t.w, x)
}
fn mixed(s: &mut Src, t: &Ty) -> u128 {
    if s.below(3) == 0 { any(s, t) } else { moderate(s, t) }
}
/// bases for powf: mostly positive
fn base(s: &mut Src, t: &Ty) -> u128 {
    let x = mixed(s, t);
    if s.below(4) == 0 { x } else { x & ones(t.w - 1) }
}
macro_rules! fl {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use crate::*; pub fn r(g: &mut Groups) {
        let ty = ty!($t $n $k $w);
        let a = [Arg::Vec(ty, mixed), Arg::No, Arg::No];
        g.ew(ty, "sin", a, ty, th!(|a: $t| a.sin()), Or::Pred(sin), None);
        g.ew(ty, "cos", a, ty, th!(|a: $t| a.cos()), Or::Pred(cos), None);
        g.ew(ty, "exp", a, ty, th!(|a: $t| a.exp()), Or::Pred(exp), None);
        g.ew(ty, "ln", [Arg::Vec(ty, base), Arg::No, Arg::No], ty, th!(|a: $t| a.ln()), Or::Pred(ln), None);
        g.ew(ty, "tanh", a, ty, th!(|a: $t| a.tanh()), Or::Pred(tanh), None);
        g.ew(ty, "powf", [Arg::Vec(ty, base), Arg::Vec(ty, mixed), Arg::No], ty, th!(|a: $t, b: $t| a.powf(b)), Or::Pred(powf), None);
        g.ew(ty, "sin_pi", a, ty, th!(|a: $t| a.sin_pi()), Or::Pred(sin_pi), None);
        g.ew(ty, "cos_pi", a, ty, th!(|a: $t| a.cos_pi()), Or::Pred(cos_pi), None);
        g.ew(ty, "sin_cos_pi.0", a, ty, th!(|a: $t| a.sin_cos_pi().0), Or::Pred(sin_pi), None);
        g.ew(ty, "sin_cos_pi.1", a, ty, th!(|a: $t| a.sin_cos_pi().1), Or::Pred(cos_pi), None);
    }} x::r($g) }};
}
fn main() {
    vh::main(
        Spec {
            id: "C24",
            rule: "one group per (float vector type, function); two thirds of the lanes of everyday size (angles, multiples of pi/4, exponents), the rest boundary-biased including NaN, infinities, zeros, subnormals and huge values; each lane within 4 ulp of the double-precision libm value (*_pi: of the function of the rounded product, or of the exact product within its rounding); non-trivial: an operand has two different lanes",
            quick: 200000,
            thorough: 2000000,
            labels: &[],
        },
        |g| {
            float_types!(fl g);
        },
    );
}
