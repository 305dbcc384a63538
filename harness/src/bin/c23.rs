//! C23: abs, sqrt, mul_add, mul_adde and constants.
use packed_simd::*;
use vh::*;

fn abs(t: &Ty, a: [u128; 3]) -> u128 {
    a[0] & ones(t.w - 1)
}
fn sqrt(t: &Ty, a: [u128; 3]) -> u128 {
    if t.w == 32 {
        // the double square root rounded to single is correctly rounded
        ((sc::f32_(a[0]) as f64).sqrt() as f32).to_bits() as u128
    } else {
        sc::f64_(a[0]).sqrt().to_bits() as u128
    }
}
/// single-rounding x*y+z
fn fma(t: &Ty, a: [u128; 3]) -> u128 {
    if t.w == 64 {
        return sc::f64_(a[0]).mul_add(sc::f64_(a[1]), sc::f64_(a[2])).to_bits() as u128;
    }
    let (x, y, z) = (sc::f32_(a[0]) as f64, sc::f32_(a[1]) as f64, sc::f32_(a[2]) as f64);
    let p = x * y; // exact
    let s = p + z;
    if !s.is_finite() || s == 0.0 {
        return (s as f32).to_bits() as u128;
    }
    // round the sum to odd, then once to single
    let b = s - p;
    let err = (p - (s - b)) + (z - b);
    let mut bits = s.to_bits();
    if err != 0.0 && bits & 1 == 0 {
        if (err > 0.0) == (s > 0.0) { bits += 1 } else { bits -= 1 }
    }
    (f64::from_bits(bits) as f32).to_bits() as u128
}
fn pfma(t: &Ty, a: [u128; 3], got: u128) -> Result<(), String> {
    let f = fma(t, a);
    if sc::same_float(t.w, f, got) { Ok(()) } else { Err(format!("{} (fused)", show1(K::F, t.w, f))) }
}
fn pmadde(t: &Ty, a: [u128; 3], got: u128) -> Result<(), String> {
    let f = fma(t, a);
    let u = sc::add(t, [sc::mul(t, a), a[2], 0]);
    if sc::same_float(t.w, f, got) || sc::same_float(t.w, u, got) {
        Ok(())
    } else {
        Err(format!("{} (fused) or {} (rounded twice)", show1(K::F, t.w, f), show1(K::F, t.w, u)))
    }
}
/// values whose products and sums cancel or round
fn close(s: &mut Src, t: &Ty) -> u128 {
    let (sig, exp) = if t.w == 32 { (23u32, 127u128) } else { (52, 1023) };
    let e = exp + s.below(5) as u128 - 2;
    let m = match s.below(3) {
        0 => s.below(8) as u128,
        1 => ones(sig) - s.below(8) as u128,
        _ => s.u64() as u128 & ones(sig),
    };
    e << sig | m | (s.bool() as u128) << (t.w - 1)
}
fn mixed(s: &mut Src, t: &Ty) -> u128 {
    if s.bool() { close(s, t) } else { any(s, t) }
}
/// z close to -x*y, so that fusing matters
fn cancel(t: &Ty, l: &mut [u128; 3]) {
    if l[2] & 3 == 1 {
        let p = sc::mul(t, [l[0], l[1], 0]);
        if !is_nan(t.w, p) && !is_inf(t.w, p) {
            l[2] = p ^ 1u128 << (t.w - 1);
        }
    }
}
macro_rules! consts {
    ($g:ident $ty:ident $t:ident $e:ident [$($c:ident = $v:expr;)*]) => {{
        let mut tab: Vec<(&'static str, V, u128)> = Vec::new();
        $({
            let mut v = V::zero();
            unsafe { wr(v.pm(), <$t>::$c) };
            let e: $e = $v;
            tab.push((stringify!($c), v, e.to_bits() as u128));
        })*
        let ty = $ty;
        $g.addn(format!("{}/constants", ty.name), 0.02, move |s| {
            let (name, v, e) = &tab[s.below(tab.len() as u64) as usize];
            s.feed(*e);
            s.nontrivial = true;
            s.note(|| format!("{} = {}", name, show(&ty, v)));
            for i in 0..ty.n {
                if !sc::same_float(ty.w, v.get(ty.w, i), *e) {
                    return Res::Fail(format!("{}::{} lane {} is {}, expected {}", ty.name, name, i, show1(K::F, ty.w, v.get(ty.w, i)), show1(K::F, ty.w, *e)));
                }
            }
            Res::Ok
        });
    }};
}
macro_rules! fl {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use crate::*; pub fn r(g: &mut Groups) {
        let ty = ty!($t $n $k $w);
        g.un(ty, "abs", th!(|a: $t| a.abs()), Or::Flt(abs));
        g.ew(ty, "sqrt", [Arg::Vec(ty, any), Arg::No, Arg::No], ty, th!(|a: $t| a.sqrt()), Or::Flt(sqrt), None);
        g.ew(ty, "sqrt/moderate", [Arg::Vec(ty, mixed), Arg::No, Arg::No], ty, th!(|a: $t| a.abs().sqrt()), Or::Flt(|t, a| sqrt(t, [abs(t, a), 0, 0])), None);
        let a3 = [Arg::Vec(ty, mixed), Arg::Vec(ty, mixed), Arg::Vec(ty, mixed)];
        g.ew(ty, "mul_add", a3, ty, th!(|a: $t, b: $t, c: $t| a.mul_add(b, c)), Or::Pred(pfma), Some(cancel));
        g.ew(ty, "mul_adde", a3, ty, th!(|a: $t, b: $t, c: $t| a.mul_adde(b, c)), Or::Pred(pmadde), Some(cancel));
        use core::$e::consts as c;
        consts!(g ty $t $e [
            EPSILON = (2.0 as $e).powi(if $w == 32 { -23 } else { -52 });
            MIN = -<$e>::MAX; MIN_POSITIVE = (2.0 as $e).powi(if $w == 32 { -126 } else { -1022 });
            MAX = <$e>::MAX; NAN = 0.0 / 0.0; INFINITY = 1.0 / 0.0; NEG_INFINITY = -1.0 / 0.0;
            PI = c::PI; FRAC_PI_2 = c::FRAC_PI_2; FRAC_PI_3 = c::FRAC_PI_3; FRAC_PI_4 = c::FRAC_PI_4; FRAC_PI_6 = c::FRAC_PI_6; FRAC_PI_8 = c::FRAC_PI_8;
            FRAC_1_PI = c::FRAC_1_PI; FRAC_2_PI = c::FRAC_2_PI; FRAC_2_SQRT_PI = c::FRAC_2_SQRT_PI; SQRT_2 = c::SQRT_2; FRAC_1_SQRT_2 = c::FRAC_1_SQRT_2;
            E = c::E; LOG2_E = c::LOG2_E; LOG10_E = c::LOG10_E; LN_2 = c::LN_2; LN_10 = c::LN_10;
        ]);
    }} x::r($g) }};
}
fn main() {
    vh::main(
        Spec {
            id: "C23",
            rule: "one group per (float vector type, function), and one per type drawing an associated constant; operands boundary-biased or close to one another so that products cancel; oracles: sign clearing, correctly rounded root, round-to-odd fused multiply-add, scalar constants; non-trivial: an operand has two different lanes (constants: always)",
            quick: 480000,
            thorough: 5000000,
            labels: &[],
        },
        |g| {
            float_types!(fl g);
        },
    );
}
