//! C12: float horizontal reductions.
use packed_simd::*;
use vh::*;

fn val(w: u32, x: u128) -> f64 {
    if w == 32 { sc::f32_(x) as f64 } else { sc::f64_(x) }
}
/// (odd integer mantissa, exponent) of a finite non-zero value
fn dec(w: u32, x: u128) -> (u128, i32) {
    let (sig, bias) = if w == 32 { (23u32, 127i32) } else { (52, 1023) };
    let e = (x >> sig) as i32 & ((1 << (w - 1 - sig)) - 1);
    let f = x & ones(sig);
    let (m, e) = if e == 0 { (f, 1 - bias - sig as i32) } else { (f | 1 << sig, e - bias - sig as i32) };
    let z = m.trailing_zeros();
    (m >> z, e + z as i32)
}
struct Fm {
    p: u32,
    u: f64,
    emax: f64,
    emin: f64,
    big: f64,
}
fn fm(w: u32) -> Fm {
    if w == 32 {
        Fm { p: 24, u: 2f64.powi(-24), emax: 127.0, emin: -126.0, big: f32::MAX as f64 / 2.0 }
    } else {
        Fm { p: 53, u: 2f64.powi(-53), emax: 1023.0, emin: -1022.0, big: f64::MAX / 2.0 }
    }
}
fn sum(s: &mut Src, t: &Ty, l: &[u128], got: u128) -> Result<(), String> {
    let w = t.w;
    let f = fm(w);
    let g = val(w, got);
    let (mut pi, mut ni) = (false, false);
    for &x in l {
        if is_nan(w, x) {
            s.label(2);
            return if g.is_nan() { Ok(()) } else { Err("NaN (a lane is NaN)".into()) };
        }
        let v = val(w, x);
        pi |= v == f64::INFINITY;
        ni |= v == f64::NEG_INFINITY;
    }
    let fin: Vec<f64> = l.iter().map(|x| val(w, *x)).filter(|v| v.is_finite()).collect();
    let pos: f64 = fin.iter().filter(|v| **v > 0.0).sum();
    let neg: f64 = -fin.iter().filter(|v| **v < 0.0).sum::<f64>();
    let abs = pos + neg;
    if pi && ni {
        s.label(2);
        return if g.is_nan() { Ok(()) } else { Err("NaN (inf - inf)".into()) };
    }
    // every partial sum lies between -neg and pos
    if pi || ni {
        if if pi { neg } else { pos } >= f.big {
            s.label(3);
            return Ok(()); // the finite lanes may overflow to the other infinity first
        }
        s.label(2);
        let e = if pi { f64::INFINITY } else { f64::NEG_INFINITY };
        return if g == e { Ok(()) } else { Err(format!("{e}")) };
    }
    if pos >= f.big || neg >= f.big {
        if pos > 0.0 && neg > 0.0 {
            s.label(3);
            return Ok(()); // a partial sum may overflow depending on the order
        }
        // one sign: partial sums grow monotonically, so only the total decides (halved against overflow)
        s.label(4);
        let h: f64 = fin.iter().map(|v| v / 64.0).sum();
        let tol = f.u * h.abs() * l.len() as f64;
        let max = 2.0 * f.big / 64.0;
        let ok = if g.is_infinite() { (g > 0.0) == (h > 0.0) && h.abs() + tol >= max } else { (g / 64.0 - h).abs() <= tol };
        return if ok { Ok(()) } else { Err(format!("64 * {h:e}")) };
    }
    // exact grid?
    let d: Vec<(u128, i32, bool)> = l.iter().filter(|x| val(w, **x) != 0.0).map(|x| { let (m, e) = dec(w, *x); (m, e, val(w, *x) < 0.0) }).collect();
    let ge = d.iter().map(|x| x.1).min().unwrap_or(0);
    if d.iter().all(|x| x.1 - ge < 60) {
        let tot: u128 = d.iter().map(|x| x.0 << (x.1 - ge)).sum();
        if tot <= 1 << f.p {
            s.label(0);
            let k: i128 = d.iter().map(|x| { let v = (x.0 << (x.1 - ge)) as i128; if x.2 { -v } else { v } }).sum();
            // every partial sum is exact
            let e = k as f64 * 2f64.powi(ge.max(-1000)) * 2f64.powi(ge - ge.max(-1000));
            return if g == e { Ok(()) } else { Err(format!("exactly {e:e}")) };
        }
    }
    s.label(1);
    // double-double reference
    let (mut hi, mut lo) = (0f64, 0f64);
    for v in &fin {
        let t = hi + v;
        let b = t - hi;
        lo += (hi - (t - b)) + (v - b);
        hi = t;
    }
    let tol = f.u * abs * l.len() as f64;
    if ((g - hi) - lo).abs() <= tol { Ok(()) } else { Err(format!("{:e} +- {:e}", hi + lo, tol)) }
}
fn product(s: &mut Src, t: &Ty, l: &[u128], got: u128) -> Result<(), String> {
    let w = t.w;
    let f = fm(w);
    let g = val(w, got);
    if l.iter().any(|x| is_nan(w, *x)) {
        s.label(2);
        return if g.is_nan() { Ok(()) } else { Err("NaN (a lane is NaN)".into()) };
    }
    let v: Vec<f64> = l.iter().map(|x| val(w, *x)).collect();
    let inf = v.iter().any(|x| x.is_infinite());
    let zero = v.iter().any(|x| *x == 0.0);
    if inf && zero {
        s.label(2);
        return if g.is_nan() { Ok(()) } else { Err("NaN (0 * inf)".into()) };
    }
    let neg = v.iter().filter(|x| x.is_sign_negative()).count() % 2 == 1;
    let (mut up, mut dn) = (0f64, 0f64);
    // the finite non-zero lanes' product as m * 2^e
    let (mut m, mut e) = (1f64, 0i32);
    for x in v.iter().filter(|x| x.is_finite() && **x != 0.0) {
        let lg = x.abs().log2();
        if lg > 0.0 { up += lg } else { dn += lg }
        let k = lg.floor() as i32;
        let (k1, k2) = (k / 2, k - k / 2);
        m *= x.abs() * 2f64.powi(-k1) * 2f64.powi(-k2);
        e += k;
    }
    let sgn = if neg { -1.0 } else { 1.0 };
    // in some order a partial product may overflow / underflow
    let over = up >= f.emax - 0.5;
    let under = dn <= f.emin + 0.5;
    if zero || inf {
        if (zero && over) || (inf && under) {
            s.label(3);
            return Ok(()); // 0 * inf in some order
        }
        s.label(2);
        let e: f64 = if zero { 0.0 * sgn } else { f64::INFINITY * sgn };
        return if g.to_bits() == e.to_bits() { Ok(()) } else { Err(format!("{e}")) };
    }
    if over || under {
        if over && dn < 0.0 {
            s.label(3);
            return Ok(());
        }
        s.label(4);
        if g.is_nan() || (g.is_sign_negative() != neg) {
            return Err(format!("{}{m} * 2^{e}", if neg { "-" } else { "" }));
        }
        let n = l.len() as f64;
        let lg = m.log2() + e as f64;
        let ok = if over {
            // magnitudes of at least one: only the whole product can overflow
            if lg > f.emax + 2.0 {
                g.is_infinite()
            } else if g.is_infinite() {
                lg > f.emax + 0.9
            } else {
                let k = 2f64.powi(-(e / 2));
                let p = m * 2f64.powi(e - e / 2 - e / 2);
                (g.abs() * k * k - p).abs() <= 4.2 * n * f.u * p
            }
        } else {
            // an underflowing step is off by at most half of the smallest subnormal, and later factors scale that by at most 2^up
            let eta = if w == 32 { -149.0 } else { -1074.0 };
            if up + eta + n.log2() >= f.emax {
                true
            } else if g.is_infinite() {
                false
            } else {
                // compare in units of 2^eta
                let k = eta as i32;
                let u = g.abs() * 2f64.powi(-k / 2) * 2f64.powi(-k - -k / 2);
                let pe = e - k;
                let p = if pe < -60 { 0.0 } else if pe > 1000 { f64::INFINITY } else { m * 2f64.powi(pe) };
                p == f64::INFINITY || (u - p).abs() <= n * 2f64.powf(up) + 4.2 * n * f.u * p
            }
        };
        return if ok { Ok(()) } else { Err(format!("{}{m} * 2^{e} within rounding", if neg { "-" } else { "" })) };
    }
    let p: f64 = v.iter().product();
    let bits: u32 = l.iter().map(|x| dec(w, *x).0).filter(|m| *m > 1).map(|m| 128 - m.leading_zeros()).sum();
    if bits <= f.p {
        s.label(0);
        return if g == p { Ok(()) } else { Err(format!("exactly {p:e}")) };
    }
    s.label(1);
    let tol = 2.2 * l.len() as f64 * f.u * p.abs();
    if (g - p).abs() <= tol { Ok(()) } else { Err(format!("{p:e} +- {tol:e}")) }
}
fn minmax(t: &Ty, l: &[u128], got: u128, max: bool) -> Result<(), String> {
    // NaN lanes are ignored unless every lane is NaN
    let v: Vec<f64> = l.iter().filter(|x| !is_nan(t.w, **x)).map(|x| val(t.w, *x)).collect();
    if v.is_empty() {
        return if is_nan(t.w, got) { Ok(()) } else { Err("NaN (every lane is NaN)".into()) };
    }
    let e = v.iter().fold(v[0], |a, b| if max { a.max(*b) } else { a.min(*b) });
    let g = val(t.w, got);
    if g == e && l.contains(&got) { Ok(()) } else { Err(format!("{e:e}")) }
}
fn min(_: &mut Src, t: &Ty, l: &[u128], got: u128) -> Result<(), String> {
    minmax(t, l, got, false)
}
fn max(_: &mut Src, t: &Ty, l: &[u128], got: u128) -> Result<(), String> {
    minmax(t, l, got, true)
}
/// integers and dyadic fractions: sums stay exact
fn dyadic(s: &mut Src, t: &Ty) -> u128 {
    let k = s.below(if t.w == 32 { 19 } else { 48 });
    let x = (s.u64() >> (63 - k)) as f64 * if s.chance(1, 4) { 1.0 / 64.0 } else { 1.0 };
    fbits(t.w, if s.bool() { -x } else { x })
}
fn wild(s: &mut Src, t: &Ty) -> u128 {
    any_float(s, t.w)
}
fn moderate(s: &mut Src, t: &Ty) -> u128 {
    let (sig, exp) = if t.w == 32 { (23u32, 127u128) } else { (52, 1023) };
    let e = exp + s.below(13) as u128 - 6;
    e << sig | (s.u64() as u128 & ones(sig)) | (s.bool() as u128) << (t.w - 1)
}
/// small odd factors and powers of two: products stay exact
fn factor(s: &mut Src, t: &Ty) -> u128 {
    let x = *s.pick(&[1.0, 2.0, 0.5, 4.0, 0.25, 3.0, 1.5, 8.0, 1.0, 1.0]);
    fbits(t.w, if s.bool() { -x } else { x })
}
/// mostly moderate values with an occasional special
fn special(s: &mut Src, t: &Ty) -> u128 {
    if s.chance(1, t.n as u64 + 1) {
        any_float(s, t.w)
    } else {
        factor(s, t)
    }
}
/// magnitudes at most one whose product lies around the smallest numbers
fn shrinking(s: &mut Src, t: &Ty) -> u128 {
    let (sig, exp, span) = if t.w == 32 { (23u32, 127u64, 149u64) } else { (52, 1023, 1074) };
    let d = s.below((2 * span / t.n as u64).min(exp - 1)) + 1;
    ((exp - d) as u128) << sig | (s.u64() as u128 & ones(sig)) | (s.bool() as u128) << (t.w - 1)
}
/// magnitudes of at least one whose product lies around the largest numbers
fn growing(s: &mut Src, t: &Ty) -> u128 {
    let (sig, exp) = if t.w == 32 { (23u32, 127u64) } else { (52, 1023) };
    let d = s.below((2 * exp / t.n as u64).min(exp)).min(exp);
    ((exp + d) as u128) << sig | (s.u64() as u128 & ones(sig)) | (s.bool() as u128) << (t.w - 1)
}
/// positive values whose sum lies around the largest numbers
fn huge(s: &mut Src, t: &Ty) -> u128 {
    let (sig, exp) = if t.w == 32 { (23u32, 127u64) } else { (52, 1023) };
    let d = (t.n as u64).trailing_zeros() as u64;
    let e = (2 * exp - d + 1 - s.below(3)).min(2 * exp);
    (e as u128) << sig | (s.u64() as u128 & ones(sig))
}
/// many NaN lanes
fn nans(s: &mut Src, t: &Ty) -> u128 {
    if s.chance(1, 3) { any_nonnan(s, t) } else { fbits(t.w, f64::NAN) }
}
type Pred = fn(&mut Src, &Ty, &[u128], u128) -> Result<(), String>;
fn red(g: &mut Groups, ty: Ty, name: &str, f: F, e: Pred, gens: &'static [LaneGen]) {
    g.add(format!("{}/{}", ty.name, name), move |s| {
        let gen = *s.pick(gens);
        let a = vec(s, &ty, gen);
        let mut o = V { b: [0xA5; 128] };
        f(a.p(), a.p(), a.p(), o.pm());
        let got = o.get(ty.w, 0);
        s.note(|| format!("{} -> {}", show(&ty, &a), show1(ty.k, ty.w, got)));
        match e(s, &ty, &a.lanes(&ty), got) {
            Ok(()) => Res::Ok,
            Err(m) => Res::Fail(format!("{} gives {}, expected {}", show(&ty, &a), show1(ty.k, ty.w, got), m)),
        }
    });
}
macro_rules! fl {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use crate::*; pub fn r(g: &mut Groups) {
        let ty = ty!($t $n $k $w);
        red(g, ty, "sum", th!(|a: $t| a.sum()), sum, &[dyadic, moderate, special, wild, huge]);
        red(g, ty, "product", th!(|a: $t| a.product()), product, &[factor, moderate, special, wild, shrinking, growing]);
        red(g, ty, "min_element", th!(|a: $t| a.min_element()), min, &[any_nonnan, dyadic, wild, nans]);
        red(g, ty, "max_element", th!(|a: $t| a.max_element()), max, &[any_nonnan, dyadic, wild, nans]);
    }} x::r($g) }};
}
fn main() {
    vh::main(
        Spec {
            id: "C12",
            rule: "one group per (float vector type, reduction); lanes are dyadic (every order exact), moderate, special-laden or arbitrary; oracle: exact sum/product where no order can round, otherwise the any-order rounding bound, the result at the edge of the range where only the whole sum/product can overflow or where underflow errors are bounded, otherwise (an order may overflow) not judged and counted under order_dependent; non-trivial: the vector has two different lanes",
            quick: 600000,
            thorough: 10000000,
            labels: &["exact_required", "rounding_bound", "special_result", "order_dependent", "edge_of_range"],
        },
        |g| {
            float_types!(fl g);
        },
    );
}
