//! Scalar reference semantics on lane bit patterns (independent of packed_simd).
use crate::gen::{ones, sext, Ty, K};

pub fn f32_(x: u128) -> f32 {
    f32::from_bits(x as u32)
}
pub fn f64_(x: u128) -> f64 {
    f64::from_bits(x as u64)
}
fn fop(w: u32, a: u128, b: u128, f: fn(f32, f32) -> f32, d: fn(f64, f64) -> f64) -> u128 {
    if w == 32 {
        f(f32_(a), f32_(b)).to_bits() as u128
    } else {
        d(f64_(a), f64_(b)).to_bits() as u128
    }
}
pub fn add(t: &Ty, a: [u128; 3]) -> u128 {
    if t.k == K::F {
        return fop(t.w, a[0], a[1], |x, y| x + y, |x, y| x + y);
    }
    a[0].wrapping_add(a[1]) & ones(t.w)
}
pub fn sub(t: &Ty, a: [u128; 3]) -> u128 {
    if t.k == K::F {
        return fop(t.w, a[0], a[1], |x, y| x - y, |x, y| x - y);
    }
    a[0].wrapping_sub(a[1]) & ones(t.w)
}
pub fn mul(t: &Ty, a: [u128; 3]) -> u128 {
    if t.k == K::F {
        return fop(t.w, a[0], a[1], |x, y| x * y, |x, y| x * y);
    }
    a[0].wrapping_mul(a[1]) & ones(t.w)
}
pub fn div(t: &Ty, a: [u128; 3]) -> u128 {
    match t.k {
        K::F => fop(t.w, a[0], a[1], |x, y| x / y, |x, y| x / y),
        K::I => sext(a[0], t.w).wrapping_div(sext(a[1], t.w)) as u128 & ones(t.w),
        _ => a[0] / a[1],
    }
}
pub fn rem(t: &Ty, a: [u128; 3]) -> u128 {
    match t.k {
        K::F => fop(t.w, a[0], a[1], |x, y| x % y, |x, y| x % y),
        K::I => sext(a[0], t.w).wrapping_rem(sext(a[1], t.w)) as u128 & ones(t.w),
        _ => a[0] % a[1],
    }
}
pub fn neg(t: &Ty, a: [u128; 3]) -> u128 {
    if t.k == K::F {
        return a[0] ^ 1u128 << (t.w - 1);
    }
    a[0].wrapping_neg() & ones(t.w)
}
pub fn and(_: &Ty, a: [u128; 3]) -> u128 {
    a[0] & a[1]
}
pub fn or(_: &Ty, a: [u128; 3]) -> u128 {
    a[0] | a[1]
}
pub fn xor(_: &Ty, a: [u128; 3]) -> u128 {
    a[0] ^ a[1]
}
pub fn not(t: &Ty, a: [u128; 3]) -> u128 {
    !a[0] & ones(t.w)
}
pub fn shl(t: &Ty, a: [u128; 3]) -> u128 {
    (a[0] << a[1]) & ones(t.w)
}
pub fn shr(t: &Ty, a: [u128; 3]) -> u128 {
    if t.k == K::I {
        (sext(a[0], t.w) >> a[1]) as u128 & ones(t.w)
    } else {
        a[0] >> a[1]
    }
}
pub fn rotl(t: &Ty, a: [u128; 3]) -> u128 {
    // one bit at a time: obviously a rotation
    let n = (a[1] % t.w as u128) as u32; // widths are powers of two: also right for negative counts
    let mut x = a[0];
    for _ in 0..n {
        let top = x >> (t.w - 1) & 1;
        x = (x << 1 | top) & ones(t.w);
    }
    x
}
pub fn rotr(t: &Ty, a: [u128; 3]) -> u128 {
    let n = (a[1] % t.w as u128) as u32;
    let mut x = a[0];
    for _ in 0..n {
        let low = x & 1;
        x = x >> 1 | low << (t.w - 1);
    }
    x
}
pub fn lt_(t: &Ty, a: u128, b: u128) -> bool {
    match t.k {
        K::I => sext(a, t.w) < sext(b, t.w),
        K::U | K::P => a < b,
        K::F => {
            if t.w == 32 {
                f32_(a) < f32_(b)
            } else {
                f64_(a) < f64_(b)
            }
        }
        K::M => a == 0 && b != 0,
    }
}
pub fn eq_(t: &Ty, a: u128, b: u128) -> bool {
    match t.k {
        K::F => {
            if t.w == 32 {
                f32_(a) == f32_(b)
            } else {
                f64_(a) == f64_(b)
            }
        }
        _ => a == b,
    }
}
fn m(t: &Ty, b: bool) -> u128 {
    if b {
        ones(t.w)
    } else {
        0
    }
}
pub fn c_eq(t: &Ty, a: [u128; 3]) -> u128 {
    m(t, eq_(t, a[0], a[1]))
}
pub fn c_ne(t: &Ty, a: [u128; 3]) -> u128 {
    m(t, !eq_(t, a[0], a[1]))
}
pub fn c_lt(t: &Ty, a: [u128; 3]) -> u128 {
    m(t, lt_(t, a[0], a[1]))
}
pub fn c_le(t: &Ty, a: [u128; 3]) -> u128 {
    m(t, lt_(t, a[0], a[1]) || eq_(t, a[0], a[1]))
}
pub fn c_gt(t: &Ty, a: [u128; 3]) -> u128 {
    m(t, lt_(t, a[1], a[0]))
}
pub fn c_ge(t: &Ty, a: [u128; 3]) -> u128 {
    m(t, lt_(t, a[1], a[0]) || eq_(t, a[0], a[1]))
}
/// the same float, or both NaN
pub fn same_float(w: u32, a: u128, b: u128) -> bool {
    a == b || (crate::gen::is_nan(w, a) && crate::gen::is_nan(w, b))
}
