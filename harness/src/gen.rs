//! Lane-level model of vectors (bit patterns) and boundary-biased generators.
use crate::src::Src;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    I,
    U,
    F,
    /// mask: a lane is all ones or all zeros
    M,
    /// pointer / raw address
    P,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ty {
    pub name: &'static str,
    pub k: K,
    /// lane width in bits
    pub w: u32,
    pub n: usize,
}

impl Ty {
    pub const fn new(name: &'static str, k: K, w: u32, n: usize) -> Ty {
        Ty { name, k, w, n }
    }
    pub fn scalar(self) -> Ty {
        Ty { n: 1, ..self }
    }
    pub fn size(&self) -> usize {
        self.n * self.w as usize / 8
    }
    pub fn ones(&self) -> u128 {
        ones(self.w)
    }
}

pub fn ones(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(x: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((x << s) as i128) >> s
}

/// A vector value: raw little-endian bytes as the library lays them out.
#[derive(Clone, Copy)]
#[repr(align(64))]
pub struct V {
    pub b: [u8; 128],
}
impl V {
    pub fn zero() -> V {
        V { b: [0; 128] }
    }
    #[inline]
    pub fn get(&self, w: u32, i: usize) -> u128 {
        let n = (w / 8) as usize;
        let mut x = [0u8; 16];
        x[..n].copy_from_slice(&self.b[i * n..i * n + n]);
        u128::from_le_bytes(x)
    }
    #[inline]
    pub fn set(&mut self, w: u32, i: usize, v: u128) {
        let n = (w / 8) as usize;
        self.b[i * n..i * n + n].copy_from_slice(&v.to_le_bytes()[..n]);
    }
    pub fn lanes(&self, ty: &Ty) -> Vec<u128> {
        (0..ty.n).map(|i| self.get(ty.w, i)).collect()
    }
    pub fn from_lanes(ty: &Ty, l: &[u128]) -> V {
        let mut v = V::zero();
        for (i, x) in l.iter().enumerate() {
            v.set(ty.w, i, *x);
        }
        v
    }
    pub fn p(&self) -> *const u8 {
        self.b.as_ptr()
    }
    pub fn pm(&mut self) -> *mut u8 {
        self.b.as_mut_ptr()
    }
}

pub fn show1(k: K, w: u32, x: u128) -> String {
    match k {
        K::I => format!("{}", sext(x, w)),
        K::U => format!("{}", x),
        K::F => {
            if w == 32 {
                format!("{:e}[{:#010x}]", f32::from_bits(x as u32), x)
            } else {
                format!("{:e}[{:#018x}]", f64::from_bits(x as u64), x)
            }
        }
        K::M => {
            if x == ones(w) {
                "T".into()
            } else if x == 0 {
                "F".into()
            } else {
                format!("BAD-MASK[{:#x}]", x)
            }
        }
        K::P => format!("{:#x}", x),
    }
}
pub fn show(ty: &Ty, v: &V) -> String {
    let l: Vec<String> = (0..ty.n).map(|i| show1(ty.k, ty.w, v.get(ty.w, i))).collect();
    if ty.n == 1 {
        l[0].clone()
    } else {
        format!("{}({})", ty.name, l.join(", "))
    }
}

/// Generator of one lane value.
pub type LaneGen = fn(&mut Src, &Ty) -> u128;

fn raw(s: &mut Src, w: u32) -> u128 {
    let lo = s.u64() as u128;
    let x = if w > 64 { lo | (s.u64() as u128) << 64 } else { lo };
    x & ones(w)
}

/// Any value of the lane type, biased to boundaries.
pub fn any(s: &mut Src, ty: &Ty) -> u128 {
    match ty.k {
        K::I | K::U | K::P => any_int(s, ty.w),
        K::F => any_float(s, ty.w),
        K::M => {
            if s.bool() {
                ty.ones()
            } else {
                0
            }
        }
    }
}
/// Fuzzing dictionary: the numeric literals of the code under test, collected by
/// run.py (`VH_DICT`, one per line: weight, value). Only biases generation.
struct Dict {
    ints: Vec<u128>,
    floats: Vec<f64>,
}
fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict { ints: vec![], floats: vec![] };
        let txt = std::env::var("VH_DICT").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        for l in txt.lines() {
            let mut it = l.split_whitespace();
            if let (Some(n), Some(v)) = (it.next().and_then(|n| n.parse::<usize>().ok()), it.next()) {
                for _ in 0..n {
                    if let Ok(i) = v.parse::<u128>() {
                        d.ints.push(i);
                    }
                    if let Ok(f) = v.parse::<f64>() {
                        d.floats.push(f);
                    }
                }
            }
        }
        if d.ints.is_empty() {
            d.ints.push(3);
        }
        if d.floats.is_empty() {
            d.floats.push(3.0);
        }
        d
    })
}
/// a literal of the code under test, its negation or complement, or a close neighbour
pub fn dict_int(s: &mut Src, w: u32) -> u128 {
    s.value(|r| {
        let d = &dict().ints;
        let x = d[(r >> 8) as usize % d.len()];
        let x = match r & 7 {
            0 => x.wrapping_add(1),
            1 => x.wrapping_sub(1),
            2 => x.wrapping_neg(),
            3 => x.wrapping_add((r >> 3 & 31) as u128).wrapping_sub(16),
            _ => x,
        };
        x & ones(w)
    })
}
pub fn dict_float(s: &mut Src, w: u32) -> u128 {
    s.value(|r| {
        let d = &dict().floats;
        let k = (r >> 8) as usize % d.len();
        let x = fbits(w, d[k]);
        let x = match r & 7 {
            0 => x.wrapping_add(1),
            1 => x.wrapping_sub(1),
            2 => dict().ints[(r >> 8) as usize % dict().ints.len()], // as a bit pattern
            3 => fbits(w, d[k] + (r >> 3 & 31) as f64 / 16.0 - 1.0),
            _ => x,
        };
        let x = (x ^ (r as u128 >> 7 & 1) << (w - 1)) & ones(w);
        if is_nan(w, x) { x | 1u128 << if w == 32 { 22 } else { 51 } } else { x }
    })
}
pub fn any_int(s: &mut Src, w: u32) -> u128 {
    let m = ones(w);
    let v = match s.below(11) {
        8 => dict_int(s, w),
        9 => {
            // bytes or larger parts, each all zeros, all ones, a boundary or random
            let part = [8u32, 16, 32, 64][s.below(4) as usize].min(w);
            let mut x = 0u128;
            let mut k = 0;
            while k < w {
                let b = match s.below(6) {
                    0 | 1 => 0,
                    2 => ones(part),
                    3 => 1u128 << (part - 1),
                    4 => ones(part) >> 1,
                    _ => s.u64() as u128 & ones(part),
                };
                x |= b << k;
                k += part;
            }
            x
        }
        10 => {
            if w >= 32 && s.bool() {
                // float bit patterns
                let f = if w == 32 { any_float(s, 32) } else { any_float(s, 64) };
                if w == 128 { f | any_float(s, 64) << 64 } else { f }
            } else {
                // a repeated part, possibly with one bit off
                let part = ([4u32, 8, 16, 32][s.below(4) as usize]).min(w / 2);
                let b = s.u64() as u128 & ones(part);
                let mut x = 0u128;
                let mut k = 0;
                while k < w {
                    x |= b << k;
                    k += part;
                }
                if s.bool() {
                    x ^= 1u128 << s.below(w as u64);
                }
                x
            }
        }
        0 => s.below(5) as u128,
        1 => (s.below(5) as u128).wrapping_neg(),
        2 => {
            // around the sign boundary
            (1u128 << (w - 1)).wrapping_add(s.below(5) as u128).wrapping_sub(2)
        }
        3 => {
            // around a power of two
            (1u128 << s.below(w as u64)).wrapping_add(s.below(3) as u128).wrapping_sub(1)
        }
        4 => s.below(256) as u128,
        5 => {
            // half-filled patterns
            let k = s.below(w as u64) as u32;
            raw(s, w) >> k
        }
        _ => raw(s, w),
    };
    v & m
}
/// Any bit pattern, for operations that must keep all bits: floats include
/// signalling NaNs.
pub fn any_bits(s: &mut Src, ty: &Ty) -> u128 {
    if ty.k == K::F && s.below(6) == 0 {
        if s.bool() {
            return raw(s, ty.w);
        }
        let (sig, top) = if ty.w == 32 { (23, 0x1ffu128) } else { (52, 0xfffu128) };
        let sign = if s.bool() { 1u128 << (ty.w - 1) } else { 0 };
        return top << sig & ones(ty.w - 1) | sign | 1u128 << s.below(sig) | s.u64() as u128 & ones(s.below(sig) as u32);
    }
    any(s, ty)
}
pub fn fbits(w: u32, x: f64) -> u128 {
    if w == 32 {
        (x as f32).to_bits() as u128
    } else {
        x.to_bits() as u128
    }
}
pub fn any_float(s: &mut Src, w: u32) -> u128 {
    let (sig, exp_bits) = if w == 32 { (23u32, 8u32) } else { (52, 11) };
    let sign = |b: bool| if b { 1u128 << (w - 1) } else { 0 };
    let expmax = (1u128 << exp_bits) - 1;
    match s.below(13) {
        12 => dict_float(s, w),
        0 => {
            let x = *s.pick(&[0.0f64, 1.0, 2.0, 0.5, 3.0, 1.5]);
            fbits(w, x) | sign(s.bool())
        }
        1 => {
            // specials: +-0, inf, nan(s)
            let b = s.below(6);
            let g = sign(s.bool());
            match b {
                0 => g,
                1 => expmax << sig | g,
                2 => expmax << sig | 1u128 << (sig - 1) | g,
                3 => expmax << sig | 1u128 << (sig - 1) | 1 + s.below(1 << 20) as u128 | g,
                4 => g | 1,                                     // smallest subnormal
                _ => (expmax << sig).wrapping_sub(1) & ones(w - 1) | g, // largest finite
            }
        }
        2 => {
            // around the normal/subnormal boundary
            ((1u128 << sig).wrapping_add(s.below(5) as u128).wrapping_sub(2)) | sign(s.bool())
        }
        3 => {
            // integers
            let k = s.below(sig as u64 + 3) as u32;
            let x = (s.u64() >> (63 - k.min(62))) as f64;
            fbits(w, x) | sign(s.bool())
        }
        4 => {
            // half-integers and thirds
            let x = s.below(2000) as f64 / *s.pick(&[2.0, 3.0, 4.0, 10.0]);
            fbits(w, x) | sign(s.bool())
        }
        5 | 6 | 7 => {
            // moderate magnitude, full mantissa
            let e = (expmax >> 1) + s.below(41) as u128 - 20;
            e << sig | (s.u64() as u128 & ones(sig)) | sign(s.bool())
        }
        8 => {
            // subnormal
            (s.u64() as u128 & ones(sig)) | sign(s.bool())
        }
        9 => {
            // huge
            let e = expmax - 1 - s.below(4) as u128;
            e << sig | (s.u64() as u128 & ones(sig)) | sign(s.bool())
        }
        _ => {
            // any finite-ish bits (may be NaN/inf with tiny probability)
            let e = s.below(expmax as u64) as u128;
            e << sig | (s.u64() as u128 & ones(sig)) | sign(s.bool())
        }
    }
}
pub fn any_nonnan(s: &mut Src, ty: &Ty) -> u128 {
    let x = any_float(s, ty.w);
    if is_nan(ty.w, x) {
        0
    } else {
        x
    }
}
pub fn finite(s: &mut Src, ty: &Ty) -> u128 {
    let x = any_float(s, ty.w);
    if is_nan(ty.w, x) || is_inf(ty.w, x) {
        0
    } else {
        x
    }
}
pub fn is_nan(w: u32, x: u128) -> bool {
    if w == 32 {
        f32::from_bits(x as u32).is_nan()
    } else {
        f64::from_bits(x as u64).is_nan()
    }
}
pub fn is_inf(w: u32, x: u128) -> bool {
    if w == 32 {
        f32::from_bits(x as u32).is_infinite()
    } else {
        f64::from_bits(x as u64).is_infinite()
    }
}
pub fn nonzero(s: &mut Src, ty: &Ty) -> u128 {
    let x = any(s, ty);
    if x == 0 {
        1
    } else {
        x
    }
}
/// shift amounts below the lane width
pub fn shamt(s: &mut Src, ty: &Ty) -> u128 {
    s.below(ty.w as u64) as u128
}
/// shift amounts below the width given in `n` (for scalar u32 amounts the type's
/// `n` field carries the width)
pub fn small(s: &mut Src, _ty: &Ty) -> u128 {
    s.below(5) as u128
}

/// Makes NaNs quiet, except for the generator of all bit patterns: the result of
/// arithmetic and min/max on signalling NaNs is not specified.
fn quiet(ty: &Ty, x: u128, g: LaneGen) -> u128 {
    if ty.k == K::F && is_nan(ty.w, x) && g as usize != any_bits as LaneGen as usize {
        x | 1u128 << if ty.w == 32 { 22 } else { 51 }
    } else {
        x
    }
}

/// A vector in one of several shapes: independent lanes, a splat, a splat with
/// one or two lanes replaced, or lanes drawn from a pool of two values.
pub fn vec(s: &mut Src, ty: &Ty, g: LaneGen) -> V {
    let mut v = V::zero();
    let w = ty.w;
    let shape = s.below(if ty.n == 1 { 1 } else { 17 });
    match shape {
        // a palindrome
        13 => {
            for i in 0..ty.n {
                let x = if i < (ty.n + 1) / 2 { g(s, ty) } else { v.get(w, ty.n - 1 - i) };
                v.set(w, i, x);
            }
        }
        // runs of equal lanes
        14 => {
            let p = (1usize << 1 + s.below(3)).min(ty.n);
            for i in 0..ty.n {
                let x = if i % p == 0 { g(s, ty) } else { v.get(w, i - i % p) };
                v.set(w, i, x);
            }
        }
        // a window of one value in another (masks: loop heads and tails)
        15 => {
            let (x, y) = if ty.k == K::M {
                let t = s.bool();
                (if t { ty.ones() } else { 0 }, if t { 0 } else { ty.ones() })
            } else {
                (g(s, ty), g(s, ty))
            };
            let a = if s.bool() { 0 } else { s.below(ty.n as u64) as usize };
            let b = a + s.below((ty.n - a) as u64 + 1) as usize;
            for i in 0..ty.n {
                v.set(w, i, if i >= a && i < b { x } else { y });
            }
        }
        // a ramp of bit patterns
        16 if ty.k != K::M && (g as usize == any as LaneGen as usize || g as usize == any_bits as LaneGen as usize) => {
            let x = g(s, ty);
            let d = match s.below(3) {
                0 => 1 + s.below(8) as u128,
                1 => 0u128.wrapping_sub(1 + s.below(8) as u128),
                _ => g(s, ty),
            };
            for i in 0..ty.n {
                v.set(w, i, quiet(ty, x.wrapping_add(d.wrapping_mul(i as u128)) & ty.ones(), g));
            }
        }
        // lanes close to each other: small differences or single bits
        12 if ty.k != K::M && (g as usize == any as LaneGen as usize || g as usize == any_bits as LaneGen as usize) => {
            let x = g(s, ty);
            let bit = s.bool();
            for i in 0..ty.n {
                let y = if bit {
                    if s.bool() { x } else { x ^ 1u128 << s.below(w as u64) }
                } else {
                    x.wrapping_add(s.below(7) as u128).wrapping_sub(3)
                };
                v.set(w, i, quiet(ty, y & ty.ones(), g));
            }
        }
        // half uniform, half not
        8 => {
            let x = g(s, ty);
            let up = s.bool();
            for i in 0..ty.n {
                let y = if (i >= ty.n / 2) == up { x } else { g(s, ty) };
                v.set(w, i, y);
            }
        }
        // some lanes repeat others, often the outer ones
        9 => {
            for i in 0..ty.n {
                let x = g(s, ty);
                v.set(w, i, x);
            }
            if s.bool() {
                v.set(w, ty.n - 1, v.get(w, 0));
            }
            for _ in 0..s.below(4) {
                let (i, j) = (s.below(ty.n as u64) as usize, s.below(ty.n as u64) as usize);
                v.set(w, i, v.get(w, j));
            }
        }
        // sorted by bit pattern
        10 => {
            let mut l: Vec<u128> = (0..ty.n).map(|_| g(s, ty)).collect();
            l.sort_unstable();
            if s.bool() {
                l.reverse();
            }
            for (i, x) in l.into_iter().enumerate() {
                v.set(w, i, x);
            }
        }
        // periodic
        11 => {
            let p = (1usize << 1 + s.below(3)).min(ty.n);
            for i in 0..ty.n {
                let x = if i < p { g(s, ty) } else { v.get(w, i % p) };
                v.set(w, i, x);
            }
        }
        0 | 1 | 2 | 3 | 4 => {
            for i in 0..ty.n {
                let x = g(s, ty);
                v.set(w, i, x);
            }
        }
        5 => {
            let x = g(s, ty);
            for i in 0..ty.n {
                v.set(w, i, x);
            }
        }
        6 => {
            let x = g(s, ty);
            for i in 0..ty.n {
                v.set(w, i, x);
            }
            for _ in 0..1 + s.below(2) {
                let i = s.below(ty.n as u64) as usize;
                let y = g(s, ty);
                v.set(w, i, y);
            }
        }
        _ => {
            let x = g(s, ty);
            let y = g(s, ty);
            let bits = s.u64();
            for i in 0..ty.n {
                v.set(w, i, if bits >> i & 1 == 1 { y } else { x });
            }
        }
    }
    // a structured vector with one lane out of place
    if shape >= 8 && s.below(3) == 0 {
        let i = s.below(ty.n as u64) as usize;
        let y = g(s, ty);
        v.set(w, i, y);
    }
    feed(s, ty, &v);
    v
}
pub fn feed(s: &mut Src, ty: &Ty, v: &V) {
    let first = v.get(ty.w, 0);
    for i in 0..ty.n {
        let x = v.get(ty.w, i);
        s.feed(x);
        if x != first {
            s.nontrivial = true;
        }
    }
}
/// A second operand related to `a`: independent, equal, or lane-wise mixed with it.
pub fn related(s: &mut Src, ty: &Ty, a: &V, g: LaneGen) -> V {
    match s.below(10) {
        0 | 1 | 2 | 3 => vec(s, ty, g),
        // the lanes of `a` in another order
        8 if ty.n > 1 => {
            let n = ty.n;
            let (rev, r) = (s.bool(), s.below(n as u64) as usize);
            let mut v = V::zero();
            for i in 0..n {
                let j = if rev { n - 1 - i } else { (i + r) % n };
                v.set(ty.w, i, a.get(ty.w, j));
            }
            feed(s, ty, &v);
            v
        }
        // the lane-wise negation or complement of `a`, in some or all lanes
        9 if g as usize == any as LaneGen as usize || g as usize == any_bits as LaneGen as usize => {
            let mut v = *a;
            let neg = s.bool();
            let skip = if s.bool() { 0 } else { s.u64() };
            for i in 0..ty.n {
                let x = a.get(ty.w, i);
                if skip >> i & 1 == 1 {
                    continue;
                }
                let y = match ty.k {
                    K::F => x ^ 1u128 << (ty.w - 1),
                    K::M => !x,
                    _ if neg => x.wrapping_neg(),
                    _ => !x,
                };
                v.set(ty.w, i, y & ty.ones());
            }
            feed(s, ty, &v);
            v
        }
        4 => {
            let mut v = *a;
            // equal except possibly one lane
            if s.bool() {
                let i = s.below(ty.n as u64) as usize;
                let x = g(s, ty);
                v.set(ty.w, i, x);
            }
            feed(s, ty, &v);
            v
        }
        5 => {
            // equal except one lane changed by one bit
            let mut v = *a;
            let i = s.below(ty.n as u64) as usize;
            if ty.k == K::M {
                v.set(ty.w, i, !v.get(ty.w, i) & ty.ones());
            } else if ty.k != K::F {
                let b = s.below(ty.w as u64);
                v.set(ty.w, i, v.get(ty.w, i) ^ 1u128 << b);
            } else {
                // neighbouring float
                let x = v.get(ty.w, i);
                let y = if s.bool() { x.wrapping_add(1) } else { x.wrapping_sub(1) } & ty.ones();
                v.set(ty.w, i, quiet(ty, y, g));
            }
            feed(s, ty, &v);
            v
        }
        _ => {
            let mut v = vec(s, ty, g);
            let bits = s.u64();
            for i in 0..ty.n {
                if bits >> i & 1 == 0 {
                    v.set(ty.w, i, a.get(ty.w, i));
                }
            }
            feed(s, ty, &v);
            v
        }
    }
}
