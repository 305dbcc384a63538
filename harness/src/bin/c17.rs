//! C17: shuffle1_dyn.
use packed_simd::*;
use vh::*;

fn dynshuf(g: &mut Groups, ty: Ty, isz: usize, f: F) {
    let iw = (isz * 8 / ty.n) as u32;
    for (name, mode) in [("random", 0u8), ("permutation", 1), ("near-identity", 2), ("pattern", 3)] {
        g.add(format!("{}/shuffle1_dyn/{}", ty.name, name), move |s| {
            let gen: LaneGen = if s.bool() { any_bits } else { distinct };
            let a = vec(s, &ty, gen);
            let n = ty.n;
            let mut idx: Vec<usize> = match mode {
                0 => (0..n).map(|_| s.below(n as u64) as usize).collect(),
                _ => (0..n).collect(),
            };
            if mode == 1 {
                for i in (1..n).rev() {
                    let j = s.below(i as u64 + 1) as usize;
                    idx.swap(i, i - j);
                }
            }
            if mode == 2 {
                for _ in 0..1 + s.below(2) {
                    let i = s.below(n as u64) as usize;
                    idx[i] = s.below(n as u64) as usize;
                }
            }
            if mode == 3 {
                idx = pattern(s, n);
                // up to two lanes away from the pattern, often the first or last ones
                for _ in 0..s.below(3) {
                    let i = match s.below(4) {
                        0 => 0,
                        1 => n - 1,
                        _ => s.below(n as u64) as usize,
                    };
                    idx[i] = if s.bool() { i } else { s.below(n as u64) as usize };
                }
            }
            let mut iv = V::zero();
            for (i, x) in idx.iter().enumerate() {
                iv.set(iw, i, *x as u128);
                s.feed(*x as u128);
            }
            s.nontrivial |= idx.iter().enumerate().any(|(i, x)| i != *x);
            let mut o = V { b: [0xA5; 128] };
            f(a.p(), iv.p(), a.p(), o.pm());
            s.note(|| format!("{} by {:?} -> {}", show(&ty, &a), idx, show(&ty, &o)));
            for k in 0..n {
                if o.get(ty.w, k) != a.get(ty.w, idx[k]) {
                    return Res::Fail(format!("lane {} of {} is {}, expected lane {} = {}", k, show(&ty, &o), show1(ty.k, ty.w, o.get(ty.w, k)), idx[k], show1(ty.k, ty.w, a.get(ty.w, idx[k]))));
                }
            }
            Res::Ok
        });
    }
}
/// index vectors that real code uses: rotations, reversals, block swaps, broadcasts, interleaves, strides
fn pattern(s: &mut Src, n: usize) -> Vec<usize> {
    let p = 1usize << s.below(n.trailing_zeros() as u64 + 1); // a block size: 1..=n
    let r = s.below(n as u64) as usize;
    let kind = s.below(9);
    (0..n)
        .map(|i| match kind {
            0 => (i + r) % n,
            1 => n - 1 - i,
            2 => i ^ r,
            3 => r,
            4 => i / p * p,                              // first lane of each block
            5 => i % p,                                  // first block repeated
            6 => if i % 2 == 0 { i / 2 } else { i / 2 + n / 2 }, // interleave the halves
            7 => if i < n / 2 { 2 * i } else { (2 * i + 1) % n }, // and back (n = 1: lane 0)
            _ => i * (2 * r + 1) % n,                    // odd stride
        })
        .map(|x| x % n)
        .collect()
}
/// almost surely different lanes
fn distinct(s: &mut Src, t: &Ty) -> u128 {
    if t.k == K::M { any(s, t) } else { (s.u64() as u128 | (s.u64() as u128) << 64) & t.ones() }
}
macro_rules! go {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use super::*; pub fn r(g: &mut Groups) {
        let f: F = |p, q, _r, o| unsafe {
            let a: $t = rd(p);
            let i = rd(q);
            wr(o, a.shuffle1_dyn(i));
        };
        dynshuf(g, ty!($t $n $k $w), core::mem::size_of::<$t>(), f);
    }} x::r($g) }};
}
macro_rules! ptr {
    ($g:ident $name:literal [$t:ty] [$e:ty] [$p:ty] $n:literal $m:ident $us:ident $is:ident) => {{
        dynshuf($g, Ty::new($name, K::P, 64, $n), 8 * $n, th!(|a: $t, i: $us| a.shuffle1_dyn(i)));
    }};
}
/// the pointer-vector groups (also run by C26)
pub fn ptrs(g: &mut Groups) {
    ptr_types!(ptr g);
}
#[allow(dead_code)]
fn main() {
    vh::main(
        Spec {
            id: "C17",
            rule: "one group per (vector type, kind of index vector: random with repeats, permutation, identity with a changed lane, rotation / reversal / broadcast / interleave / stride pattern with up to two changed lanes); indices below the lane count; every result lane compared bit by bit with the addressed lane; non-trivial: operand has two different lanes or the index vector is not the identity",
            quick: 24000,
            thorough: 500000,
            labels: &[],
        },
        |g| {
            all_types!(go g);
            ptrs(g);
        },
    );
}
