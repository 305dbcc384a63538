//! C30: iterator sum and product of vectors.
use packed_simd::*;
use vh::*;

/// `f(items, (count, adaptor), _, out)`
fn fold(g: &mut Groups, ty: Ty, op: &str, mul: bool, f: F) {
    g.add(format!("{}/{}", ty.name, op), move |s| {
        // a long history now and then: few distinct items, repeated
        let long = s.chance(1, 400);
        let n = match s.below(64) {
            _ if long => 300 + s.below(1200),
            63 => s.below(300),
            48..=62 => s.below(3),
            _ => s.below(21),
        } as usize;
        let mode = s.below(5) as usize;
        let small_items = s.bool();
        let mut items: Vec<V> = Vec::new();
        for i in 0..n {
            if long && i >= 8 {
                let j = s.below(8) as usize;
                items.push(items[j]);
                continue;
            }
            let v = if small_items && ty.k == K::F {
                // moderate magnitudes: long sums and products stay finite
                vec(s, &ty, |s, t| fbits(t.w, (s.range(-4096, 4096) as f64) * [1.0, 0.001, 0.25, 3.0][s.below(4) as usize] / 1024.0))
            } else if small_items && mul {
                vec(s, &ty, |s, t| any(s, t) | 1) // odd: the wrapping product never collapses to 0
            } else {
                vec(s, &ty, any)
            };
            items.push(v);
        }
        s.feed(n as u128);
        s.nontrivial = n >= 2;
        if n == 0 {
            s.label(0);
        }
        s.note(|| format!("[{}] adaptor {}", items.iter().map(|v| show(&ty, v)).collect::<Vec<_>>().join(" , "), mode));
        let mut buf = vec![0u8; n * ty.size() + 1];
        for (i, v) in items.iter().enumerate() {
            buf[i * ty.size()..(i + 1) * ty.size()].copy_from_slice(&v.b[..ty.size()]);
        }
        let q = [n, mode];
        let mut o = V { b: [0xA5; 128] };
        f(buf.as_ptr(), q.as_ptr() as *const u8, q.as_ptr() as *const u8, o.pm());
        s.note(|| format!("-> {}", show(&ty, &o)));
        for i in 0..ty.n {
            let mut e = match (ty.k, mul) {
                (K::F, true) => fbits(ty.w, 1.0),
                (K::F, false) => 0,
                (_, m) => m as u128,
            };
            for v in &items {
                e = if mul { sc::mul(&ty, [e, v.get(ty.w, i), 0]) } else { sc::add(&ty, [e, v.get(ty.w, i), 0]) };
            }
            let got = o.get(ty.w, i);
            let zero = |x: u128| x & (ty.ones() >> 1) == 0;
            let ok = if ty.k == K::F { sc::same_float(ty.w, e, got) || !mul && zero(e) && zero(got) } else { e == got };
            if !ok {
                return Res::Fail(format!("lane {} is {}, expected {}", i, show1(ty.k, ty.w, got), show1(ty.k, ty.w, e)));
            }
        }
        Res::Ok
    });
}
unsafe fn items<T: Copy>(p: *const u8, q: *const u8) -> (Vec<T>, usize) {
    let [n, mode]: [usize; 2] = rd(q);
    ((0..n).map(|i| rd(p.add(i * std::mem::size_of::<T>()))).collect(), mode)
}
macro_rules! it {
    ($t:ident $m:ident val) => {
        |p, q, _, o| unsafe {
            let (v, mode) = items::<$t>(p, q);
            let r: $t = match mode {
                0 => v.into_iter().$m(),
                1 => v.iter().copied().filter(|_| std::hint::black_box(true)).$m(),
                2 => { let k = v.len() / 2; v[..k].iter().copied().chain(v[k..].iter().copied()).$m() }
                3 => { let mut i = 0; std::iter::from_fn(|| { i += 1; v.get(i - 1).copied() }).$m() }
                // not fused: after its end it starts again, and a fold must have stopped there
                _ => { let mut i = 0; std::iter::from_fn(|| { let r = v.get(i).copied(); i = if i == v.len() { 0 } else { i + 1 }; r }).$m() }
            };
            wr(o, r)
        }
    };
    ($t:ident $m:ident refs) => {
        |p, q, _, o| unsafe {
            let (v, mode) = items::<$t>(p, q);
            let r: $t = match mode {
                0 => v.iter().$m(),
                1 => v.iter().filter(|_| std::hint::black_box(true)).$m(),
                2 => { let k = v.len() / 2; v[..k].iter().chain(v[k..].iter()).$m() }
                3 => { let mut i = 0; std::iter::from_fn(|| { i += 1; v.get(i - 1) }).$m() }
                _ => { let mut i = 0; std::iter::from_fn(|| { let r = v.get(i); i = if i == v.len() { 0 } else { i + 1 }; r }).$m() }
            };
            wr(o, r)
        }
    };
}
macro_rules! num {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use super::*; pub fn r(g: &mut Groups) {
        let ty = ty!($t $n $k $w);
        fold(g, ty, "sum", false, it!($t sum val));
        fold(g, ty, "sum/ref", false, it!($t sum refs));
        fold(g, ty, "product", true, it!($t product val));
        fold(g, ty, "product/ref", true, it!($t product refs));
    }} x::r($g) }};
}
fn main() {
    vh::main(
        Spec {
            id: "C30",
            rule: "one group per (integer or float vector type, sum/product, by value/by reference); sequences of 0..=20 (now and then up to 1500) boundary-biased vectors through five kinds of iterator (exact, filtered, chained, from a closure, not fused); every lane compared with the left-to-right scalar fold (wrapping for integers, bit-exact for floats except the sign of a zero sum); non-trivial: at least two items",
            quick: 18000,
            thorough: 200000,
            labels: &["empty"],
        },
        |g| {
            num_types!(num g);
        },
    );
}
