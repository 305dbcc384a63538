//! C21: bit counting.
use packed_simd::*;
use vh::*;

fn ones_(t: &Ty, a: [u128; 3]) -> u128 {
    (0..t.w).filter(|i| a[0] >> i & 1 == 1).count() as u128
}
fn zeros(t: &Ty, a: [u128; 3]) -> u128 {
    t.w as u128 - ones_(t, a)
}
fn lz(t: &Ty, a: [u128; 3]) -> u128 {
    (0..t.w).take_while(|i| a[0] >> (t.w - 1 - i) & 1 == 0).count() as u128
}
fn tz(t: &Ty, a: [u128; 3]) -> u128 {
    (0..t.w).take_while(|i| a[0] >> i & 1 == 0).count() as u128
}
/// a value with a chosen number of leading and trailing zeros
fn window(s: &mut Src, t: &Ty) -> u128 {
    match s.below(4) {
        0 => any(s, t),
        1 => 1u128 << s.below(t.w as u64),
        2 => {
            let l = s.below(t.w as u64) as u32;
            let x = any_int(s, t.w);
            x >> l | 1u128 << (t.w - 1 - l)
        }
        _ => {
            let l = s.below(t.w as u64) as u32;
            let x = any_int(s, t.w);
            (x << l | 1u128 << l) & t.ones()
        }
    }
}
macro_rules! ints {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use crate::*; pub fn r(g: &mut Groups) {
        let ty = ty!($t $n $k $w);
        let a = [Arg::Vec(ty, window), Arg::No, Arg::No];
        g.ew(ty, "count_ones", a, ty, th!(|a: $t| a.count_ones()), Or::Bits(ones_), None);
        g.ew(ty, "count_zeros", a, ty, th!(|a: $t| a.count_zeros()), Or::Bits(zeros), None);
        g.ew(ty, "leading_zeros", a, ty, th!(|a: $t| a.leading_zeros()), Or::Bits(lz), None);
        g.ew(ty, "trailing_zeros", a, ty, th!(|a: $t| a.trailing_zeros()), Or::Bits(tz), None);
    }} x::r($g) }};
}
fn main() {
    vh::main(
        Spec {
            id: "C21",
            rule: "one group per (integer vector type, count); lanes boundary-biased, single bits, and values with chosen numbers of leading or trailing zeros; counts recomputed bit by bit; non-trivial: the vector has two different lanes",
            quick: 80000,
            thorough: 1000000,
            labels: &[],
        },
        |g| {
            int_types!(ints g);
        },
    );
}
