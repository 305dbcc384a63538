//! C11: integer horizontal reductions.
use packed_simd::*;
use vh::*;

type Fold = fn(&Ty, &[u128]) -> u128;
fn sum(t: &Ty, l: &[u128]) -> u128 {
    l.iter().fold(0u128, |a, b| a.wrapping_add(*b)) & t.ones()
}
fn prod(t: &Ty, l: &[u128]) -> u128 {
    l.iter().fold(1u128, |a, b| a.wrapping_mul(*b)) & t.ones()
}
fn and(t: &Ty, l: &[u128]) -> u128 {
    l.iter().fold(t.ones(), |a, b| a & b)
}
fn or(_: &Ty, l: &[u128]) -> u128 {
    l.iter().fold(0, |a, b| a | b)
}
fn xor(_: &Ty, l: &[u128]) -> u128 {
    l.iter().fold(0, |a, b| a ^ b)
}
fn min(t: &Ty, l: &[u128]) -> u128 {
    l.iter().fold(l[0], |a, b| if sc::lt_(t, *b, a) { *b } else { a })
}
fn max(t: &Ty, l: &[u128]) -> u128 {
    l.iter().fold(l[0], |a, b| if sc::lt_(t, a, *b) { *b } else { a })
}
/// odd values, so that products keep information from every lane
fn odd(s: &mut Src, t: &Ty) -> u128 {
    any(s, t) | 1
}
/// mostly ones with a few zero bits, so that `and` keeps information
fn dense(s: &mut Src, t: &Ty) -> u128 {
    t.ones() ^ 1u128.checked_shl(s.below(t.w as u64 + 4) as u32).unwrap_or(0) & t.ones()
}
fn sparse(s: &mut Src, t: &Ty) -> u128 {
    1u128.checked_shl(s.below(t.w as u64 + 4) as u32).unwrap_or(0) & t.ones()
}
fn red(g: &mut Groups, ty: Ty, name: &str, f: F, e: Fold, alt: LaneGen) {
    g.add(format!("{}/{}", ty.name, name), move |s| {
        let gen: LaneGen = if s.bool() { alt } else { any };
        let a = vec(s, &ty, gen);
        let want = e(&ty, &a.lanes(&ty));
        let mut o = V { b: [0xA5; 128] };
        f(a.p(), a.p(), a.p(), o.pm());
        let got = o.get(ty.w, 0);
        s.note(|| format!("{} -> {}", show(&ty, &a), show1(ty.k, ty.w, got)));
        if got == want {
            Res::Ok
        } else {
            Res::Fail(format!("{} gives {}, expected {}", show(&ty, &a), show1(ty.k, ty.w, got), show1(ty.k, ty.w, want)))
        }
    });
}
macro_rules! ints {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use crate::*; pub fn r(g: &mut Groups) {
        let ty = ty!($t $n $k $w);
        red(g, ty, "wrapping_sum", th!(|a: $t| a.wrapping_sum()), sum, any);
        red(g, ty, "wrapping_product", th!(|a: $t| a.wrapping_product()), prod, odd);
        red(g, ty, "and", th!(|a: $t| a.and()), and, dense);
        red(g, ty, "or", th!(|a: $t| a.or()), or, sparse);
        red(g, ty, "xor", th!(|a: $t| a.xor()), xor, any);
        red(g, ty, "min_element", th!(|a: $t| a.min_element()), min, any);
        red(g, ty, "max_element", th!(|a: $t| a.max_element()), max, any);
    }} x::r($g) }};
}
fn main() {
    vh::main(
        Spec {
            id: "C11",
            rule: "one group per (integer vector type, reduction); half of the cases use lanes that keep every lane visible in the result (odd factors, dense or sparse bit patterns); folds recomputed lane by lane; non-trivial: the vector has two different lanes",
            quick: 40000,
            thorough: 1500000,
            labels: &[],
        },
        |g| {
            int_types!(ints g);
        },
    );
}
