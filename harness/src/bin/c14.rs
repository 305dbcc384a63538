//! C14: bitmask().
use packed_simd::*;
use vh::*;

/// values differing only in the sign bit, or with a lone sign bit
fn signy(s: &mut Src, t: &Ty) -> u128 {
    let x = any(s, t);
    match s.below(3) {
        0 => x,
        1 => x ^ 1u128 << (t.w - 1),
        _ => if s.bool() { 1u128 << (t.w - 1) } else { t.ones() >> 1 },
    }
}
fn bm(g: &mut Groups, ty: Ty, f: F) {
    g.add(format!("{}/bitmask", ty.name), move |s| {
        let a = vec(s, &ty, if ty.k == K::M { any } else { signy });
        let mut e = 0u64;
        for i in 0..ty.n {
            e |= ((a.get(ty.w, i) >> (ty.w - 1)) as u64 & 1) << i;
        }
        let mut o = V { b: [0xA5; 128] };
        f(a.p(), a.p(), a.p(), o.pm());
        let got = o.get(64, 0) as u64;
        s.note(|| format!("{} -> {:#b}", show(&ty, &a), got));
        if got == e {
            Res::Ok
        } else {
            Res::Fail(format!("bitmask of {} is {:#b}, expected {:#b}", show(&ty, &a), got, e))
        }
    });
}
macro_rules! all {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use crate::*; pub fn r(g: &mut Groups) {
        bm(g, ty!($t $n $k $w), th!(|a: $t| a.bitmask() as u64));
    }} x::r($g) }};
}
macro_rules! cmpm {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use crate::*; pub fn r(g: &mut Groups) {
        // bitmask of a mask made by a comparison
        let ty = ty!($t $n $k $w);
        let f = th!(|a: $t, b: $t| a.lt(b).bitmask() as u64);
        g.addn(format!("{}/lt-bitmask", ty.name), 0.5, move |s| {
            let a = vec(s, &ty, any);
            let b = related(s, &ty, &a, any);
            let mut e = 0u64;
            for i in 0..ty.n {
                e |= (sc::lt_(&ty, a.get(ty.w, i), b.get(ty.w, i)) as u64) << i;
            }
            let mut o = V { b: [0xA5; 128] };
            f(a.p(), b.p(), a.p(), o.pm());
            let got = o.get(64, 0) as u64;
            s.note(|| format!("{}.lt({}) -> {:#b}", show(&ty, &a), show(&ty, &b), got));
            if got == e { Res::Ok } else { Res::Fail(format!("{}.lt({}).bitmask() is {:#b}, expected {:#b}", show(&ty, &a), show(&ty, &b), got, e)) }
        });
    }} x::r($g) }};
}
fn main() {
    vh::main(
        Spec {
            id: "C14",
            rule: "one group per integer or mask vector type (bitmask of a generated vector) and per numeric type (bitmask of a comparison); lane values biased to sign-bit boundaries; non-trivial: some operand has two different lanes",
            quick: 60000,
            thorough: 2000000,
            labels: &[],
        },
        |g| {
            int_types!(all g);
            mask_types!(all g);
            num_types!(cmpm g);
        },
    );
}
