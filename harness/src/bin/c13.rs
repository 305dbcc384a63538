//! C13: mask reductions.
use packed_simd::*;
use vh::*;

const NAMES: [&str; 6] = ["all", "any", "none", "and", "or", "xor"];
fn want(l: &[bool]) -> [u8; 6] {
    let all = l.iter().all(|x| *x);
    let any = l.iter().any(|x| *x);
    let xor = l.iter().filter(|x| **x).count() % 2 == 1;
    [all as u8, any as u8, !any as u8, all as u8, any as u8, xor as u8]
}
/// masks with few exceptional lanes, prefixes and halves, besides the common shapes
pub fn mvec(s: &mut Src, ty: &Ty) -> V {
    let n = ty.n as u64;
    let v = match s.below(4) {
        0 => return vec(s, ty, any),
        1 => {
            // all equal but one lane
            let b = s.bool();
            let i = s.below(n) as usize;
            V::from_lanes(ty, &(0..ty.n).map(|k| if (k == i) != b { ty.ones() } else { 0 }).collect::<Vec<_>>())
        }
        2 => {
            // an interval
            let a = s.below(n + 1) as usize;
            let b = s.below(n + 1) as usize;
            let neg = s.bool();
            V::from_lanes(ty, &(0..ty.n).map(|k| if (k >= a.min(b) && k < a.max(b)) != neg { ty.ones() } else { 0 }).collect::<Vec<_>>())
        }
        _ => {
            // periodic
            let p = 1u64 << s.below(6);
            let bits = s.u64();
            V::from_lanes(ty, &(0..ty.n).map(|k| if bits >> (k as u64 % p) & 1 == 1 { ty.ones() } else { 0 }).collect::<Vec<_>>())
        }
    };
    feed(s, ty, &v);
    v
}
fn check(s: &mut Src, shown: &str, l: &[bool], o: &V) -> Res {
    let w = want(l);
    s.label(if w[0] == 1 { 0 } else if w[2] == 1 { 1 } else { 2 });
    s.note(|| format!("{} -> all {} any {} none {} and {} or {} xor {}", shown, o.b[0], o.b[1], o.b[2], o.b[3], o.b[4], o.b[5]));
    for i in 0..6 {
        if o.b[i] != w[i] {
            return Res::Fail(format!("{}: {} is {}, expected {}", shown, NAMES[i], o.b[i], w[i]));
        }
    }
    Res::Ok
}
macro_rules! six {
    ($a:expr) => {{
        let m = $a;
        [m.all() as u8, m.any() as u8, m.none() as u8, m.and() as u8, m.or() as u8, m.xor() as u8]
    }};
}
fn direct(g: &mut Groups, ty: Ty, f: F, nf: F) {
    g.add(format!("{}/direct", ty.name), move |s| {
        let a = mvec(s, &ty);
        let l: Vec<bool> = a.lanes(&ty).iter().map(|x| *x != 0).collect();
        let mut o = V { b: [0xA5; 128] };
        f(a.p(), a.p(), a.p(), o.pm());
        check(s, &show(&ty, &a), &l, &o)
    });
    g.add(format!("{}/negated", ty.name), move |s| {
        let a = mvec(s, &ty);
        let l: Vec<bool> = a.lanes(&ty).iter().map(|x| *x == 0).collect();
        let mut o = V { b: [0xA5; 128] };
        nf(a.p(), a.p(), a.p(), o.pm());
        check(s, &format!("!{}", show(&ty, &a)), &l, &o)
    });
}
fn cmp(g: &mut Groups, ty: Ty, f: F, h: F) {
    g.addn(format!("{}/eq-lt", ty.name), 0.5, move |s| {
        let a = vec(s, &ty, any);
        let b = related(s, &ty, &a, any);
        let lt = s.bool();
        let l: Vec<bool> = (0..ty.n)
            .map(|i| if lt { sc::lt_(&ty, a.get(ty.w, i), b.get(ty.w, i)) } else { sc::eq_(&ty, a.get(ty.w, i), b.get(ty.w, i)) })
            .collect();
        let mut o = V { b: [0xA5; 128] };
        (if lt { h } else { f })(a.p(), b.p(), a.p(), o.pm());
        check(s, &format!("{}.{}({})", show(&ty, &a), if lt { "lt" } else { "eq" }, show(&ty, &b)), &l, &o)
    });
}
macro_rules! masks {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use crate::*; pub fn r(g: &mut Groups) {
        direct(g, ty!($t $n $k $w), th!(|a: $t| six!(a)), th!(|a: $t| six!(!a)));
    }} x::r($g) }};
}
macro_rules! nums {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use crate::*; pub fn r(g: &mut Groups) {
        cmp(g, ty!($t $n $k $w), th!(|a: $t, b: $t| six!(a.eq(b))), th!(|a: $t, b: $t| six!(a.lt(b))));
    }} x::r($g) }};
}
fn main() {
    vh::main(
        Spec {
            id: "C13",
            rule: "groups per mask type (mask given directly, negated) and per numeric type (mask made by eq/lt of generated vectors); masks biased to all-but-one lane, intervals and periodic patterns; six reductions compared with the folds over bools, in one build per x86 feature level; non-trivial: the mask or an operand has two different lanes",
            quick: 60000,
            thorough: 1000000,
            labels: &["all true", "none true", "mixed"],
        },
        |g| {
            mask_types!(masks g);
            num_types!(nums g);
        },
    );
}
