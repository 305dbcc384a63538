//! C08: whole-vector equality and hashing agree with the array of lanes.
use packed_simd::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use vh::*;

fn h<T: Hash>(x: &T) -> u64 {
    let mut d = DefaultHasher::new();
    x.hash(&mut d);
    d.finish()
}
fn eqs(g: &mut Groups, ty: Ty, f: F) {
    g.add(format!("{}/==", ty.name), move |s| {
        let a = vec(s, &ty, any);
        let b = related(s, &ty, &a, any);
        let b = if s.chance(1, 8) { a } else { b };
        let e = (0..ty.n).all(|i| sc::eq_(&ty, a.get(ty.w, i), b.get(ty.w, i)));
        s.label(e as u32);
        let mut o = V { b: [0xA5; 128] };
        f(a.p(), b.p(), a.p(), o.pm());
        s.note(|| format!("{} , {} -> == {} != {}", show(&ty, &a), show(&ty, &b), o.b[0], o.b[1]));
        if o.b[0] != e as u8 || o.b[1] != !e as u8 {
            return Res::Fail(format!("{} , {}: == is {}, != is {}", show(&ty, &a), show(&ty, &b), o.b[0], o.b[1]));
        }
        Res::Ok
    });
}
fn hs(g: &mut Groups, ty: Ty, f: F) {
    g.addn(format!("{}/hash", ty.name), 0.5, move |s| {
        let a = vec(s, &ty, any);
        let mut o = V { b: [0xA5; 128] };
        f(a.p(), a.p(), a.p(), o.pm());
        s.note(|| format!("{} -> {:#x}", show(&ty, &a), o.get(64, 0)));
        if o.get(64, 0) != o.get(64, 1) {
            return Res::Fail(format!("hash of {} differs from the hash of its lane array", show(&ty, &a)));
        }
        Res::Ok
    });
}
macro_rules! eq {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use super::*; pub fn r(g: &mut Groups) {
        eqs(g, ty!($t $n $k $w), th!(|a: $t, b: $t| [(a == b) as u8, (a != b) as u8]));
    }} x::r($g) }};
}
macro_rules! hash {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use super::*; pub fn r(g: &mut Groups) {
        hs(g, ty!($t $n $k $w), |p, _, _, o| unsafe { let a: $t = rd(p); let l: [$e; $n] = rd(p); wr(o, [h(&a), h(&l)]) });
    }} x::r($g) }};
}
macro_rules! ptr {
    ($g:ident $name:literal [$t:ty] [$e:ty] [$pt:ty] $n:tt $m:ident $us:ident $is:ident) => {{ mod x { use super::*; pub fn r(g: &mut Groups) {
        let ty = Ty::new($name, K::P, 64, $n);
        eqs(g, ty, th!(|a: $t, b: $t| [(a == b) as u8, (a != b) as u8]));
        hs(g, ty, |p, _, _, o| unsafe { let a: $t = rd(p); let l: [$e; $n] = rd(p); wr(o, [h(&a), h(&l)]) });
    }} x::r($g) }};
}
/// the pointer-vector groups (also run by C26)
pub fn ptrs(g: &mut Groups) {
    ptr_types!(ptr g);
}
#[allow(dead_code)]
fn main() {
    vh::main(
        Spec {
            id: "C08",
            rule: "one group per (vector type, == / hash); the second operand is equal, differs in one lane, in one bit of one lane, by one ulp, or lane-wise mixed in most cases; hash compared with the standard hash of the lane array; non-trivial: some operand has two different lanes",
            quick: 120000,
            thorough: 2000000,
            labels: &["unequal", "equal"],
        },
        |g| {
            all_types!(eq g);
            int_types!(hash g);
            ptrs(g);
        },
    );
}
