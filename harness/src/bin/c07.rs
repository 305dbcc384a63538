//! C07: vertical comparisons give a canonical mask of the lane-wise relation.
use packed_simd::*;
use vh::*;

fn m(t: &Ty, b: bool) -> u128 {
    if b {
        t.ones()
    } else {
        0
    }
}
fn nan(t: &Ty, a: [u128; 3]) -> u128 {
    m(t, is_nan(t.w, a[0]))
}
fn inf(t: &Ty, a: [u128; 3]) -> u128 {
    m(t, is_inf(t.w, a[0]))
}
fn fin(t: &Ty, a: [u128; 3]) -> u128 {
    m(t, !is_inf(t.w, a[0]) && !is_nan(t.w, a[0]))
}
macro_rules! cmps {
    ($g:ident $ty:ident [$t:ty]) => {
        let out = Ty { k: K::M, ..$ty };
        let vv = [Arg::Vec($ty, any), Arg::Vec($ty, any), Arg::No];
        $g.ew($ty, "eq", vv, out, th!(|a: $t, b: $t| a.eq(b)), Or::Bits(sc::c_eq), None);
        $g.ew($ty, "ne", vv, out, th!(|a: $t, b: $t| a.ne(b)), Or::Bits(sc::c_ne), None);
        $g.ew($ty, "lt", vv, out, th!(|a: $t, b: $t| a.lt(b)), Or::Bits(sc::c_lt), None);
        $g.ew($ty, "le", vv, out, th!(|a: $t, b: $t| a.le(b)), Or::Bits(sc::c_le), None);
        $g.ew($ty, "gt", vv, out, th!(|a: $t, b: $t| a.gt(b)), Or::Bits(sc::c_gt), None);
        $g.ew($ty, "ge", vv, out, th!(|a: $t, b: $t| a.ge(b)), Or::Bits(sc::c_ge), None);
    };
}
macro_rules! any_ty {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use super::*; pub fn r(g: &mut Groups) {
        let ty = ty!($t $n $k $w);
        cmps!(g ty [$t]);
    }} x::r($g) }};
}
macro_rules! cat {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{
        let ty = ty!($t $n $k $w);
        let out = Ty { k: K::M, ..ty };
        let v = [Arg::Vec(ty, any), Arg::No, Arg::No];
        $g.ew(ty, "is_nan", v, out, th!(|a: $t| a.is_nan()), Or::Bits(nan), None);
        $g.ew(ty, "is_infinite", v, out, th!(|a: $t| a.is_infinite()), Or::Bits(inf), None);
        $g.ew(ty, "is_finite", v, out, th!(|a: $t| a.is_finite()), Or::Bits(fin), None);
    }};
}
macro_rules! ptr {
    ($g:ident $name:literal [$t:ty] [$e:ty] [$pt:ty] $n:tt $m:ident $us:ident $is:ident) => {{ mod x { use super::*; pub fn r(g: &mut Groups) {
        let ty = Ty::new($name, K::P, 64, $n);
        cmps!(g ty [$t]);
        fn null(t: &Ty, a: [u128; 3]) -> u128 { m(t, a[0] == 0) }
        let out = Ty { k: K::M, ..ty };
        g.ew(ty, "is_null", [Arg::Vec(ty, any), Arg::No, Arg::No], out, th!(|a: $t| a.is_null()), Or::Bits(null), None);
    }} x::r($g) }};
}
/// the pointer-vector groups (also run by C26)
pub fn ptrs(g: &mut Groups) {
    ptr_types!(ptr g);
}
#[allow(dead_code)]
fn main() {
    vh::main(
        Spec {
            id: "C07",
            rule: "one group per (vector type, relation); operands boundary-biased, the second one related to the first (equal, one lane off by one bit or one ulp, lane-wise mixed) in half of the cases; result compared bit for bit with all-ones/all-zeros lanes; non-trivial: some operand has two different lanes",
            quick: 32000,
            thorough: 500000,
            labels: &[],
        },
        |g| {
            all_types!(any_ty g);
            float_types!(cat g);
            ptrs(g);
        },
    );
}
