//! C03: integer vector arithmetic equals wrapping scalar arithmetic in every lane.
use packed_simd::*;
use vh::*;

/// keep divisors in the domain: non-zero, and not MIN / -1
fn divfix(t: &Ty, l: &mut [u128; 3]) {
    if l[1] == 0 {
        l[1] = 3;
    }
    if t.k == K::I && l[1] == ones(t.w) && l[0] == 1u128 << (t.w - 1) {
        l[0] += 1;
    }
}
/// vector divided by scalar: only the vector may be adjusted
fn divfix_vs(t: &Ty, l: &mut [u128; 3]) {
    if t.k == K::I && l[1] == ones(t.w) && l[0] == 1u128 << (t.w - 1) {
        l[0] += 1;
    }
}
fn divfix_sv(t: &Ty, l: &mut [u128; 3]) {
    if l[1] == 0 {
        l[1] = 3;
    }
    if t.k == K::I && l[1] == ones(t.w) && l[0] == 1u128 << (t.w - 1) {
        l[1] = 1;
    }
}
type Fix = Option<fn(&Ty, &mut [u128; 3])>;

macro_rules! op {
    ($g:ident $ty:ident $t:ident $e:ident $o:tt $oa:tt $orc:ident $dv:expr) => {{
        let or = Or::Bits(sc::$orc);
        let (f0, f1, f2): (Fix, Fix, Fix) = if $dv { (Some(divfix), Some(divfix_vs), Some(divfix_sv)) } else { (None, None, None) };
        let sg: LaneGen = if $dv { nonzero } else { any };
        let vv = [Arg::Vec($ty, any), Arg::Vec($ty, any), Arg::No];
        let vs = [Arg::Vec($ty, any), Arg::Sc($ty, sg), Arg::No];
        let sv = [Arg::Sc($ty, any), Arg::Vec($ty, any), Arg::No];
        $g.ew($ty, concat!("v", stringify!($o), "v"), vv, $ty, th!(|a: $t, b: $t| a $o b), or, f0);
        $g.ew($ty, concat!("v", stringify!($o), "s"), vs, $ty, th!(|a: $t, b: $e| a $o b), or, f1);
        $g.ew($ty, concat!("s", stringify!($o), "v"), sv, $ty, th!(|a: $e, b: $t| a $o b), or, f2);
        $g.ew($ty, concat!("v", stringify!($oa), "v"), vv, $ty, th!(|a: $t, b: $t| { a $oa b; a }), or, f0);
        $g.ew($ty, concat!("v", stringify!($oa), "s"), vs, $ty, th!(|a: $t, b: $e| { a $oa b; a }), or, f1);
    }};
}
macro_rules! ints {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use crate::*; pub fn reg(g: &mut Groups) {
        let ty = ty!($t $n $k $w);
        op!(g ty $t $e + += add false);
        op!(g ty $t $e - -= sub false);
        op!(g ty $t $e * *= mul false);
        op!(g ty $t $e / /= div true);
        op!(g ty $t $e % %= rem true);
    }} x::reg($g) }};
}
macro_rules! negs {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{
        let ty = ty!($t $n $k $w);
        $g.un(ty, "neg", th!(|a: $t| -a), Or::Bits(sc::neg));
    }};
}
fn main() {
    vh::main(
        Spec {
            id: "C03",
            rule: "one group per (integer vector type, operator form); operands drawn lane by lane from a boundary-biased generator in several vector shapes, second operand independent of or related to the first; non-trivial: some vector operand has two different lanes",
            quick: 12000,
            thorough: 60000,
            labels: &[],
        },
        |g| {
            int_types!(ints g);
            sint_types!(negs g);
        },
    );
}
