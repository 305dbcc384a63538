//! C04: float vector arithmetic is IEEE-754 scalar arithmetic in every lane.
use packed_simd::*;
use vh::*;

macro_rules! op {
    ($g:ident $ty:ident $t:ident $e:ident $o:tt $oa:tt $orc:ident) => {{
        let or = Or::Flt(sc::$orc);
        let vv = [Arg::Vec($ty, any), Arg::Vec($ty, any), Arg::No];
        let vs = [Arg::Vec($ty, any), Arg::Sc($ty, any), Arg::No];
        let sv = [Arg::Sc($ty, any), Arg::Vec($ty, any), Arg::No];
        $g.ew($ty, concat!("v", stringify!($o), "v"), vv, $ty, th!(|a: $t, b: $t| a $o b), or, None);
        $g.ew($ty, concat!("v", stringify!($o), "s"), vs, $ty, th!(|a: $t, b: $e| a $o b), or, None);
        $g.ew($ty, concat!("s", stringify!($o), "v"), sv, $ty, th!(|a: $e, b: $t| a $o b), or, None);
        $g.ew($ty, concat!("v", stringify!($oa), "v"), vv, $ty, th!(|a: $t, b: $t| { a $oa b; a }), or, None);
        $g.ew($ty, concat!("v", stringify!($oa), "s"), vs, $ty, th!(|a: $t, b: $e| { a $oa b; a }), or, None);
    }};
}
macro_rules! fl {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use crate::*; pub fn r(g: &mut Groups) {
        let ty = ty!($t $n $k $w);
        op!(g ty $t $e + += add);
        op!(g ty $t $e - -= sub);
        op!(g ty $t $e * *= mul);
        op!(g ty $t $e / /= div);
        op!(g ty $t $e % %= rem);
        g.un(ty, "neg", th!(|a: $t| -a), Or::Flt(sc::neg));
    }} x::r($g) }};
}
fn main() {
    vh::main(
        Spec {
            id: "C04",
            rule: "one group per (float vector type, operator form); operands from a float generator mixing specials (zeros, infinities, NaNs, subnormals, extremes), integers, fractions and random mantissas at moderate, huge and uniform exponents; non-trivial: some vector operand has two different lanes",
            quick: 120000,
            thorough: 4000000,
            labels: &[],
        },
        |g| {
            float_types!(fl g);
        },
    );
}
