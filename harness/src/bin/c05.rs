//! C05: bitwise operators, shifts and rotates.
use packed_simd::*;
use vh::*;

macro_rules! op {
    ($g:ident $ty:ident $t:ident $e:ident $o:tt $oa:tt $orc:ident) => {{
        let or = Or::Bits(sc::$orc);
        let vv = [Arg::Vec($ty, any), Arg::Vec($ty, any), Arg::No];
        let vs = [Arg::Vec($ty, any), Arg::Sc($ty, any), Arg::No];
        let sv = [Arg::Sc($ty, any), Arg::Vec($ty, any), Arg::No];
        $g.ew($ty, concat!("v", stringify!($o), "v"), vv, $ty, th!(|a: $t, b: $t| a $o b), or, None);
        $g.ew($ty, concat!("v", stringify!($o), "s"), vs, $ty, th!(|a: $t, b: $e| a $o b), or, None);
        $g.ew($ty, concat!("s", stringify!($o), "v"), sv, $ty, th!(|a: $e, b: $t| a $o b), or, None);
        $g.ew($ty, concat!("v", stringify!($oa), "v"), vv, $ty, th!(|a: $t, b: $t| { a $oa b; a }), or, None);
        $g.ew($ty, concat!("v", stringify!($oa), "s"), vs, $ty, th!(|a: $t, b: $e| { a $oa b; a }), or, None);
    }};
}
macro_rules! ints {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use crate::*; pub fn r(g: &mut Groups) {
        let ty = ty!($t $n $k $w);
        op!(g ty $t $e & &= and);
        op!(g ty $t $e | |= or);
        op!(g ty $t $e ^ ^= xor);
        g.un(ty, "not", th!(|a: $t| !a), Or::Bits(sc::not));
        // amounts below the lane width; the scalar amount is a u32
        fn amt(s: &mut Src, _: &Ty) -> u128 {
            s.below($w) as u128
        }
        let u = Ty::new("u32", K::U, 32, 1);
        let vv = [Arg::Vec(ty, any), Arg::Vec(Ty { k: K::U, ..ty }, amt), Arg::No];
        let vs = [Arg::Vec(ty, any), Arg::Sc(u, amt), Arg::No];
        g.ew(ty, "v<<v", vv, ty, th!(|a: $t, b: $t| a << b), Or::Bits(sc::shl), None);
        g.ew(ty, "v>>v", vv, ty, th!(|a: $t, b: $t| a >> b), Or::Bits(sc::shr), None);
        g.ew(ty, "v<<=v", vv, ty, th!(|a: $t, b: $t| { a <<= b; a }), Or::Bits(sc::shl), None);
        g.ew(ty, "v>>=v", vv, ty, th!(|a: $t, b: $t| { a >>= b; a }), Or::Bits(sc::shr), None);
        g.ew(ty, "v<<u32", vs, ty, th!(|a: $t, b: u32| a << b), Or::Bits(sc::shl), None);
        g.ew(ty, "v>>u32", vs, ty, th!(|a: $t, b: u32| a >> b), Or::Bits(sc::shr), None);
        g.ew(ty, "v<<=u32", vs, ty, th!(|a: $t, b: u32| { a <<= b; a }), Or::Bits(sc::shl), None);
        g.ew(ty, "v>>=u32", vs, ty, th!(|a: $t, b: u32| { a >>= b; a }), Or::Bits(sc::shr), None);
        g.bin(ty, "rotate_left", th!(|a: $t, b: $t| a.rotate_left(b)), Or::Bits(sc::rotl));
        g.bin(ty, "rotate_right", th!(|a: $t, b: $t| a.rotate_right(b)), Or::Bits(sc::rotr));
        g.ew(ty, "rotate_left-small", vv, ty, th!(|a: $t, b: $t| a.rotate_left(b)), Or::Bits(sc::rotl), None);
        g.ew(ty, "rotate_right-small", vv, ty, th!(|a: $t, b: $t| a.rotate_right(b)), Or::Bits(sc::rotr), None);
    }} x::r($g) }};
}
fn main() {
    vh::main(
        Spec {
            id: "C05",
            rule: "one group per (integer vector type, operator form); operands boundary-biased; shift amounts uniform below the lane width, rotate counts both below the width and arbitrary lane values; non-trivial: some vector operand has two different lanes",
            quick: 8000,
            thorough: 300000,
            labels: &[],
        },
        |g| {
            int_types!(ints g);
        },
    );
}
