//! C18: lane-wise numeric casts.
use packed_simd::*;
use vh::*;

include!("../conv.rs");

macro_rules! pair {
    ($g:ident $s:ident $sk:ident $sw:literal $sn:literal $d:ident $dk:ident $dw:literal $dn:literal) => {{
        conv($g, ty!($s $sn $sk $sw), ty!($d $dn $dk $dw), "cast", th!(|a: $s| { let r: $d = a.cast(); r }));
        }};
}
fn main() {
    vh::main(
        Spec {
            id: "C18",
            rule: "one group per pair of vector types with a cast; source lanes boundary-biased for source and target (values around the target's limits, halfway rounding cases, in-range floats for integer targets); every lane compared with the scalar conversion, mask results checked canonical; non-trivial: the source has two different lanes",
            quick: 30000,
            thorough: 300000,
            labels: &[],
        },
        |g| {
            cast_pairs!(pair g);
        },
    );
}
