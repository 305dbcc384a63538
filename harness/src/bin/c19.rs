//! C19: lossless From conversions.
use packed_simd::*;
use vh::*;

include!("../conv.rs");

macro_rules! pair {
    ($g:ident $s:ident $sk:ident $sw:literal $sn:literal $d:ident $dk:ident $dw:literal $dn:literal) => {{
        conv($g, ty!($s $sn $sk $sw), ty!($d $dn $dk $dw), "from", th!(|a: $s| <$d>::from(a)));
        conv($g, ty!($s $sn $sk $sw), ty!($d $dn $dk $dw), "into", th!(|a: $s| { let r: $d = a.into(); r }));
        }};
}
fn main() {
    vh::main(
        Spec {
            id: "C19",
            rule: "one group per (pair of vector types with From, from/into); boundary-biased source lanes; every lane compared with the exactly converted value; non-trivial: the source has two different lanes",
            quick: 100000,
            thorough: 1000000,
            labels: &[],
        },
        |g| {
            from_pairs!(pair g);
        },
    );
}
