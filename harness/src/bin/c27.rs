//! C27: gather.
use packed_simd::*;
use vh::*;

include!("../gs.rs");

macro_rules! go {
    ($g:ident $t:ident usize $($x:tt)*) => {};
    ($g:ident $t:ident isize $($x:tt)*) => {};
    ($g:ident $t:ident $e:ident 2 $m:ident $k:ident $w:literal) => { go!(@ $g $t $e 2 $m $k $w cptrx2 mptrx2 m8x2 m64x2); };
    ($g:ident $t:ident $e:ident 4 $m:ident $k:ident $w:literal) => { go!(@ $g $t $e 4 $m $k $w cptrx4 mptrx4 m8x4 m64x4); };
    ($g:ident $t:ident $e:ident 8 $m:ident $k:ident $w:literal) => { go!(@ $g $t $e 8 $m $k $w cptrx8 mptrx8 m8x8 m64x8); };
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {};
    (@ $g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal $c:ident $p:ident $m8:ident $m64:ident) => {{ mod x { use crate::*; pub fn r(g: &mut Groups) {
        let ty = ty!($t $n $k $w);
        gather(g, stringify!($c), ty, ty!($m $n M $w), th!(|p: $c<$e>, m: $m, v: $t| unsafe { p.read(m, v) }));
        gather(g, stringify!($p), ty, ty!($m8 $n M 8), th!(|p: $p<$e>, m: $m8, v: $t| unsafe { p.read(m, v) }));
        gather(g, stringify!($p), ty, ty!($m64 $n M 64), th!(|p: $p<$e>, m: $m64, v: $t| unsafe { p.read(m, v) }));
    }} x::r($g) }};
}
fn main() {
    vh::main(
        Spec {
            id: "C27",
            rule: "one group per (const/mutable pointer vector, element type, mask width); a page of pseudo-random memory between two unmapped pages; active lanes point to aligned slots of the page (some repeated, some touching the guard pages), inactive lanes to null, unmapped, non-canonical or valid addresses; result lanes compared with memory or the fallback, page unchanged, any fault is a violation; non-trivial: at least one active lane",
            quick: 40000,
            thorough: 320000,
            labels: &["mixed_mask", "repeated_address", "regular_run"],
        },
        |g| {
            num_types!(go g);
        },
    );
}
