//! C15: mask select.
use packed_simd::*;
use vh::*;

fn sel(_: &Ty, a: [u128; 3]) -> u128 {
    if a[0] != 0 { a[1] } else { a[2] }
}
macro_rules! pair {
    ($g:ident $m:ident $mw:literal $mn:literal $t:ident $k:ident $w:literal $n:literal) => {{
        let (mt, ty) = (ty!($m $mn M $mw), ty!($t $n $k $w));
        $g.ew(ty, concat!("select/", stringify!($m)), [Arg::Vec(mt, any_bits), Arg::Vec(ty, any_bits), Arg::Vec(ty, any_bits)], ty, th!(|m: $m, a: $t, b: $t| m.select(a, b)), Or::Bits(sel), None);
        // conditions the library computed itself, and inverted masks
        $g.ew(ty, concat!("select/not/", stringify!($m)), [Arg::Vec(mt, any_bits), Arg::Vec(ty, any_bits), Arg::Vec(ty, any_bits)], ty, th!(|m: $m, a: $t, b: $t| (!m).select(b, a)), Or::Bits(sel), None);
    }};
}
macro_rules! ptr {
    ($g:ident $name:literal [$t:ty] [$e:ty] [$p:ty] $n:literal $m:ident $us:ident $is:ident) => {{
        let (mt, ty) = (Ty::new(stringify!($m), K::M, 64, $n), Ty::new($name, K::P, 64, $n));
        $g.ew(ty, concat!("select/", stringify!($m)), [Arg::Vec(mt, any_bits), Arg::Vec(ty, any_bits), Arg::Vec(ty, any_bits)], ty, th!(|m: $m, a: $t, b: $t| m.select(a, b)), Or::Bits(sel), None);
    }};
}
fn main() {
    vh::main(
        Spec {
            id: "C15",
            rule: "one group per (mask type, vector type with as many lanes), plain and with the negated mask and swapped operands, plus pointer vectors; masks random, operands boundary-biased with NaN payloads; every result lane compared bit by bit; non-trivial: mask or an operand has two different lanes",
            quick: 24000,
            thorough: 400000,
            labels: &[],
        },
        |g| {
            select_pairs!(pair g);
            ptr_types!(ptr g);
        },
    );
}
