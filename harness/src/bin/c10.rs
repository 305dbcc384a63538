//! C10: vertical min and max.
use packed_simd::*;
use vh::*;

fn imin(t: &Ty, a: [u128; 3]) -> u128 {
    if sc::lt_(t, a[0], a[1]) { a[0] } else { a[1] }
}
fn imax(t: &Ty, a: [u128; 3]) -> u128 {
    if sc::lt_(t, a[0], a[1]) { a[1] } else { a[0] }
}
fn fmm(t: &Ty, a: [u128; 3], got: u128, max: bool) -> Result<(), String> {
    let (x, y) = (a[0], a[1]);
    let sh = |v| show1(K::F, t.w, v);
    let ok = |v: u128| if got == v || (sc::eq_(t, v, got) && sc::eq_(t, v, 0)) { Ok(()) } else { Err(sh(v)) };
    match (is_nan(t.w, x), is_nan(t.w, y)) {
        (true, true) => if is_nan(t.w, got) { Ok(()) } else { Err("NaN".into()) },
        (true, false) => ok(y),
        (false, true) => ok(x),
        _ => {
            if sc::eq_(t, x, y) {
                if got == x || got == y { Ok(()) } else { Err(sh(x)) }
            } else if sc::lt_(t, x, y) != max {
                ok(x)
            } else {
                ok(y)
            }
        }
    }
}
fn pmin(t: &Ty, a: [u128; 3], got: u128) -> Result<(), String> {
    fmm(t, a, got, false)
}
fn pmax(t: &Ty, a: [u128; 3], got: u128) -> Result<(), String> {
    fmm(t, a, got, true)
}
macro_rules! ints {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use crate::*; pub fn r(g: &mut Groups) {
        let ty = ty!($t $n $k $w);
        g.bin(ty, "min", th!(|a: $t, b: $t| a.min(b)), Or::Bits(imin));
        g.bin(ty, "max", th!(|a: $t, b: $t| a.max(b)), Or::Bits(imax));
    }} x::r($g) }};
}
macro_rules! fl {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use crate::*; pub fn r(g: &mut Groups) {
        let ty = ty!($t $n $k $w);
        g.bin(ty, "min", th!(|a: $t, b: $t| a.min(b)), Or::Pred(pmin));
        g.bin(ty, "max", th!(|a: $t, b: $t| a.max(b)), Or::Pred(pmax));
    }} x::r($g) }};
}
fn main() {
    vh::main(
        Spec {
            id: "C10",
            rule: "one group per (integer or float vector type, min/max); operands boundary-biased, related in half of the cases, floats with NaN, signed zeros and infinities; non-trivial: some operand has two different lanes",
            quick: 160000,
            thorough: 3000000,
            labels: &[],
        },
        |g| {
            int_types!(ints g);
            float_types!(fl g);
        },
    );
}
