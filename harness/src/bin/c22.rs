//! C22: byte swapping and endianness.
use packed_simd::*;
use vh::*;

fn bytesw(g: &mut Groups, ty: Ty, name: &str, rev: bool, f: F) {
    g.add(format!("{}/{}", ty.name, name), move |s| {
        let v = vec(s, &ty, any);
        let n = ty.size();
        let mut o = V { b: [0xA5; 128] };
        f(v.p(), v.p(), v.p(), o.pm());
        s.note(|| format!("{:02x?} -> {:02x?}", &v.b[..n], &o.b[..n]));
        for j in 0..n {
            let e = if rev { v.b[n - 1 - j] } else { v.b[j] };
            if o.b[j] != e {
                return Res::Fail(format!("byte {} is {:#04x}, expected {:#04x} ({:02x?} -> {:02x?})", j, o.b[j], e, &v.b[..n], &o.b[..n]));
            }
        }
        Res::Ok
    });
}
macro_rules! ints {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use crate::*; pub fn r(g: &mut Groups) {
        let ty = ty!($t $n $k $w);
        bytesw(g, ty, "swap_bytes", true, th!(|a: $t| a.swap_bytes()));
        bytesw(g, ty, "to_be", true, th!(|a: $t| a.to_be()));
        bytesw(g, ty, "from_be", true, th!(|a: $t| <$t>::from_be(a)));
        bytesw(g, ty, "to_le", false, th!(|a: $t| a.to_le()));
        bytesw(g, ty, "from_le", false, th!(|a: $t| <$t>::from_le(a)));
        bytesw(g, ty, "swap_bytes twice", false, th!(|a: $t| a.swap_bytes().swap_bytes()));
        bytesw(g, ty, "from_be(to_be)", false, th!(|a: $t| <$t>::from_be(a.to_be())));
        bytesw(g, ty, "from_le(to_le)", false, th!(|a: $t| <$t>::from_le(a.to_le())));
    }} x::r($g) }};
}
fn main() {
    vh::main(
        Spec {
            id: "C22",
            rule: "one group per (integer vector type, byte-order operation or round trip); boundary-biased lanes; every byte of the result checked against its position; non-trivial: the vector has two different lanes",
            quick: 50000,
            thorough: 500000,
            labels: &[],
        },
        |g| {
            int_types!(ints g);
        },
    );
}
