//! C26: pointer vectors.
use packed_simd::*;
use vh::*;

#[path = "c01.rs"]
mod c01;
#[path = "c02.rs"]
mod c02;
#[path = "c07.rs"]
mod c07;
#[path = "c08.rs"]
mod c08;
#[path = "c17.rs"]
mod c17;

/// signed counts, boundary-biased
fn count(s: &mut Src, t: &Ty) -> u128 {
    match s.below(3) {
        0 => any(s, t),
        1 => (s.below(33) as i64 - 16) as u64 as u128,
        _ => (s.below(1 << 20) as i64 - (1 << 19)) as u64 as u128,
    }
}
/// addresses inside the thread's page
fn inpage(s: &mut Src, _: &Ty) -> u128 {
    mem::page().as_ptr() as u128 + 1800 + s.below(400) as u128
}
/// counts that stay in the page for elements of at most 24 bytes
fn small_count(s: &mut Src, _: &Ty) -> u128 {
    (s.below(129) as i64 - 64) as u64 as u128
}
fn small_ucount(s: &mut Src, _: &Ty) -> u128 {
    s.below(65) as u128
}
macro_rules! ptr {
    ($g:ident $name:literal [$t:ty] [$e:ty] [$p:ty] $n:literal $m:ident $us:ident $is:ident) => {{ mod x { use crate::*; pub fn r(g: &mut Groups) {
        const SZ: u64 = core::mem::size_of::<$p>() as u64;
        let ty = Ty::new($name, K::P, 64, $n);
        let (us, is) = (Ty::new(stringify!($us), K::U, 64, $n), Ty::new(stringify!($is), K::I, 64, $n));
        fn plus(_: &Ty, a: [u128; 3]) -> u128 {
            (a[0] as u64).wrapping_add((a[1] as u64).wrapping_mul(SZ)) as u128
        }
        fn minus(_: &Ty, a: [u128; 3]) -> u128 {
            (a[0] as u64).wrapping_sub((a[1] as u64).wrapping_mul(SZ)) as u128
        }
        fn dist(_: &Ty, a: [u128; 3]) -> u128 {
            // truncating division of the signed byte distance
            let d = (a[0] as u64).wrapping_sub(a[1] as u64) as i64 as i128;
            (d / SZ as i128) as i64 as u64 as u128
        }
        fn same1(_: &Ty, a: [u128; 3]) -> u128 { a[1] }
        fn clamp(_: &Ty, l: &mut [u128; 3]) {
            // keep count * size inside isize
            let lim = i64::MAX / SZ as i64;
            l[1] = (l[1] as u64 as i64).clamp(-lim, lim) as u64 as u128;
        }
        let any_n = [Arg::Vec(ty, any), Arg::Vec(is, count), Arg::No];
        let any_u = [Arg::Vec(ty, any), Arg::Vec(us, count), Arg::No];
        let in_n = [Arg::Vec(ty, inpage), Arg::Vec(is, small_count), Arg::No];
        let in_u = [Arg::Vec(ty, inpage), Arg::Vec(us, small_ucount), Arg::No];
        g.ew(ty, "wrapping_offset", any_n, ty, th!(|a: $t, b: $is| a.wrapping_offset(b)), Or::Bits(plus), None);
        g.ew(ty, "wrapping_add", any_u, ty, th!(|a: $t, b: $us| a.wrapping_add(b)), Or::Bits(plus), None);
        g.ew(ty, "wrapping_sub", any_u, ty, th!(|a: $t, b: $us| a.wrapping_sub(b)), Or::Bits(minus), None);
        g.ew(ty, "offset", in_n, ty, th!(|a: $t, b: $is| unsafe { a.offset(b) }), Or::Bits(plus), None);
        g.ew(ty, "add", in_u, ty, th!(|a: $t, b: $us| unsafe { a.add(b) }), Or::Bits(plus), None);
        g.ew(ty, "sub", in_u, ty, th!(|a: $t, b: $us| unsafe { a.sub(b) }), Or::Bits(minus), None);
        g.ew(ty, "wrapping_offset_from", [Arg::Vec(ty, any), Arg::Vec(ty, any), Arg::No], is, th!(|a: $t, b: $t| a.wrapping_offset_from(b)), Or::Bits(dist), None);
        g.ew(ty, "offset(n).offset_from", in_n, is, th!(|a: $t, n: $is| unsafe { a.offset(n).offset_from(a) }), Or::Bits(same1), None);
        g.ew(ty, "wrapping_offset(n).wrapping_offset_from", any_n, is, th!(|a: $t, n: $is| a.wrapping_offset(n).wrapping_offset_from(a)), Or::Bits(same1), Some(clamp));
        g.ew(ty, "add(n).sub(n)", in_u, ty, th!(|a: $t, n: $us| unsafe { a.add(n).sub(n) }), Or::Bits(|_, a| a[0]), None);
        g.addn(format!("{}/null", ty.name), 0.01, move |s| {
            let v = V::from_lanes(&ty, &vec![0; $n]);
            let mut o = V { b: [0xA5; 128] };
            unsafe { wr(o.pm(), <$t>::null()) };
            s.feed(1);
            s.note(|| format!("null() = {}", show(&ty, &o)));
            if o.b[..ty.size()] == v.b[..ty.size()] { Res::Ok } else { Res::Fail(format!("null() is {}", show(&ty, &o))) }
        });
    }} x::r($g) }};
}
fn main() {
    vh::main(
        Spec {
            id: "C26",
            rule: "one group per (pointer vector type over element sizes 1, 4, 6, 8, 24; operation): arithmetic on arbitrary addresses (wrapping forms) or addresses inside one mapped page (others), distances and inverses, null, comparisons, equality, hash, lane access, arrays and slices, shuffle1_dyn, each against 64-bit integer address arithmetic or the lane array; non-trivial: an operand has two different lanes",
            quick: 20000,
            thorough: 250000,
            labels: &[],
        },
        |g| {
            ptr_types!(ptr g);
            c01::ptrs(g);
            c02::ptrs(g);
            c07::ptrs(g);
            c08::ptrs(g);
            c17::ptrs(g);
        },
    );
}
