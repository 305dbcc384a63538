//! C09: lexicographic ordering.
use packed_simd::*;
use std::cmp::Ordering;
use vh::*;

fn ord(o: Option<Ordering>) -> u8 {
    match o {
        None => 9,
        Some(Ordering::Less) => 0,
        Some(Ordering::Equal) => 1,
        Some(Ordering::Greater) => 2,
    }
}
const NAMES: [&str; 16] = [
    "partial.partial_cmp", "partial <", "partial <=", "partial >", "partial >=", "partial ==", "partial !=",
    "lex.cmp", "lex.partial_cmp", "lex <", "lex <=", "lex >", "lex >=", "lex ==", "lex !=", "lex.max",
];
fn reg(g: &mut Groups, ty: Ty, f: F) {
    g.add(format!("{}/lex", ty.name), move |s| {
        let a = vec(s, &ty, any);
        // share a prefix of random length most of the time
        let mut b = related(s, &ty, &a, any);
        if s.bool() {
            let k = s.below(ty.n as u64 + 1) as usize;
            for i in 0..k {
                b.set(ty.w, i, a.get(ty.w, i));
            }
        }
        let mut e = Ordering::Equal;
        let mut first = ty.n;
        for i in 0..ty.n {
            let (x, y) = (a.get(ty.w, i), b.get(ty.w, i));
            if x != y {
                e = if sc::lt_(&ty, x, y) { Ordering::Less } else { Ordering::Greater };
                first = i;
                break;
            }
        }
        s.label(match e { Ordering::Less => 0, Ordering::Equal => 1, Ordering::Greater => 2 });
        if first > 0 && first < ty.n {
            s.label(3);
        }
        let w = [
            ord(Some(e)), (e == Ordering::Less) as u8, (e != Ordering::Greater) as u8, (e == Ordering::Greater) as u8,
            (e != Ordering::Less) as u8, (e == Ordering::Equal) as u8, (e != Ordering::Equal) as u8,
        ];
        let mut want = [0u8; 16];
        want[..7].copy_from_slice(&w);
        want[7] = w[0];
        want[8..15].copy_from_slice(&w);
        want[15] = if e == Ordering::Greater { 0 } else { 1 };
        if ty.n == 0 { return Res::Ok; }
        let mut o = V { b: [0xA5; 128] };
        f(a.p(), b.p(), a.p(), o.pm());
        s.note(|| format!("{} , {} -> {:?}", show(&ty, &a), show(&ty, &b), e));
        for i in 0..15 {
            if o.b[i] != want[i] {
                return Res::Fail(format!("{} , {}: {} gives {}, expected {}", show(&ty, &a), show(&ty, &b), NAMES[i], o.b[i], want[i]));
            }
        }
        Res::Ok
    });
}
macro_rules! lex {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use crate::*; pub fn r(g: &mut Groups) {
        reg(g, ty!($t $n $k $w), th!(|a: $t, b: $t| {
            let (p, q) = (a.partial_lex_ord(), b.partial_lex_ord());
            let (x, y) = (a.lex_ord(), b.lex_ord());
            [
                ord(p.partial_cmp(&q)), (p < q) as u8, (p <= q) as u8, (p > q) as u8, (p >= q) as u8, (p == q) as u8, (p != q) as u8,
                ord(Some(x.cmp(&y))),
                ord(x.partial_cmp(&y)), (x < y) as u8, (x <= y) as u8, (x > y) as u8, (x >= y) as u8, (x == y) as u8, (x != y) as u8,
                0,
            ]
        }));
    }} x::r($g) }};
}
fn main() {
    vh::main(
        Spec {
            id: "C09",
            rule: "one group per integer or mask vector type; pairs of vectors sharing a generated prefix, compared through every PartialOrd/Ord/Eq operation of both wrappers against the order of the lane arrays; non-trivial: some operand has two different lanes",
            quick: 160000,
            thorough: 3000000,
            labels: &["less", "equal", "greater", "decided after the first lane"],
        },
        |g| {
            int_types!(lex g);
            mask_types!(lex g);
        },
    );
}
