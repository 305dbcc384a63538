//! C06: mask logic, canonical masks, scalar mask elements.
use packed_simd::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use vh::*;

fn b01(s: &mut Src, _: &Ty) -> u128 {
    s.below(2) as u128
}
fn m(t: &Ty, b: bool) -> u128 {
    if b {
        t.ones()
    } else {
        0
    }
}
fn and(t: &Ty, a: [u128; 3]) -> u128 {
    m(t, a[0] != 0 && a[1] != 0)
}
fn or(t: &Ty, a: [u128; 3]) -> u128 {
    m(t, a[0] != 0 || a[1] != 0)
}
fn xor(t: &Ty, a: [u128; 3]) -> u128 {
    m(t, (a[0] != 0) != (a[1] != 0))
}
fn not(t: &Ty, a: [u128; 3]) -> u128 {
    m(t, a[0] == 0)
}
macro_rules! op {
    ($g:ident $ty:ident $b:ident $t:ident $o:tt $oa:tt $orc:ident) => {{
        let or = Or::Bits($orc);
        let vv = [Arg::Vec($ty, any), Arg::Vec($ty, any), Arg::No];
        let vs = [Arg::Vec($ty, any), Arg::Sc($b, b01), Arg::No];
        let sv = [Arg::Sc($b, b01), Arg::Vec($ty, any), Arg::No];
        $g.ew($ty, concat!("v", stringify!($o), "v"), vv, $ty, th!(|a: $t, b: $t| a $o b), or, None);
        $g.ew($ty, concat!("v", stringify!($o), "bool"), vs, $ty, th!(|a: $t, b: bool| a $o b), or, None);
        $g.ew($ty, concat!("bool", stringify!($o), "v"), sv, $ty, th!(|a: bool, b: $t| a $o b), or, None);
        $g.ew($ty, concat!("v", stringify!($oa), "v"), vv, $ty, th!(|a: $t, b: $t| { a $oa b; a }), or, None);
        $g.ew($ty, concat!("v", stringify!($oa), "bool"), vs, $ty, th!(|a: $t, b: bool| { a $oa b; a }), or, None);
    }};
}
macro_rules! masks {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use crate::*; pub fn r(g: &mut Groups) {
        let ty = ty!($t $n $k $w);
        let b = Ty::new("bool", K::U, 8, 1);
        op!(g ty b $t & &= and);
        op!(g ty b $t | |= or);
        op!(g ty b $t ^ ^= xor);
        g.un(ty, "not", th!(|a: $t| !a), Or::Bits(not));
        // a mask built by a random history of operations stays canonical and equals the bool model
        g.add(format!("{}/history", ty.name), move |s| {
            let mut mv = V::zero();
            let mut model = vec![false; $n];
            let mut cur = <$t>::splat(false);
            let steps = 1 + s.below(10);
            let mut log = String::new();
            for _ in 0..steps {
                let o = vec(s, &ty, any);
                let ov: $t = unsafe { rd(o.p()) };
                let bb = s.bool();
                let k = s.below(14);
                let i = s.below($n) as usize;
                s.feed(k as u128 * 256 + i as u128 * 2 + bb as u128);
                let old = model.clone();
                let ol = |j: usize| o.get($w, j) != 0;
                let f: Box<dyn Fn(usize) -> bool> = match k {
                    0 => { cur = cur & ov; Box::new(move |j| old[j] && ol(j)) }
                    1 => { cur = cur | ov; Box::new(move |j| old[j] || ol(j)) }
                    2 => { cur = cur ^ ov; Box::new(move |j| old[j] != ol(j)) }
                    3 => { cur = !cur; Box::new(move |j| !old[j]) }
                    4 => { cur &= bb; Box::new(move |j| old[j] && bb) }
                    5 => { cur |= bb; Box::new(move |j| old[j] || bb) }
                    6 => { cur ^= bb; Box::new(move |j| old[j] != bb) }
                    7 => { cur = cur.replace(i, bb); Box::new(move |j| if j == i { bb } else { old[j] }) }
                    8 => { cur = cur.eq(ov); Box::new(move |j| old[j] == ol(j)) }
                    9 => { cur = cur.ne(ov); Box::new(move |j| old[j] != ol(j)) }
                    10 => { cur = cur.lt(ov); Box::new(move |j| !old[j] && ol(j)) }
                    11 => { cur = cur.ge(ov); Box::new(move |j| old[j] || !ol(j)) }
                    12 => { cur = cur.select(ov, !ov); Box::new(move |j| if old[j] { ol(j) } else { !ol(j) }) }
                    _ => { let a: [$e; $n] = ov.into(); cur = a.into(); Box::new(move |j| ol(j)) }
                };
                for j in 0..$n {
                    model[j] = f(j);
                }
                log.push_str(&format!("op{}({}, {}, {}) ", k, show(&ty, &o), bb, i));
                unsafe { wr(mv.pm(), cur) };
                for j in 0..$n {
                    if mv.get($w, j) != m(&ty, model[j]) || cur.extract(j) != model[j] {
                        s.note(|| log.clone());
                        return Res::Fail(format!("after {}: {} but lane {} should be {}", log, show(&ty, &mv), j, model[j]));
                    }
                }
            }
            s.note(|| format!("{}-> {}", log, show(&ty, &mv)));
            Res::Ok
        });
    }} x::r($g) }};
}
fn h<T: Hash>(x: &T) -> u64 {
    let mut d = DefaultHasher::new();
    x.hash(&mut d);
    d.finish()
}
macro_rules! elems {
    ($g:ident $($e:ident)*) => { $(
        $g.addn(concat!(stringify!($e), "/scalar"), 0.05, |s| {
            let a = s.bool();
            let b = s.bool();
            s.feed(a as u128 * 2 + b as u128);
            s.nontrivial = true;
            s.note(|| format!("{}, {}", a, b));
            let x = $e::new(a);
            let y = $e::new(b);
            macro_rules! ck { ($c:expr) => { if !$c { return Res::Fail(format!("{} fails for {}, {}", stringify!($c), a, b)); } } }
            ck!(x.test() == a);
            ck!(Mask::test(&x) == a);
            ck!($e::default().test() == false);
            ck!((x == y) == (a == b));
            ck!((x != y) == (a != b));
            ck!((x < y) == (a < b));
            ck!((x <= y) == (a <= b));
            ck!((x > y) == (a > b));
            ck!((x >= y) == (a >= b));
            ck!(x.cmp(&y) == a.cmp(&b));
            ck!(x.partial_cmp(&y) == a.partial_cmp(&b));
            ck!(x.max(y).test() == a.max(b));
            ck!(x.min(y).test() == a.min(b));
            ck!(h(&x) == h(&a));
            ck!(format!("{:?}", x) == format!("{}({})", stringify!($e), a));
            let raw: [u8; core::mem::size_of::<$e>()] = unsafe { core::mem::transmute(x) };
            ck!(raw.iter().all(|c| *c == if a { 255 } else { 0 }));
            Res::Ok
        });
    )* };
}
fn main() {
    vh::main(
        Spec {
            id: "C06",
            rule: "one group per (mask type, operator form) plus, per mask type, random histories of 1-10 mask operations against a vector of bools with the memory image checked after each step; scalar mask elements over all bool pairs; non-trivial: some mask operand has both true and false lanes",
            quick: 30000,
            thorough: 300000,
            labels: &[],
        },
        |g| {
            mask_types!(masks g);
            elems!(g m8 m16 m32 m64 m128 msize);
        },
    );
}
