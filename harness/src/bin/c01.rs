//! C01: lane access.
use packed_simd::*;
use vh::*;

fn id(_: &Ty, a: [u128; 3]) -> u128 {
    a[0]
}
fn truth(_: &Ty, a: [u128; 3]) -> u128 {
    (a[0] != 0) as u128
}
fn zero(_: &Ty, _: [u128; 3]) -> u128 {
    0
}
fn b01(s: &mut Src, _: &Ty) -> u128 {
    s.below(2) as u128
}
fn from01(t: &Ty, a: [u128; 3]) -> u128 {
    if a[0] == 0 {
        0
    } else {
        t.ones()
    }
}

/// Everything about one vector type, type-erased. Scalars of masks are bools.
#[derive(Clone, Copy)]
struct Acc {
    ty: Ty,
    /// scalar as passed to / returned by the API
    el: Ty,
    new: F,
    splat: F,
    default: F,
    extract_all: F,
    extract_all_u: F,
    /// (vec, usize) -> scalar
    extract: F,
    extract_u: F,
    /// (vec, usize, scalar) -> vec
    replace: F,
    replace_u: F,
    lanes: usize,
    lanes_c: usize,
}
fn scalar_of(a: &Acc, x: u128) -> u128 {
    if a.ty.k == K::M {
        (x != 0) as u128
    } else {
        x
    }
}
fn vec_of(a: &Acc, x: u128) -> u128 {
    if a.ty.k == K::M {
        if x != 0 {
            a.ty.ones()
        } else {
            0
        }
    } else {
        x
    }
}
fn index(s: &mut Src, n: usize) -> usize {
    s.below(n as u64) as usize
}
fn oob(s: &mut Src, n: usize) -> usize {
    match s.below(6) {
        0 => n,
        1 => n + s.below(4) as usize,
        2 => n + s.below(300) as usize,
        3 => usize::MAX - s.below(3) as usize,
        4 => (1usize << (8 + s.below(56))) + s.below(n as u64) as usize, // low bits look like a valid lane
        _ => (s.u64() as usize).max(n),
    }
}
fn sc_in(w: u32, x: u128) -> V {
    let mut v = V::zero();
    v.set(w, 0, x);
    v
}
fn reg(g: &mut Groups, a: Acc) {
    let ty = a.ty;
    let nm = |o: &str| format!("{}/{}", ty.name, o);
    let el_g: LaneGen = if ty.k == K::M { b01 } else { any_bits };
    let eln = Ty { n: ty.n, ..a.el };
    let mk = ty.k == K::M;
    g.ew(ty, "new", [Arg::Vec(eln, el_g), Arg::No, Arg::No], ty, a.new, Or::Bits(if mk { from01 } else { id }), None);
    g.ew(ty, "splat", [Arg::Sc(eln, el_g), Arg::No, Arg::No], ty, a.splat, Or::Bits(if mk { from01 } else { id }), None);
    g.addn(nm("default,lanes"), 0.002, move |_| {
        let mut o = V { b: [0xA5; 128] };
        (a.default)(o.pm(), o.pm(), o.pm(), o.pm());
        if a.lanes != ty.n || a.lanes_c != ty.n {
            return Res::Fail(format!("lanes() = {}, LANES = {}", a.lanes, a.lanes_c));
        }
        for i in 0..ty.n {
            if o.get(ty.w, i) != 0 {
                return Res::Fail(format!("default() is {}", show(&ty, &o)));
            }
        }
        Res::Ok
    });
    let ex = Or::Bits(if mk { truth } else { id });
    g.ew(ty, "extract-all", [Arg::Vec(ty, any_bits), Arg::No, Arg::No], eln, a.extract_all, ex, None);
    g.ew(ty, "extract_unchecked-all", [Arg::Vec(ty, any_bits), Arg::No, Arg::No], eln, a.extract_all_u, ex, None);
    for (n, f) in [("extract", a.extract), ("extract_unchecked", a.extract_u)] {
        g.add(nm(n), move |s| {
            let v = vec(s, &ty, any_bits);
            let i = index(s, ty.n);
            s.feed(i as u128);
            let mut o = V { b: [0xA5; 128] };
            f(v.p(), sc_in(64, i as u128).p(), v.p(), o.pm());
            let got = o.get(a.el.w, 0);
            s.note(|| format!("{} lane {} -> {}", show(&ty, &v), i, show1(a.el.k, a.el.w, got)));
            if got == scalar_of(&a, v.get(ty.w, i)) {
                Res::Ok
            } else {
                Res::Fail(format!("lane {} of {} extracted as {}", i, show(&ty, &v), show1(a.el.k, a.el.w, got)))
            }
        });
    }
    for (n, f) in [("replace", a.replace), ("replace_unchecked", a.replace_u)] {
        g.add(nm(n), move |s| {
            let v = vec(s, &ty, any_bits);
            let i = index(s, ty.n);
            let x = el_g(s, &a.el);
            s.feed(i as u128);
            s.feed(x);
            let mut o = V { b: [0xA5; 128] };
            f(v.p(), sc_in(64, i as u128).p(), sc_in(a.el.w, x).p(), o.pm());
            s.note(|| format!("{}.replace({}, {}) -> {}", show(&ty, &v), i, show1(a.el.k, a.el.w, x), show(&ty, &o)));
            for k in 0..ty.n {
                let e = if k == i { vec_of(&a, x) } else { v.get(ty.w, k) };
                if o.get(ty.w, k) != e {
                    return Res::Fail(format!("replacing lane {} of {} by {} gives {}", i, show(&ty, &v), show1(a.el.k, a.el.w, x), show(&ty, &o)));
                }
            }
            Res::Ok
        });
    }
    for (n, f) in [("extract-oob", a.extract), ("replace-oob", a.replace)] {
        g.addn(nm(n), 0.05, move |s| {
            let v = vec(s, &ty, any_bits);
            let i = oob(s, ty.n);
            let x = el_g(s, &a.el);
            s.feed(i as u128);
            s.note(|| format!("{} index {}", show(&ty, &v), i));
            let mut o = V { b: [0xA5; 128] };
            if panics(|| f(v.p(), sc_in(64, i as u128).p(), sc_in(a.el.w, x).p(), o.pm())) {
                Res::Ok
            } else {
                Res::Fail(format!("no panic for lane index {} of {}", i, ty.name))
            }
        });
    }
}
macro_rules! acc {
    ($g:ident $t:ty, $e:ty, $n:tt, $ty:expr, $el:expr, $get:ident, $new:expr) => {
        reg($g, Acc {
            ty: $ty,
            el: $el,
            new: |p, _, _, o| {
                let q = p as *const $e;
                let $get = |i: usize| unsafe { core::ptr::read_unaligned(q.add(i)) };
                let r: $t = lanes_call!($n, $new, $get);
                unsafe { wr(o, r) }
            },
            splat: th!(|a: $e| <$t>::splat(a)),
            default: |_, _, _, o| unsafe { wr(o, <$t as Default>::default()) },
            extract_all: th!(|a: $t| { let r: [$e; $n] = core::array::from_fn(|i| a.extract(i)); r }),
            extract_all_u: th!(|a: $t| { let r: [$e; $n] = core::array::from_fn(|i| unsafe { a.extract_unchecked(i) }); r }),
            extract: th!(|a: $t, i: usize| a.extract(i)),
            extract_u: th!(|a: $t, i: usize| unsafe { a.extract_unchecked(i) }),
            replace: th!(|a: $t, i: usize, x: $e| a.replace(i, x)),
            replace_u: th!(|a: $t, i: usize, x: $e| unsafe { a.replace_unchecked(i, x) }),
            lanes: <$t>::lanes(),
            lanes_c: <$t as SimdVector>::LANES,
        })
    };
}
macro_rules! num {
    ($g:ident $t:ident $e:ident $n:tt $m:ident $k:ident $w:literal) => {{ mod x { use super::*; pub fn r(g: &mut Groups) {
        let ty = Ty::new(stringify!($t), K::$k, $w, $n);
        acc!(g $t, $e, $n, ty, ty.scalar(), get, $t::new);
    }} x::r($g) }};
}
macro_rules! mask {
    ($g:ident $t:ident $e:ident $n:tt $m:ident $k:ident $w:literal) => {{ mod x { use super::*; pub fn r(g: &mut Groups) {
        let ty = Ty::new(stringify!($t), K::$k, $w, $n);
        acc!(g $t, bool, $n, ty, Ty::new("bool", K::U, 8, 1), get, $t::new);
    }} x::r($g) }};
}
macro_rules! ptr {
    ($g:ident $name:literal [$t:ty] [$e:ty] [$pt:ty] $n:tt $m:ident $us:ident $is:ident) => {{ mod x { use super::*; pub fn r(g: &mut Groups) {
        let ty = Ty::new($name, K::P, 64, $n);
        acc!(g $t, $e, $n, ty, ty.scalar(), get, <$t>::new);
    }} x::r($g) }};
}
/// the pointer-vector groups (also run by C26)
pub fn ptrs(g: &mut Groups) {
    ptr_types!(ptr g);
}
#[allow(dead_code)]
fn main() {
    let _ = zero;
    vh::main(
        Spec {
            id: "C01",
            rule: "one group per (vector type, lane-access operation); lane values boundary-biased, lane indices uniform over valid lanes, out-of-range indices biased to N, powers of two plus a valid lane, and usize::MAX; non-trivial: the vector has two different lanes",
            quick: 30000,
            thorough: 200000,
            labels: &[],
        },
        |g| {
            num_types!(num g);
            mask_types!(mask g);
            ptrs(g);
        },
    );
}
