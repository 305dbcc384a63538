//! C20: into_bits / from_bits.
use core::arch::x86_64::*;
use core::marker::PhantomData;
use packed_simd::*;
use vh::*;

/// from_bits into o[..64] and into_bits into o[64..].
fn both<S: Copy, D: FromBits<S>>(p: *const u8, _q: *const u8, _r: *const u8, o: *mut u8) {
    unsafe {
        let a: S = rd(p);
        wr(o, D::from_bits(a));
        let r: D = a.into_bits();
        wr(o.add(64), r);
    }
}
struct P<S, D>(PhantomData<(S, D)>);
trait Yes {
    fn get(&self) -> Option<F>;
}
impl<S: Copy, D: FromBits<S>> Yes for P<S, D> {
    fn get(&self) -> Option<F> {
        Some(both::<S, D>)
    }
}
trait No {
    fn get(&self) -> Option<F>;
}
impl<S, D> No for &P<S, D> {
    fn get(&self) -> Option<F> {
        None
    }
}
fn bytes(g: &mut Groups, st: Ty, dt: Ty, f: F, canon: bool) {
    g.add(format!("{}->{}{}", st.name, dt.name, if canon { "/canonical" } else { "/bits" }), move |s| {
        let v = vec(s, &st, any_bits);
        let n = st.size();
        let mut o = V { b: [0xA5; 128] };
        f(v.p(), v.p(), v.p(), o.pm());
        let dt1 = if dt.k == K::P { Ty { k: K::U, w: 8, n, ..dt } } else { dt };
        s.note(|| format!("{} -> {}", show(&st, &v), show(&dt1, &o)));
        if v.b[..n] != o.b[..n] {
            return Res::Fail(format!("from_bits changed the bytes: {:02x?} became {:02x?}", &v.b[..n], &o.b[..n]));
        }
        if v.b[..n] != o.b[64..64 + n] {
            return Res::Fail(format!("into_bits changed the bytes: {:02x?} became {:02x?}", &v.b[..n], &o.b[64..64 + n]));
        }
        if dt.k == K::M {
            for i in 0..dt.n {
                let x = o.get(dt.w, i);
                if x != 0 && x != dt.ones() {
                    return Res::Fail(format!("lane {} of the mask {} is {:#x}: not canonical", i, dt.name, x));
                }
            }
        }
        Res::Ok
    });
}
macro_rules! pair {
    ($g:ident $s:ident $sk:ident $sw:literal $sn:literal $d:ident $dk:ident $dw:literal $dn:literal) => {
        bytes($g, ty!($s $sn $sk $sw), ty!($d $dn $dk $dw), both::<$s, $d>, false);
    };
}
/// any conversion to a mask that exists must give a canonical mask
macro_rules! probe {
    ($g:ident $s:ident $sk:ident $sw:literal $sn:literal $d:ident $dk:ident $dw:literal $dn:literal) => {
        #[allow(noop_method_call)]
        if let Some(f) = (&P::<$s, $d>(PhantomData)).get() {
            bytes($g, ty!($s $sn $sk $sw), ty!($d $dn $dk $dw), f, true);
        }
    };
}
macro_rules! arch {
    ($g:ident $s:ident $k:ident $w:literal $n:literal $r:ident both) => {
        arch!($g $s $k $w $n $r from_only);
        bytes($g, Ty::new(stringify!($r), K::U, $w, $n), ty!($s $n $k $w), both::<$r, $s>, false);
    };
    ($g:ident $s:ident $k:ident $w:literal $n:literal $r:ident from_only) => {
        bytes($g, ty!($s $n $k $w), Ty::new(stringify!($r), K::P, 8, $w * $n / 8), both::<$s, $r>, false);
    };
}
fn main() {
    vh::main(
        Spec {
            id: "C20",
            rule: "one group per (source, target) pair with FromBits, including the x86 vector types, plus every other source of a mask for which an implementation exists; source bytes boundary-biased lanes; all bytes compared, mask targets checked canonical; non-trivial: the source has two different lanes",
            quick: 40000,
            thorough: 400000,
            labels: &[],
        },
        |g| {
            bits_pairs!(pair g);
            arch_pairs!(arch g);
            mask_bits_candidates!(probe g);
        },
    );
}
