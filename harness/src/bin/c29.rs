//! C29: formatting.
use packed_simd::*;
use std::fmt::{self, Binary, Debug, LowerHex, Octal, UpperHex, Write};
use vh::*;

/// formatter flags: the spec number, a width and a precision
#[derive(Clone, Copy)]
struct Sp {
    n: usize,
    w: usize,
    p: usize,
}
const N_DBG: usize = 19;
fn dbg(f: &mut dyn Write, x: &dyn Debug, s: Sp) -> fmt::Result {
    let (w, p) = (s.w, s.p);
    let _ = (w, p);
    match s.n {
        0 => write!(f, "{:?}", x),
        1 => write!(f, "{:#?}", x),
        2 => write!(f, "{:+?}", x),
        3 => write!(f, "{:w$?}", x, w = w),
        4 => write!(f, "{:<w$?}", x, w = w),
        5 => write!(f, "{:^w$?}", x, w = w),
        6 => write!(f, "{:>w$?}", x, w = w),
        7 => write!(f, "{:*^w$?}", x, w = w),
        8 => write!(f, "{:0w$?}", x, w = w),
        9 => write!(f, "{:#0w$?}", x, w = w),
        10 => write!(f, "{:.p$?}", x, p = p),
        11 => write!(f, "{:w$.p$?}", x, w = w, p = p),
        12 => write!(f, "{:+0w$.p$?}", x, w = w, p = p),
        13 => write!(f, "{:-<+#w$?}", x, w = w),
        14 => write!(f, "{:~>#w$.p$?}", x, w = w, p = p),
        15 => write!(f, "{:x?}", x),
        16 => write!(f, "{:X?}", x),
        17 => write!(f, "{:#x?}", x),
        _ => write!(f, "{:#0w$X?}", x, w = w),
    }
}
const N_BIN: usize = 15;
fn bin(f: &mut dyn Write, x: &dyn Binary, s: Sp) -> fmt::Result {
    let (w, p) = (s.w, s.p);
    let _ = (w, p);
    match s.n {
        0 => write!(f, "{:b}", x),
        1 => write!(f, "{:#b}", x),
        2 => write!(f, "{:+b}", x),
        3 => write!(f, "{:w$b}", x, w = w),
        4 => write!(f, "{:<w$b}", x, w = w),
        5 => write!(f, "{:^w$b}", x, w = w),
        6 => write!(f, "{:>w$b}", x, w = w),
        7 => write!(f, "{:*^w$b}", x, w = w),
        8 => write!(f, "{:0w$b}", x, w = w),
        9 => write!(f, "{:#0w$b}", x, w = w),
        10 => write!(f, "{:.p$b}", x, p = p),
        11 => write!(f, "{:w$.p$b}", x, w = w, p = p),
        12 => write!(f, "{:+0w$.p$b}", x, w = w, p = p),
        13 => write!(f, "{:-<+#w$b}", x, w = w),
        _ => write!(f, "{:~>#w$.p$b}", x, w = w, p = p),
    }
}
const N_OCT: usize = 15;
fn oct(f: &mut dyn Write, x: &dyn Octal, s: Sp) -> fmt::Result {
    let (w, p) = (s.w, s.p);
    let _ = (w, p);
    match s.n {
        0 => write!(f, "{:o}", x),
        1 => write!(f, "{:#o}", x),
        2 => write!(f, "{:+o}", x),
        3 => write!(f, "{:w$o}", x, w = w),
        4 => write!(f, "{:<w$o}", x, w = w),
        5 => write!(f, "{:^w$o}", x, w = w),
        6 => write!(f, "{:>w$o}", x, w = w),
        7 => write!(f, "{:*^w$o}", x, w = w),
        8 => write!(f, "{:0w$o}", x, w = w),
        9 => write!(f, "{:#0w$o}", x, w = w),
        10 => write!(f, "{:.p$o}", x, p = p),
        11 => write!(f, "{:w$.p$o}", x, w = w, p = p),
        12 => write!(f, "{:+0w$.p$o}", x, w = w, p = p),
        13 => write!(f, "{:-<+#w$o}", x, w = w),
        _ => write!(f, "{:~>#w$.p$o}", x, w = w, p = p),
    }
}
const N_LHEX: usize = 15;
fn lhex(f: &mut dyn Write, x: &dyn LowerHex, s: Sp) -> fmt::Result {
    let (w, p) = (s.w, s.p);
    let _ = (w, p);
    match s.n {
        0 => write!(f, "{:x}", x),
        1 => write!(f, "{:#x}", x),
        2 => write!(f, "{:+x}", x),
        3 => write!(f, "{:w$x}", x, w = w),
        4 => write!(f, "{:<w$x}", x, w = w),
        5 => write!(f, "{:^w$x}", x, w = w),
        6 => write!(f, "{:>w$x}", x, w = w),
        7 => write!(f, "{:*^w$x}", x, w = w),
        8 => write!(f, "{:0w$x}", x, w = w),
        9 => write!(f, "{:#0w$x}", x, w = w),
        10 => write!(f, "{:.p$x}", x, p = p),
        11 => write!(f, "{:w$.p$x}", x, w = w, p = p),
        12 => write!(f, "{:+0w$.p$x}", x, w = w, p = p),
        13 => write!(f, "{:-<+#w$x}", x, w = w),
        _ => write!(f, "{:~>#w$.p$x}", x, w = w, p = p),
    }
}
const N_UHEX: usize = 15;
fn uhex(f: &mut dyn Write, x: &dyn UpperHex, s: Sp) -> fmt::Result {
    let (w, p) = (s.w, s.p);
    let _ = (w, p);
    match s.n {
        0 => write!(f, "{:X}", x),
        1 => write!(f, "{:#X}", x),
        2 => write!(f, "{:+X}", x),
        3 => write!(f, "{:w$X}", x, w = w),
        4 => write!(f, "{:<w$X}", x, w = w),
        5 => write!(f, "{:^w$X}", x, w = w),
        6 => write!(f, "{:>w$X}", x, w = w),
        7 => write!(f, "{:*^w$X}", x, w = w),
        8 => write!(f, "{:0w$X}", x, w = w),
        9 => write!(f, "{:#0w$X}", x, w = w),
        10 => write!(f, "{:.p$X}", x, p = p),
        11 => write!(f, "{:w$.p$X}", x, w = w, p = p),
        12 => write!(f, "{:+0w$.p$X}", x, w = w, p = p),
        13 => write!(f, "{:-<+#w$X}", x, w = w),
        _ => write!(f, "{:~>#w$.p$X}", x, w = w, p = p),
    }
}
/// a writer that takes at most `left` bytes and then fails
struct Lim {
    out: String,
    left: usize,
}
impl Write for Lim {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.left {
            self.left = 0;
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.out.push_str(s);
        Ok(())
    }
}
/// a writer whose `at`-th call fails and all others succeed
struct Once {
    at: usize,
    calls: usize,
}
impl Write for Once {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        self.calls += 1;
        if self.calls == self.at { Err(fmt::Error) } else { Ok(()) }
    }
}
type Fm = fn(&mut dyn Write, *const u8, Option<usize>, Sp) -> fmt::Result;

/// `f(writer, vector bytes, None = the vector / Some(i) = lane i as a scalar, flags)`
fn check(g: &mut Groups, ty: Ty, prefix: &'static str, tr: &str, nspec: usize, f: Fm) {
    g.add(format!("{}/{}", ty.name, tr), move |s| {
        let a = vec(s, &ty, any);
        // now and then widths and precisions beyond any scratch buffer
        let (mw, mp) = if s.below(8) == 0 { (300, 60) } else { (24, 9) };
        let sp = Sp { n: s.below(nspec as u64) as usize, w: s.below(mw) as usize, p: s.below(mp) as usize };
        s.feed((sp.n * 100000 + sp.w * 100 + sp.p) as u128);
        s.note(|| format!("{} spec {} width {} precision {}", show(&ty, &a), sp.n, sp.w, sp.p));
        let mut e = format!("{}(", prefix);
        for i in 0..ty.n {
            if i > 0 {
                e.push_str(", ");
            }
            f(&mut e, a.p(), Some(i), sp).unwrap();
        }
        e.push(')');
        let mut o = String::new();
        let r = f(&mut o, a.p(), None, sp);
        s.note(|| format!("-> {}", o));
        if r.is_err() || o != e {
            return Res::Fail(format!("printed {:?}, expected {:?}", o, e));
        }
        // a writer that fails part-way: the error is reported, nothing is skipped before it
        let lim = s.below(e.len() as u64 + 8) as usize;
        let mut l = Lim { out: String::new(), left: lim };
        let r = f(&mut l, a.p(), None, sp);
        if r.is_err() != (lim < e.len()) || !e.starts_with(l.out.as_str()) {
            return Res::Fail(format!("into a writer that fails after {} bytes: {:?}, wrote {:?}, expected a prefix of {:?}", lim, r, l.out, e));
        }
        // one write fails, whichever it is: the error is reported
        let mut o = Once { at: 0, calls: 0 };
        let _ = f(&mut o, a.p(), None, sp);
        let at = 1 + s.below(o.calls.max(1) as u64) as usize;
        let mut o = Once { at, calls: 0 };
        if f(&mut o, a.p(), None, sp).is_ok() && o.calls >= at {
            return Res::Fail(format!("the error of write call {} is not returned", at));
        }
        Res::Ok
    });
}
macro_rules! f {
    ($h:ident $t:ty, $e:ty, $n:tt) => {
        |w, p, i, s| {
            let a: $t = unsafe { rd(p) };
            match i {
                None => $h(w, &a, s),
                Some(i) => {
                    let l: [$e; $n] = unsafe { rd(p) };
                    $h(w, &l[i], s)
                }
            }
        }
    };
}
macro_rules! num {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use super::*; pub fn r(g: &mut Groups) {
        check(g, ty!($t $n $k $w), stringify!($t), "Debug", N_DBG, f!(dbg $t, $e, $n));
    }} x::r($g) }};
}
macro_rules! mask {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use super::*; pub fn r(g: &mut Groups) {
        check(g, ty!($t $n $k $w), stringify!($t), "Debug", N_DBG, |w, p, i, s| {
            let a: $t = unsafe { rd(p) };
            match i {
                None => dbg(w, &a, s),
                Some(i) => dbg(w, &(unsafe { *p.add(i * $w / 8) } != 0), s),
            }
        });
    }} x::r($g) }};
}
macro_rules! int {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use super::*; pub fn r(g: &mut Groups) {
        let ty = ty!($t $n $k $w);
        check(g, ty, stringify!($t), "Binary", N_BIN, f!(bin $t, $e, $n));
        check(g, ty, stringify!($t), "Octal", N_OCT, f!(oct $t, $e, $n));
        check(g, ty, stringify!($t), "LowerHex", N_LHEX, f!(lhex $t, $e, $n));
        check(g, ty, stringify!($t), "UpperHex", N_UHEX, f!(uhex $t, $e, $n));
    }} x::r($g) }};
}
macro_rules! ptr {
    ($g:ident $name:literal [$t:ty] [$e:ty] [$pt:ty] $n:tt $m:ident $us:ident $is:ident) => {{ mod x { use super::*; pub fn r(g: &mut Groups) {
        let name = concat!($name, "<").split('<').next().unwrap();
        let prefix: &'static str = Box::leak(format!("{}<{}>", name, std::any::type_name::<$pt>()).into_boxed_str());
        check(g, Ty::new($name, K::P, 64, $n), prefix, "Debug", N_DBG, f!(dbg $t, $e, $n));
    }} x::r($g) }};
}
fn main() {
    vh::main(
        Spec {
            id: "C29",
            rule: "one group per (vector type, formatting trait); lanes boundary-biased; random spec out of a table of flag combinations (alternate, sign, zero, fill, alignment, width, precision, debug-hex), random width and precision; the text is compared with the name and the scalars formatted with the same flags, and formatting into a writer that fails after a random number of bytes must report the error; non-trivial: two lanes differ",
            quick: 10000,
            thorough: 80000,
            labels: &[],
        },
        |g| {
            num_types!(num g);
            mask_types!(mask g);
            int_types!(int g);
            ptr_types!(ptr g);
        },
    );
}
