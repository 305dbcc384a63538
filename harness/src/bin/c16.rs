//! C16: shuffle! with compile-time indices (the shuffles are generated from the seed by gens.py).
use packed_simd::*;
use vh::*;

fn check(g: &mut Groups, no: &str, ty: Ty, out: Ty, nv: usize, ix: &'static [u32], f: F) {
    g.add(format!("#{} shuffle{}/{}->{}/{:?}", no, nv, ty.name, out.name, ix), move |s| {
        let a = vec(s, &ty, any_bits);
        let b = if nv == 2 { related(s, &ty, &a, any_bits) } else { a };
        s.note(|| if nv == 2 { format!("{} , {}", show(&ty, &a), show(&ty, &b)) } else { show(&ty, &a) });
        let mut o = V { b: [0xA5; 128] };
        f(a.p(), b.p(), a.p(), o.pm());
        s.note(|| format!("-> {}", show(&out, &o)));
        for k in 0..out.n {
            let i = ix[k] as usize;
            let e = if i < ty.n { a.get(ty.w, i) } else { b.get(ty.w, i - ty.n) };
            if o.get(out.w, k) != e {
                return Res::Fail(format!("lane {} is {}, expected lane {} of the input, {}", k, show1(out.k, out.w, o.get(out.w, k)), i, show1(ty.k, ty.w, e)));
            }
        }
        Res::Ok
    });
}
macro_rules! sh {
    ($g:ident $no:literal 1 [$t:ty] $n:literal [$o:ty] $on:literal $ix:tt) => {
        check($g, $no, Ty::new(stringify!($t), K::P, 64, $n), Ty::new(stringify!($o), K::P, 64, $on), 1, &$ix, th!(|a: $t| { let r: $o = sh!(@1 a $ix); r }))
    };
    ($g:ident $no:literal 2 [$t:ty] $n:literal [$o:ty] $on:literal $ix:tt) => {
        check($g, $no, Ty::new(stringify!($t), K::P, 64, $n), Ty::new(stringify!($o), K::P, 64, $on), 2, &$ix, th!(|a: $t, b: $t| { let r: $o = sh!(@2 a b $ix); r }))
    };
    ($g:ident $no:literal 1 $t:ident $k:ident $w:literal $n:literal $o:ident $on:literal $ix:tt) => {
        check($g, $no, ty!($t $n $k $w), ty!($o $on $k $w), 1, &$ix, th!(|a: $t| { let r: $o = sh!(@1 a $ix); r }))
    };
    ($g:ident $no:literal 2 $t:ident $k:ident $w:literal $n:literal $o:ident $on:literal $ix:tt) => {
        check($g, $no, ty!($t $n $k $w), ty!($o $on $k $w), 2, &$ix, th!(|a: $t, b: $t| { let r: $o = sh!(@2 a b $ix); r }))
    };
    (@1 $a:ident [$($i:tt),*]) => { shuffle!($a, [$($i),*]) };
    (@2 $a:ident $b:ident [$($i:tt),*]) => { shuffle!($a, $b, [$($i),*]) };
}
/// The vector arguments are arbitrary expressions: each is evaluated once, in order.
macro_rules! once {
    ($($g:ident $t:ident $n:literal $k:ident $w:literal $o:ident $on:literal $ix:tt;)*) => { $(
        $g.add(concat!("once/", stringify!($t), "->", stringify!($o)), |s| {
            let (ty, out) = (ty!($t $n $k $w), ty!($o $on $k $w));
            let a = vec(s, &ty, any_bits);
            let b = related(s, &ty, &a, any_bits);
            s.note(|| format!("{} , {}", show(&ty, &a), show(&ty, &b)));
            let ix: &[usize] = &once!(@u $ix);
            let mut log = String::new();
            let one: $o = once!(@1 { log.push('a'); unsafe { rd::<$t>(a.p()) } } $ix);
            let two: $o = once!(@2 { log.push('b'); unsafe { rd::<$t>(a.p()) } } { log.push('c'); unsafe { rd::<$t>(b.p()) } } $ix);
            if log != "abc" {
                return Res::Fail(format!("the arguments were evaluated as {:?}, expected \"abc\"", log));
            }
            let (mut x, mut y) = (V::zero(), V::zero());
            unsafe { wr(x.pm(), one); wr(y.pm(), two) };
            for k in 0..$on {
                let i = ix[k];
                let e = if i < $n { a.get($w, i) } else { b.get($w, i - $n) };
                if x.get($w, k) != a.get($w, i % $n) || y.get($w, k) != e {
                    return Res::Fail(format!("lane {} is wrong: {} or {}", k, show(&out, &x), show(&out, &y)));
                }
            }
            Res::Ok
        });
    )* };
    (@u [$($i:tt)*]) => { [$($i),*] };
    (@1 $a:block [$($i:tt)*]) => { shuffle!($a, [$($i),*]) };
    (@2 $a:block $b:block [$($i:tt)*]) => { shuffle!($a, $b, [$($i),*]) };
}
fn main() {
    vh::main(
        Spec {
            id: "C16",
            rule: "shuffles (element type, input lanes, number of indices, one or two operands, index list) generated from the seed: random indices with repeats, permutations, runs, reversals, rotations, interleaves and blends; one group per shuffle; operands boundary-biased; every result lane compared bit by bit with the indexed lane; non-trivial: an operand has two different lanes",
            quick: 1500,
            thorough: 4000,
            labels: &[],
        },
        |g| {
            once! {
            g i32x4 4 I 32 i32x2 2 [1 7];
            g f32x4 4 F 32 f32x4 4 [4 0 0 2];
            g u16x8 8 U 16 u16x8 8 [15 11 10 0 8 15 6 13];
            g i8x16 16 I 8 i8x16 16 [6 12 16 5 27 21 5 23 26 16 28 6 12 18 6 2];
            g u8x32 32 U 8 u8x32 32 [25 46 62 24 3 46 31 55 38 45 15 11 25 14 34 39 25 48 61 28 17 26 1 24 21 2 42 39 47 48 49 37];
            g u8x64 64 U 8 u8x64 64 [32 125 13 47 108 101 24 112 62 22 114 114 97 19 109 120 77 104 21 49 68 115 124 44 4 5 31 64 92 48 65 115 84 65 105 107 124 68 121 122 125 36 96 127 78 119 82 93 41 96 68 81 101 124 40 74 1 115 14 46 7 28 94 92];
            g m32x8 8 M 32 m32x4 4 [15 1 6 4];
            g f64x2 2 F 64 f64x8 8 [2 0 3 3 0 3 1 0];
            }
            include!(concat!(env!("VH_GEN"), "/c16.rs"))
        },
    );
}
