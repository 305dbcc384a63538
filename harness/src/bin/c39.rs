//! C39: operations keep no hidden state (histories and concurrent callers).
use packed_simd::*;
use std::hash::{Hash, Hasher};
use vh::*;

pub fn hash(x: impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
pub fn text(x: std::fmt::Arguments) -> u64 {
    hash(x.to_string())
}
/// The library's operations of one type: up to three operands of that type.
type Ops = Vec<(&'static str, F)>;

const THREADS: usize = 3;
const ROUNDS: usize = 300;
const LONG: usize = 70000;

fn call(f: F, o: &[V; 3]) -> V {
    let mut r = V { b: [0xA5; 128] };
    f(o[0].p(), o[1].p(), o[2].p(), r.pm());
    r
}
fn state(g: &mut Groups, ty: Ty, ops: Ops) {
    let ops: &'static [(&'static str, F)] = Box::leak(ops.into_boxed_slice());
    // operand triples, each one a neighbour of the one before or a new one
    let pool = move |s: &mut Src, n: usize| -> Vec<[V; 3]> {
        let mut p: Vec<[V; 3]> = Vec::new();
        for k in 0..n {
            let t = if k > 0 && s.chance(2, 3) {
                let mut t = p[k - 1];
                let (j, l) = (s.below(3) as usize, s.below(ty.n as u64) as usize);
                let x = any(s, &ty);
                s.feed(x);
                t[j].set(ty.w, l, x);
                t
            } else {
                let a = vec(s, &ty, any);
                let b = related(s, &ty, &a, any);
                let c = related(s, &ty, &b, any);
                [a, b, c]
            };
            p.push(t);
        }
        p
    };
    let tell = move |o: &[V; 3]| format!("{} , {} , {}", show(&ty, &o[0]), show(&ty, &o[1]), show(&ty, &o[2]));
    g.add(format!("{}/history", ty.name), move |s| {
        let np = 2 + s.below(5) as usize;
        let p = pool(s, np);
        // one operation, a few, or all of them
        let few: Vec<usize> = match s.below(3) {
            0 => vec![s.below(ops.len() as u64) as usize],
            1 => (0..3).map(|_| s.below(ops.len() as u64) as usize).collect(),
            _ => (0..ops.len()).collect(),
        };
        let mut base: Vec<Option<V>> = vec![None; ops.len() * np];
        let len = 16 + s.below(48) as usize;
        let mut hist: Vec<(usize, usize)> = Vec::new();
        for _ in 0..len {
            let (o, k) = (few[s.below(few.len() as u64) as usize], s.below(np as u64) as usize);
            hist.push((o, k));
            let r = call(ops[o].1, &p[k]);
            match &base[o * np + k] {
                None => base[o * np + k] = Some(r),
                Some(b) if b.b == r.b => s.nontrivial = true,
                Some(b) => {
                    let h: Vec<String> = hist.iter().map(|(o, k)| format!("{}#{}", ops[*o].0, k)).collect();
                    return Res::Fail(format!("{} of {} gave {:02x?} first and {:02x?} later in the history {}", ops[o].0, tell(&p[k]), &b.b[..64], &r.b[..64], h.join(" ")));
                }
            }
        }
        s.note(|| format!("{} calls of {} operations on {} operand sets, the last: {}", len, few.len(), np, tell(&p[np - 1])));
        Res::Ok
    });
    // every operation very often in a row
    g.addn(format!("{}/long", ty.name), 1.0 / 4000.0, move |s| {
        let p = pool(s, 2);
        s.nontrivial = true;
        s.label(1);
        s.note(|| format!("{} calls of each operation on {} and {}", LONG, tell(&p[0]), tell(&p[1])));
        for (name, f) in ops {
            let base = [call(*f, &p[0]), call(*f, &p[1])];
            let t = std::time::Instant::now();
            for k in 0..LONG {
                // formatting and the like are too slow for the whole number
                if k % 4096 == 4095 && t.elapsed().as_millis() > 25 {
                    break;
                }
                let r = call(*f, &p[k & 1]);
                if r.b != base[k & 1].b {
                    return Res::Fail(format!("{} of {} gave {:02x?} first and {:02x?} at call {}", name, tell(&p[k & 1]), &base[k & 1].b[..64], &r.b[..64], k + 3));
                }
            }
        }
        Res::Ok
    });
    g.addn(format!("{}/threads", ty.name), 0.05, move |s| {
        let p = pool(s, 4);
        let o = s.below(ops.len() as u64) as usize;
        // the other threads run the same operation, or another one of the type
        let q = if s.chance(1, 3) { s.below(ops.len() as u64) as usize } else { o };
        s.nontrivial = true;
        s.label(0);
        s.feed((o * 1000 + q) as u128);
        s.note(|| format!("{} and {} threads of {} on {} .. {}", ops[o].0, THREADS - 1, ops[q].0, tell(&p[0]), tell(&p[3])));
        let base: Vec<[V; 2]> = p.iter().map(|x| [call(ops[o].1, x), call(ops[q].1, x)]).collect();
        let start = std::sync::Barrier::new(THREADS);
        let bad = std::sync::Mutex::new(None);
        std::thread::scope(|sc| {
            for t in 0..THREADS {
                let (p, base, start, bad) = (&p, &base, &start, &bad);
                sc.spawn(move || {
                    start.wait();
                    let which = (t > 0) as usize;
                    let f = if t > 0 { ops[q].1 } else { ops[o].1 };
                    for k in 0..ROUNDS {
                        let i = (k + t) % 4;
                        let r = call(f, &p[i]);
                        if r.b != base[i][which].b {
                            *bad.lock().unwrap() = Some((if t > 0 { q } else { o }, i, r));
                            break;
                        }
                    }
                });
            }
        });
        if let Some((o, i, r)) = bad.into_inner().unwrap() {
            let b = call(ops[o].1, &p[i]);
            return Res::Fail(format!("{} of {} gave {:02x?} while other threads ran, {:02x?} alone", ops[o].0, tell(&p[i]), &r.b[..64], &b.b[..64]));
        }
        Res::Ok
    });
}
macro_rules! ops {
    ($($n:literal: $f:expr;)*) => {{
        let mut v: Ops = Vec::new();
        $(v.push(($n, $f));)*
        v
    }};
}
macro_rules! common {
    ($v:ident $t:ident $e:ident $n:literal $m:ident) => {
        $v.extend(ops! {
            "eq": th!(|a: $t, b: $t| a == b);
            "ne": th!(|a: $t, b: $t| a != b);
            "vector eq": th!(|a: $t, b: $t| a.eq(b));
            "select": th!(|a: $t, b: $t, c: $t| a.eq(c).select(a, b));
            "extract": th!(|a: $t| a.extract($n - 1));
            "replace": th!(|a: $t, b: $t| a.replace($n / 2, b.extract(0)));
            "debug": th!(|a: $t| text(format_args!("{:?}", a)));
        });
    };
}
macro_rules! num {
    ($v:ident $t:ident $e:ident $n:literal $m:ident) => {
        $v.extend(ops! {
            "add": th!(|a: $t, b: $t| a + b);
            "sub": th!(|a: $t, b: $t| a - b);
            "mul": th!(|a: $t, b: $t| a * b);
            "mul scalar": th!(|a: $t, b: $t| a * b.extract(0));
            "lt": th!(|a: $t, b: $t| a.lt(b));
            "ge": th!(|a: $t, b: $t| a.ge(b));
            "min": th!(|a: $t, b: $t| a.min(b));
            "max": th!(|a: $t, b: $t| a.max(b));
            "min_element": th!(|a: $t| a.min_element());
            "max_element": th!(|a: $t| a.max_element());
            "iter sum": th!(|a: $t, b: $t, c: $t| [a, b, c, b].iter().sum::<$t>());
            "iter product": th!(|a: $t, b: $t, c: $t| [a, b, c].iter().product::<$t>());
            "slice": th!(|a: $t, b: $t| { let mut x = [b.extract(0); $n + 3]; a.write_to_slice_unaligned(&mut x[1..]); <$t>::from_slice_unaligned(&x[2..]) });
        });
    };
}
macro_rules! ints {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use crate::*; pub fn r(g: &mut Groups) {
        let mut v = Vec::new();
        common!(v $t $e $n $m);
        num!(v $t $e $n $m);
        v.extend(ops! {
            "div": th!(|a: $t, b: $t| a / (b & 7 | 1));
            "rem": th!(|a: $t, b: $t| a % (b & 7 | 1));
            "and": th!(|a: $t, b: $t| a & b);
            "or": th!(|a: $t, b: $t| a | b);
            "xor": th!(|a: $t, b: $t| a ^ b);
            "not": th!(|a: $t| !a);
            "shl": th!(|a: $t, b: $t| a << (b & ($w - 1)));
            "shr": th!(|a: $t, b: $t| a >> (b & ($w - 1)));
            "shr scalar": th!(|a: $t, b: $t| a >> (b.extract(0) as u32 & ($w - 1)));
            "rotate_left": th!(|a: $t, b: $t| a.rotate_left(b & ($w - 1)));
            "rotate_right": th!(|a: $t, b: $t| a.rotate_right(b & ($w - 1)));
            "wrapping_sum": th!(|a: $t| a.wrapping_sum());
            "wrapping_product": th!(|a: $t| a.wrapping_product());
            "reduce and": th!(|a: $t| a.and());
            "reduce or": th!(|a: $t| a.or());
            "reduce xor": th!(|a: $t| a.xor());
            "count_ones": th!(|a: $t| a.count_ones());
            "leading_zeros": th!(|a: $t| a.leading_zeros());
            "trailing_zeros": th!(|a: $t| a.trailing_zeros());
            "swap_bytes": th!(|a: $t| a.swap_bytes());
            "to_be": th!(|a: $t| a.to_be());
            "hash": th!(|a: $t| hash(a));
            "hex": th!(|a: $t| text(format_args!("{:#x} {:08X}", a, a)));
            "binary": th!(|a: $t| text(format_args!("{:#b} {:o}", a, a)));
            "lex": th!(|a: $t, b: $t| (a.partial_lex_ord() < b.partial_lex_ord(), a.partial_lex_ord() >= b.partial_lex_ord()));
            "lex cmp": th!(|a: $t, b: $t| a.lex_ord().cmp(&b.lex_ord()));
            "bitmask": th!(|a: $t| a.lt(<$t>::splat(3)).bitmask());
        });
        state(g, ty!($t $n $k $w), v);
    }} x::r($g) }};
}
macro_rules! floats {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use crate::*; pub fn r(g: &mut Groups) {
        let mut v = Vec::new();
        common!(v $t $e $n $m);
        num!(v $t $e $n $m);
        v.extend(ops! {
            "div": th!(|a: $t, b: $t| a / b);
            "rem": th!(|a: $t, b: $t| a % b);
            "neg": th!(|a: $t| -a);
            "sum": th!(|a: $t| a.sum());
            "product": th!(|a: $t| a.product());
            "abs": th!(|a: $t| a.abs());
            "sqrt": th!(|a: $t| a.sqrt());
            "sqrte": th!(|a: $t| a.sqrte());
            "rsqrte": th!(|a: $t| a.rsqrte());
            "recpre": th!(|a: $t| a.recpre());
            "mul_add": th!(|a: $t, b: $t, c: $t| a.mul_add(b, c));
            "mul_adde": th!(|a: $t, b: $t, c: $t| a.mul_adde(b, c));
            "sin": th!(|a: $t| a.sin());
            "cos": th!(|a: $t| a.cos());
            "sin_pi": th!(|a: $t| a.sin_pi());
            "cos_pi": th!(|a: $t| a.cos_pi());
            "sin_cos_pi": th!(|a: $t| a.sin_cos_pi());
            "exp": th!(|a: $t| a.exp());
            "ln": th!(|a: $t| a.ln());
            "tanh": th!(|a: $t| a.tanh());
            "powf": th!(|a: $t, b: $t| a.powf(b));
            "is_nan": th!(|a: $t| a.is_nan());
            "is_finite": th!(|a: $t| a.is_finite());
            "is_infinite": th!(|a: $t| a.is_infinite());
        });
        state(g, ty!($t $n $k $w), v);
    }} x::r($g) }};
}
macro_rules! masks {
    ($g:ident $t:ident $e:ident $n:literal $m:ident $k:ident $w:literal) => {{ mod x { use crate::*; pub fn r(g: &mut Groups) {
        let mut v = Vec::new();
        common!(v $t $e $n $m);
        v.extend(ops! {
            "and": th!(|a: $t, b: $t| a & b);
            "or": th!(|a: $t, b: $t| a | b);
            "xor": th!(|a: $t, b: $t| a ^ b);
            "not": th!(|a: $t| !a);
            "all": th!(|a: $t| a.all());
            "any": th!(|a: $t| a.any());
            "none": th!(|a: $t| a.none());
            "reduce and": th!(|a: $t| a.and());
            "reduce or": th!(|a: $t| a.or());
            "reduce xor": th!(|a: $t| a.xor());
            "lt": th!(|a: $t, b: $t| a.lt(b));
            "select mask": th!(|a: $t, b: $t, c: $t| a.select(b, c));
            "lex": th!(|a: $t, b: $t| (a.partial_lex_ord() < b.partial_lex_ord(), a.partial_lex_ord() >= b.partial_lex_ord()));
            "lex cmp": th!(|a: $t, b: $t| a.lex_ord().cmp(&b.lex_ord()));
        });
        state(g, ty!($t $n $k $w), v);
    }} x::r($g) }};
}
/// run-time shuffles, gathers and scatters: indices from the second operand
macro_rules! mem_ops {
    ($g:ident $t:ident $e:ident $n:literal $ix:ident $k:ident $w:literal $p:ident $us:ident) => {{ mod x { use crate::*; pub fn r(g: &mut Groups) {
        let v = ops! {
            "shuffle1_dyn": th!(|a: $t, b: $ix| a.shuffle1_dyn(b & ($n - 1)));
            "gather": th!(|a: $t, b: $ix, c: $t| {
                let m: [$e; $n] = a.into();
                let q: [*mut $e; $n] = std::array::from_fn(|j| unsafe { m.as_ptr().add(b.extract(j) as usize & ($n - 1)) as *mut $e });
                unsafe { <$p<$e>>::from(q).read((b & $n).eq(<$ix>::splat(0)), c) }
            });
            "scatter": th!(|a: $t, b: $ix, c: $t| {
                let mut m: [$e; $n] = a.into();
                let s = m.as_mut_ptr();
                let q: [*mut $e; $n] = std::array::from_fn(|j| unsafe { s.add(b.extract(j) as usize & ($n - 1)) });
                unsafe { <$p<$e>>::from(q).write((b & $n).eq(<$ix>::splat(0)), c) };
                m
            });
            "pointer offsets": th!(|b: $ix| {
                let m = [0 as $e; 2 * $n];
                let p = <$p<$e>>::splat(m.as_ptr() as *mut $e);
                let q: [usize; $n] = std::array::from_fn(|j| b.extract(j) as usize & (2 * $n - 1));
                unsafe { p.add(<$us>::from(q)).offset_from(p) }
            });
        };
        let mut ty = ty!($t $n $k $w);
        ty.name = concat!(stringify!($t), "/memory");
        state(g, ty, v);
    }} x::r($g) }};
}
macro_rules! dyn_ops {
    ($g:ident $t:ident $n:literal $ix:ident $k:ident $w:literal) => {{ mod x { use crate::*; pub fn r(g: &mut Groups) {
        let mut ty = ty!($t $n $k $w);
        ty.name = concat!(stringify!($t), "/shuffle");
        state(g, ty, ops! { "shuffle1_dyn": th!(|a: $t, b: $ix| a.shuffle1_dyn(b & ($n - 1))); });
    }} x::r($g) }};
}
fn main() {
    vh::main(
        Spec {
            id: "C39",
            rule: "histories of 16 to 63 calls drawn from the operations of one type over a pool of 2 to 6 operand triples, most of them neighbours of each other (one lane differs): every repetition of a call must give the bits of its first result; every operation of a type 70000 times in a row (fewer where that takes more than 25 ms); and one operation from three threads at once on different operands, every result compared with the one the same call gives alone; non-trivial: a call is repeated, resp. every concurrent case",
            quick: 4000,
            thorough: 60000,
            labels: &["concurrent", "long run"],
        },
        |g| {
            int_types!(ints g);
            float_types!(floats g);
            mask_types!(masks g);
            mem_ops!(g i8x2 i8 2 u8x2 I 8 mptrx2 usizex2);
            mem_ops!(g u16x2 u16 2 u16x2 U 16 mptrx2 usizex2);
            mem_ops!(g f32x2 f32 2 u32x2 F 32 mptrx2 usizex2);
            mem_ops!(g u64x2 u64 2 u64x2 U 64 mptrx2 usizex2);
            mem_ops!(g f64x2 f64 2 u64x2 F 64 mptrx2 usizex2);
            mem_ops!(g u8x4 u8 4 u8x4 U 8 mptrx4 usizex4);
            mem_ops!(g i32x4 i32 4 u32x4 I 32 mptrx4 usizex4);
            mem_ops!(g f32x4 f32 4 u32x4 F 32 mptrx4 usizex4);
            mem_ops!(g f64x4 f64 4 u64x4 F 64 mptrx4 usizex4);
            mem_ops!(g i128x4 i128 4 u128x4 I 128 mptrx4 usizex4);
            mem_ops!(g i8x8 i8 8 u8x8 I 8 mptrx8 usizex8);
            mem_ops!(g u16x8 u16 8 u16x8 U 16 mptrx8 usizex8);
            mem_ops!(g f32x8 f32 8 u32x8 F 32 mptrx8 usizex8);
            mem_ops!(g i64x8 i64 8 u64x8 I 64 mptrx8 usizex8);
            dyn_ops!(g u8x16 16 u8x16 U 8);
            dyn_ops!(g i8x32 32 u8x32 I 8);
            dyn_ops!(g u8x64 64 u8x64 U 8);
            dyn_ops!(g i16x16 16 u16x16 I 16);
            dyn_ops!(g u16x32 32 u16x32 U 16);
            dyn_ops!(g f32x16 16 u32x16 F 32);
            dyn_ops!(g u32x16 16 u32x16 U 32);
            dyn_ops!(g f64x8 8 u64x8 F 64);
        },
    );
}
