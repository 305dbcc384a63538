//! C31: generated straight-line programs (gens.py) against a lane-by-lane interpreter.
use packed_simd::*;
use vh::*;

include!("../conv.rs");

type S = fn(&Ty, [u128; 3]) -> u128;
#[derive(Clone, Copy)]
pub enum Op {
    In(usize),
    Const(&'static [u128]),
    Un(S, usize),
    Bin(S, usize, usize),
    /// scalar constant on the right / left
    Imm(S, usize, u128),
    ImmL(S, usize, u128),
    /// second operand and-ed / or-ed with a constant first
    Masked(S, usize, usize, u128),
    Ored(S, usize, usize, u128),
    /// comparison: the operands' type decides, the result is a mask
    Cmp(S, usize, usize),
    Select(usize, usize, usize),
    Shuffle(usize, usize, &'static [u32]),
    Cast(usize),
    Fold(S, usize),
    All(usize),
    Any(usize),
    None(usize),
    Replace(usize, usize, usize, usize),
    Fma(usize, usize, usize),
    Dyn(usize, usize, u128),
    Copy(usize),
}
fn abs(t: &Ty, a: [u128; 3]) -> u128 {
    a[0] & (t.ones() >> 1)
}
fn sqrt(t: &Ty, a: [u128; 3]) -> u128 {
    if t.w == 32 { sc::f32_(a[0]).sqrt().to_bits() as u128 } else { sc::f64_(a[0]).sqrt().to_bits() as u128 }
}
fn ones_(_: &Ty, a: [u128; 3]) -> u128 {
    a[0].count_ones() as u128
}
fn lz(t: &Ty, a: [u128; 3]) -> u128 {
    (a[0].leading_zeros() - (128 - t.w)) as u128
}
fn tz(t: &Ty, a: [u128; 3]) -> u128 {
    a[0].trailing_zeros().min(t.w) as u128
}
fn min_(t: &Ty, a: [u128; 3]) -> u128 {
    if sc::lt_(t, a[0], a[1]) { a[0] } else { a[1] }
}
fn max_(t: &Ty, a: [u128; 3]) -> u128 {
    if sc::lt_(t, a[0], a[1]) { a[1] } else { a[0] }
}
fn fma(t: &Ty, x: u128, y: u128, z: u128) -> u128 {
    if t.w == 32 { sc::f32_(x).mul_add(sc::f32_(y), sc::f32_(z)).to_bits() as u128 } else { sc::f64_(x).mul_add(sc::f64_(y), sc::f64_(z)).to_bits() as u128 }
}
type L = Vec<u128>;
fn eval(ops: &[(Ty, Op)], inputs: &[V]) -> Vec<L> {
    let mut v: Vec<L> = Vec::with_capacity(ops.len());
    for (t, op) in ops {
        let n = t.n;
        let un = |a: usize, f: &dyn Fn(u128) -> u128| -> L { v[a].iter().map(|x| f(*x)).collect() };
        let bin = |a: usize, b: usize, f: &dyn Fn(u128, u128) -> u128| -> L { (0..n).map(|i| f(v[a][i], v[b][i])).collect() };
        let splat = |b: bool| vec![if b { t.ones() } else { 0 }; n];
        let r: L = match *op {
            Op::In(i) => inputs[i].lanes(t),
            Op::Const(l) => l.to_vec(),
            Op::Un(f, a) => un(a, &|x| f(t, [x, 0, 0])),
            Op::Bin(f, a, b) => bin(a, b, &|x, y| f(t, [x, y, 0])),
            Op::Imm(f, a, k) => un(a, &|x| f(t, [x, k, 0])),
            Op::ImmL(f, a, k) => un(a, &|x| f(t, [k, x, 0])),
            Op::Masked(f, a, b, k) => bin(a, b, &|x, y| f(t, [x, y & k, 0])),
            Op::Ored(f, a, b, k) => bin(a, b, &|x, y| f(t, [x, y | k, 0])),
            Op::Cmp(f, a, b) => {
                let ot = ops[a].0;
                bin(a, b, &|x, y| f(&ot, [x, y, 0]))
            }
            Op::Select(m, a, b) => (0..n).map(|i| if v[m][i] != 0 { v[a][i] } else { v[b][i] }).collect(),
            Op::Shuffle(a, b, ix) => ix.iter().map(|i| { let i = *i as usize; if i < n { v[a][i] } else { v[b][i - n] } }).collect(),
            Op::Cast(a) => {
                let st = ops[a].0;
                un(a, &|x| convert(&st, t, x))
            }
            Op::Fold(f, a) => {
                let r = v[a][1..].iter().fold(v[a][0], |x, y| f(t, [x, *y, 0]));
                vec![r; n]
            }
            Op::All(a) => splat(v[a].iter().all(|x| *x != 0)),
            Op::Any(a) => splat(v[a].iter().any(|x| *x != 0)),
            Op::None(a) => splat(v[a].iter().all(|x| *x == 0)),
            Op::Replace(a, i, b, j) => {
                let mut r = v[a].clone();
                r[i] = v[b][j];
                r
            }
            Op::Fma(a, b, c) => (0..n).map(|i| fma(t, v[a][i], v[b][i], v[c][i])).collect(),
            Op::Dyn(a, b, k) => (0..n).map(|i| v[a][(v[b][i] & k) as usize]).collect(),
            Op::Copy(a) => v[a].clone(),
        };
        v.push(r);
    }
    v
}
fn prog(g: &mut Groups, no: &str, ins: &'static [Ty], ops: Vec<(Ty, Op)>, outs: &'static [usize], f: fn(&[V], &mut [V]), src: &'static str) {
    let no = no.to_string();
    g.add(format!("program-{}", no), move |s| {
        let mut i: Vec<V> = Vec::new();
        for (k, t) in ins.iter().enumerate() {
            let v = if k > 0 && ins[k - 1] == *t { let a = i[k - 1]; related(s, t, &a, any) } else { vec(s, t, any) };
            i.push(v);
        }
        s.note(|| format!("inputs {}", i.iter().zip(ins).map(|(v, t)| show(t, v)).collect::<Vec<_>>().join(" , ")));
        let mut o = vec![V { b: [0xA5; 128] }; outs.len()];
        f(&i, &mut o);
        let e = eval(&ops, &i);
        s.note(|| format!("-> {}", show(&ops[outs[outs.len() - 1]].0, &o[outs.len() - 1])));
        for (q, k) in outs.iter().enumerate() {
            let t = ops[*k].0;
            for l in 0..t.n {
                let (got, ex) = (o[q].get(t.w, l), e[*k][l]);
                let ok = if t.k == K::F { sc::same_float(t.w, got, ex) } else { got == ex };
                if !ok {
                    return Res::Fail(format!("v{} lane {} is {}, expected {}; program: {}", k, l, show1(t.k, t.w, got), show1(t.k, t.w, ex), src));
                }
            }
        }
        Res::Ok
    });
}
fn main() {
    vh::main(
        Spec {
            id: "C31",
            rule: "straight-line programs of 6 to 27 steps (arithmetic, bitwise, shifts, rotates, counts, min/max, comparisons, select, shuffle!, shuffle1_dyn, casts, reductions, extract/replace, fused multiply-add, array/slice round trips, const vectors) generated from the seed and compiled; run on generated inputs; the outputs (all intermediate values, or only the last two) compared with a lane-by-lane interpreter; non-trivial: an input has two different lanes",
            quick: 9000,
            thorough: 72000,
            labels: &[],
        },
        |g| include!(concat!(env!("VH_GEN"), "/c31.rs")),
    );
}
