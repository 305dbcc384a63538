//! C32: the linear-algebra examples agree with their scalar meaning.
use vh_ex::*;

mod slice_sum {
    #![allow(dead_code, unused)]
    include!(concat!(env!("VH_GEN"), "/slice_sum.rs"));
}

/// How the values of one case are drawn.
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Ints,
    Floats,
    Sparse,
    Constant,
    Wide,
    Tiny,
    Outlier,
    NonFinite,
}
use Kind::*;
fn kind(s: &mut Src) -> Kind {
    *s.pick(&[Ints, Ints, Ints, Floats, Floats, Sparse, Constant, Wide, Tiny, Outlier, NonFinite])
}
impl Kind {
    /// Every value is an integer of at most seven bits.
    fn ints(self) -> bool {
        matches!(self, Ints | Sparse | Constant)
    }
}
/// `n` values of a kind.
fn values(s: &mut Src, n: usize, k: Kind) -> Vec<f32> {
    let c = s.range(-64, 64) as f32;
    let mut v: Vec<f32> = (0..n)
        .map(|_| match k {
            Ints => s.range(-64, 64) as f32,
            Sparse => if s.chance(1, 8) { s.range(-64, 64) as f32 } else if s.chance(1, 4) { -0.0 } else { 0.0 },
            Constant => c,
            Wide => {
                let e = s.range(-30, 30) as i32;
                f(s, -2.0, 2.0) * (e as f32).exp2()
            }
            Tiny => f32::from_bits((s.below(0x0180_0000) as u32) | if s.chance(1, 2) { 1 << 31 } else { 0 }),
            _ => f(s, -100.0, 100.0),
        })
        .collect();
    if n > 0 && k == Outlier {
        let i = s.below(n as u64) as usize;
        v[i] = f(s, -1.0, 1.0) * 1e15;
    }
    if n > 0 && k == NonFinite {
        for _ in 0..1 + s.below(2) {
            let i = s.below(n as u64) as usize;
            v[i] = *s.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::NAN]);
        }
    }
    v
}
/// Equal up to `tol`, or the same infinity, or NaN both.
fn same(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || close(a, b, tol)
}
/// What rounding and underflow may add to a sum of `n` terms of total magnitude `mag`.
fn slack(n: usize, mag: f64) -> f64 {
    let n = n as f64 + 1.0;
    if mag.is_finite() { mag * n * 1.2e-7 + n * 3e-45 } else { 0.0 }
}

/// A slice with `n` elements at a generated misalignment: `(storage, offset)`.
fn data(s: &mut Src, n: usize, k: Kind) -> (Vec<f32>, usize) {
    // storage aligned at least to 4; the offset walks through the alignments of a 64-byte line
    let off = s.below(16) as usize;
    let mut v = vec![f32::NAN; n + 32];
    let base = (v.as_ptr() as usize / 4) % 16;
    let o = (16 - base) % 16 + off;
    let x = values(s, n, k);
    v[o..o + n].copy_from_slice(&x);
    for y in &x {
        s.feed(y.to_bits() as u128);
    }
    s.feed(off as u128);
    (v, o)
}
fn sums(g: &mut Groups, name: &'static str, f: fn(&[f32]) -> f32) {
    g.add(format!("slice_sum/{}", name), move |s| {
        let n = 8 * if s.chance(1, 64) { s.below(600) } else { s.below(17) } as usize;
        let k = kind(s);
        let (v, o) = data(s, n, k);
        let x = &v[o..o + n];
        s.nontrivial = n > 0;
        s.note(|| format!("{} elements at offset {} of a 64-byte line: {:?}", n, o, x));
        let par = name == "sum_ver_par";
        let got = match std::panic::catch_unwind(|| f(x)) {
            Ok(r) => r as f64,
            Err(_) if par && n == 0 => return Res::Known("panics for an empty slice"),
            Err(e) => std::panic::resume_unwind(e),
        };
        let e: f64 = x.iter().map(|&y| y as f64).sum();
        let mag: f64 = x.iter().map(|&y| (y as f64).abs()).sum();
        s.note(|| format!("-> {} , exact {}", got, e));
        // sums of small integers are exact in every order
        let tol = if k.ints() && mag < 16777216.0 { 0.0 } else { slack(n, mag) };
        if !same(got, e, tol) {
            // the whole vectors from the first aligned element on
            let a = x.iter().position(|y| y as *const f32 as usize % 32 == 0).unwrap_or(n);
            let rest = (n - a) % 8;
            let less: f64 = x[..n - rest].iter().map(|&y| y as f64).sum();
            if par && rest > 0 && same(got, less, if tol == 0.0 && mag.is_finite() { 0.0 } else { slack(n, x[..n - rest].iter().map(|&y| (y as f64).abs()).sum()) }) {
                return Res::Known("drops the elements after the last whole vector of a slice that is not aligned");
            }
            fail!("the sum is {}, expected {}", got, e);
        }
        Res::Ok
    });
}

fn det(m: &[[i64; 4]; 4]) -> i64 {
    (0..4).map(|j| m[0][j] * cof(m, 0, j)).sum()
}
fn cof(m: &[[i64; 4]; 4], r: usize, c: usize) -> i64 {
    let rows: Vec<usize> = (0..4).filter(|&i| i != r).collect();
    let cols: Vec<usize> = (0..4).filter(|&i| i != c).collect();
    let a = |i: usize, j: usize| m[rows[i]][cols[j]];
    let d = a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0))
        + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0));
    if (r + c) % 2 == 0 { d } else { -d }
}

fn inverse(g: &mut Groups, name: &'static str, inv: fn(matrix_inverse_lib::Matrix4x4) -> Option<matrix_inverse_lib::Matrix4x4>) {
    g.add(format!("matrix_inverse/{}", name), move |s| {
        let mut m = [[0i64; 4]; 4];
        let k = *s.pick(&[1i64, 2, 4, 9]);
        for r in 0..4 {
            for c in 0..4 {
                m[r][c] = s.range(-k, k);
            }
        }
        match s.below(4) {
            // make a row a combination of others: singular
            1 => {
                let (a, b) = (s.range(-1, 1), s.range(-1, 1));
                let d = s.below(4) as usize;
                for c in 0..4 {
                    m[d][c] = a * m[(d + 1) % 4][c] + b * m[(d + 2) % 4][c];
                }
            }
            2 => {
                let d = s.below(4) as usize;
                for r in 0..4 {
                    m[r][d] = m[r][(d + 1) % 4];
                }
            }
            // sparse: triangular, permutation-like and diagonal ones among them
            3 => {
                let keep = s.below(1 << 16);
                for r in 0..4 {
                    for c in 0..4 {
                        if r != c && keep >> (4 * r + c) & 1 == 0 {
                            m[r][c] = 0;
                        }
                    }
                }
            }
            _ => (),
        }
        // scaling by a power of two changes nothing but the exponents
        let e2 = if s.chance(1, 2) { 0 } else { s.range(-20, 20) as i32 };
        s.feed(e2 as u128);
        let sc = (e2 as f32).exp2();
        for r in &m {
            for x in r {
                s.feed(*x as u128);
            }
        }
        let d = det(&m);
        if d == 0 {
            s.label(0);
        }
        s.nontrivial = true;
        s.note(|| format!("{:?} * 2^{} det of the integers {}", m, e2, d));
        let mf: [[f32; 4]; 4] = std::array::from_fn(|r| std::array::from_fn(|c| m[r][c] as f32 * sc));
        let r = inv(unsafe { std::mem::transmute(mf) });
        s.note(|| format!("-> {:?}", r));
        match r {
            None if d == 0 => Res::Ok,
            None => fail!("None for a matrix with determinant {}", d),
            Some(_) if d == 0 => fail!("an inverse of a singular matrix"),
            Some(x) => {
                let x: [[f32; 4]; 4] = unsafe { std::mem::transmute(x) };
                for r in 0..4 {
                    for c in 0..4 {
                        let e = cof(&m, c, r) as f64 / d as f64 / sc as f64;
                        if !close(x[r][c] as f64, e, e.abs() * 2e-4) {
                            fail!("element ({}, {}) of the inverse is {}, expected {}", r, c, x[r][c], e);
                        }
                    }
                }
                Res::Ok
            }
        }
    });
}

fn main() {
    vh::main(
        Spec {
            id: "C32",
            rule: "dot products and slice sums over generated lengths, alignments and values (integers, sparse and constant ones among them, where the result must be exact; floats, of mixed exponents, subnormal, with an outlier or an infinity or NaN among them, within the rounding of any order of summation); packed triangles under generated affine maps; integer 4x4 matrices scaled by powers of two, some singular by construction, against exact cofactors; spectral norms of generated sizes against an independent power iteration; non-trivial: non-empty input",
            quick: 100000,
            thorough: 800000,
            labels: &["singular matrix"],
        },
        |g| {
            for (name, dot) in [("simd", dot_product_lib::simd::dot_prod as fn(&[f32], &[f32]) -> f32), ("scalar", dot_product_lib::scalar::dot_prod)] {
                g.add(format!("dot_product/{}", name), move |s| {
                    let n = 4 * if s.chance(1, 64) { s.below(1200) } else { s.below(33) } as usize;
                    let (ka, kb) = match kind(s) {
                        k if k.ints() => (k, *s.pick(&[Ints, Sparse, Constant])),
                        k => (k, kind(s)),
                    };
                    let (a, oa) = data(s, n, ka);
                    let (b, ob) = data(s, n, kb);
                    let (x, y) = (&a[oa..oa + n], &b[ob..ob + n]);
                    s.nontrivial = n > 0;
                    s.note(|| format!("{:?} . {:?}", x, y));
                    let got = dot(x, y) as f64;
                    let e: f64 = x.iter().zip(y).map(|(p, q)| *p as f64 * *q as f64).sum();
                    let mag: f64 = x.iter().zip(y).map(|(p, q)| (*p as f64 * *q as f64).abs()).sum();
                    s.note(|| format!("-> {} , exact {}", got, e));
                    let tol = if ka.ints() && kb.ints() && mag < 16777216.0 { 0.0 } else { slack(n, mag) };
                    if !same(got, e, tol) {
                        fail!("the dot product is {}, expected {}", got, e);
                    }
                    Res::Ok
                });
            }
            #[allow(clippy::all)]
            if slice_sum::PRESENT {
                sums(g, "sum_ver", slice_sum::sum_ver);
                sums(g, "sum_hor", slice_sum::sum_hor);
                sums(g, "sum_ver_par", slice_sum::sum_ver_par);
            }
            inverse(g, "simd", matrix_inverse_lib::simd::inv4x4);
            inverse(g, "scalar", matrix_inverse_lib::scalar::inv4x4);
            g.add("triangle_xform", |s| {
                use triangle_xform::{scalar, simd};
                let k = *s.pick(&[Ints, Ints, Floats, Floats, Floats, Sparse, Constant, Wide, Tiny, Outlier, NonFinite]);
                let v = values(s, 72, k);
                let tris: Vec<scalar::Triangle> = (0..8)
                    .map(|t| scalar::Triangle(std::array::from_fn(|p| std::array::from_fn(|c| v[9 * t + 3 * p + c]))))
                    .collect();
                let mk = *s.pick(&[Ints, Floats, Floats, Sparse, Constant, Wide, Tiny, NonFinite]);
                let w = values(s, 12, mk);
                let mut mat: [[f32; 3]; 4] = std::array::from_fn(|r| std::array::from_fn(|c| w[3 * r + c]));
                match s.below(8) {
                    // translations, scalings, linear maps, a map onto a plane
                    0 => (0..3).for_each(|r| (0..3).for_each(|c| mat[r][c] = (r == c) as u8 as f32)),
                    1 => (0..4).for_each(|r| (0..3).for_each(|c| if r != c { mat[r][c] = 0.0 })),
                    2 => mat[3] = [0.0; 3],
                    3 => mat[s.below(3) as usize] = [0.0; 3],
                    _ => (),
                }
                for x in v.iter().chain(mat.iter().flatten()) {
                    s.feed(x.to_bits() as u128);
                }
                s.nontrivial = true;
                s.note(|| format!("{:?} under {:?}", tris, mat));
                let p = simd::Triangle::pack(&tris);
                let back = p.unpack();
                let bits = |t: &[scalar::Triangle]| -> Vec<u32> {
                    t.iter().flat_map(|t| t.0.iter().flatten().map(|x| if x.is_nan() { !0 } else { x.to_bits() }).collect::<Vec<_>>()).collect()
                };
                if bits(&back) != bits(&tris) {
                    fail!("packing and unpacking gives {:?}", back);
                }
                let t = p.transform(mat).unpack();
                for i in 0..8 {
                    let sc = tris[i].transform(mat);
                    for k in 0..3 {
                        for c in 0..3 {
                            let v = tris[i].0[k];
                            let e: f64 = (0..3).map(|j| mat[j][c] as f64 * v[j] as f64).sum::<f64>() + mat[3][c] as f64;
                            let mag: f64 = (0..3).map(|j| (mat[j][c] as f64 * v[j] as f64).abs()).sum::<f64>() + (mat[3][c] as f64).abs();
                            for (who, x) in [("packed", t[i].0[k][c]), ("scalar", sc.0[k][c])] {
                                if !same(x as f64, e, slack(4, mag)) {
                                    fail!("triangle {} vertex {} coordinate {} of the {} result is {}, expected {}", i, k, c, who, x, e);
                                }
                            }
                        }
                    }
                }
                Res::Ok
            });
            g.addn("spectral_norm", 0.02, |s| {
                let n = 2 + 2 * if s.chance(1, 200) { s.below(240) } else { s.below(40) } as usize;
                s.feed(n as u128);
                s.nontrivial = true;
                s.note(|| format!("n = {}", n));
                let a = |i: usize, j: usize| 1.0 / (((i + j) * (i + j + 1) / 2 + i + 1) as f64);
                let (mut u, mut v) = (vec![1.0f64; n], vec![0.0f64; n]);
                let mul = |x: &[f64]| -> Vec<f64> {
                    let t: Vec<f64> = (0..n).map(|i| (0..n).map(|j| a(i, j) * x[j]).sum()).collect();
                    (0..n).map(|i| (0..n).map(|j| a(j, i) * t[j]).sum()).collect()
                };
                for _ in 0..10 {
                    v = mul(&u);
                    u = mul(&v);
                }
                let dot = |x: &[f64], y: &[f64]| x.iter().zip(y).map(|(p, q)| p * q).sum::<f64>();
                let e = (dot(&u, &v) / dot(&v, &v)).sqrt();
                for alg in 0..2 {
                    let got = spectral_norm_lib::spectral_norm(n, alg);
                    if !close(got, e, 1e-9) {
                        fail!("algorithm {} gives {}, expected {}", alg, got, e);
                    }
                }
                Res::Ok
            });
        },
    );
}
