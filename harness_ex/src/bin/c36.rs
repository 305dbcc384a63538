//! C36: the option pricers.
use options_pricing_lib::{scalar, simd, simd_par};
use vh_ex::*;

type K = fn(&[f32], &[f32], &[f32], &[f32], &[f32], &mut [f32], usize) -> f64;

fn erfc_cnd(x: f64) -> f64 {
    // the cumulative normal by the example's own polynomial, in f64 (its accuracy is 7.5e-8)
    let l = x.abs();
    let k = 1.0 / (1.0 + 0.2316419 * l);
    let w = k * (0.31938153 + k * (-0.356563782 + k * (1.781477937 + k * (-1.821255978 + k * 1.330274429))));
    let w = w * 0.3989422804 * (-l * l * 0.5).exp();
    if x > 0.0 { 1.0 - w } else { w }
}
fn bs(o: [f64; 5]) -> f64 {
    let [s, x, t, r, v] = o;
    let d1 = ((s / x).ln() + (r + v * v * 0.5) * t) / (v * t.sqrt());
    let d2 = d1 - v * t.sqrt();
    s * erfc_cnd(d1) - x * (-r * t).exp() * erfc_cnd(d2)
}
fn put(o: [f64; 5]) -> f64 {
    let [s, x, t, r, v] = o;
    let dt = t / 64.0;
    let u = (v * dt.sqrt()).exp();
    let disc = (r * dt).exp();
    let pu = (disc - 1.0 / u) / (u - 1.0 / u);
    let mut vs: Vec<f64> = (0..64).map(|j| (x - s * u.powi(2 * j - 64)).max(0.0)).collect();
    for j in (0..64).rev() {
        for k in 0..j {
            vs[k] = ((1.0 - pu) * vs[k] + pu * vs[k + 1]) / disc;
        }
    }
    vs[0]
}

// a few times the largest deviation single precision shows on the reference tree
const BS_TOL: f64 = 6e-6;
const PUT_TOL: f64 = 3e-5;

fn main() {
    vh::main(
        Spec {
            id: "C36",
            rule: "one group per (model, implementation); batches of 0..=96 options with different generated spot, strike, maturity, rate and volatility; each price compared with an f64 evaluation of the model from that option's own parameters within 6e-6 (Black-Scholes) or 3e-5 (binomial) of spot plus strike, and the returned sum with the sum of the prices; non-trivial: at least two options",
            quick: 16000,
            thorough: 38400,
            labels: &["empty", "more than one vector"],
        },
        |g| {
            let ks: [(&str, K, fn([f64; 5]) -> f64, f64); 6] = [
                ("black_scholes/scalar", scalar::black_scholes, bs, BS_TOL),
                ("black_scholes/simd", simd::black_scholes, bs, BS_TOL),
                ("black_scholes/simd_par", simd_par::black_scholes, bs, BS_TOL),
                ("binomial_put/scalar", scalar::binomial_put, put, PUT_TOL),
                ("binomial_put/simd", simd::binomial_put, put, PUT_TOL),
                ("binomial_put/simd_par", simd_par::binomial_put, put, PUT_TOL),
            ];
            for (name, k, e, tol) in ks {
                g.add(name, move |s| {
                    let n = 8 * if s.chance(2, 3) { s.below(4) } else { s.below(13) } as usize;
                    let wide = s.bool();
                    let mut p: [Vec<f32>; 5] = Default::default();
                    for _ in 0..n {
                        for (i, (lo, hi)) in if wide { [(0.1, 20000.0), (0.1, 20000.0), (0.1, 9.0), (0.0, 0.4), (0.4, 6.0)] } else { [(10.0, 200.0), (10.0, 200.0), (0.1, 5.0), (0.0, 0.1), (0.1, 1.0)] }.into_iter().enumerate() {
                            let x = f(s, lo, hi);
                            p[i].push(x);
                        }
                    }
                    s.nontrivial = n >= 2;
                    if n == 0 { s.label(0) }
                    if n > 8 { s.label(1) }
                    s.note(|| format!("spot {:?} strike {:?} maturity {:?} rate {:?} volatility {:?}", p[0], p[1], p[2], p[3], p[4]));
                    let mut r = vec![f32::NAN; n];
                    let sum = k(&p[0], &p[1], &p[2], &p[3], &p[4], &mut r, n);
                    s.note(|| format!("-> {:?}", r));
                    // the first option that is not priced from the parameters of option `src(i)`
                    let wrong = |src: &dyn Fn(usize) -> usize| {
                        (0..n).find_map(|i| {
                            let o: [f64; 5] = std::array::from_fn(|j| p[j][src(i)] as f64);
                            let w = e(o);
                            if close(r[i] as f64, w, tol * (o[0] + o[1])) { None } else { Some((i, w)) }
                        })
                    };
                    let t: f64 = r.iter().map(|&x| x as f64).sum();
                    if !close(sum, t, 1e-9 * r.iter().map(|&x| x.abs() as f64).sum::<f64>()) {
                        fail!("the returned sum is {}, expected {}", sum, t);
                    }
                    match wrong(&|i| i) {
                        None => Res::Ok,
                        Some(_) if name.ends_with("simd_par") && wrong(&|i| i / 8 + i % 8).is_none() => {
                            Res::Known("chunk c of eight results is priced from the options starting at c instead of 8c")
                        }
                        Some((i, w)) => fail!("option {} is priced {}, expected {}", i, r[i], w),
                    }
                });
            }
        },
    );
}
