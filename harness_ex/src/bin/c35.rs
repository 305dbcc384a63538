//! C35: the stencil kernels.
use vh_ex::*;

type K = fn(i32, i32, i32, i32, i32, i32, i32, i32, i32, i32, i32, &[f32; 4], &[f32], &mut [f32], &mut [f32]);

fn main() {
    vh::main(
        Spec {
            id: "C35",
            rule: "one group per kernel (scalar, SIMD, SIMD with threads); generated non-cubic grids, boxes (x extent 0, 8, 16 or 24; halo 4 or more), time ranges that start at an even or odd step, coefficients and fields (dense, sparse, a single impulse; scaled by 1e-12 to 1e6); each cell compared with an independent f64 evaluation of the recurrence within 5e-7 of the magnitudes added up, cells outside the box bit-exactly with the input; non-trivial: the box is not empty and at least one step is made",
            quick: 20000,
            thorough: 56000,
            labels: &["odd start", "several steps"],
        },
        |g| {
            for (name, k) in [("scalar", stencil_lib::scalar::scalar as K), ("simd", stencil_lib::simd::x8), ("simd_par", stencil_lib::simd_par::x8_par)] {
                g.add(name, move |s| {
                    let e = s.below(8) as i32; // 0: x, y, z or time may be empty
                    let bx = 8 * s.range((e > 0) as i64, 3) as i32;
                    let (by, bz) = (s.range((e > 0) as i64, 5) as i32, s.range((e > 0) as i64, 4) as i32);
                    let (x0, y0, z0) = (4 + s.below(4) as i32, 4 + s.below(3) as i32, 4 + s.below(3) as i32);
                    let (nx, ny, nz) = (x0 + bx + 4 + s.below(3) as i32, y0 + by + 4 + s.below(3) as i32, z0 + bz + 4 + s.below(3) as i32);
                    let t0 = s.below(2) as i32;
                    let t1 = t0 + s.range((e > 0) as i64, 3) as i32;
                    let coef: [f32; 4] = std::array::from_fn(|_| if s.below(8) == 0 { *s.pick(&[0.0f32, 1.0, -1.0, 2.0]) } else { f(s, -1.0, 1.0) });
                    let n = (nx * ny * nz) as usize;
                    // fields from one generated seed: a linear congruential walk
                    let mut z = s.u64();
                    s.feed(z as u128);
                    let scale = *s.pick(&[1.0f32, 1.0, 1e-6, 1e6, 1e-12]);
                    // dense fields, sparse ones, or a single impulse
                    let dens = s.below(4);
                    let mut field = |scale: f32, dens: u64| {
                        let mut v: Vec<f32> = (0..n)
                            .map(|_| {
                                z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                                let x = ((z >> 40) as f32 / 16777216.0 - 0.5) * scale;
                                if dens == 2 && z >> 20 & 7 != 0 || dens == 3 { 0.0 } else { x }
                            })
                            .collect();
                        if dens == 3 {
                            v[z as usize % n] = scale;
                        }
                        v
                    };
                    let vd = if s.below(4) == 0 { 2 } else { 0 };
                    let (vsq, even, odd) = (field(1.0, vd), field(scale, dens), field(scale, dens));
                    s.nontrivial = bx > 0 && by > 0 && bz > 0 && t1 > t0;
                    if t0 == 1 { s.label(0) }
                    if t1 - t0 > 1 { s.label(1) }
                    s.note(|| format!("grid {}x{}x{}, box x {}..{} y {}..{} z {}..{}, t {}..{}, coefficients {:?}", nx, ny, nz, x0, x0 + bx, y0, y0 + by, z0, z0 + bz, t0, t1, coef));
                    let (mut a, mut b) = (even.clone(), odd.clone());
                    k(t0, t1, x0, x0 + bx, y0, y0 + by, z0, z0 + bz, nx, ny, nz, &coef, &vsq, &mut a, &mut b);
                    let w = |v: &[f32]| v.iter().map(|&x| x as f64).collect::<Vec<f64>>();
                    let (mut ea, mut eb) = (w(&even), w(&odd));
                    // magnitudes of everything added up, for the rounding bound
                    let (mut ma, mut mb) = (ea.iter().map(|x| x.abs()).collect::<Vec<f64>>(), eb.iter().map(|x| x.abs()).collect::<Vec<f64>>());
                    for t in t0..t1 {
                        let (src, dst, msrc, mdst) = if t % 2 == 0 { (&ea, &mut eb, &ma, &mut mb) } else { (&eb, &mut ea, &mb, &mut ma) };
                        for zz in z0..z0 + bz {
                            for y in y0..y0 + by {
                                for x in x0..x0 + bx {
                                    let at = |dx: i32, dy: i32, dz: i32| src[((zz + dz) * nx * ny + (y + dy) * nx + x + dx) as usize];
                                    let mt = |dx: i32, dy: i32, dz: i32| msrc[((zz + dz) * nx * ny + (y + dy) * nx + x + dx) as usize];
                                    let mut d = coef[0] as f64 * at(0, 0, 0);
                                    let mut md = coef[0].abs() as f64 * mt(0, 0, 0);
                                    for i in 1..4 {
                                        md += coef[i as usize].abs() as f64 * (mt(i, 0, 0) + mt(-i, 0, 0) + mt(0, i, 0) + mt(0, -i, 0) + mt(0, 0, i) + mt(0, 0, -i));
                                        d += coef[i as usize] as f64 * (at(i, 0, 0) + at(-i, 0, 0) + at(0, i, 0) + at(0, -i, 0) + at(0, 0, i) + at(0, 0, -i));
                                    }
                                    let o = (zz * nx * ny + y * nx + x) as usize;
                                    mdst[o] += 2.0 * mt(0, 0, 0) + vsq[o].abs() as f64 * md;
                                    dst[o] = 2.0 * at(0, 0, 0) - dst[o] + vsq[o] as f64 * d;
                                }
                            }
                        }
                    }
                    for (nm, got, e, orig, mag) in [("even", &a, &ea, &even, &ma), ("odd", &b, &eb, &odd, &mb)] {
                        for i in 0..n {
                            let (x, y, zz) = (i as i32 % nx, i as i32 / nx % ny, i as i32 / nx / ny);
                            let inside = x >= x0 && x < x0 + bx && y >= y0 && y < y0 + by && zz >= z0 && zz < z0 + bz;
                            if !inside && got[i].to_bits() != orig[i].to_bits() {
                                fail!("cell ({}, {}, {}) of the {} field lies outside the box and changed from {} to {}", x, y, zz, nm, orig[i], got[i]);
                            }
                            if !close(got[i] as f64, e[i], 5e-7 * mag[i]) {
                                fail!("cell ({}, {}, {}) of the {} field is {}, expected {}", x, y, zz, nm, got[i], e[i]);
                            }
                        }
                    }
                    Res::Ok
                });
            }
        },
    );
}
