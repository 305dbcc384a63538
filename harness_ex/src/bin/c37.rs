//! C37: n-body integration.
use nbody_lib::simd::{advance, energy, offset_momentum, Body};
use packed_simd::f64x4;
use vh_ex::*;

#[derive(Clone, Debug)]
struct B {
    x: [f64; 3],
    v: [f64; 3],
    m: f64,
}
fn step(b: &mut [B], dt: f64) {
    for i in 0..5 {
        for j in i + 1..5 {
            let d: [f64; 3] = std::array::from_fn(|k| b[i].x[k] - b[j].x[k]);
            let d2: f64 = d.iter().map(|x| x * x).sum();
            let mag = dt / (d2 * d2.sqrt());
            for k in 0..3 {
                let (mi, mj) = (b[i].m, b[j].m);
                b[i].v[k] -= d[k] * mj * mag;
                b[j].v[k] += d[k] * mi * mag;
            }
        }
    }
    for q in b {
        for k in 0..3 {
            q.x[k] += dt * q.v[k];
        }
    }
}
fn en(b: &[B]) -> (f64, f64) {
    let (mut e, mut mag) = (0.0, 0.0);
    for i in 0..5 {
        let t = 0.5 * b[i].m * b[i].v.iter().map(|x| x * x).sum::<f64>();
        e += t;
        mag += t;
        for j in i + 1..5 {
            let d2: f64 = (0..3).map(|k| (b[i].x[k] - b[j].x[k]).powi(2)).sum();
            let u = b[i].m * b[j].m / d2.sqrt();
            e -= u;
            mag += u;
        }
    }
    (e, mag)
}
/// Units of length, mass, velocity and time in which the five bodies are of order one.
#[derive(Clone, Copy)]
struct Un {
    l: f64,
    m: f64,
    v: f64,
    t: f64,
}
/// Bodies at pairwise distance >= 0.7 units (one per cell of a jittered grid), so that rounding
/// stays small. With little jitter they line up with the axes; the units are scaled by powers of
/// ten, under which the motion is similar.
fn bodies(s: &mut Src) -> (Vec<B>, Un) {
    let (l, m) = if s.chance(1, 3) { (10f64.powi(s.range(-9, 9) as i32), 10f64.powi(s.range(-9, 9) as i32)) } else { (1.0, 1.0) };
    let u = Un { l, m, v: (m / l).sqrt(), t: (l * l * l / m).sqrt() };
    let jit = *s.pick(&[0.6f64, 0.6, 0.6, 0.1, 1e-3, 1e-5, 0.0]);
    let line = s.below(8);
    let mut cells: Vec<usize> = (0..27).collect();
    let b = (0..5)
        .map(|i| {
            let c = cells.remove(s.below(cells.len() as u64) as usize);
            let mut cell = [c % 3, c / 3 % 3, c / 9];
            if line < 3 {
                // all on one axis
                cell = [0; 3];
                cell[line as usize] = i;
            }
            let still = s.below(8) == 0;
            let light = if s.below(4) == 0 { 1e-6 } else { 1.0 };
            let b = B {
                x: std::array::from_fn(|k| u.l * (2.0 * cell[k] as f64 + uni(s, -jit, jit))),
                v: std::array::from_fn(|_| if still { 0.0 } else { u.v * uni(s, -3.0, 3.0) }),
                m: u.m * uni(s, 0.001, 40.0) * light,
            };
            for z in b.x.iter().chain(&b.v).chain([&b.m]) {
                s.feed(z.to_bits() as u128);
            }
            b
        })
        .collect();
    (b, u)
}
fn pack(b: &[B]) -> [Body; 5] {
    std::array::from_fn(|i| Body { x: f64x4::new(b[i].x[0], b[i].x[1], b[i].x[2], 0.), v: f64x4::new(b[i].v[0], b[i].v[1], b[i].v[2], 0.), mass: b[i].m })
}

fn main() {
    vh::main(
        Spec {
            id: "C37",
            rule: "generated states of five bodies (one per cell of a jittered grid, so no near-collision; also nearly or exactly in line with the axes, at rest, very light, in units from 1e-9 to 1e9), masses and time steps (also zero and negative): one to four SIMD steps against an independent scalar integrator, energies, momentum conservation and the momentum offset; and the built-in system for generated numbers of steps, SIMD against scalar; non-trivial: at least one step",
            quick: 300000,
            thorough: 4000000,
            labels: &["several steps"],
        },
        |g| {
            g.add("advance", |s| {
                let (mut b, u) = bodies(s);
                let dt = u.t * match s.below(8) {
                    0 => 0.0,
                    1 => -uni(s, 1e-4, 0.01),
                    _ => uni(s, 1e-4, 0.01),
                };
                let n = 1 + s.below(4);
                s.nontrivial = true;
                if n > 1 { s.label(0) }
                s.note(|| format!("{} steps of {} from {:?}", n, dt, b));
                let mut p = pack(&b);
                let mom = |p: &[Body; 5]| -> [f64; 3] { std::array::from_fn(|k| p.iter().map(|q| q.v.extract(k) * q.mass).sum()) };
                let m0 = mom(&p);
                for _ in 0..n {
                    advance(&mut p, dt);
                    step(&mut b, dt);
                }
                for i in 0..5 {
                    for k in 0..3 {
                        // a step changes v by at most a few hundred * dt (in the units of the state)
                        for (w, got, e, un) in [("position", p[i].x.extract(k), b[i].x[k], u.l), ("velocity", p[i].v.extract(k), b[i].v[k], u.v)] {
                            if !close(got, e, 1e-8 * (un + e.abs())) {
                                fail!("{} {} of body {} is {}, expected {}", w, k, i, got, e);
                            }
                        }
                    }
                    if p[i].x.extract(3) != 0.0 || p[i].v.extract(3) != 0.0 {
                        fail!("the padding lane of body {} became non-zero", i);
                    }
                }
                let m1 = mom(&p);
                for k in 0..3 {
                    if !close(m0[k], m1[k], 1e-9 * 2000.0 * u.m * u.v) {
                        fail!("momentum {} went from {} to {}", k, m0[k], m1[k]);
                    }
                }
                Res::Ok
            });
            g.add("energy", |s| {
                let (b, _) = bodies(s);
                s.nontrivial = true;
                s.note(|| format!("{:?}", b));
                let got = energy(&pack(&b));
                let (e, mag) = en(&b);
                if !close(got, e, 1e-10 * mag) {
                    fail!("the energy is {}, expected {}", got, e);
                }
                Res::Ok
            });
            g.add("offset_momentum", |s| {
                let (mut b, u) = bodies(s);
                // the sun is at rest and has the solar mass
                b[0].m = 4.0 * std::f64::consts::PI * std::f64::consts::PI;
                b[0].v = [0.0; 3];
                s.nontrivial = true;
                s.note(|| format!("{:?}", b));
                let mut p = pack(&b);
                offset_momentum(&mut p);
                for k in 0..3 {
                    let t: f64 = p.iter().map(|q| q.v.extract(k) * q.mass).sum();
                    if !close(t, 0.0, 1e-9 * u.m * u.v) {
                        fail!("total momentum {} is {} after the offset", k, t);
                    }
                }
                for i in 1..5 {
                    for k in 0..3 {
                        if p[i].v.extract(k) != b[i].v[k] || p[i].x.extract(k) != b[i].x[k] {
                            fail!("body {} moved", i);
                        }
                    }
                }
                Res::Ok
            });
            g.addn("run", 0.02, |s| {
                let top = if s.chance(1, 8) { 2000 } else { 200 };
                let n = s.below(top) as usize;
                s.feed(n as u128);
                s.nontrivial = n > 0;
                let (a, b) = (nbody_lib::run(n, 1), nbody_lib::run(n, 0));
                s.note(|| format!("{} steps -> {:?}, scalar {:?}", n, a, b));
                if !close(a.0, b.0, 1e-12) || !close(a.1, b.1, 1e-8) {
                    fail!("energies {:?}, the scalar run's {:?}", a, b);
                }
                Res::Ok
            });
        },
    );
}
