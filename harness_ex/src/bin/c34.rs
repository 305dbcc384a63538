//! C34: Mandelbrot images.
use mandelbrot_lib::{Algorithm, Mandelbrot};
use vh_ex::*;

fn count(cx: f64, cy: f64) -> u32 {
    let (mut x, mut y) = (cx, cy);
    for i in 0..50 {
        if x * x + y * y > 4.0 {
            return i;
        }
        let (xx, yy, xy) = (x * x, y * y, x * y);
        x = cx + (xx - yy);
        y = cy + (xy + xy);
    }
    50
}
fn colour(v: u32) -> [u8; 3] {
    const C: [(f32, f32, f32); 5] = [(0., 7., 100.), (32., 107., 203.), (237., 255., 255.), (255., 170., 0.), (0., 2., 0.)];
    if v == 50 {
        return [0, 0, 0];
    }
    let v = (v % 12) * 5 / 12;
    let (l, r) = ((v % 5) as usize, ((v % 5 + 1) % 5) as usize);
    let a = (v - v % 5) as f32;
    [(C[l].0 + (C[r].0 - C[l].0) * a) as u8, (C[l].1 + (C[r].1 - C[l].1) * a) as u8, (C[l].2 + (C[r].2 - C[l].2) * a) as u8]
}

fn main() {
    vh::main(
        Spec {
            id: "C34",
            rule: "one group per (algorithm, writer); generated image sizes (width 8..=64, height 1..=24) and finite regions (zooms from 1e-9 to 1e200, centres near the set's boundary or anywhere in a box of 6, dyadic grids with exact and threshold orbits, reversed ranges); the written file must be the header and one bit resp. three bytes per pixel of independently iterated orbits in f64; non-trivial: the image contains both escaping and non-escaping points, or at least three different counts",
            quick: 8000,
            thorough: 40000,
            labels: &["mixed", "reversed range", "dyadic grid"],
        },
        |g| {
            for (an, alg) in [("simd", Algorithm::Simd), ("scalar", Algorithm::Scalar)] {
                for ppm in [false, true] {
                    g.add(format!("{}/{}", an, if ppm { "ppm" } else { "pbm" }), move |s| {
                        let (w, h) = (8 * s.range(1, 8) as usize, s.range(1, 24) as usize);
                        let zoom = *s.pick(&[2.0f64, 8.0, 0.5, 0.1, 1e-2, 1e-4, 1e-9, 2.0, 0.5, 1e3, 1e200]);
                        let (cx, cy) = if s.chance(1, 3) {
                            (uni(s, -3.0, 3.0), uni(s, -3.0, 3.0))
                        } else {
                            let t = uni(s, 0.0, 6.283185307179586);
                            // on the main cardioid, or the boundary of the period-2 disc
                            if s.bool() {
                                (0.5 * t.cos() - 0.25 * (2.0 * t).cos(), 0.5 * t.sin() - 0.25 * (2.0 * t).sin())
                            } else {
                                (-1.0 + 0.25 * t.cos(), 0.25 * t.sin())
                            }
                        };
                        let (mut xr, mut yr) = (cx - zoom..cx + zoom, cy - zoom * uni(s, 0.1, 1.0)..cy + zoom);
                        if s.chance(1, 3) {
                            // a dyadic grid: many orbits are exact, and some lie exactly on the
                            // threshold (c = -2, 2i, ...) or are eventually periodic
                            let k = 2f64.powi(s.range(0, 6) as i32);
                            let (a, b) = (s.range(-16, 8) as f64 / 8.0, s.range(-16, 16) as f64 / 8.0);
                            let (a, b) = if s.bool() { (a, b) } else { (-2.0 - s.range(0, 8) as f64 / k, -(s.range(0, 8) as f64) / k) };
                            xr = a..a + w as f64 / k;
                            yr = b..b + h as f64 / k;
                            s.label(2);
                        }
                        if s.chance(1, 6) {
                            s.label(1);
                            xr = xr.end..xr.start;
                        }
                        if s.chance(1, 6) {
                            s.label(1);
                            yr = yr.end..yr.start;
                        }
                        for x in [xr.start, xr.end, yr.start, yr.end] {
                            s.feed(x.to_bits() as u128);
                        }
                        s.feed((w * 100 + h) as u128);
                        s.note(|| format!("{} x {} of {:?} x {:?}", w, h, xr, yr));
                        let (dx, dy) = ((xr.end - xr.start) / w as f64, (yr.end - yr.start) / h as f64);
                        let counts: Vec<u32> = (0..h)
                            .flat_map(|i| (0..w).map(move |j| (i, j)))
                            .map(|(i, j)| count(xr.start + dx * j as f64, yr.start + dy * i as f64))
                            .collect();
                        let inside = counts.iter().filter(|&&c| c == 50).count();
                        if inside > 0 && inside < counts.len() {
                            s.label(0);
                        }
                        let mut d = counts.clone();
                        d.sort();
                        d.dedup();
                        s.nontrivial = inside > 0 && inside < counts.len() || d.len() >= 3;
                        let m = Mandelbrot::generate_region((w, h), (xr.clone(), yr.clone()), alg);
                        let mut out = Vec::new();
                        let mut e;
                        if ppm {
                            m.output_ppm(&mut out).unwrap();
                            e = format!("P6\n{} {} 255\n", w, h).into_bytes();
                            e.extend(counts.iter().flat_map(|&c| colour(c)));
                        } else {
                            m.output_pbm(&mut out).unwrap();
                            e = format!("P4\n{} {}\n", w, h).into_bytes();
                            e.extend(counts.chunks(8).map(|c| c.iter().fold(0u8, |a, &x| a << 1 | (x == 50) as u8)));
                        }
                        if out != e {
                            let k = out.iter().zip(&e).position(|(a, b)| a != b).unwrap_or(out.len().min(e.len()));
                            fail!("byte {} of the output is {:?}, expected {:?} ({} and {} bytes in all)", k, out.get(k), e.get(k), out.len(), e.len());
                        }
                        Res::Ok
                    });
                }
            }
        },
    );
}
