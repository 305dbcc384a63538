//! C38: the ambient-occlusion renderer, packets against single rays.
use aobench_lib::geometry::{f32xN, m32xN, Plane, Ray, RayxN, Sphere, V3DxN, V3D};
use aobench_lib::intersection::{Intersect, Isect, IsectxN};
use aobench_lib::scene::Scene;
use aobench_lib::{ambient_occlusion, Image};
use vh_ex::*;

const N: usize = f32xN::lanes();
fn v3(s: &mut Src, r: f64) -> V3D {
    V3D { x: f(s, -r, r), y: f(s, -r, r), z: f(s, -r, r) }
}
fn unit(s: &mut Src) -> V3D {
    let t = uni(s, 0.0, 6.2831853);
    let z = if s.chance(1, 8) { *s.pick(&[0.0f64, 1.0, -1.0]) } else { uni(s, -1.0, 1.0) };
    let r = (1.0 - z * z).max(0.0).sqrt();
    let (a, b) = (r * t.cos(), r * t.sin());
    let v = match s.below(3) {
        0 => [a, b, z],
        1 => [z, a, b],
        _ => [b, z, a],
    };
    for x in v {
        s.feed(x.to_bits() as u128);
    }
    V3D { x: v[0] as f32, y: v[1] as f32, z: v[2] as f32 }
}
fn packv(v: &[V3D]) -> V3DxN {
    let mut r = V3DxN::default();
    for (i, p) in v.iter().enumerate() {
        r.x = r.x.replace(i, p.x);
        r.y = r.y.replace(i, p.y);
        r.z = r.z.replace(i, p.z);
    }
    r
}
fn packi(v: &[Isect]) -> IsectxN {
    let mut r = IsectxN { p: packv(&v.iter().map(|i| i.p).collect::<Vec<_>>()), n: packv(&v.iter().map(|i| i.n).collect::<Vec<_>>()), ..IsectxN::default() };
    for (i, p) in v.iter().enumerate() {
        r.t = r.t.replace(i, p.t);
        r.hit = r.hit.replace(i, p.hit);
    }
    r
}
fn d(v: V3D) -> [f64; 3] {
    [v.x as f64, v.y as f64, v.z as f64]
}
fn dot(a: [f64; 3], b: [f64; 3]) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn vclose(a: V3D, b: [f64; 3], tol: f64) -> bool {
    close(a.x as f64, b[0], tol) && close(a.y as f64, b[1], tol) && close(a.z as f64, b[2], tol)
}
/// The hit in f64, or `None` when the ray grazes (the answer depends on rounding), `Some(None)` for a clear miss.
type Hit = Option<Option<(f64, [f64; 3], [f64; 3])>>;
fn near(t: f64, old: f64) -> bool {
    (t - old).abs() < 2e-3 * (1.0 + t.abs()) || t.abs() < 2e-3
}
fn hit_sphere(r: &Ray, s: &Sphere, old: f64) -> Hit {
    let (o, dir, c) = (d(r.origin), d(r.dir), d(s.center));
    let rs = [o[0] - c[0], o[1] - c[1], o[2] - c[2]];
    let b = dot(rs, dir);
    let cc = dot(rs, rs) - (s.radius as f64) * (s.radius as f64);
    let disc = b * b - cc;
    if disc.abs() < 0.05 {
        return None;
    }
    if disc < 0.0 {
        return Some(None);
    }
    let t = -b - disc.sqrt();
    if near(t, old) {
        return None;
    }
    if !(t > 0.0 && t < old) {
        return Some(None);
    }
    let p = [o[0] + t * dir[0], o[1] + t * dir[1], o[2] + t * dir[2]];
    let q = [p[0] - c[0], p[1] - c[1], p[2] - c[2]];
    let l = dot(q, q).sqrt();
    Some(Some((t, p, [q[0] / l, q[1] / l, q[2] / l])))
}
fn hit_plane(r: &Ray, s: &Plane, old: f64) -> Hit {
    let (o, dir, n) = (d(r.origin), d(r.dir), d(s.n));
    let v = dot(dir, n);
    if v.abs() < 0.02 {
        return if v == 0.0 && (dir == [0.0; 3]) { Some(None) } else { None };
    }
    let t = -(dot(o, n) - dot(d(s.p), n)) / v;
    if near(t, old) {
        return None;
    }
    if !(t > 0.0 && t < old) {
        return Some(None);
    }
    Some(Some((t, [o[0] + t * dir[0], o[1] + t * dir[1], o[2] + t * dir[2]], n)))
}
fn rays(s: &mut Src, aim: V3D, spread: f64) -> Vec<Ray> {
    fn ray(s: &mut Src, aim: V3D, spread: f64, aimed: bool) -> Ray {
        let origin = if s.chance(1, 3) { V3D::default() } else { v3(s, 4.0) };
        if aimed {
            let t = v3(s, spread);
            let q = V3D { x: aim.x + t.x - origin.x, y: aim.y + t.y - origin.y, z: aim.z + t.z - origin.z };
            let l = dot(d(q), d(q)).sqrt() as f32;
            if l > 0.1 {
                return Ray { origin, dir: V3D { x: q.x / l, y: q.y / l, z: q.z / l } };
            }
        }
        Ray { origin, dir: unit(s) }
    }
    match s.below(4) {
        // half of the rays are aimed near the target
        0 | 1 => (0..N).map(|_| { let h = s.bool(); ray(s, aim, spread, h) }).collect(),
        // a coherent packet: one origin, directions close to each other, or all the same but one
        2 => {
            let h = s.bool();
            let r = ray(s, aim, spread, h);
            let one = s.below(2 * N as u64) as usize;
            (0..N).map(|i| if i == one { let h = s.bool(); ray(s, aim, spread, h) } else { r }).collect()
        }
        // exactly one ray aimed at the centre, the others turned away from the target (or the reverse)
        _ => {
            let (one, rev) = (s.below(N as u64 + 1) as usize, s.bool());
            (0..N)
                .map(|i| {
                    let mut r = ray(s, aim, 0.2 * spread, true);
                    if (i == one) == rev {
                        r.dir = V3D { x: -r.dir.x, y: -r.dir.y, z: -r.dir.z };
                    }
                    r
                })
                .collect()
        }
    }
}
fn olds(s: &mut Src) -> Vec<Isect> {
    (0..N)
        .map(|_| {
            if s.bool() {
                Isect::default()
            } else {
                Isect { t: f(s, 0.01, 12.0), p: v3(s, 5.0), n: unit(s), hit: s.chance(3, 4) }
            }
        })
        .collect()
}
fn compare(what: &str, i: usize, got: Isect, old: &Isect, e: &Hit) -> Result<(), String> {
    match e {
        None => Ok(()),
        Some(None) => {
            if got.t.to_bits() != old.t.to_bits() || got.hit != old.hit || got.p != old.p || got.n != old.n {
                return Err(format!("{} lane {} misses, but the record changed from {:?} to {:?}", what, i, old, got));
            }
            Ok(())
        }
        Some(Some((t, p, n))) => {
            if !got.hit || !close(got.t as f64, *t, 2e-3 * (1.0 + t)) || !vclose(got.p, *p, 2e-3 * (1.0 + t)) || !vclose(got.n, *n, 2e-2) {
                return Err(format!("{} lane {} is {:?}, expected a hit at t {} point {:?} normal {:?}", what, i, got, t, p, n));
            }
            Ok(())
        }
    }
}

/// A scene with generated spheres and a fixed list of sample pairs.
#[derive(Clone)]
struct Sc<const S: usize> {
    plane: Plane,
    spheres: Vec<Sphere>,
    r: Vec<f32>,
    k: usize,
}
impl<const S: usize> Default for Sc<S> {
    fn default() -> Self {
        Sc { plane: Plane { p: V3D::default(), n: V3D { x: 0., y: 1., z: 0. } }, spheres: vec![], r: vec![0.5], k: 0 }
    }
}
impl<const S: usize> Scene for Sc<S> {
    const NAO_SAMPLES: usize = S;
    fn rand(&mut self) -> f32 {
        self.k += 1;
        self.r[(self.k - 1) % self.r.len()]
    }
    fn plane(&self) -> &Plane {
        &self.plane
    }
    fn spheres(&self) -> &[Sphere] {
        &self.spheres
    }
}
fn scene<const S: usize>(s: &mut Src) -> Sc<S> {
    let spheres = (0..s.below(4)).map(|_| Sphere { center: V3D { x: f(s, -2.5, 2.5), y: f(s, -0.3, 1.0), z: f(s, -5.0, -2.0) }, radius: f(s, 0.2, 0.8) }).collect();
    let mut z = s.u64();
    let r = (0..2 * S * S).map(|_| { z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (z >> 41) as f32 / 8388608.0 }).collect();
    Sc { plane: Plane { p: V3D { x: 0., y: f(s, -1.5, -0.4), z: 0. }, n: V3D { x: 0., y: 1., z: 0. } }, spheres, r, k: 0 }
}
fn first(sc: &impl Scene, ray: &Ray) -> Isect {
    let mut i = Isect::default();
    for q in sc.spheres() {
        i = ray.intersect(q, i);
    }
    ray.intersect(sc.plane(), i)
}

fn main() {
    vh::main(
        Spec {
            id: "C38",
            rule: "ray packets with a different generated ray and previous record per lane (independent, coherent packets, all or all but one turned away) against f64 intersections with generated spheres and planes (rays within a margin of grazing, or of the previous record's distance, are not judged); orthonormal bases of generated unit normals; the vector generator against an independent LFSR113 per lane; ambient occlusion of generated scenes from one fixed list of sample directions, scalar against packets (a few border samples may differ); small images of the vector and tiled renderers against the scalar one within sampling noise; non-trivial: a judged lane, resp. a pixel that hits the scene",
            quick: 30000,
            thorough: 300000,
            labels: &["hit", "clear miss", "grazing", "previous record"],
        },
        |g| {
            g.add("sphere", |s| {
                let sp = Sphere { center: v3(s, 4.0), radius: f(s, 0.2, 2.5) };
                let (rs, old) = (rays(s, sp.center, 1.6 * sp.radius as f64), olds(s));
                s.note(|| format!("{:?} {:?} {:?}", sp, rs, old));
                let pr = RayxN { origin: packv(&rs.iter().map(|r| r.origin).collect::<Vec<_>>()), dir: packv(&rs.iter().map(|r| r.dir).collect::<Vec<_>>()) };
                let got = pr.intersect(&sp, packi(&old));
                for i in 0..N {
                    let e = hit_sphere(&rs[i], &sp, old[i].t as f64);
                    s.label(match e { None => 2, Some(None) => 1, _ => 0 });
                    if old[i].hit { s.label(3) }
                    s.nontrivial |= e.is_some();
                    for (w, x) in [("packet", got.get(i)), ("single", rs[i].intersect(&sp, old[i]))] {
                        if let Err(m) = compare(w, i, x, &old[i], &e) {
                            return Res::Fail(m);
                        }
                    }
                }
                Res::Ok
            });
            g.add("plane", |s| {
                let pl = Plane { p: v3(s, 4.0), n: unit(s) };
                let (rs, old) = (rays(s, pl.p, 3.0), olds(s));
                s.note(|| format!("{:?} {:?} {:?}", pl, rs, old));
                let pr = RayxN { origin: packv(&rs.iter().map(|r| r.origin).collect::<Vec<_>>()), dir: packv(&rs.iter().map(|r| r.dir).collect::<Vec<_>>()) };
                let got = pr.intersect(&pl, packi(&old));
                for i in 0..N {
                    let e = hit_plane(&rs[i], &pl, old[i].t as f64);
                    // far hits amplify rounding: not judged
                    let e = match e { Some(Some((t, ..))) if t > 200.0 => None, e => e };
                    s.label(match e { None => 2, Some(None) => 1, _ => 0 });
                    if old[i].hit { s.label(3) }
                    s.nontrivial |= e.is_some();
                    for (w, x) in [("packet", got.get(i)), ("single", rs[i].intersect(&pl, old[i]))] {
                        if let Err(m) = compare(w, i, x, &old[i], &e) {
                            return Res::Fail(m);
                        }
                    }
                }
                Res::Ok
            });
            g.add("ortho_basis", |s| {
                let n: Vec<V3D> = (0..N).map(|_| unit(s)).collect();
                s.nontrivial = true;
                s.note(|| format!("{:?}", n));
                let b = packv(&n).ortho_basis();
                for i in 0..N {
                    let sb = n[i].ortho_basis();
                    for k in 0..3 {
                        // near a selection border a rounded coordinate cannot differ: both compare the same f32
                        if !vclose(b[k].get(i), d(sb[k]), 1e-2) {
                            fail!("lane {} axis {} is {:?}, scalar {:?}", i, k, b[k].get(i), sb[k]);
                        }
                        for l in 0..3 {
                            let e = if k == l { 1.0 } else { 0.0 };
                            let x = dot(d(b[k].get(i)), d(b[l].get(i)));
                            if !close(x, e, 2e-2) {
                                fail!("lane {} axes {} and {} have dot product {}", i, k, l, x);
                            }
                        }
                    }
                }
                Res::Ok
            });
            g.addn("random", 0.02, |s| {
                let n = 1 + s.below(2000) as usize;
                s.feed(n as u128);
                s.nontrivial = true;
                s.note(|| format!("{} draws on a fresh thread", n));
                // generators are thread-local: a fresh thread starts at the fixed seeds
                let (vs, ss) = std::thread::spawn(move || {
                    let (mut v, mut q) = (aobench_lib::random::vector::thread_rng(), aobench_lib::random::scalar::thread_rng());
                    ((0..n).map(|_| v.gen()).collect::<Vec<_>>(), (0..n).map(|_| q.gen()).collect::<Vec<f32>>())
                })
                .join()
                .unwrap();
                let stream = |seed: u32| {
                    let mut z = [seed, seed ^ 0xbeef_f00d, seed.rotate_left(16), seed.swap_bytes()];
                    move || {
                        z[0] = (z[0] & 0xffff_fffe) << 18 ^ (z[0] << 6 ^ z[0]) >> 13;
                        z[1] = (z[1] & 0xffff_fff8) << 2 ^ (z[1] << 2 ^ z[1]) >> 27;
                        z[2] = (z[2] & 0xffff_fff0) << 7 ^ (z[2] << 13 ^ z[2]) >> 21;
                        z[3] = (z[3] & 0xffff_ff80) << 13 ^ (z[3] << 3 ^ z[3]) >> 12;
                        let v = z[0] ^ z[1] ^ z[2] ^ z[3];
                        (v & 0x7f_ffff) as f32 / 8388608.0
                    }
                };
                for i in 0..N {
                    let mut r = stream(i as u32);
                    for k in 0..n {
                        let e = r();
                        if vs[k].extract(i) != e {
                            fail!("draw {} of lane {} is {}, expected {}", k, i, vs[k].extract(i), e);
                        }
                    }
                }
                let mut r = stream(1);
                for k in 0..n {
                    let e = r();
                    if ss[k] != e {
                        fail!("scalar draw {} is {}, expected {}", k, ss[k], e);
                    }
                }
                Res::Ok
            });
            g.addn("ambient_occlusion", 0.5, |s| {
                let sc = scene::<8>(s);
                let dir = { let a = f(s, -1.0, 1.0); let b = f(s, -1.0, 0.4); let l = (a * a + b * b + 1.0).sqrt(); V3D { x: a / l, y: b / l, z: -1.0 / l } };
                let is = first(&sc, &Ray { origin: V3D::default(), dir });
                s.nontrivial = is.hit;
                s.note(|| format!("{:?} {:?} seen along {:?}: {:?}", sc.spheres, sc.plane, dir, is));
                if !is.hit || is.t > 50.0 {
                    return Res::Ok;
                }
                s.label(0);
                let a = ambient_occlusion::scalar(&mut sc.clone(), &is);
                let b = ambient_occlusion::vector(&mut sc.clone(), &is);
                // the same 64 directions; a direction at the border of an occluder may fall on either side
                if !close(a as f64, b as f64, 3.5 / 64.0) {
                    fail!("occlusion {} by packets, {} by single rays", b, a);
                }
                let all = packi(&[is; N]);
                let c = ambient_occlusion::vector_tiled(&mut sc.clone(), &all);
                let mean: f32 = (0..N).map(|i| c.extract(i)).sum::<f32>() / N as f32;
                // every lane sees every N-th direction, repeated: the mean is over the same directions
                if !close(a as f64, mean as f64, 3.5 / 64.0) {
                    fail!("mean tiled occlusion {}, {} by single rays", mean, a);
                }
                Res::Ok
            });
            g.addn("images", 0.004, |s| {
                let (w, h) = (N * (1 + s.below(3)) as usize, 1 + s.below(12) as usize);
                let ns = 1 + s.below(2) as usize;
                let sc = scene::<8>(s);
                s.note(|| format!("{} x {}, {} subsamples, {:?} {:?}", w, h, ns, sc.spheres, sc.plane));
                let mut im: Vec<Image> = (0..3).map(|_| Image::new(w, h)).collect();
                aobench_lib::scalar::ao(&mut sc.clone(), ns, &mut im[0]);
                aobench_lib::vector::ao(&mut sc.clone(), ns, &mut im[1]);
                aobench_lib::tiled::ao(&mut sc.clone(), ns, &mut im[2]);
                let mut lit = 0;
                for k in 1..3 {
                    let name = ["scalar", "vector", "tiled"][k];
                    let mut far = 0;
                    for p in 0..w * h {
                        let e = im[0].fdata[3 * p];
                        let q = &im[k].fdata[3 * p..3 * p + 3];
                        if q[0] != q[1] || q[1] != q[2] || !(q[0] > -1e-5 && q[0] < 1.0 + 1e-5) {
                            fail!("pixel {} of the {} image is {:?}", p, name, q);
                        }
                        lit += (e > 0.0) as usize;
                        if (q[0] - e).abs() > 0.45 {
                            far += 1;
                        }
                    }
                    // pixels on the silhouette may hit in one and miss in the other
                    if far > 2 + w * h / 12 {
                        fail!("{} of {} pixels of the {} image differ from the scalar image by more than sampling noise", far, w * h, name);
                    }
                    let mean = |i: &Image| i.fdata.iter().map(|&x| x as f64).sum::<f64>() / (i.fdata.len() as f64);
                    if !close(mean(&im[0]), mean(&im[k]), 0.12) {
                        fail!("mean brightness {} of the {} image, {} of the scalar image", mean(&im[k]), name, mean(&im[0]));
                    }
                }
                s.nontrivial = lit > 0;
                Res::Ok
            });
            let _ = m32xN::splat(true);
        },
    );
}
