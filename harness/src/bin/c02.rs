//! C02: array and slice conversions.
use packed_simd::*;
use vh::mem::PAGE;
use vh::*;

fn id(_: &Ty, a: [u128; 3]) -> u128 {
    a[0]
}
/// (slice address, length, out)
type R = fn(*const u8, usize, *mut u8);
/// (vector, slice address, length)
type W = fn(*const u8, *mut u8, usize);

#[derive(Clone, Copy)]
struct Sl {
    ty: Ty,
    align: usize,
    ra: R,
    ru: R,
    rau: R,
    ruu: R,
    wa: W,
    wu: W,
    wau: W,
    wuu: W,
}
#[derive(Clone, Copy, PartialEq)]
enum Want {
    Ok,
    Short,
    Misaligned,
}

/// Picks a place (byte offset, length) in the guarded page.
fn place(s: &mut Src, t: &Sl, aligned: bool, checked: bool) -> (usize, usize, Want) {
    let es = t.ty.w as usize / 8;
    let n = t.ty.n;
    let cap = PAGE / es;
    let mut want = Want::Ok;
    let short = checked && s.chance(1, 6);
    let len = if short {
        want = Want::Short;
        s.below(n as u64) as usize
    } else {
        let most = if s.chance(1, 8) { cap - n } else { (cap - n).min(3 * n + 9) };
        n + if s.bool() { 0 } else { s.below(most as u64) as usize }
    };
    let al = t.align / es.min(t.align); // alignment in elements
    let mut off = if s.bool() {
        cap - len // the slice ends at the guard page
    } else if s.bool() {
        0
    } else {
        s.below((cap - len + 1) as u64) as usize
    };
    if aligned && al > 1 {
        if checked && !short && s.chance(1, 5) {
            if off % al == 0 {
                if off > 0 {
                    off -= 1 + s.below(al as u64 - 1) as usize;
                } else {
                    off = 1 + s.below(al as u64 - 1) as usize;
                }
            }
            want = Want::Misaligned;
        } else if !short {
            off -= off % al;
        }
    }
    if (off + len) * es > PAGE {
        off = 0;
        if want == Want::Misaligned {
            want = Want::Ok;
        }
    }
    (off * es, len, want)
}
fn fill(s: &mut Src, p: &mut [u8]) {
    // cheap pseudo-random content derived from one recorded choice
    let mut x = s.u64() | 1;
    for c in p.chunks_mut(8) {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        let n = c.len();
        c.copy_from_slice(&x.to_le_bytes()[..n]);
    }
}
/// Slices much longer than the vector (lengths around powers of two up to 2^33 bytes).
fn long(g: &mut Groups, t: Sl) {
    let ty = t.ty;
    g.add(format!("{}/long-slices", ty.name), move |s| {
        let (base, cap) = mem::huge();
        let es = ty.w as usize / 8;
        let al = t.align / es.min(t.align);
        let kmax = (cap / es / 2).ilog2() as u64;
        let mid = 1usize << 8 + s.below(kmax - 7);
        let d = s.below(2 * ty.n as u64 + 2) as usize;
        let len = if s.bool() { mid + d } else { mid - 1 - d.min(mid - 1 - ty.n) };
        let kind = s.below(8);
        let aligned = kind < 4;
        let off = s.below(64) as usize * if aligned { al } else { 1 } * es;
        let v = vec(s, &ty, any_bits);
        // the neighbourhood of the vector
        let near = unsafe { core::slice::from_raw_parts_mut(base as *mut u8, off + ty.size() + 128) };
        let lo = off.saturating_sub(128);
        fill(s, &mut near[lo..]);
        let mut e = near[lo..].to_vec();
        s.feed(off as u128 | (len as u128) << 64);
        s.nontrivial = true;
        let a = (base + off) as *mut u8;
        let mut o = V { b: [0xA5; 128] };
        let (name, p) = match kind {
            0 => ("from_slice_aligned", panics(|| (t.ra)(a, len, o.pm()))),
            1 => ("write_to_slice_aligned", panics(|| (t.wa)(v.p(), a, len))),
            2 => ("from_slice_aligned_unchecked", panics(|| (t.rau)(a, len, o.pm()))),
            3 => ("write_to_slice_aligned_unchecked", panics(|| (t.wau)(v.p(), a, len))),
            4 => ("from_slice_unaligned", panics(|| (t.ru)(a, len, o.pm()))),
            5 => ("write_to_slice_unaligned", panics(|| (t.wu)(v.p(), a, len))),
            6 => ("from_slice_unaligned_unchecked", panics(|| (t.ruu)(a, len, o.pm()))),
            _ => ("write_to_slice_unaligned_unchecked", panics(|| (t.wuu)(v.p(), a, len))),
        };
        s.note(|| format!("{} with {} elements", name, len));
        if p {
            return Res::Fail(format!("{} panics for a slice of {} elements at offset {}", name, len, off));
        }
        if kind % 2 == 0 {
            if o.b[..ty.size()] != e[off - lo..off - lo + ty.size()] {
                return Res::Fail(format!("{} of {} elements at offset {} does not give the first elements", name, len, off));
            }
        } else {
            e[off - lo..off - lo + ty.size()].copy_from_slice(&v.b[..ty.size()]);
        }
        if near[lo..] != e[..] {
            return Res::Fail(format!("{} of {} elements at offset {} leaves the wrong bytes", name, len, off));
        }
        Res::Ok
    });
}
fn reg(g: &mut Groups, t: Sl) {
    let ty = t.ty;
    long(g, t);
    for (name, f, aligned, checked) in [
        ("from_slice_aligned", t.ra, true, true),
        ("from_slice_unaligned", t.ru, false, true),
        ("from_slice_aligned_unchecked", t.rau, true, false),
        ("from_slice_unaligned_unchecked", t.ruu, false, false),
    ] {
        g.add(format!("{}/{}", ty.name, name), move |s| {
            let (off, len, want) = place(s, &t, aligned, checked);
            let pg = mem::page();
            let es = ty.w as usize / 8;
            let lo = off.saturating_sub(64);
            let hi = (off + len * es + 64).min(PAGE);
            fill(s, &mut pg[lo..hi]);
            let src = pg[lo..hi].to_vec();
            s.feed(off as u128 | (len as u128) << 64);
            s.feed(u128::from_le_bytes(pg[hi - 16..hi].try_into().unwrap()));
            s.nontrivial = true;
            s.label(want as u32);
            s.note(|| format!("{} elements at page offset {}", len, off));
            let a = unsafe { pg.as_ptr().add(off) };
            let mut o = V { b: [0xA5; 128] };
            let p = panics(|| f(a, len, o.pm()));
            if want != Want::Ok {
                return if p { Res::Ok } else { Res::Fail(format!("no panic reading a slice of {} elements at page offset {}", len, off)) };
            }
            if p {
                return Res::Fail(format!("panic reading a slice of {} elements at page offset {}", len, off));
            }
            for i in 0..ty.size() {
                if o.b[i] != src[off - lo + i] {
                    return Res::Fail(format!("byte {} of the vector read from {} elements at page offset {} differs from the slice", i, len, off));
                }
            }
            if pg[lo..hi] != src[..] {
                return Res::Fail("reading changed the slice".into());
            }
            Res::Ok
        });
    }
    for (name, f, aligned, checked) in [
        ("write_to_slice_aligned", t.wa, true, true),
        ("write_to_slice_unaligned", t.wu, false, true),
        ("write_to_slice_aligned_unchecked", t.wau, true, false),
        ("write_to_slice_unaligned_unchecked", t.wuu, false, false),
    ] {
        g.add(format!("{}/{}", ty.name, name), move |s| {
            let (off, len, want) = place(s, &t, aligned, checked);
            let v = vec(s, &ty, any_bits);
            let pg = mem::page();
            let es = ty.w as usize / 8;
            let lo = off.saturating_sub(128);
            let hi = (off + len * es + 128).min(PAGE);
            fill(s, &mut pg[lo..hi]);
            let mut e = pg[lo..hi].to_vec();
            s.feed(off as u128 | (len as u128) << 64);
            s.nontrivial = true;
            s.label(want as u32);
            s.note(|| format!("{} into {} elements at page offset {}", show(&ty, &v), len, off));
            let a = unsafe { pg.as_mut_ptr().add(off) };
            let p = panics(|| f(v.p(), a, len));
            if want != Want::Ok {
                if !p {
                    return Res::Fail(format!("no panic writing to a slice of {} elements at page offset {}", len, off));
                }
            } else if p {
                return Res::Fail(format!("panic writing to a slice of {} elements at page offset {}", len, off));
            } else {
                e[off - lo..off - lo + ty.size()].copy_from_slice(&v.b[..ty.size()]);
            }
            match (0..e.len()).find(|i| pg[lo + i] != e[*i]) {
                None => Res::Ok,
                Some(i) => Res::Fail(format!(
                    "writing to {} elements at page offset {}: the byte {} after the slice start is wrong",
                    len,
                    off,
                    (lo + i) as isize - off as isize
                )),
            }
        });
    }
}
macro_rules! arr {
    ($g:ident $ty:ident [$t:ty] [$e:ty] $n:tt) => {
        $g.ew($ty, "from-array", [Arg::Vec($ty, any_bits), Arg::No, Arg::No], $ty, th!(|a: [$e; $n]| { let r: $t = a.into(); r }), Or::Bits(id), None);
        $g.ew($ty, "into-array", [Arg::Vec($ty, any_bits), Arg::No, Arg::No], $ty, th!(|a: $t| { let r: [$e; $n] = a.into(); r }), Or::Bits(id), None);
    };
}
macro_rules! slices {
    ($g:ident $ty:ident [$t:ty] [$e:ty]) => {
        let rs = |p: *const u8, n: usize| unsafe { core::slice::from_raw_parts(p as *const $e, n) };
        let _ = rs;
        fn rs_<'a, E>(p: *const u8, n: usize) -> &'a [E] {
            unsafe { core::slice::from_raw_parts(p as *const E, n) }
        }
        fn ws_<'a, E>(p: *mut u8, n: usize) -> &'a mut [E] {
            unsafe { core::slice::from_raw_parts_mut(p as *mut E, n) }
        }
        reg($g, Sl {
            ty: $ty,
            align: core::mem::align_of::<$t>(),
            ra: |p, n, o| unsafe { wr(o, <$t>::from_slice_aligned(rs_::<$e>(p, n))) },
            ru: |p, n, o| unsafe { wr(o, <$t>::from_slice_unaligned(rs_::<$e>(p, n))) },
            rau: |p, n, o| unsafe { wr(o, <$t>::from_slice_aligned_unchecked(rs_::<$e>(p, n))) },
            ruu: |p, n, o| unsafe { wr(o, <$t>::from_slice_unaligned_unchecked(rs_::<$e>(p, n))) },
            wa: |v, p, n| unsafe { rd::<$t>(v).write_to_slice_aligned(ws_::<$e>(p, n)) },
            wu: |v, p, n| unsafe { rd::<$t>(v).write_to_slice_unaligned(ws_::<$e>(p, n)) },
            wau: |v, p, n| unsafe { rd::<$t>(v).write_to_slice_aligned_unchecked(ws_::<$e>(p, n)) },
            wuu: |v, p, n| unsafe { rd::<$t>(v).write_to_slice_unaligned_unchecked(ws_::<$e>(p, n)) },
        });
    };
}
macro_rules! num {
    ($g:ident $t:ident $e:ident $n:tt $m:ident $k:ident $w:literal) => {{ mod x { use super::*; pub fn r(g: &mut Groups) {
        let ty = Ty::new(stringify!($t), K::$k, $w, $n);
        arr!(g ty [$t] [$e] $n);
        slices!(g ty [$t] [$e]);
    }} x::r($g) }};
}
macro_rules! mask {
    ($g:ident $t:ident $e:ident $n:tt $m:ident $k:ident $w:literal) => {{ mod x { use super::*; pub fn r(g: &mut Groups) {
        let ty = Ty::new(stringify!($t), K::$k, $w, $n);
        arr!(g ty [$t] [$e] $n);
    }} x::r($g) }};
}
macro_rules! ptr {
    ($g:ident $name:literal [$t:ty] [$e:ty] [$pt:ty] $n:tt $m:ident $us:ident $is:ident) => {{ mod x { use super::*; pub fn r(g: &mut Groups) {
        let ty = Ty::new($name, K::P, 64, $n);
        arr!(g ty [$t] [$e] $n);
        slices!(g ty [$t] [$e]);
    }} x::r($g) }};
}
/// the pointer-vector groups (also run by C26)
pub fn ptrs(g: &mut Groups) {
    ptr_types!(ptr g);
}
#[allow(dead_code)]
fn main() {
    vh::main(
        Spec {
            id: "C02",
            rule: "one group per (vector type, conversion); slices of generated length (short, exact, longer) and address placed in a page between two unmapped pages, half of them ending exactly at the guard page, aligned and misaligned, or (long-slices) of a length around a power of two up to 2^33 bytes; contents pseudo-random from a recorded choice; non-trivial: every slice case, and array cases whose lanes differ",
            quick: 16000,
            thorough: 200000,
            labels: &["must-succeed", "short-must-panic", "misaligned-must-panic"],
        },
        |g| {
            num_types!(num g);
            mask_types!(mask g);
            ptrs(g);
        },
    );
}
