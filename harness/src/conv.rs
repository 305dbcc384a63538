// Lane-wise conversion oracle, shared by C18 and C19 (included, not a module).

/// exact integer value of an integer lane as (negative, magnitude)
fn ival(k: K, w: u32, x: u128) -> (bool, u128) {
    if k == K::I && sext(x, w) < 0 {
        (true, sext(x, w).unsigned_abs())
    } else {
        (false, x)
    }
}
/// round-to-nearest-even of an integer magnitude to a binary float, independent of `as`
fn int_to_float(neg: bool, m: u128, w: u32) -> u128 {
    let (p, bias, sig) = if w == 32 { (24u32, 127u32, 23u32) } else { (53, 1023, 52) };
    if m == 0 {
        return 0;
    }
    let bl = 128 - m.leading_zeros();
    let (mut q, mut e) = if bl > p { (m >> (bl - p), bl - p) } else { (m << (p - bl), 0) };
    let mut exp = bl - 1;
    if bl > p {
        let rem = m & ones(e);
        let half = 1u128 << (e - 1);
        if rem > half || (rem == half && q & 1 == 1) {
            q += 1;
            if q == 1 << p {
                q >>= 1;
                exp += 1;
            }
        }
        e = 0;
    }
    let _ = e;
    let s = (neg as u128) << (w - 1);
    if w == 32 && exp > 127 {
        return s | 0xff << 23;
    }
    s | ((exp + bias) as u128) << sig | (q & ones(sig))
}
fn fval(w: u32, x: u128) -> f64 {
    if w == 32 { sc::f32_(x) as f64 } else { sc::f64_(x) }
}
fn convert(s: &Ty, d: &Ty, x: u128) -> u128 {
    match (s.k, d.k) {
        (K::M, K::F) => if x != 0 { fbits(d.w, -1.0) } else { 0 },
        (K::M, _) => if x != 0 { d.ones() } else { 0 },
        (K::F, K::M) => if fval(s.w, x) != 0.0 { d.ones() } else { 0 },
        (_, K::M) => if x != 0 { d.ones() } else { 0 },
        (K::F, K::F) => if s.w == d.w { x } else { fbits(d.w, fval(s.w, x)) },
        (K::F, _) => {
            let t = fval(s.w, x).trunc();
            if t < 0.0 { ((-t) as u128).wrapping_neg() & d.ones() } else { t as u128 & d.ones() }
        }
        (_, K::F) => {
            let (n, m) = ival(s.k, s.w, x);
            int_to_float(n, m, d.w)
        }
        (K::I, _) => sext(x, s.w) as u128 & d.ones(),
        (_, _) => x & d.ones(),
    }
}
/// a float whose truncation is representable in the integer type d
fn in_range(s: &mut Src, t: &Ty, d: &Ty) -> u128 {
    let bits = if d.k == K::I { d.w - 1 } else { d.w };
    let x = match s.below(5) {
        0 => finite(s, t),
        1 => {
            // near the upper or lower limit
            let m = (ones(bits) - s.below(3) as u128) as f64;
            fbits(t.w, if s.bool() { -m } else { m })
        }
        2 => {
            let m = (s.u64() as u128 | (s.u64() as u128) << 64) & ones(bits) >> s.below(bits as u64) as u32;
            let f = m as f64 + s.below(4) as f64 / 4.0;
            fbits(t.w, if s.bool() { -f } else { f })
        }
        3 => {
            let f = s.below(1 << 12) as f64 / 16.0;
            fbits(t.w, if s.bool() { -f } else { f })
        }
        _ => fbits(t.w, if d.k == K::I { -(2f64.powi(bits as i32)) } else { -0.75 }),
    };
    let tr = fval(t.w, x).trunc();
    let lim = 2f64.powi(bits as i32);
    let ok = if d.k == K::I { tr >= -lim && tr < lim } else { tr > -1.0 && tr < lim };
    if ok { x } else { fbits(t.w, 7.25) }
}
/// an integer biased to the limits of the target and to halfway cases of its rounding
fn int_for(s: &mut Src, t: &Ty, d: &Ty) -> u128 {
    let r = match s.below(4) {
        0 | 1 => any_int(s, t.w),
        2 if d.k == K::F => {
            // p+1 significant bits ending in 1, possibly nudged: ties and near-ties
            let p = if d.w == 32 { 24 } else { 53 };
            if t.w <= p {
                any_int(s, t.w)
            } else {
                let sh = s.below((t.w - p) as u64) as u32;
                let m = (1u128 << p | (s.u64() as u128 & ones(p)) | 1) << sh;
                let m = match s.below(3) { 0 => m, 1 => m.wrapping_add(1), _ => m.wrapping_sub(1) };
                if s.bool() { m.wrapping_neg() } else { m }
            }
        }
        2 => (1u128 << (d.w.min(t.w) - s.below(2).min(d.w.min(t.w) as u64 - 1) as u32) % 128).wrapping_add(s.below(5) as u128).wrapping_sub(2),
        _ => (1u128 << s.below(t.w as u64)).wrapping_sub(s.below(2) as u128),
    };
    r & t.ones()
}
/// doubles that round to single precision in every way: exact, tie, next to a
/// tie, in the subnormal range, at the overflow threshold
fn narrowing(s: &mut Src) -> u128 {
    let e = match s.below(4) {
        0 => 1023 + s.below(5) - 2,
        1 => 1023 - 126 - s.below(26),
        2 => 1023 + 127,
        _ => 1023 + s.below(280) - 150,
    } as u128;
    let low = match s.below(5) {
        0 => 0,
        1 => 1u128 << 28,
        2 => (1 << 28) - 1,
        3 => (1 << 28) + 1,
        _ => s.u64() as u128 & ones(29),
    };
    let hi = match s.below(3) {
        0 => ones(23),
        1 => s.below(4) as u128,
        _ => s.u64() as u128 & ones(23),
    };
    // below the normal range the tie sits higher up
    let m = hi << 29 | low;
    let m = if e < 1023 - 126 && s.bool() {
        let k = 29 + (1023 - 126 - e) as u32;
        if k >= 52 { if s.bool() { 0 } else { 1 } } else { m >> k << k | 1 << (k - 1) | s.below(2) as u128 }
    } else {
        m
    };
    (s.bool() as u128) << 63 | e << 52 | m
}
fn conv(g: &mut Groups, st: Ty, dt: Ty, op: &str, f: F) {
    g.add(format!("{}->{}/{}", st.name, dt.name, op), move |s| {
        let mut v = V::zero();
        let splat = s.chance(1, 6);
        for i in 0..st.n {
            let x = if splat && i > 0 {
                v.get(st.w, 0)
            } else {
                match (st.k, dt.k) {
                    (K::F, K::I) | (K::F, K::U) => in_range(s, &st, &dt),
                    (K::I, _) | (K::U, _) => int_for(s, &st, &dt),
                    (K::F, K::F) if st.w > dt.w && s.bool() => narrowing(s),
                    _ => any(s, &st),
                }
            };
            v.set(st.w, i, x);
        }
        feed(s, &st, &v);
        let mut o = V { b: [0xA5; 128] };
        f(v.p(), v.p(), v.p(), o.pm());
        s.note(|| format!("{} -> {}", show(&st, &v), show(&dt, &o)));
        for i in 0..st.n {
            let (x, got) = (v.get(st.w, i), o.get(dt.w, i));
            let e = convert(&st, &dt, x);
            let ok = if dt.k == K::F { sc::same_float(dt.w, e, got) } else { e == got };
            if !ok {
                return Res::Fail(format!("lane {}: {} becomes {}, expected {}", i, show1(st.k, st.w, x), show1(dt.k, dt.w, got), show1(dt.k, dt.w, e)));
            }
        }
        Res::Ok
    });
}
