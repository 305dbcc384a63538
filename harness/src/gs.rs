// Gather/scatter groups, shared by C27 and C28 (included).

/// generated operands: mask lanes, pointers, values
struct Gs {
    act: Vec<bool>,
    ptr: Vec<usize>,
    val: V,
}
const MAXEL: usize = 40;

/// An address for lane i: valid and aligned when active, anything when not.
fn address(s: &mut Src, sz: usize, active: bool, base: usize, prev: &[usize]) -> usize {
    let slots = mem::PAGE / sz;
    if active || s.chance(1, 4) {
        match s.below(4) {
            0 if !prev.is_empty() => {
                // same as an earlier lane's address, if that one is in the page
                let p = prev[s.below(prev.len() as u64) as usize];
                if p >= base && p - base <= mem::PAGE - sz && (p - base) % sz == 0 { p } else { base }
            }
            1 => base + (slots - 1 - s.below(4) as usize) * sz, // next to the guard page
            2 => base + s.below(4) as usize * sz,
            _ => base + s.below(MAXEL as u64) as usize * sz,
        }
    } else {
        match s.below(5) {
            0 => 0,
            1 => mem::unmapped() + s.below(4000) as usize,
            2 => 1,
            3 => usize::MAX - s.below(8) as usize,
            _ => 0x8000_0000_0000_0000 | s.u64() as usize,
        }
    }
}
/// Element indices of a regular access pattern, every active lane in the page.
fn regular(s: &mut Src, n: usize, act: &[bool], slots: isize) -> Vec<isize> {
    let step = *s.pick(&[1isize, 1, 1, -1, 2, 3, -2, 0]);
    let mut r: Vec<isize> = (0..n as isize).map(|i| i * step).collect();
    match s.below(6) {
        0 | 1 => {}
        2 | 3 => {
            let (a, b) = (s.below(n as u64) as usize, s.below(n as u64) as usize);
            r.swap(a, b);
        }
        4 => {
            let a = s.below(n as u64) as usize;
            r[a] += s.below(7) as isize - 3;
        }
        _ => {
            // the same run twice, or split in two
            let k = s.below(n as u64 + 1) as usize;
            let d = s.below(9) as isize - 4;
            for x in &mut r[k..] {
                *x += d;
            }
        }
    }
    let on: Vec<isize> = (0..n).filter(|i| act[*i]).map(|i| r[i]).collect();
    let (lo, hi) = (on.iter().copied().min().unwrap_or(0), on.iter().copied().max().unwrap_or(0));
    // place the active lanes at the start, at the end, or near the start
    let off = match s.below(3) {
        0 => -lo,
        1 => slots - 1 - hi,
        _ => -lo + s.below(MAXEL as u64) as isize,
    };
    r.iter().map(|x| x + off).collect()
}
fn operands(s: &mut Src, ty: &Ty, mt: &Ty, page: &mut [u8]) -> (Gs, V, V) {
    let sz = (ty.w / 8) as usize;
    let base = page.as_ptr() as usize;
    // recorded seed for the memory contents
    let mut x = s.u64();
    for k in 0..mem::PAGE / 8 {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        page[k * 8..k * 8 + 8].copy_from_slice(&(x ^ x >> 29).to_le_bytes());
    }
    if ty.k == K::M {
        for k in 0..mem::PAGE / sz {
            let b = if page[k * sz] & 1 == 1 { 0xff } else { 0 };
            page[k * sz..(k + 1) * sz].fill(b);
        }
    }
    let mv = vec(s, mt, any);
    let act: Vec<bool> = (0..ty.n).map(|i| mv.get(mt.w, i) != 0).collect();
    let mut ptr = Vec::new();
    let mut pv = V::zero();
    // one case in two: independent lanes; otherwise a regular run of
    // addresses (ascending, descending, strided, constant), perhaps with two
    // lanes exchanged or one moved, perhaps so placed that only the active
    // lanes stay inside the page
    let run: Option<Vec<isize>> = if s.bool() { Some(regular(s, ty.n, &act, (mem::PAGE / sz) as isize)) } else { None };
    for i in 0..ty.n {
        let p = match &run {
            Some(r) => (base as isize).wrapping_add(r[i].wrapping_mul(sz as isize)) as usize,
            None => address(s, sz, act[i], base, &ptr),
        };
        ptr.push(p);
        pv.set(64, i, p as u128);
        s.feed(if p >= base && p < base + mem::PAGE { (p - base) as u128 } else { p as u128 | 1 << 64 });
    }
    if run.is_some() {
        s.label(2);
    }
    let val = vec(s, ty, any_bits);
    s.nontrivial = act.iter().any(|a| *a);
    if act.iter().any(|a| *a) && !act.iter().all(|a| *a) {
        s.label(0);
    }
    for i in 0..ty.n {
        for j in 0..i {
            if act[i] && act[j] && ptr[i] == ptr[j] {
                s.label(1);
            }
        }
    }
    (Gs { act, ptr, val }, mv, pv)
}
fn describe(ty: &Ty, g: &Gs, base: usize) -> String {
    let l: Vec<String> = (0..ty.n)
        .map(|i| {
            let p = if g.ptr[i] >= base && g.ptr[i] < base + mem::PAGE { format!("page+{}", g.ptr[i] - base) } else { format!("{:#x}", g.ptr[i]) };
            format!("{}{}", if g.act[i] { "" } else { "inactive " }, p)
        })
        .collect();
    format!("pointers [{}], value {}", l.join(", "), show(ty, &g.val))
}
fn gather(g: &mut Groups, pname: &str, ty: Ty, mt: Ty, f: F) {
    g.add(format!("{}<{}>/read/{}", pname, ty.name, mt.name), move |s| {
        let page = mem::page();
        let base = page.as_ptr() as usize;
        let (o, mv, pv) = operands(s, &ty, &mt, page);
        s.note(|| describe(&ty, &o, base));
        let before = page.to_vec();
        let mut out = V { b: [0xA5; 128] };
        f(pv.p(), mv.p(), o.val.p(), out.pm());
        s.note(|| format!("-> {}", show(&ty, &out)));
        let sz = (ty.w / 8) as usize;
        for i in 0..ty.n {
            let e = if o.act[i] {
                let mut b = [0u8; 16];
                b[..sz].copy_from_slice(&before[o.ptr[i] - base..o.ptr[i] - base + sz]);
                u128::from_le_bytes(b)
            } else {
                o.val.get(ty.w, i)
            };
            if out.get(ty.w, i) != e {
                return Res::Fail(format!("lane {} ({}) is {}, expected {}", i, if o.act[i] { "active" } else { "inactive" }, show1(ty.k, ty.w, out.get(ty.w, i)), show1(ty.k, ty.w, e)));
            }
        }
        if page[..] != before[..] {
            return Res::Fail("reading changed memory".into());
        }
        Res::Ok
    });
}
fn scatter(g: &mut Groups, pname: &str, ty: Ty, mt: Ty, f: F) {
    g.add(format!("{}<{}>/write/{}", pname, ty.name, mt.name), move |s| {
        let page = mem::page();
        let base = page.as_ptr() as usize;
        let (o, mv, pv) = operands(s, &ty, &mt, page);
        s.note(|| describe(&ty, &o, base));
        let mut model = page.to_vec();
        let sz = (ty.w / 8) as usize;
        for i in 0..ty.n {
            if o.act[i] {
                let off = o.ptr[i] - base;
                model[off..off + sz].copy_from_slice(&o.val.get(ty.w, i).to_le_bytes()[..sz]);
            }
        }
        let mut out = V { b: [0xA5; 128] };
        f(pv.p(), mv.p(), o.val.p(), out.pm());
        if let Some(k) = (0..mem::PAGE).find(|k| page[*k] != model[*k]) {
            return Res::Fail(format!("byte {} of the page is {:#04x}, expected {:#04x}", k, page[k], model[k]));
        }
        Res::Ok
    });
}
