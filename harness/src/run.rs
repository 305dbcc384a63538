//! The runner: groups of generated cases, shrinking, replay and the run report.
use crate::ew::Groups;
use crate::src::{hash_str, Src};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

pub enum Res {
    Ok,
    Fail(String),
    /// The case fails, but exactly as a modelled defect does: recorded once per message, and the
    /// exploration of the group goes on. run.py accepts it only if known_findings.txt lists it.
    Known(&'static str),
}

pub struct Group {
    pub name: String,
    /// multiplies the number of cases of the tier
    pub weight: f64,
    pub run: Box<dyn Fn(&mut Src) -> Res + Send + Sync>,
}
impl Group {
    pub fn new(name: String, f: impl Fn(&mut Src) -> Res + Send + Sync + 'static) -> Group {
        Group { name, weight: 1.0, run: Box::new(f) }
    }
}

pub struct Spec {
    pub id: &'static str,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    /// cases per group
    pub quick: u64,
    pub thorough: u64,
    /// names of the labels set through Src::label
    pub labels: &'static [&'static str],
}

thread_local! {
    static MSG: RefCell<String> = RefCell::new(String::new());
    static CUR: Cell<(*const u8, usize, u64)> = const { Cell::new((core::ptr::null(), 0, 0)) };
}
static SHRINKING: AtomicUsize = AtomicUsize::new(0);

/// Runs `f`, telling whether it panicked.
pub fn panics<R>(f: impl FnOnce() -> R) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

/// The control bits of MXCSR (rounding mode, flush-to-zero, denormals-are-zero, exception
/// masks): state that every float operation of the thread depends on.
fn fp_control() -> u32 {
    let mut x = 0u32;
    unsafe { core::arch::asm!("stmxcsr [{}]", in(reg) &mut x, options(nostack)) };
    x & 0xffc0
}
fn set_fp_control(v: u32) {
    unsafe { core::arch::asm!("ldmxcsr [{}]", in(reg) &v, options(nostack)) };
}
const FP_DEFAULT: u32 = 0x1f80;

fn exec(g: &Group, s: &mut Src) -> Res {
    let r = catch_unwind(AssertUnwindSafe(|| (g.run)(s)));
    let fp = fp_control();
    if fp != FP_DEFAULT {
        set_fp_control(FP_DEFAULT);
        return Res::Fail(format!("the floating-point control state was changed: MXCSR {:#06x} instead of {:#06x}", fp, FP_DEFAULT));
    }
    match r {
        Ok(r) => r,
        Err(_) => Res::Fail(format!("unexpected panic: {}", MSG.with(|m| m.borrow().clone()))),
    }
}

fn fails(g: &Group, c: &[u64]) -> Option<(Vec<u64>, String)> {
    let mut s = Src::replay(c.to_vec());
    match exec(g, &mut s) {
        Res::Fail(m) => Some((s.rec, m)),
        Res::Ok | Res::Known(_) => None,
    }
}

/// Shrinks a failing choice sequence: drop chunks, zero, halve, decrement.
fn shrink(g: &Group, start: Vec<u64>, msg: String) -> (Vec<u64>, String) {
    let mut best = start;
    let mut bmsg = msg;
    let mut budget = 3000i64;
    let until = std::time::Instant::now() + std::time::Duration::from_secs(20);
    loop {
        let before = best.clone();
        // delete chunks
        let mut k = 8usize;
        while k >= 1 {
            let mut i = 0;
            while i < best.len() && budget > 0 {
                let mut c = best.clone();
                c.drain(i..(i + k).min(c.len()));
                budget = if std::time::Instant::now() < until { budget - 1 } else { 0 };
                match fails(g, &c) {
                    Some((r, m)) if r.len() <= best.len() && r != best => {
                        best = r;
                        bmsg = m;
                    }
                    _ => i += k,
                }
            }
            k /= 2;
        }
        // minimise single numbers
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            let cur = best[i];
            let mut cands = vec![0, 1, cur & 0xff, cur & 0xffff];
            let mut h = cur;
            while h > 0 {
                h /= 2;
                cands.push(cur - h);
                cands.push(h);
            }
            for x in cands {
                if i >= best.len() || x >= best[i] || budget <= 0 {
                    continue;
                }
                let mut c = best.clone();
                c[i] = x;
                budget = if std::time::Instant::now() < until { budget - 1 } else { 0 };
                if let Some((r, m)) = fails(g, &c) {
                    if r.len() < best.len() || (r.len() == best.len() && r < best) {
                        best = r;
                        bmsg = m;
                    }
                }
            }
        }
        if best == before || budget <= 0 {
            return (best, bmsg);
        }
    }
}

extern "C" {
    fn signal(sig: i32, h: usize) -> usize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}
extern "C" fn on_signal(sig: i32) {
    unsafe {
        let (p, n, c) = CUR.with(|x| x.get());
        let w = |s: &[u8]| {
            write(2, s.as_ptr(), s.len());
        };
        let mut d = [b'0'; 20];
        let num = |mut v: u64, d: &mut [u8; 20]| {
            let mut i = 20;
            loop {
                i -= 1;
                d[i] = b'0' + (v % 10) as u8;
                v /= 10;
                if v == 0 {
                    break;
                }
            }
            i
        };
        w(b"\nCRASH\t");
        let i = num(sig as u64, &mut d);
        w(&d[i..]);
        w(b"\t");
        if !p.is_null() {
            write(2, p, n);
        }
        w(b"\t");
        let i = num(c, &mut d);
        w(&d[i..]);
        w(b"\n");
        _exit(99)
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Fail {
    group: String,
    case: u64,
    choices: Vec<u64>,
    msg: String,
    desc: String,
    /// cases that ran before it, when it fails only after them
    before: Vec<Vec<u64>>,
    /// the number of threads that ran cases of the group at the same time
    threads: usize,
}

pub fn case_seed(seed: u64, group: &str, case: u64) -> u64 {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ hash_str(group);
    x = (x ^ (x >> 31)).wrapping_mul(0x94D049BB133111EB);
    x ^= case.wrapping_mul(0xD6E8FEB86659FD93);
    x = (x ^ (x >> 29)).wrapping_mul(0xBF58476D1CE4E5B9);
    x ^ (x >> 32)
}

pub fn main(spec: Spec, build: impl FnOnce(&mut Groups)) {
    let mut seed = 1u64;
    let mut tier = "quick".to_string();
    let mut out = String::new();
    let mut replay = String::new();
    let mut only = String::new();
    let mut a = std::env::args().skip(1);
    while let Some(k) = a.next() {
        let v = a.next().unwrap_or_default();
        match k.as_str() {
            "--seed" => seed = v.parse().unwrap_or(1),
            "--tier" => tier = v,
            "--out" => out = v,
            "--replay" => replay = v,
            "--only" => only = v,
            _ => {
                eprintln!("unknown argument {k}");
                std::process::exit(3)
            }
        }
    }
    std::panic::set_hook(Box::new(|i| {
        let t = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let t = match i.location() {
            Some(l) => format!("{} ({}:{})", t, l.file(), l.line()),
            None => t,
        };
        MSG.with(|m| *m.borrow_mut() = t);
    }));
    unsafe {
        for s in [4, 6, 7, 8, 11] {
            signal(s, on_signal as usize);
        }
    }
    let mut gs = Groups::new();
    build(&mut gs);
    let groups = gs.0;
    {
        let mut names = HashSet::new();
        for g in &groups {
            if !names.insert(g.name.clone()) {
                eprintln!("duplicate group {}", g.name);
                std::process::exit(3)
            }
        }
    }
    if !replay.is_empty() {
        return do_replay(&groups, &replay);
    }
    let per = if tier == "thorough" { spec.thorough } else { spec.quick };
    let next = AtomicUsize::new(0);
    let fails_m: Mutex<Vec<Fail>> = Mutex::new(Vec::new());
    let known_m: Mutex<Vec<Fail>> = Mutex::new(Vec::new());
    let samples: Mutex<Vec<(usize, String)>> = Mutex::new(Vec::new());
    let totals: Mutex<(u64, u64, u64, Vec<u64>)> = Mutex::new((0, 0, 0, vec![0; spec.labels.len()]));
    let nthreads = std::env::var("VH_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or(4usize);
    let step = (groups.len() / 40).max(1);
    // A case that does not come back is a failure of its own.
    let live: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicUsize::new(0);
    let meet = std::sync::Barrier::new(nthreads);
    let hang_s: u64 = std::env::var("VH_HANG").ok().and_then(|v| v.parse().ok()).unwrap_or(if tier == "thorough" { 900 } else { 150 });
    std::thread::scope(|sc| {
        sc.spawn(|| {
            let mut last: Vec<(u64, std::time::Instant)> = vec![(0, std::time::Instant::now()); nthreads];
            while done.load(Ordering::Relaxed) < nthreads {
                std::thread::sleep(std::time::Duration::from_millis(5));
                for (l, w) in last.iter_mut().zip(&live) {
                    let v = w.load(Ordering::Relaxed);
                    if v != l.0 {
                        *l = (v, std::time::Instant::now());
                    } else if v != 0 && l.1.elapsed().as_secs() > hang_s {
                        let (gi, case) = ((v >> 40) as usize - 1, v & ((1 << 40) - 1));
                        eprintln!("HANG\t{}\t{}\t{}", hang_s, groups[gi].name, case);
                        std::process::exit(4);
                    }
                }
            }
        });
        for ti in 0..nthreads {
            let b = std::thread::Builder::new().stack_size(64 << 20);
            let (meet, live, done, groups, next, only, spec, samples, fails_m, known_m, totals) = (&meet, &live, &done, &groups, &next, &only, &spec, &samples, &fails_m, &known_m, &totals);
            b.spawn_scoped(sc, move || {
                let mut s = Src::random(0);
                loop {
                    let gi = next.fetch_add(1, Ordering::Relaxed);
                    if gi >= groups.len() {
                        break;
                    }
                    let g = &groups[gi];
                    if !only.is_empty() && !g.name.contains(only.as_str()) {
                        continue;
                    }
                    let n = ((per as f64 * g.weight).ceil() as u64).max(1);
                    let mut seen: HashSet<u64> = HashSet::new();
                    let mut ev = 0u64;
                    let mut nt = 0u64;
                    let mut lab = vec![0u64; spec.labels.len()];
                    let mut sampled = gi % step != 0;
                    for case in 0..n {
                        CUR.with(|c| c.set((g.name.as_ptr(), g.name.len(), case)));
                        live[ti].store((gi as u64 + 1) << 40 | case, Ordering::Relaxed);
                        s.reset(case_seed(seed, &g.name, case));
                        if !sampled && case > 2 {
                            s.desc = Some(String::new());
                        }
                        let r = exec(g, &mut s);
                        ev += 1;
                        if s.nontrivial {
                            nt += 1;
                            seen.insert(s.hash);
                            if !sampled && case > 2 {
                                sampled = true;
                                let d = s.desc.take().unwrap_or_default();
                                samples.lock().unwrap().push((gi, format!("{}: {}", g.name, d)));
                            }
                        }
                        for (i, l) in lab.iter_mut().enumerate() {
                            *l += s.labels >> i & 1;
                        }
                        if let Res::Known(m) = r {
                            let mut k = known_m.lock().unwrap();
                            if !k.iter().any(|x| x.group == g.name && x.msg == m) {
                                let mut s2 = Src::replay(s.rec.clone());
                                s2.desc = Some(String::new());
                                let _ = exec(g, &mut s2);
                                k.push(Fail { group: g.name.clone(), case, choices: s.rec.clone(), msg: m.to_string(), desc: s2.desc.unwrap_or_default(), before: vec![], threads: 1 });
                            }
                        }
                        if let Res::Fail(msg) = r {
                            let ch = s.rec.clone();
                            let (ch, msg) = if SHRINKING.fetch_add(1, Ordering::Relaxed) < 12 { shrink(g, ch, msg) } else { (ch, msg) };
                            let mut s2 = Src::replay(ch.clone());
                            s2.desc = Some(String::new());
                            let _ = exec(g, &mut s2);
                            fails_m.lock().unwrap().push(Fail {
                                group: g.name.clone(),
                                case,
                                choices: ch,
                                msg,
                                desc: s2.desc.unwrap_or_default(),
                                before: vec![],
                                threads: 1,
                            });
                            break;
                        }
                        // The same case once more after a neighbour of it: results must not depend on
                        // what was computed before.
                        if case % 8 == 5 && !matches!(r, Res::Known(_)) {
                            let sd = case_seed(seed, &g.name, case);
                            let z = case_seed(seed ^ 0x5eed, &g.name, case);
                            let first = s.rec.clone();
                            let p = (z >> 8) as usize % s.taken().max(1);
                            s.reset_near(sd, p, z.rotate_left(27) ^ sd);
                            let mut r = exec(g, &mut s);
                            let mut before = vec![first.clone()];
                            let mut ch = s.rec.clone();
                            ev += 1;
                            if s.nontrivial {
                                nt += 1;
                                seen.insert(s.hash);
                            }
                            if let Res::Ok = r {
                                before.push(ch);
                                s.reset(sd);
                                r = exec(g, &mut s);
                                ch = s.rec.clone();
                                ev += 1;
                            }
                            if let Res::Fail(msg) = r {
                                // does it fail by itself, with other cases in between?
                                for k in 0..8 {
                                    s.reset(case_seed(seed ^ 0xa11, &g.name, k));
                                    let _ = exec(g, &mut s);
                                }
                                let alone = fails(g, &ch).is_some();
                                let (ch, msg) = if alone && SHRINKING.fetch_add(1, Ordering::Relaxed) < 12 { shrink(g, ch, msg) } else { (ch, msg) };
                                if alone {
                                    before.clear();
                                }
                                let mut s2 = Src::replay(ch.clone());
                                s2.desc = Some(String::new());
                                let _ = exec(g, &mut s2);
                                let msg = if alone { msg } else { format!("{} (after other cases of the same operation)", msg) };
                                fails_m.lock().unwrap().push(Fail { group: g.name.clone(), case, choices: ch, msg, desc: s2.desc.unwrap_or_default(), before, threads: 1 });
                                break;
                            }
                        }
                    }
                    live[ti].store(0, Ordering::Relaxed);
                    let mut t = totals.lock().unwrap();
                    t.0 += ev;
                    t.1 += seen.len() as u64;
                    t.2 += nt;
                    for (a, b) in t.3.iter_mut().zip(&lab) {
                        *a += b;
                    }
                }
                // The same operation from all threads at the same time.
                for (gi, g) in groups.iter().enumerate() {
                    if !only.is_empty() && !g.name.contains(only.as_str()) {
                        continue;
                    }
                    meet.wait();
                    if fails_m.lock().unwrap().iter().any(|f| f.group == g.name) {
                        continue;
                    }
                    let n = ((per as f64 * g.weight / 32.0).ceil() as u64).clamp(1, 2000);
                    let (mut ev, mut nt) = (0u64, 0u64);
                    for k in 0..n {
                        let case = (1 << 32) + k * nthreads as u64 + ti as u64;
                        CUR.with(|c| c.set((g.name.as_ptr(), g.name.len(), case)));
                        live[ti].store((gi as u64 + 1) << 40 | case, Ordering::Relaxed);
                        s.reset(case_seed(seed, &g.name, case));
                        let r = exec(g, &mut s);
                        ev += 1;
                        nt += s.nontrivial as u64;
                        if let Res::Fail(msg) = r {
                            let ch = s.rec.clone();
                            let (mut ch, mut msg) = (ch, format!("{} (while {} threads run the same operation)", msg, nthreads));
                            let mut th = nthreads;
                            if let Some((c, m)) = fails(g, &ch) {
                                let (c, m) = if SHRINKING.fetch_add(1, Ordering::Relaxed) < 12 { shrink(g, c, m) } else { (c, m) };
                                (ch, msg, th) = (c, m, 1);
                            }
                            let mut s2 = Src::replay(ch.clone());
                            s2.desc = Some(String::new());
                            let _ = exec(g, &mut s2);
                            let mut f = fails_m.lock().unwrap();
                            if !f.iter().any(|f| f.group == g.name) {
                                f.push(Fail { group: g.name.clone(), case, choices: ch, msg, desc: s2.desc.unwrap_or_default(), before: vec![], threads: th });
                            }
                            break;
                        }
                    }
                    live[ti].store(0, Ordering::Relaxed);
                    let mut t = totals.lock().unwrap();
                    t.0 += ev;
                    t.2 += nt;
                }
                done.fetch_add(1, Ordering::Relaxed);
            })
            .unwrap();
        }
    });
    let t = totals.into_inner().unwrap();
    let mut f = fails_m.into_inner().unwrap();
    f.sort_by(|a, b| (a.choices.len(), &a.group).cmp(&(b.choices.len(), &b.group)));
    let mut smp = samples.into_inner().unwrap();
    smp.sort();
    let mut j = String::from("{");
    j.push_str(&format!("\"id\":{},\"rule\":{},\"seed\":{},\"groups\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"nontrivial\":{},\n", esc(spec.id), esc(spec.rule), seed, groups.len(), t.0, t.1, t.2));
    let l: Vec<String> = spec.labels.iter().zip(&t.3).map(|(n, c)| format!("{}:{}", esc(n), c)).collect();
    j.push_str(&format!("\"labels\":{{{}}},\n\"samples\":[", l.join(",")));
    j.push_str(&smp.iter().map(|x| esc(&x.1)).collect::<Vec<_>>().join(",\n"));
    let list = |f: &[Fail]| -> String {
        f.iter()
            .map(|x| {
                let num = |c: &[u64]| c.iter().map(|c| format!("{}", c)).collect::<Vec<String>>().join(",");
                format!(
                    "{{\"group\":{},\"case\":{},\"choices\":{},\"msg\":{},\"desc\":{},\"before\":{},\"threads\":{}}}",
                    esc(&x.group),
                    x.case,
                    esc(&num(&x.choices)),
                    esc(&x.msg),
                    esc(&x.desc),
                    esc(&x.before.iter().map(|b| num(b)).collect::<Vec<_>>().join(";")),
                    x.threads
                )
            })
            .collect::<Vec<_>>()
            .join(",\n")
    };
    let known = known_m.into_inner().unwrap();
    j.push_str("],\n\"failures\":[");
    j.push_str(&list(&f));
    j.push_str("],\n\"known\":[");
    j.push_str(&list(&known));
    j.push_str("]}\n");
    if out.is_empty() {
        print!("{j}");
    } else {
        std::fs::write(&out, &j).expect("cannot write report");
    }
    std::process::exit(if f.is_empty() { 0 } else { 1 });
}

fn do_replay(groups: &[Group], file: &str) {
    let txt = std::fs::read_to_string(file).expect("cannot read replay file");
    let get = |k: &str| txt.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).map(|x| x.to_string());
    let gname = get("group").expect("no group in replay file");
    let g = groups.iter().find(|g| g.name == gname).expect("no such group");
    let parse = |c: &str| -> Vec<u64> { c.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
    for b in get("before").unwrap_or_default().split(';').filter(|x| !x.is_empty()) {
        let _ = exec(g, &mut Src::replay(parse(b)));
    }
    let threads: usize = get("threads").and_then(|x| x.parse().ok()).unwrap_or(1);
    if threads > 1 {
        // the recorded case, over and over, from several threads
        let c = parse(&get("choices").unwrap_or_default());
        let msg: Mutex<Option<String>> = Mutex::new(None);
        let until = std::time::Instant::now() + std::time::Duration::from_secs(20);
        std::thread::scope(|sc| {
            for ti in 0..threads as u64 {
                let (c, msg) = (&c, &msg);
                sc.spawn(move || {
                    let mut k = 0;
                    while std::time::Instant::now() < until && msg.lock().unwrap().is_none() {
                        for _ in 0..200 {
                            k += 1;
                            let mut s = if ti == 0 { Src::replay(c.clone()) } else { Src::random(case_seed(ti, &g.name, k)) };
                            if let Res::Fail(m) = exec(g, &mut s) {
                                *msg.lock().unwrap() = Some(m);
                            }
                        }
                    }
                });
            }
        });
        match msg.into_inner().unwrap() {
            Some(m) => {
                println!("replay: FAILS with {} threads: {}", threads, m);
                std::process::exit(1)
            }
            None => {
                println!("replay: holds with {} threads for 20 s", threads);
                std::process::exit(0)
            }
        }
    }
    let mut s = match get("choices") {
        Some(c) => Src::replay(parse(&c)),
        None => {
            let seed = get("seed").unwrap().parse().unwrap();
            let case = get("case").unwrap().parse().unwrap();
            CUR.with(|c| c.set((g.name.as_ptr(), g.name.len(), case)));
            Src::random(case_seed(seed, &gname, case))
        }
    };
    s.desc = Some(String::new());
    let r = exec(g, &mut s);
    println!("{}: {}", gname, s.desc.unwrap_or_default());
    match r {
        Res::Ok => {
            println!("replay: holds");
            std::process::exit(0)
        }
        Res::Known(m) => {
            println!("replay: FAILS as a modelled defect: {m}");
            std::process::exit(1)
        }
        Res::Fail(m) => {
            println!("replay: FAILS: {m}");
            std::process::exit(1)
        }
    }
}
