//! C33: fannkuch-redux against direct enumeration of all permutations.
use vh_ex::*;

/// (checksum, maximum flips) by enumerating the permutations in the benchmark's order.
fn reference(n: usize) -> (i32, i32) {
    let mut perm1: Vec<usize> = (0..n).collect();
    let mut count = vec![0usize; n];
    let (mut sum, mut maxf, mut idx) = (0i32, 0i32, 0i32);
    let mut r = n;
    loop {
        while r != 1 {
            count[r - 1] = r;
            r -= 1;
        }
        let mut p = perm1.clone();
        let mut flips = 0;
        while p[0] != 0 {
            let k = p[0];
            p[..=k].reverse();
            flips += 1;
        }
        maxf = maxf.max(flips);
        sum += if idx % 2 == 0 { flips } else { -flips };
        loop {
            if r == n {
                return (sum, maxf);
            }
            let first = perm1.remove(0);
            perm1.insert(r, first);
            count[r] -= 1;
            if count[r] > 0 {
                break;
            }
            r += 1;
        }
        idx += 1;
    }
}

fn main() {
    vh::main(
        Spec {
            id: "C33",
            rule: "every n from 3 to 10 (thorough: to 11), the SIMD version against direct pancake flipping of all n! permutations; non-trivial: every case",
            quick: 1,
            thorough: 1,
            labels: &[],
        },
        |g| {
            let top = if std::env::args().any(|a| a == "thorough") { 11 } else { 10 };
            for n in 3..=top {
                // SIMD only: the pinned nightly miscompiles the (safe) scalar version into an endless loop at opt-level 1..3
                for alg in 0..1usize {
                    g.add(format!("n={}/simd", n), move |s| {
                        s.feed(n as u128);
                        s.nontrivial = true;
                        let got = fannkuch_redux_lib::fannkuch_redux(n, alg);
                        let e = reference(n);
                        s.note(|| format!("n = {} -> {:?}", n, got));
                        if got != e {
                            fail!("the result is {:?}, expected {:?}", got, e);
                        }
                        Res::Ok
                    });
                }
            }
        },
    );
}
