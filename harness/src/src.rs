//! The choice stream: every random decision of a case is one recorded number, so
//! a case can be replayed and shrunk by editing numbers (smaller = simpler).

pub struct Src {
    rng: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    /// random mode: the choice at this position is another random number than the seed gives
    tweak: (usize, u64),
    pub rec: Vec<u64>,
    /// Fingerprint of the generated input (for counting distinct cases).
    pub hash: u64,
    /// Set when the case satisfies the property's non-triviality rule.
    pub nontrivial: bool,
    /// Class labels seen by this case (bit per label index).
    pub labels: u64,
    /// Rendered description of the case, collected only on demand.
    pub desc: Option<String>,
}

#[inline]
fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: seed, replay: None, pos: 0, tweak: (usize::MAX, 0), rec: Vec::with_capacity(160), hash: 0, nontrivial: false, labels: 0, desc: None }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { rng: 0, replay: Some(choices), pos: 0, tweak: (usize::MAX, 0), rec: Vec::new(), hash: 0, nontrivial: false, labels: 0, desc: None }
    }
    pub fn reset(&mut self, seed: u64) {
        self.rng = seed;
        self.replay = None;
        self.pos = 0;
        self.tweak = (usize::MAX, 0);
        self.rec.clear();
        self.hash = 0;
        self.nontrivial = false;
        self.labels = 0;
        self.desc = None;
    }
    /// The case of `seed` with one choice made differently.
    pub fn reset_near(&mut self, seed: u64, pos: usize, with: u64) {
        self.reset(seed);
        self.tweak = (pos, with);
    }
    /// How many random numbers the case took so far.
    pub fn taken(&self) -> usize {
        self.pos
    }
    #[inline]
    fn next(&mut self) -> u64 {
        match &self.replay {
            None => {
                let r = splitmix(&mut self.rng);
                let p = self.pos;
                self.pos += 1;
                if p == self.tweak.0 { self.tweak.1 } else { r }
            }
            Some(v) => {
                let r = v.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                r
            }
        }
    }
    /// A number in `0..n` (0 is the simplest).
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let r = self.next();
        let v = if self.replay.is_some() { r.min(n - 1) } else { ((r as u128 * n as u128) >> 64) as u64 };
        self.rec.push(v);
        v
    }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        let v = self.next();
        self.rec.push(v);
        v
    }
    /// A value computed from one random number. The value itself is recorded, so
    /// a replay does not depend on what `f` looked at.
    pub fn value(&mut self, f: impl FnOnce(u64) -> u128) -> u128 {
        let v = if self.replay.is_some() {
            let lo = self.next();
            lo as u128 | (self.next() as u128) << 64
        } else {
            let r = self.next();
            f(r)
        };
        self.rec.push(v as u64);
        self.rec.push((v >> 64) as u64);
        v
    }
    #[inline]
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability num/den.
    #[inline]
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // shrinks towards `false`
        self.below(den) >= den - num
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// Add data to the case's fingerprint.
    #[inline]
    pub fn feed(&mut self, x: u128) {
        let mut h = self.hash ^ (x as u64) ^ ((x >> 64) as u64).rotate_left(32);
        h = h.wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
        self.hash = h.wrapping_mul(0xBF58476D1CE4E5B9).wrapping_add(0x1234567);
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(d) = &mut self.desc {
            if !d.is_empty() {
                d.push_str("; ");
            }
            d.push_str(&f());
        }
    }
    pub fn label(&mut self, i: u32) {
        self.labels |= 1 << i;
    }
}
