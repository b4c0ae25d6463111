//! A small property-based testing engine with integrated shrinking.
//!
//! Every random decision of a generator is drawn from a [`Source`], which records it as one
//! bounded integer. A generated case is therefore a pure function of the recorded choice
//! sequence; a failure is shrunk by editing that sequence (deleting blocks, zeroing, lowering)
//! and regenerating, so that dependent, stateful generators (whole table histories) shrink
//! without any per-type shrinker and never leave the generator's domain.

#[derive(Clone)]
pub struct Rng(u64, u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed), mix(seed ^ 0xD1B54A32D192ED03) | 1)
    }
    /// xorshift128+
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        let y = self.1;
        self.0 = y;
        x ^= x << 23;
        self.1 = x ^ y ^ (x >> 17) ^ (y >> 26);
        self.1.wrapping_add(y)
    }
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>),
}

/// The only place generators draw from.
pub struct Source {
    mode: Mode,
    pos: usize,
    pub trace: Vec<u64>,
    /// Scales how large generated structures get (thorough tiers pass more).
    pub size: u32,
}

impl Source {
    pub fn random(seed: u64, size: u32) -> Self {
        Source { mode: Mode::Random(Rng::new(seed)), pos: 0, trace: vec![], size }
    }
    pub fn replay(choices: Vec<u64>, size: u32) -> Self {
        Source { mode: Mode::Replay(choices), pos: 0, trace: vec![], size }
    }
    /// Uniform in `0..n`; 0 is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match &mut self.mode {
            Mode::Random(r) => {
                if n == 1 {
                    0
                } else {
                    r.next() % n
                }
            }
            Mode::Replay(c) => c.get(self.pos).copied().unwrap_or(0).min(n - 1),
        };
        self.pos += 1;
        // A generator that draws again until it likes the result would not end on a shrunk list.
        assert!(self.pos < 2_000_000, "the generator does not end");
        self.trace.push(v);
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range, `lo` the simplest.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }
    /// True with probability `num/den`; false is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    /// Index drawn with the given weights; index 0 the simplest.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.below(total as u64) as u32;
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    pub fn u64(&mut self) -> u64 {
        match self.below(4) {
            0 => self.below(16),
            1 => self.below(1 << 16),
            2 => self.below(1 << 40),
            _ => self.below(u64::MAX),
        }
    }
    pub fn i64(&mut self) -> i64 {
        match self.weighted(&[6, 2, 2, 1, 1, 1]) {
            0 => self.range(0, 100),
            1 => -self.range(1, 1000),
            2 => self.range(0, 1 << 40),
            3 => i64::MAX,
            4 => i64::MIN,
            _ => self.below(u64::MAX) as i64,
        }
    }
    pub fn string_of(&mut self, alphabet: &[&str], lo: usize, hi: usize) -> String {
        let n = self.usize(lo, hi);
        (0..n).map(|_| *self.pick(alphabet)).collect()
    }
}

/// Shrinks a failing choice sequence. `fails` regenerates and reruns; it returns the trace
/// actually consumed when the case still fails in the same way.
pub fn shrink(
    start: Vec<u64>,
    max_runs: usize,
    mut fails: impl FnMut(Vec<u64>) -> Option<Vec<u64>>,
) -> (Vec<u64>, usize) {
    let mut best = start;
    let mut runs = 0usize;
    // Shorter, then lexicographically smaller, is simpler.
    fn simpler(a: &[u64], b: &[u64]) -> bool {
        a.len() < b.len() || (a.len() == b.len() && a < b)
    }
    loop {
        let before = best.clone();
        // Delete blocks.
        for size in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i >= size {
                i -= 1;
                if i + size > best.len() || runs >= max_runs {
                    continue;
                }
                let mut c = best.clone();
                c.drain(i..i + size);
                runs += 1;
                if let Some(t) = fails(c) {
                    if simpler(&t, &best) {
                        best = t;
                    }
                }
                if size > 4 {
                    i = i.saturating_sub(size / 2);
                }
            }
        }
        // Zero blocks.
        for size in [16usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if runs < max_runs && best[i..end].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    for v in &mut c[i..end] {
                        *v = 0;
                    }
                    runs += 1;
                    if let Some(t) = fails(c) {
                        if simpler(&t, &best) {
                            best = t;
                        }
                    }
                }
                i += size;
            }
        }
        // Lower single values by bisection.
        let mut i = 0;
        while i < best.len() && runs < max_runs {
            let mut lo = 0u64;
            while i < best.len() && lo < best[i] && runs < max_runs {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                runs += 1;
                match fails(c) {
                    Some(t) if simpler(&t, &best) => best = t,
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if best == before || runs >= max_runs {
            return (best, runs);
        }
    }
}
