//! The choice tape: the only source of nondeterminism in a simulated run.
//!
//! In `Gen` mode choices come from a PRNG seeded by one integer and are recorded; in `Replay` mode
//! they come from a recorded tape (0 once it is exhausted). Everywhere in the simulator 0 is the
//! benign choice (no fault, simplest value), so shrinking a tape simplifies the run.

pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        // splitmix to spread the seed
        let mut z = seed.wrapping_add(0x9E3779B97F4A7C15);
        let mut next = || {
            z = z.wrapping_add(0x9E3779B97F4A7C15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
            x ^ (x >> 31)
        };
        let a = next();
        let b = next() | 1;
        Rng(a, b)
    }
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let s0 = self.0;
        let mut s1 = self.1;
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r
    }
}

enum Src {
    Gen(Rng),
    Replay(Vec<u64>, usize),
}

pub struct Tape {
    src: Src,
    pub log: Vec<u64>,
    /// Written choice by choice, so that a run that kills the process leaves its tape behind.
    pub sink: Option<std::fs::File>,
}

pub const MAX_TAPE: usize = 2_000_000;

impl Tape {
    pub fn gen(seed: u64) -> Tape {
        Tape { src: Src::Gen(Rng::new(seed)), log: Vec::new(), sink: None }
    }
    pub fn replay(t: Vec<u64>) -> Tape {
        Tape { src: Src::Replay(t, 0), log: Vec::new(), sink: None }
    }
    /// A value in 0..n.
    pub fn choose(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.src {
            Src::Gen(r) => {
                if self.log.len() >= MAX_TAPE {
                    0
                } else {
                    r.next() % n
                }
            }
            Src::Replay(t, p) => {
                let v = t.get(*p).copied().unwrap_or(0);
                *p += 1;
                if v >= n {
                    n - 1
                } else {
                    v
                }
            }
        };
        if self.log.len() < MAX_TAPE {
            self.log.push(v);
            if let Some(f) = &mut self.sink {
                use std::io::Write;
                let _ = writeln!(f, "{}", v);
            }
        }
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.choose(n as u64) as usize
    }
    /// Any 64-bit value.
    pub fn raw(&mut self) -> u64 {
        self.choose(u64::MAX)
    }
    /// True with probability num/den; 0 on the tape means false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.choose(den) >= den - num
    }
    pub fn coin(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// Index chosen by weight; index 0 is the benign one.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.choose(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo {
            return lo;
        }
        if hi - lo == u64::MAX {
            return self.raw();
        }
        lo + self.choose(hi - lo + 1)
    }
    pub fn byte(&mut self) -> u8 {
        self.choose(256) as u8
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.idx(i + 1); // 0 keeps the order
            v.swap(i, j);
        }
    }
}

/// The seed of run `i` of a search.
pub fn run_seed(seed: u64, prop: &str, shard: u64, i: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    let mut eat = |b: &[u8]| {
        for x in b {
            h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    };
    eat(&seed.to_le_bytes());
    eat(prop.as_bytes());
    eat(&shard.to_le_bytes());
    eat(&i.to_le_bytes());
    Rng::new(h).next()
}

/// JSON string literal.
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Shrinks a failing tape. `fails` re-executes a candidate and says whether the same violation
/// class persists. Bounded by `budget` executions.
pub fn minimise(start: Vec<u64>, budget: usize, mut fails: impl FnMut(&[u64]) -> bool) -> Vec<u64> {
    let mut best = start;
    let mut left = budget;
    while best.last() == Some(&0) {
        best.pop();
    }
    let mut progress = true;
    while progress && left > 0 {
        progress = false;
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && left > 0 {
            let mut i = 0;
            while i < best.len() && left > 0 {
                let end = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..end);
                left -= 1;
                if fails(&c) {
                    best = c;
                    progress = true;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 4).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && left > 0 {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..end] {
                        *x = 0;
                    }
                    left -= 1;
                    if fails(&c) {
                        best = c;
                        progress = true;
                    }
                }
                i += size;
            }
            if size == 1 || left == 0 {
                break;
            }
            size /= 2;
        }
        // shrink values
        let mut i = 0;
        while i < best.len() && left > 0 {
            let v = best[i];
            for cand in [1, v / 2, v.wrapping_sub(1)] {
                if cand < best[i] && left > 0 {
                    let mut c = best.clone();
                    c[i] = cand;
                    left -= 1;
                    if fails(&c) {
                        best = c;
                        progress = true;
                    }
                }
            }
            i += 1;
        }
        while best.last() == Some(&0) {
            best.pop();
        }
    }
    best
}
