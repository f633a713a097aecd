//! Choice tape: every random decision of a case, recorded for shrinking and replay.

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xD6E8FEB86659FD93));
    r.next();
    r.next()
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &b in data {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub struct Tape {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pub rec: Vec<u64>,
    stream: Option<std::fs::File>,
}

impl Tape {
    pub fn random(seed: u64) -> Self {
        Tape {
            rng: Some(Rng::new(seed)),
            replay: vec![],
            rec: vec![],
            stream: None,
        }
    }
    pub fn replay(v: Vec<u64>) -> Self {
        Tape {
            rng: None,
            replay: v,
            rec: vec![],
            stream: None,
        }
    }
    /// Also write every choice to a file at once (to know the tape of a case that kills the process)
    pub fn stream_to(&mut self, path: &std::path::Path) {
        self.stream = std::fs::File::create(path).ok();
    }

    /// Uniform in [0, n); 0 is the simplest choice
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.rng {
            Some(r) => r.below(n),
            None => {
                let i = self.rec.len();
                let v = self.replay.get(i).copied().unwrap_or(0);
                if v < n {
                    v
                } else {
                    v % n
                }
            }
        };
        self.rec.push(v);
        if let Some(f) = &mut self.stream {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    /// A choice in [0, n) that is `v` unless replayed
    pub fn given(&mut self, v: u64, n: u64) -> u64 {
        match self.rng.take() {
            Some(r) => {
                self.rec.push(v % n);
                self.rng = Some(r);
                if let Some(f) = &mut self.stream {
                    use std::io::Write;
                    let _ = f.write_all(&(v % n).to_le_bytes());
                }
                v % n
            }
            None => self.below(n),
        }
    }
    pub fn u(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in [lo, hi]
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.u(hi - lo + 1)
    }
    pub fn any64(&mut self) -> u64 {
        match &mut self.rng {
            Some(_) => {
                let a = self.below(1 << 32);
                let b = self.below(1 << 32);
                (b << 32) | a
            }
            None => {
                let a = self.below(1 << 32);
                let b = self.below(1 << 32);
                (b << 32) | a
            }
        }
    }
    pub fn any32(&mut self) -> u32 {
        self.below(1 << 32) as u32
    }
    /// True with probability num/den; false is simplest
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // v in [0,den): the top `num` values are "true"
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.u(items.len());
        &items[i]
    }
    /// Weighted choice, returns the index
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    /// A generator for bulk data that costs one choice
    pub fn sub(&mut self) -> Rng {
        let s = self.below(1 << 32);
        Rng::new(mix(s, 0x5eed))
    }
}
