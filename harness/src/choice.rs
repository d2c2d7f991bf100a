//! The recorded choice sequence every generated case is a pure function of.

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn hash_bytes(mut h: u64, data: &[u8]) -> u64 {
    for &b in data {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    let mut r = Rng::new(h);
    r.next()
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>, usize),
}

pub struct Src {
    mode: Mode,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { mode: Mode::Random(Rng::new(seed)), rec: Vec::new() }
    }
    pub fn replay(choices: Vec<u64>) -> Src {
        Src { mode: Mode::Replay(choices, 0), rec: Vec::new() }
    }
    pub fn case(prop: &str, seed: u64, index: u64) -> Src {
        let mut h = hash_bytes(0xcbf2_9ce4_8422_2325, prop.as_bytes());
        h = hash_bytes(h, &seed.to_le_bytes());
        h = hash_bytes(h, &index.to_le_bytes());
        Src::random(h)
    }
    /// A number in `0..n`; 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n >= 1);
        let v = match &mut self.mode {
            Mode::Random(r) => {
                if n == 1 { 0 } else { r.next() % n }
            }
            Mode::Replay(c, pos) => {
                let v = c.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                v % n
            }
        };
        self.rec.push(v);
        v
    }
    pub fn any_u64(&mut self) -> u64 {
        let v = match &mut self.mode {
            Mode::Random(r) => r.next(),
            Mode::Replay(c, pos) => {
                let v = c.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                v
            }
        };
        self.rec.push(v);
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// true with probability pct/100; false is simplest.
    pub fn pct(&mut self, pct: u64) -> bool {
        self.below(100) >= 100 - pct.min(100)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.us(xs.len());
        &xs[i]
    }
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|&w| u64::from(w)).sum();
        assert!(total > 0);
        let mut v = self.below(total);
        for (i, &w) in ws.iter().enumerate() {
            let w = u64::from(w);
            if v < w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        // 0 choices keep the order
        for i in 0..xs.len() {
            let j = i + self.us(xs.len() - i);
            xs.swap(i, j);
        }
    }
    /// Integers biased to boundaries.
    pub fn int(&mut self) -> u64 {
        match self.weighted(&[40, 15, 15, 10, 10, 10]) {
            0 => self.below(10),
            1 => self.below(300),
            2 => {
                let b = self.below(64);
                let d = self.below(3);
                (1u64 << b).wrapping_add(d).wrapping_sub(1)
            }
            3 => u64::MAX - self.below(4),
            4 => self.any_u64(),
            _ => {
                let k = self.below(20) as u32;
                10u64.pow(k).wrapping_add(self.below(3)).wrapping_sub(1)
            }
        }
    }
}
