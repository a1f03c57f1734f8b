//! The choice tape: every random decision of every generator goes through [`Src`], so one case is
//! fully described by the list of integers drawn. Shrinking edits that list, a replay file stores
//! it, and nothing else in a property may be random.

#[derive(Clone)]
pub struct Rng(u64, u64);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, stream: u64, idx: u64) -> Rng {
        let mut s = seed ^ 0x5DEE_CE66_D1CE_4E5B;
        let a = splitmix(&mut s);
        let mut s2 = a ^ stream.wrapping_mul(0xA24B_AED4_963E_E407);
        let b = splitmix(&mut s2);
        let mut s3 = b ^ idx.wrapping_mul(0x9FB2_1C65_1E98_DF25);
        let x = splitmix(&mut s3);
        let y = splitmix(&mut s3) | 1;
        Rng(x, y)
    }
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let s0 = self.0;
        let mut s1 = self.1;
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r
    }
}

pub struct Src {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    /// Soft bound on generated sizes, 1..=100.
    pub size: usize,
    /// What collections and nesting may exceed their usual bounds by, altogether; 0 in most cases.
    pub big: usize,
    sticky: u64,
}

impl Src {
    pub fn random(rng: Rng, size: usize) -> Src {
        Src { tape: Vec::new(), pos: 0, rng: Some(rng), size, big: 0, sticky: 0 }.sized()
    }
    pub fn replay(tape: Vec<u64>, size: usize) -> Src {
        Src { tape, pos: 0, rng: None, size, big: 0, sticky: 0 }.sized()
    }
    /// One case in 25 is larger than the others.
    fn sized(mut self) -> Src {
        if self.chance(1, 25) {
            self.big = 1 << self.range(3, 9);
            self.sticky = self.big as u64;
        }
        self
    }
    pub fn used_tape(&self) -> Vec<u64> {
        self.tape[..self.pos.min(self.tape.len())].to_vec()
    }
    /// Uniform in `0..n` (0 is the simplest choice). `n == 0` means the full `u64` range.
    pub fn draw(&mut self, n: u64) -> u64 {
        if let Some(rng) = &mut self.rng {
            let r = rng.next();
            let v = if n == 0 { r } else { ((r as u128 * n as u128) >> 64) as u64 };
            self.tape.push(v);
            self.pos += 1;
            v
        } else {
            let v = self.tape.get(self.pos).copied().unwrap_or(0);
            self.pos += 1;
            if n == 0 || v < n {
                v
            } else {
                n - 1
            }
        }
    }
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        self.draw(n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    /// True with probability `num/den`; false is the simple choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Index drawn with the given weights; put the simplest alternative first.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|w| u64::from(*w)).sum();
        let mut v = self.draw(total);
        for (i, w) in ws.iter().enumerate() {
            if v < u64::from(*w) {
                return i;
            }
            v -= u64::from(*w);
        }
        ws.len() - 1
    }
    /// Geometric-ish length in `0..=max` with the given mean; 0 simplest, deletion friendly.
    pub fn more(&mut self, cur: usize, mean: usize, max: usize) -> bool {
        if cur < max {
            return self.draw(1 + mean as u64) > 0;
        }
        if self.big == 0 || max < 2 {
            return false;
        }
        self.big -= 1;
        if cur == max {
            self.chance(1, 4)
        } else {
            self.draw(self.sticky) > 0
        }
    }
    /// How deep to nest, if deeper than usual.
    pub fn deep(&mut self) -> usize {
        if self.big < 8 || !self.chance(1, 30) {
            return 0;
        }
        let n = self.range(4, self.big.min(48));
        self.big -= n;
        n
    }
}
