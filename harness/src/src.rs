//! Recorded choice sequences: every random decision of a generator goes through `Src`, so a case is
//! a pure function of its choices. Shrinking edits the choices and re-runs the generator; choice 0
//! is always the simplest alternative.
#[derive(Clone)]
pub struct Src {
    fixed: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0xD6E8FEB86659FD93);
    splitmix(&mut x)
}

impl Src {
    pub fn random(seed: u64) -> Src {
        let mut x = seed;
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Src { fixed: None, pos: 0, rec: vec![], s }
    }
    pub fn replay(choices: Vec<u64>) -> Src {
        Src { fixed: Some(choices), pos: 0, rec: vec![], s: [1, 2, 3, 4] }
    }
    fn next(&mut self) -> u64 {
        // xoshiro256**
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n >= 1)
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n >= 1);
        let v = match &self.fixed {
            // long after the end: a generator that repeats until it likes the result
            Some(f) if self.pos > f.len() + 3000 => self.next() % n,
            Some(f) => f.get(self.pos).copied().unwrap_or(0) % n,
            None => {
                let r = self.next();
                ((r as u128 * n as u128) >> 64) as u64
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range, shrinks towards `a`
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.idx(b - a + 1)
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.idx(v.len())]
    }
    /// index with the given weights; index 0 is the simplest
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total);
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        unreachable!()
    }
    /// small numbers likely, up to max
    pub fn small(&mut self, max: usize) -> usize {
        let cap = match self.weighted(&[5, 4, 2, 1]) {
            0 => 2.min(max),
            1 => 4.min(max),
            2 => 8.min(max),
            _ => max,
        };
        self.range(0, cap)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            // choice 0 keeps the order
            let j = i - self.idx(i + 1);
            v.swap(i, j);
        }
    }
    pub fn bits(&mut self) -> u64 {
        (self.below(1 << 32) << 32) | self.below(1 << 32)
    }
}
