//! Choice tape: every random decision of a generator is one draw from this
//! tape, so a case is fully described by its tape and shrinks as one value.
use rand_chacha::rand_core::{RngCore, SeedableRng};
use rand_chacha::ChaCha8Rng;
use sha2::{Digest, Sha256};

pub struct Tape {
    data: Vec<u32>,
    pos: usize,
    rng: Option<ChaCha8Rng>,
    pub limit: usize,
}

impl Tape {
    pub fn random(seed_parts: &[&str]) -> Self {
        let mut h = Sha256::new();
        for p in seed_parts {
            h.update(p.as_bytes());
            h.update([0]);
        }
        let seed: [u8; 32] = h.finalize().into();
        Tape { data: vec![], pos: 0, rng: Some(ChaCha8Rng::from_seed(seed)), limit: 1 << 20 }
    }
    pub fn replay(data: Vec<u32>) -> Self {
        Tape { data, pos: 0, rng: None, limit: 1 << 20 }
    }
    pub fn into_data(self) -> Vec<u32> {
        let mut d = self.data;
        d.truncate(self.pos);
        d
    }
    /// Uniform value in 0..n (n >= 1). 0 is the simplest choice.
    pub fn draw(&mut self, n: u32) -> u32 {
        assert!(n >= 1);
        assert!(self.pos < self.limit, "tape overrun");
        let v = if self.pos < self.data.len() {
            self.data[self.pos] % n
        } else {
            let v = match &mut self.rng {
                Some(r) => ((r.next_u32() as u64 * n as u64) >> 32) as u32,
                None => 0,
            };
            self.data.push(v);
            v
        };
        self.data[self.pos] = v;
        self.pos += 1;
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u32) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    /// True with probability pct/100; false is the simple choice.
    pub fn chance(&mut self, pct: u32) -> bool {
        self.draw(100) >= 100 - pct
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Weighted index.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut v = self.draw(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            // draw 0 keeps the element where it is
            let j = i - self.below(i + 1);
            xs.swap(i, j);
        }
    }
}
