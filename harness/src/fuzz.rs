//! Coverage-guided search over choice sequences: a case is the recorded sequence of another case,
//! edited, and it is kept for further edits when it reaches new code, a new count of it, or brings the
//! operands of some comparison of the code under test closer together than before.

use crate::engine::{mix, Rng};

extern "C" {
    fn fv_cov_begin();
    fn fv_cov_end(seen: *mut u8, len: usize) -> u32;
    fn fv_cov_size() -> usize;
    fn fv_cov_operand(r: u64) -> u64;
}

struct Entry {
    choices: Vec<u64>,
    cost: u64,
    picked: u64,
}

pub struct Fuzz {
    seen: Vec<u8>,
    corpus: Vec<Entry>,
    rng: Rng,
    total_cost: u64,
    cases: u64,
    pub features: u64,
}

const LONGEST: usize = 6000;

impl Fuzz {
    pub fn new(seed: u64) -> Self {
        let n = unsafe { fv_cov_size() };
        Fuzz { seen: vec![0; n], corpus: Vec::new(), rng: Rng::new(seed), total_cost: 0, cases: 0, features: 0 }
    }
    pub fn kept(&self) -> usize {
        self.corpus.len()
    }
    fn below(&mut self, n: usize) -> usize {
        ((u128::from(self.rng.next()) * n as u128) >> 64) as usize
    }
    /// The next candidate: a sequence and the seed of what follows it.
    pub fn next(&mut self) -> (Vec<u64>, u64) {
        let tail = self.rng.next();
        if self.corpus.len() < 8 || self.below(12) == 0 {
            return (Vec::new(), tail);
        }
        let i = self.choose();
        self.corpus[i].picked += 1;
        let mut c = self.corpus[i].choices.clone();
        let mut edits = 1;
        while edits < 6 && self.below(2) == 0 {
            edits += 1;
        }
        for _ in 0..edits {
            self.edit(&mut c);
        }
        c.truncate(2 * LONGEST);
        (c, tail)
    }
    /// Cheap, new and rarely picked entries first.
    fn choose(&mut self) -> usize {
        let n = self.corpus.len();
        let mut best = if self.below(3) == 0 { n - 1 - self.below(n.min(20)) } else { self.below(n) };
        for _ in 0..2 {
            let other = self.below(n);
            let (a, b) = (&self.corpus[best], &self.corpus[other]);
            if b.cost.saturating_mul(b.picked + 1) < a.cost.saturating_mul(a.picked + 1) {
                best = other;
            }
        }
        best
    }
    fn value(&mut self, old: u64) -> u64 {
        match self.below(8) {
            0 => self.rng.next(),
            1 => 0,
            2 => old.wrapping_add(1),
            3 => old.wrapping_sub(1),
            4 => old ^ (1 << self.below(64)),
            5 => {
                let k = self.below(64);
                (1u64 << k).wrapping_add(self.below(3) as u64).wrapping_sub(1)
            }
            6 => self.below(300) as u64,
            _ => {
                let r = self.rng.next();
                let d = self.below(3) as u64;
                unsafe { fv_cov_operand(r) }.wrapping_add(d).wrapping_sub(1)
            }
        }
    }
    fn edit(&mut self, c: &mut Vec<u64>) {
        let n = c.len();
        if n == 0 {
            return;
        }
        let i = self.below(n);
        let size = self.below(7);
        let len = 1 + self.below(1 << size);
        let j = (i + len).min(n);
        match self.below(12) {
            0..=4 => c[i] = self.value(c[i]),
            5 => {
                c.drain(i..j);
            }
            6 => {
                for _ in 0..len.min(32) {
                    let v = self.rng.next();
                    c.insert(i, v);
                }
            }
            7 => {
                // Repeat a stretch.
                let part = c[i..j].to_vec();
                let size = self.below(8);
                let times = 1 + self.below(1 << size);
                let times = times.min(LONGEST / part.len() + 1);
                let mut v = Vec::with_capacity(part.len() * times);
                for _ in 0..times {
                    v.extend_from_slice(&part);
                }
                c.splice(j..j, v);
            }
            8 => {
                // Copy a stretch over another place.
                let part = c[i..j].to_vec();
                let k = self.below(n);
                for (d, s) in c[k..].iter_mut().zip(part) {
                    *d = s;
                }
            }
            9 => {
                let o = self.below(self.corpus.len());
                let other = &self.corpus[o].choices;
                if !other.is_empty() {
                    let m = other.len();
                    let k = ((u128::from(self.rng.next()) * m as u128) >> 64) as usize;
                    let mut v = c[..i].to_vec();
                    v.extend_from_slice(&other[k..]);
                    *c = v;
                }
            }
            10 => c.truncate(i),
            _ => {
                // The same choice at every place that has this value nearby.
                let (old, new) = (c[i], self.value(c[i]));
                for v in &mut c[i..j] {
                    if *v == old {
                        *v = new;
                    }
                }
            }
        }
    }
    pub fn begin(&self) {
        unsafe { fv_cov_begin() }
    }
    pub fn end(&mut self, taken: &[u64], cost: u64) {
        let fresh = unsafe { fv_cov_end(self.seen.as_mut_ptr(), self.seen.len()) };
        self.cases += 1;
        self.total_cost += cost;
        if fresh == 0 {
            return;
        }
        self.features += u64::from(fresh);
        let mean = self.total_cost / self.cases;
        if taken.len() <= LONGEST && cost <= mean.saturating_mul(50).max(2000) {
            self.corpus.push(Entry { choices: taken.to_vec(), cost: cost.max(1), picked: 0 });
        }
    }
    pub fn seed_of(seed: u64, prop: u64, shard: u64) -> u64 {
        mix(mix(seed, prop), shard)
    }
}
