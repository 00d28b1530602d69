//! The generation engine: a choice-sequence property tester (the design of Hypothesis).
//!
//! A case is a pure function of a finite sequence of integers ("choices"). A generator draws
//! bounded integers from a [`Src`]; the engine records them. A failing case is shrunk by editing
//! the recorded sequence (deleting, zeroing, lowering) and running the same generator again, so
//! shrinking works the same for whole operation histories, documents and raw bytes, and a replay
//! file is just the sequence. Crashes shrink the same way, because every shrink candidate is run
//! in a process of its own.

use std::collections::{BTreeMap, HashSet};
use std::io::Write;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    Rng::new(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93)).next()
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b {
        h = (h ^ u64::from(x)).wrapping_mul(0x0100_0000_01b3);
    }
    mix(h, b.len() as u64)
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>),
    /// An edited sequence, continued at random.
    Mutant(Vec<u64>, Rng),
}

pub struct Src {
    mode: Mode,
    pos: usize,
    pub taken: Vec<u64>,
    journal: Option<std::fs::File>,
    /// Choices (and filled bytes) after which every choice is the simplest one: edited sequences
    /// must not grow without bounds.
    max_choices: usize,
    room: usize,
}

const MAX_CHOICES: usize = 400_000;

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { mode: Mode::Random(Rng::new(seed)), pos: 0, taken: Vec::new(), journal: None, max_choices: MAX_CHOICES, room: usize::MAX }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { mode: Mode::Replay(choices), pos: 0, taken: Vec::new(), journal: None, max_choices: MAX_CHOICES, room: usize::MAX }
    }
    pub fn mutant(choices: Vec<u64>, seed: u64) -> Self {
        Src { mode: Mode::Mutant(choices, Rng::new(seed)), pos: 0, taken: Vec::new(), journal: None, max_choices: 30_000, room: 48 << 20 }
    }
    pub fn with_journal(mut self, f: std::fs::File) -> Self {
        self.journal = Some(f);
        self
    }

    /// A value in `0..n`. Zero is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 || self.taken.len() >= self.max_choices || self.room == 0 {
            return 0;
        }
        let v = match &mut self.mode {
            Mode::Random(r) => {
                let x = r.next();
                ((u128::from(x) * u128::from(n)) >> 64) as u64
            }
            Mode::Replay(c) => {
                let v = c.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n - 1)
            }
            Mode::Mutant(c, r) => {
                self.pos += 1;
                match c.get(self.pos - 1) {
                    Some(&v) => v % n,
                    None => ((u128::from(r.next()) * u128::from(n)) >> 64) as u64,
                }
            }
        };
        self.taken.push(v);
        if let Some(j) = &mut self.journal {
            let _ = j.write_all(&v.to_le_bytes());
        }
        v
    }
    /// Any u64.
    pub fn word(&mut self) -> u64 {
        self.below(u64::MAX)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.usize(hi - lo + 1)
    }
    /// True with probability num/den; the simplest choice is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut v = self.below(u64::from(total)) as u32;
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    /// Another element? (geometric with the given mean, capped)
    pub fn more(&mut self, have: usize, mean: u64, cap: usize) -> bool {
        have < cap && self.chance(mean, mean + 1)
    }
    /// One choice that expands into `n` pseudo-random bytes (0 gives all `a`).
    pub fn fill(&mut self, n: usize) -> Vec<u8> {
        let s = self.below(1 << 32);
        self.room = self.room.saturating_sub(n);
        fill_from(s, n)
    }
}

pub fn fill_from(s: u64, n: usize) -> Vec<u8> {
    if s == 0 {
        return vec![b'a'; n];
    }
    let mut r = Rng::new(s);
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        v.extend_from_slice(&r.next().to_le_bytes());
    }
    v.truncate(n);
    v
}

/// What one run learned about the cases it made.
#[derive(Default)]
pub struct Ctx {
    pub classes: BTreeMap<&'static str, u64>,
    pub nontrivial: HashSet<u64>,
    pub nontrivial_total: u64,
    /// Set by the property when the current case counts as non-trivial.
    pub case_nontrivial: Option<u64>,
    pub verbose: bool,
    pub notes: Vec<String>,
    /// Extra executions inside one case (cuts of one document, permutations, ...).
    pub sub: u64,
    /// Notes are written here at once (a crash would lose them otherwise).
    pub stream: Option<std::fs::File>,
}

impl Ctx {
    pub fn class(&mut self, name: &'static str) {
        *self.classes.entry(name).or_insert(0) += 1;
    }
    pub fn class_if(&mut self, c: bool, name: &'static str) {
        if c {
            self.class(name);
        }
    }
    /// Mark the case non-trivial; `fp` identifies it for counting distinct ones.
    pub fn nontrivial(&mut self, fp: u64) {
        self.case_nontrivial = Some(match self.case_nontrivial {
            Some(x) => mix(x, fp),
            None => fp,
        });
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let mut s = f();
            if s.len() > 1500 {
                let mut cut = 1500;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str("...");
            }
            if let Some(f) = &mut self.stream {
                let _ = writeln!(f, "{s}");
            }
            self.notes.push(s);
        }
    }
    pub fn begin_case(&mut self) {
        self.case_nontrivial = None;
        self.notes.clear();
    }
    pub fn end_case(&mut self) -> bool {
        if let Some(fp) = self.case_nontrivial {
            self.nontrivial_total += 1;
            self.nontrivial.insert(fp);
            true
        } else {
            false
        }
    }
}

pub type Res = Result<(), String>;
pub type Check = fn(&mut Src, &mut Ctx) -> Res;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: got {} want {}", format!($($m)*), $crate::engine::clip(&format!("{a:?}")), $crate::engine::clip(&format!("{b:?}"))));
        }
    }};
}

pub fn clip(s: &str) -> String {
    if s.len() <= 400 {
        return s.to_string();
    }
    let mut cut = 400;
    while !s.is_char_boundary(cut) {
        cut -= 1;
    }
    format!("{}...({} bytes)", &s[..cut], s.len())
}

/// Run one case, turning a panic of the code under test into a failure.
pub fn run_case(check: Check, src: &mut Src, cx: &mut Ctx) -> Res {
    cx.begin_case();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(src, cx)));
    match r {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", take_panic())),
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn take_panic() -> String {
    LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()))
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Shrink a failing choice sequence. `fails` runs a candidate (in its own process).
pub fn shrink(mut best: Vec<u64>, budget: usize, mut fails: impl FnMut(&[u64]) -> bool) -> Vec<u64> {
    let mut left = budget;
    let mut seen: HashSet<Vec<u64>> = HashSet::new();
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, left: &mut usize| -> bool {
        if *left == 0 || cand == *best || !seen.insert(cand.clone()) {
            return false;
        }
        *left -= 1;
        if fails(&cand) {
            *best = cand;
            true
        } else {
            false
        }
    };
    // Drop the tail first.
    let mut cut = best.len() / 2;
    while cut > 0 && left > 0 {
        if best.len() > cut {
            let c = best[..best.len() - cut].to_vec();
            if attempt(c, &mut best, &mut left) {
                continue;
            }
        }
        cut /= 2;
    }
    loop {
        let before = best.clone();
        // Delete chunks.
        for size in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len().saturating_sub(size);
            loop {
                if left == 0 {
                    return best;
                }
                if i + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    if !attempt(c.clone(), &mut best, &mut left) && i > 0 && best[i - 1] > 0 {
                        // A length drawn before the chunk may have to drop with it.
                        c[i - 1] -= 1;
                        attempt(c, &mut best, &mut left);
                    }
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(size.max(1));
            }
        }
        // Lower single values.
        for i in 0..best.len() {
            if left == 0 {
                return best;
            }
            if i >= best.len() || best[i] == 0 {
                continue;
            }
            let mut c = best.clone();
            c[i] = 0;
            if attempt(c, &mut best, &mut left) {
                continue;
            }
            let (mut lo, mut hi) = (0u64, best[i]);
            while hi - lo > 1 && left > 0 {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if attempt(c, &mut best, &mut left) {
                    hi = mid;
                } else {
                    lo = mid;
                }
                if i >= best.len() {
                    break;
                }
            }
        }
        if best == before || left == 0 {
            return best;
        }
    }
}
