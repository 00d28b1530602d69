//! An independent encoder that lays a document out in any of the ways the format allows.

use crate::engine::Src;
use crate::model::D;

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub wide: u32,
    pub wide_unneeded: u32,
    pub chains: u32,
    pub shared: u32,
    pub long_ints: u32,
    pub double32: u32,
    pub inline_wide: u32,
    pub padding: u32,
    pub out_of_line_small: u32,
    pub empty_inline: u32,
    pub unused: u32,
    pub loose: u32,
}

pub struct Enc<'a, 's> {
    pub out: Vec<u8>,
    pub src: &'s mut Src,
    pub stats: Stats,
    table: Option<&'a [String]>,
    seen: Vec<(D, usize)>,
    /// Keep every choice canonical except the ones enabled here (0..=3).
    pub spice: u64,
    /// Also write lengths and counts longer than they need to be, which a reader may refuse.
    pub loose: bool,
    budget: usize,
}

/// A small value as its bytes (header and content), before padding to a slot.
fn small(d: &D, e: &mut Enc) -> Option<Vec<u8>> {
    match d {
        _ => Some(e.bytes_of(d)),
    }
}

impl<'a, 's> Enc<'a, 's> {
    pub fn new(src: &'s mut Src, table: Option<&'a [String]>) -> Self {
        let spice = src.below(4);
        Enc { out: Vec::new(), src, stats: Stats::default(), table, seen: Vec::new(), spice, loose: false, budget: 200_000 }
    }

    fn spicy(&mut self, num: u64, den: u64) -> bool {
        self.spice > 0 && self.src.chance(num * self.spice, den * 3)
    }

    fn pad(&mut self) {
        if self.out.len() % 2 != 0 {
            let j = self.junk(1);
            self.out.extend(j);
        }
        if self.spicy(1, 8) {
            self.stats.padding += 1;
            let n = 2 * self.src.range(1, 6);
            let j = self.junk(n);
            self.out.extend(j);
        }
    }
    fn junk(&mut self, n: usize) -> Vec<u8> {
        if self.spice == 0 {
            return vec![0; n];
        }
        self.src.fill(n)
    }

    /// A byte, or the bits of one, the format has no use for.
    fn unused(&mut self) -> u8 {
        if self.spicy(1, 6) {
            self.stats.unused += 1;
            self.src.below(256) as u8
        } else {
            0
        }
    }

    /// A length or a count, which may have more bytes than it needs.
    fn varint(&mut self, v: u64) -> Vec<u8> {
        let mut b = varint(v);
        if self.loose && self.src.chance(1, 3) {
            self.stats.loose += 1;
            let n = self.src.usize(11 - b.len());
            for _ in 0..n {
                *b.last_mut().unwrap() |= 0x80;
                b.push(0);
            }
        }
        b
    }

    fn string(&mut self, tag: u8, s: &[u8]) -> Vec<u8> {
        if !self.loose || (s.len() < 15 && !self.src.chance(1, 4)) {
            return str_bytes(tag, s);
        }
        self.stats.loose += 1;
        let mut v = vec![tag | 15];
        v.extend(self.varint(s.len() as u64));
        v.extend_from_slice(s);
        v
    }

    /// Out-of-line bytes of a scalar.
    fn bytes_of(&mut self, d: &D) -> Vec<u8> {
        match d {
            D::Null => vec![0x30, self.unused()],
            D::Undef => vec![0x3c, self.unused()],
            D::Bool(false) => vec![0x34, self.unused()],
            D::Bool(true) => vec![0x38, self.unused()],
            D::Int(i) => {
                if (-2048..=2047).contains(i) && !self.spicy(1, 4) {
                    let v = (*i as i16) as u16 & 0x0fff;
                    return vec![(v >> 8) as u8, v as u8];
                }
                let signed_ok = i64::try_from(*i).is_ok();
                let unsigned = *i >= 0 && (!signed_ok || self.src.bool());
                let min = if unsigned {
                    (1..=8usize).find(|n| *n == 8 || *i < (1i128 << (8 * n))).unwrap_or(8)
                } else {
                    (1..=8usize).find(|n| *n == 8 || (*i >= -(1i128 << (8 * n - 1)) && *i < (1i128 << (8 * n - 1)))).unwrap_or(8)
                };
                let n = if self.spicy(1, 3) {
                    self.stats.long_ints += 1;
                    self.src.range(min, 8)
                } else {
                    min
                };
                let le = if unsigned { (*i as u64).to_le_bytes() } else { (*i as i64).to_le_bytes() };
                let mut v = vec![0x10 | if unsigned { 8 } else { 0 } | (n as u8 - 1)];
                v.extend_from_slice(&le[..n]);
                v
            }
            D::F32(b) => {
                let x = self.unused();
                let mut v = vec![0x20 | x & 3, x];
                v.extend_from_slice(&b.to_le_bytes());
                v
            }
            D::F64(b) => {
                let f = f64::from_bits(*b);
                let g = f as f32;
                if (f64::from(g).to_bits() == *b || f.is_nan()) && self.spicy(1, 2) {
                    self.stats.double32 += 1;
                    let x = self.unused();
                    let mut v = vec![0x24 | x & 3, x];
                    v.extend_from_slice(&g.to_le_bytes());
                    return v;
                }
                // (A double that is to be read as a double.)
                let x = self.unused();
                let mut v = vec![0x28 | x & 7, x];
                v.extend_from_slice(&b.to_le_bytes());
                v
            }
            D::Str(s) => self.string(0x40, s.as_bytes()),
            D::Data(s) => self.string(0x50, s),
            _ => unreachable!(),
        }
    }

    fn can_be_small(d: &D) -> bool {
        match d {
            D::Null | D::Undef | D::Bool(_) => true,
            D::Int(i) => (-(1i128 << 23)..(1i128 << 24)).contains(i),
            D::Str(s) => s.len() <= 3,
            D::Data(s) => s.len() <= 3,
            D::Arr(v) => v.is_empty(),
            D::Dict(v) => v.is_empty(),
            _ => false,
        }
    }

    /// Write the value somewhere and give its position.
    pub fn place(&mut self, d: &D) -> usize {
        if self.spicy(1, 3) {
            if let Some((_, p)) = self.seen.iter().rev().find(|(x, _)| x == d) {
                self.stats.shared += 1;
                return *p;
            }
        }
        let at = match d {
            D::Arr(v) => {
                let ch = self.children(&v.iter().collect::<Vec<_>>());
                self.collection(0x60, v.len(), ch)
            }
            D::Dict(v) => {
                let mut v: Vec<&(String, D)> = v.iter().collect();
                let t = self.table;
                let num = |k: &String| t.and_then(|t| t.iter().position(|x| x == k));
                // A key in the table may still be written as a string.
                let as_num: Vec<Option<usize>> =
                    v.iter().map(|p| num(&p.0).filter(|_| !self.spicy(1, 6))).collect();
                let mut order: Vec<usize> = (0..v.len()).collect();
                order.sort_by(|a, b| match (as_num[*a], as_num[*b]) {
                    (Some(x), Some(y)) => x.cmp(&y),
                    (Some(_), None) => std::cmp::Ordering::Less,
                    (None, Some(_)) => std::cmp::Ordering::Greater,
                    (None, None) => v[*a].0.as_bytes().cmp(v[*b].0.as_bytes()),
                });
                let nums: Vec<Option<usize>> = order.iter().map(|i| as_num[*i]).collect();
                v = order.iter().map(|i| v[*i]).collect();
                let keys: Vec<D> = v
                    .iter()
                    .zip(&nums)
                    .map(|(p, n)| match n {
                        Some(_) => D::Null,
                        None => D::Str(p.0.clone()),
                    })
                    .collect();
                let mut flat: Vec<&D> = Vec::new();
                for (k, p) in keys.iter().zip(&v) {
                    flat.push(k);
                    flat.push(&p.1);
                }
                let mut ch = self.children(&flat);
                for (i, n) in nums.iter().enumerate() {
                    if let Some(n) = n {
                        ch[2 * i] = Slot::Inline(vec![(*n >> 8) as u8, *n as u8]);
                    }
                }
                self.collection(0x70, v.len(), ch)
            }
            s => {
                let b = self.bytes_of(s);
                self.pad();
                let at = self.out.len();
                self.out.extend(b);
                at
            }
        };
        if self.seen.len() < 200 && self.budget > 0 {
            let n = d.nodes();
            if n < 200 {
                self.budget = self.budget.saturating_sub(n);
                self.seen.push((d.clone(), at));
            }
        }
        at
    }

    /// Decide inline or by reference for every slot; place the referenced ones (in any order).
    fn children(&mut self, v: &[&D]) -> Vec<Slot> {
        let mut out: Vec<Option<Slot>> = Vec::with_capacity(v.len());
        for _ in v {
            out.push(None);
        }
        let rev = self.spicy(1, 2);
        for j in 0..v.len() {
            let i = if rev { v.len() - 1 - j } else { j };
            let d = v[i];
            let sl = if Self::can_be_small(d) && !self.spicy(1, 4) {
                match d {
                    D::Arr(_) | D::Dict(_) => {
                        self.stats.empty_inline += 1;
                        let w = if self.src.bool() { 8 } else { 0 };
                        let t = if matches!(d, D::Arr(_)) { 0x60 } else { 0x70 };
                        Slot::Inline(vec![t | w, 0])
                    }
                    _ => {
                        let b = small(d, self).unwrap();
                        if b.len() <= 2 || (b.len() <= 4 && self.spice > 0) {
                            Slot::Inline(b)
                        } else {
                            Slot::At(self.place(d))
                        }
                    }
                }
            } else {
                if Self::can_be_small(d) {
                    self.stats.out_of_line_small += 1;
                }
                let mut p = self.place(d);
                while self.spicy(1, 6) {
                    p = self.hop(p);
                }
                if self.spicy(1, 40_000) {
                    p = self.hops(p);
                }
                Slot::At(p)
            };
            out[i] = Some(sl);
        }
        out.into_iter().map(Option::unwrap).collect()
    }

    /// A wide reference to `target`, and its own position.
    fn hop(&mut self, target: usize) -> usize {
        self.pad();
        let at = self.out.len();
        let off = ((at - target) / 2) as u32 | 0x8000_0000;
        self.out.extend_from_slice(&off.to_be_bytes());
        self.stats.chains += 1;
        at
    }

    /// A long chain of references: they may be of any length.
    fn hops(&mut self, mut target: usize) -> usize {
        for _ in 0..self.src.range(100, 6_000) {
            let at = self.out.len() + self.out.len() % 2;
            self.out.resize(at, 0);
            let off = ((at - target) / 2) as u32 | 0x8000_0000;
            self.out.extend_from_slice(&off.to_be_bytes());
            self.stats.chains += 1;
            target = at;
        }
        target
    }

    fn collection(&mut self, tag: u8, count: usize, slots: Vec<Slot>) -> usize {
        self.pad();
        let at = self.out.len();
        let mut head = vec![tag, 0];
        let long = self.loose && self.src.chance(1, 4);
        if count < 2047 && !long {
            head[0] |= (count >> 8) as u8;
            head[1] = count as u8;
        } else {
            head[0] |= 7;
            head[1] = 0xff;
            self.stats.loose += u32::from(long);
            let count = self.varint(count as u64);
            head.extend(count);
            if head.len() % 2 != 0 {
                head.push(0);
            }
        }
        let first = at + head.len();
        let need = slots.iter().enumerate().any(|(i, s)| match s {
            Slot::Inline(b) => b.len() > 2,
            Slot::At(p) => first + 2 * i - p > 2 * 0x3fff,
        });
        let wide = need || self.spicy(1, 3);
        if wide {
            self.stats.wide += 1;
            if !need {
                self.stats.wide_unneeded += 1;
            }
            head[0] |= 8;
        }
        let w = if wide { 4 } else { 2 };
        self.out.extend(head);
        for s in &slots {
            let here = self.out.len();
            match s {
                Slot::Inline(b) => {
                    let mut b = b.clone();
                    if b.len() > 2 {
                        self.stats.inline_wide += 1;
                    }
                    if b.len() < w {
                        let j = if slots.len() > 64 { vec![0; w - b.len()] } else { self.junk(w - b.len()) };
                        b.extend(j);
                    }
                    self.out.extend(b);
                }
                Slot::At(p) => {
                    let off = (here - p) / 2;
                    if wide {
                        self.out.extend_from_slice(&(off as u32 | 0x8000_0000).to_be_bytes());
                    } else {
                        self.out.extend_from_slice(&(off as u16 | 0x8000).to_be_bytes());
                    }
                }
            }
        }
        at
    }

    /// Finish with a root reference to `target`.
    pub fn root(&mut self, target: usize) {
        let mut t = target;
        while self.spicy(1, 6) {
            t = self.hop(t);
        }
        if self.spicy(1, 1_500) {
            t = self.hops(t);
        }
        self.pad();
        if self.out.len() - t > 2 * 0x3fff {
            t = self.hop(t);
            if self.out.len() % 2 != 0 {
                self.out.push(0);
            }
        }
        let off = ((self.out.len() - t) / 2) as u16 | 0x8000;
        self.out.extend_from_slice(&off.to_be_bytes());
    }
}

pub enum Slot {
    Inline(Vec<u8>),
    At(usize),
}

pub fn varint(mut v: u64) -> Vec<u8> {
    let mut out = Vec::new();
    while v >= 0x80 {
        out.push((v & 0x7f) as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
    out
}
pub fn str_bytes(tag: u8, s: &[u8]) -> Vec<u8> {
    let mut v;
    if s.len() < 15 {
        v = vec![tag | s.len() as u8];
    } else {
        v = vec![tag | 15];
        v.extend(varint(s.len() as u64));
    }
    v.extend_from_slice(s);
    if v.len() == 1 {
        v.push(0);
    }
    v
}

/// A random legal layout of `d`.
pub fn layout(src: &mut Src, d: &D, table: Option<&[String]>) -> (Vec<u8>, Stats) {
    layout_with(src, d, table, false)
}
pub fn layout_with(src: &mut Src, d: &D, table: Option<&[String]>, loose: bool) -> (Vec<u8>, Stats) {
    let mut e = Enc::new(src, table);
    e.loose = loose;
    // A two-byte root of its own.
    if Enc::can_be_small(d) && e.src.bool() {
        let b = match d {
            D::Arr(_) => vec![0x60, 0],
            D::Dict(_) => vec![0x70, 0],
            _ => e.bytes_of(d),
        };
        if b.len() == 2 {
            return (b, e.stats);
        }
    }
    let at = e.place(d);
    e.root(at);
    (e.out, e.stats)
}
