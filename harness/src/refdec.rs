//! An independent, strict decoder of the Fleece layout, by offsets into the buffer. It shares no
//! code with the crate under test and says, for any bytes, whether they must be refused, must be
//! accepted (and as which document), or are unspecified.

use crate::model::{f32n, f64n, D};

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    /// Well formed: must be accepted and read as this document.
    Good(D),
    /// Something reachable does not fit: must be refused.
    Bad(String),
    /// Structurally inside the buffer, but using encodings nobody specifies; may go either way.
    Grey(D, &'static str),
    /// Too big or too deep to judge here.
    Heavy,
}

pub struct Dec<'a> {
    b: &'a [u8],
    table: Option<&'a [String]>,
    budget: usize,
    grey: Option<&'static str>,
    pub max_depth: usize,
}

/// The bytes may be refused, but if they are accepted there is only one way to read them.
pub fn content_is_clear(why: &str) -> bool {
    matches!(why, "overlong varint" | "short string with a long length" | "small collection with a long count")
}

enum E {
    Bad(String),
    Heavy,
}
type R<T> = Result<T, E>;

fn bad<T>(s: impl Into<String>) -> R<T> {
    Err(E::Bad(s.into()))
}

pub fn decode(b: &[u8]) -> Verdict {
    decode_with(b, None, 20_000, 200)
}

pub fn decode_with(b: &[u8], table: Option<&[String]>, budget: usize, depth: usize) -> Verdict {
    let mut d = Dec { b, table, budget, grey: None, max_depth: depth };
    match d.root() {
        Ok(doc) => match d.grey {
            None => Verdict::Good(doc),
            Some(g) => Verdict::Grey(doc, g),
        },
        Err(E::Bad(s)) => Verdict::Bad(s),
        Err(E::Heavy) => Verdict::Heavy,
    }
}

impl Dec<'_> {
    /// Remember why the bytes are unspecified; a reason that leaves the content open wins.
    fn gray(&mut self, s: &'static str) {
        if self.grey.is_none_or(content_is_clear) {
            self.grey = Some(s);
        }
    }

    fn root(&mut self) -> R<D> {
        let n = self.b.len();
        if n == 0 || n % 2 != 0 {
            return bad("length is not a positive even number");
        }
        if self.b[n - 2] & 0x80 != 0 {
            let (at, end) = self.follow(n - 2, 2)?;
            self.value(at, end, 0)
        } else {
            if n > 2 {
                self.gray("root is an inline value after other bytes");
            }
            self.value(n - 2, n, 0)
        }
    }

    /// Follow the reference in the slot at `p`; gives the target and the end of the space for it.
    fn follow(&mut self, p: usize, width: usize) -> R<(usize, usize)> {
        let (mut p, mut width) = (p, width);
        loop {
            let off = if width == 2 {
                (usize::from(self.b[p] & 0x3f) << 8) | usize::from(self.b[p + 1])
            } else {
                (usize::from(self.b[p] & 0x3f) << 24)
                    | (usize::from(self.b[p + 1]) << 16)
                    | (usize::from(self.b[p + 2]) << 8)
                    | usize::from(self.b[p + 3])
            } * 2;
            if self.b[p] & 0x40 != 0 {
                return bad("external reference");
            }
            if off == 0 {
                return bad("zero distance");
            }
            if off > p {
                return bad("reference before the buffer");
            }
            let t = p - off;
            if self.b[t] & 0x80 == 0 {
                return Ok((t, p));
            }
            if p - t < 4 {
                return bad("no room for the inner reference");
            }
            if self.budget == 0 {
                return Err(E::Heavy);
            }
            self.budget -= 1;
            p = t;
            width = 4;
        }
    }

    fn varint(&mut self, at: usize, end: usize) -> R<(usize, u64)> {
        let mut v: u128 = 0;
        for i in 0..10 {
            if at + i >= end {
                return bad("varint runs past the space");
            }
            let x = self.b[at + i];
            v |= u128::from(x & 0x7f) << (7 * i);
            if x & 0x80 == 0 {
                if v > u128::from(u64::MAX) {
                    return bad("varint too large");
                }
                if i > 0 && x == 0 {
                    self.gray("overlong varint");
                }
                return Ok((i + 1, v as u64));
            }
        }
        bad("varint too long")
    }

    fn need(&self, at: usize, end: usize, n: u128) -> R<()> {
        if at as u128 + n > end as u128 {
            return bad(format!("value at {at} needs {n} bytes, has {}", end.saturating_sub(at)));
        }
        Ok(())
    }

    fn value(&mut self, at: usize, end: usize, depth: usize) -> R<D> {
        if self.budget == 0 || depth > self.max_depth {
            return Err(E::Heavy);
        }
        self.budget -= 1;
        self.need(at, end, 2)?;
        let b0 = self.b[at];
        let low = b0 & 0x0f;
        match b0 >> 4 {
            0 => {
                let v = (i32::from(low) << 8) | i32::from(self.b[at + 1]);
                Ok(D::Int(i128::from(if v >= 2048 { v - 4096 } else { v })))
            }
            1 => {
                let n = usize::from(low & 7) + 1;
                self.need(at, end, 1 + n as u128)?;
                let mut v: u64 = 0;
                for i in 0..n {
                    v |= u64::from(self.b[at + 1 + i]) << (8 * i);
                }
                if low & 8 != 0 {
                    Ok(D::Int(i128::from(v)))
                } else {
                    let sh = 64 - 8 * n as u32;
                    Ok(D::Int(i128::from(((v << sh) as i64) >> sh)))
                }
            }
            2 => {
                if low & 8 != 0 {
                    self.need(at, end, 10)?;
                    let mut x = [0; 8];
                    x.copy_from_slice(&self.b[at + 2..at + 10]);
                    Ok(f64n(f64::from_le_bytes(x)))
                } else {
                    self.need(at, end, 6)?;
                    let mut x = [0; 4];
                    x.copy_from_slice(&self.b[at + 2..at + 6]);
                    let f = f32::from_le_bytes(x);
                    Ok(if low & 4 != 0 { f64n(f64::from(f)) } else { f32n(f) })
                }
            }
            3 => Ok(match low {
                0 => D::Null,
                4 => D::Bool(false),
                8 => D::Bool(true),
                12 => D::Undef,
                _ => {
                    self.gray("unknown special");
                    D::Null
                }
            }),
            t @ (4 | 5) => {
                let (skip, n) = if low == 15 {
                    let (k, n) = self.varint(at + 1, end)?;
                    if n < 15 {
                        self.gray("short string with a long length");
                    }
                    (1 + k, n)
                } else {
                    (1, u64::from(low))
                };
                self.need(at, end, skip as u128 + u128::from(n))?;
                let s = &self.b[at + skip..at + skip + n as usize];
                if t == 5 {
                    Ok(D::Data(s.to_vec()))
                } else {
                    match std::str::from_utf8(s) {
                        Ok(s) => Ok(D::Str(s.to_string())),
                        Err(_) => {
                            self.gray("string that is not UTF-8");
                            Ok(D::Str(String::new()))
                        }
                    }
                }
            }
            t @ (6 | 7) => {
                let width = if low & 8 != 0 { 4 } else { 2 };
                let mut count = (u64::from(low & 7) << 8) | u64::from(self.b[at + 1]);
                let mut first = at + 2;
                if count == 2047 {
                    let (k, n) = self.varint(at + 2, end)?;
                    if n < 2047 {
                        self.gray("small collection with a long count");
                    }
                    count = n;
                    first = at + 2 + k + k % 2;
                }
                let slots = u128::from(count) * if t == 7 { 2 } else { 1 };
                if count > 0 {
                    self.need(first, end, slots * width as u128)?;
                } else if first > end {
                    self.gray("empty collection with a long count at the end");
                }
                if slots > self.budget as u128 {
                    // Still report a bound error if one shows up early.
                    let lim = self.budget;
                    for i in 0..lim {
                        self.slot(first + i * width, width, depth)?;
                    }
                    return Err(E::Heavy);
                }
                let mut vals = Vec::with_capacity(slots as usize);
                if t == 6 {
                    for i in 0..slots as usize {
                        vals.push(self.slot(first + i * width, width, depth)?);
                    }
                    return Ok(D::Arr(vals));
                }
                let mut pairs: Vec<(String, D)> = Vec::new();
                let mut last: Option<(bool, i128, String)> = None;
                for i in 0..count as usize {
                    let k = self.slot(first + 2 * i * width, width, depth)?;
                    let v = self.slot(first + (2 * i + 1) * width, width, depth)?;
                    let (ord, name) = match k {
                        D::Str(s) => ((true, 0, s.clone()), s),
                        D::Int(n) if self.b[first + 2 * i * width] & 0x80 == 0 && self.b[first + 2 * i * width] < 0x10 => {
                            match self.table.and_then(|t| t.get(n as usize)) {
                                Some(s) => ((false, n, String::new()), s.clone()),
                                None => {
                                    self.gray("numeric key without a table");
                                    ((false, n, String::new()), String::new())
                                }
                            }
                        }
                        _ => {
                            self.gray("key that is not a string");
                            ((true, 0, String::new()), String::new())
                        }
                    };
                    if let Some(l) = &last {
                        if *l >= ord {
                            self.gray("keys out of order");
                        }
                    }
                    last = Some(ord);
                    pairs.push((name, v));
                }
                if self.table.is_some() {
                    let mut names: Vec<&String> = pairs.iter().map(|p| &p.0).collect();
                    names.sort();
                    if names.windows(2).any(|w| w[0] == w[1]) {
                        self.gray("the same key twice");
                    }
                }
                Ok(D::Dict(pairs))
            }
            _ => bad("reference where a value should be"),
        }
    }

    fn slot(&mut self, p: usize, width: usize, depth: usize) -> R<D> {
        if self.b[p] & 0x80 != 0 {
            let (t, end) = self.follow(p, width)?;
            self.value(t, end, depth + 1)
        } else {
            self.value(p, p + width, depth + 1)
        }
    }
}
