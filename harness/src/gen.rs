//! Generators of document content.

use crate::engine::{fill_from, Src};
use crate::model::D;

/// Every integer a supported width can hold, biased to byte-count and format boundaries.
pub fn int(s: &mut Src) -> i128 {
    match s.weighted(&[6, 4, 8, 4, 4]) {
        0 => i128::from(s.below(40)) - 10,
        1 => {
            // around the short limits
            let b = *s.pick(&[2047i128, -2048, 0, 127, 128, 255, 256, -128, -129, 2048, -2049]);
            b + i128::from(s.below(5)) - 2
        }
        2 => {
            // around powers of two, both signs
            let bit = s.below(65) as u32;
            let v = (1i128 << bit) + i128::from(s.below(5)) - 2;
            let v = if s.bool() { -v } else { v };
            clamp(v)
        }
        3 => {
            // few significant bytes shifted up: trailing zeros
            let v = i128::from(s.below(0x1_0000)) << (8 * s.below(7));
            clamp(if s.bool() { -v } else { v })
        }
        _ => {
            let w = s.word();
            if s.bool() {
                i128::from(w as i64)
            } else {
                i128::from(w)
            }
        }
    }
}
fn clamp(v: i128) -> i128 {
    v.clamp(i128::from(i64::MIN), i128::from(u64::MAX))
}

pub fn f32bits(s: &mut Src) -> u32 {
    match s.weighted(&[4, 3, 4]) {
        0 => ((s.below(2001) as f32 - 1000.0) / 8.0).to_bits(),
        1 => *s.pick(&[
            0f32.to_bits(),
            (-0f32).to_bits(),
            f32::INFINITY.to_bits(),
            f32::NEG_INFINITY.to_bits(),
            f32::NAN.to_bits(),
            0x7f80_0001,
            0xffc0_1234,
            f32::MIN_POSITIVE.to_bits(),
            1,
            f32::MAX.to_bits(),
            f32::MIN.to_bits(),
            f32::EPSILON.to_bits(),
            16_777_217f32.to_bits(),
        ]),
        _ => s.below(1 << 32) as u32,
    }
}
pub fn f64bits(s: &mut Src) -> u64 {
    match s.weighted(&[4, 3, 4]) {
        0 => ((s.below(20001) as f64 - 10000.0) / 16.0).to_bits(),
        1 => *s.pick(&[
            0f64.to_bits(),
            (-0f64).to_bits(),
            f64::INFINITY.to_bits(),
            f64::NEG_INFINITY.to_bits(),
            f64::NAN.to_bits(),
            0x7ff0_0000_0000_0001,
            f64::MIN_POSITIVE.to_bits(),
            1,
            f64::MAX.to_bits(),
            f64::MIN.to_bits(),
            9_007_199_254_740_993f64.to_bits(),
            0.1f64.to_bits(),
            1e300f64.to_bits(),
            f64::from(0.1f32).to_bits(),
        ]),
        _ => s.word(),
    }
}

/// A length, biased to the sizes at which the format changes.
pub fn len(s: &mut Src, max: usize) -> usize {
    let n = match s.weighted(&[10, 6, 3, 1]) {
        0 => s.usize(6),
        1 => *s.pick(&[13, 14, 15, 16, 17, 12, 31, 32]),
        2 => *s.pick(&[126, 127, 128, 129, 255, 256, 100, 200]),
        _ => *s.pick(&[1023, 1024, 2046, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16382, 16383, 16384, 16385, 16386, 20000, 32767, 32768, 65535, 65536, 65537]),
    };
    n.min(max)
}

const CHARS: &[char] = &['a', 'b', 'Z', '0', '_', '-', ' ', '.', '\0', '\u{7f}', 'é', 'ß', '中', '\u{ffff}', '😀', '"', '\u{80}', '\n', '٣', '$'];

/// A string of `n` bytes, or as close as whole characters allow (padded with ASCII).
pub fn string_of(s: &mut Src, n: usize) -> String {
    let mut out = String::new();
    if n <= 24 {
        while out.len() < n {
            let c = *s.pick(CHARS);
            if out.len() + c.len_utf8() <= n {
                out.push(c);
            } else {
                out.push('x');
            }
        }
    } else {
        let seed = s.below(1 << 20);
        let noise = fill_from(seed, n);
        for b in noise {
            let c = if seed & 1 == 0 { (b'a' + b % 26) as char } else { CHARS[b as usize % CHARS.len()] };
            if out.len() + c.len_utf8() <= n {
                out.push(c);
            } else if out.len() < n {
                out.push('x');
            } else {
                break;
            }
        }
    }
    out
}
pub fn string(s: &mut Src, max: usize) -> String {
    let n = len(s, max);
    string_of(s, n)
}
pub fn data(s: &mut Src, max: usize) -> Vec<u8> {
    let n = len(s, max);
    s.fill(n)
}

const WORDS: &[&str] = &[
    "a", "", "b", "id", "name", "_id", "type", "z", "Z", "key-1", "a_b", "aa", "ab", "abc", "a b", "a.b", "é", "中文", "\0", "a\0", "\u{7f}",
    "exactly16bytes__", "exactly15bytes_", "seventeen_bytes__", "seventeen_bytes_x", "exactly16bytes_x", "ééééééé-", "éééééééé", "éééééééé1",
    "this key is too long to be shared", "~", "0", "9", "10", "1", "𝒳", "عربي", "k٣",
];

/// Dictionary keys: short shareable names, names at the sharing limits, near misses, any string.
pub fn key(s: &mut Src, max: usize) -> String {
    match s.weighted(&[10, 8, 5, 3, 2, 2]) {
        0 => (*s.pick(WORDS)).to_string(),
        5 => {
            // Long keys that agree in all but their last bytes (or first).
            let n = (*s.pick(&[7usize, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256])).min(max);
            let c = *s.pick(&["k", "k", "é"]);
            let t = c.repeat(n / c.len());
            let x = *s.pick(&["", "1", "2", "k", "k1", "~"]);
            if s.chance(1, 4) {
                format!("{x}{t}")
            } else {
                format!("{t}{x}")
            }
        }
        1 => {
            let n = s.range(1, 5);
            (0..n).map(|_| *s.pick(&['a', 'b', 'c', 'A', '1', '_', '-'])).collect()
        }
        2 => {
            // shared-key length limits, shareable alphabet
            let n = *s.pick(&[2usize, 14, 15, 16, 17, 18]);
            let mut k: String = (0..n - 1).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            k.push(*s.pick(&['a', 'b', '_', ' ']));
            k
        }
        3 => {
            let n = s.usize(20);
            string_of(s, n)
        }
        _ => string(s, max),
    }
}

/// A key easily taken for `k`.
pub fn like(s: &mut Src, k: &str) -> String {
    let mut cs: Vec<char> = k.chars().collect();
    match s.below(7) {
        0 => cs.push(*s.pick(&['a', '\0', '~', 'é'])),
        1 => {
            cs.pop();
        }
        2 => {
            if let Some(c) = cs.last_mut() {
                *c = if *c == 'a' { 'b' } else { 'a' };
            }
        }
        3 => {
            if let Some(c) = cs.first_mut() {
                *c = if *c == 'a' { 'b' } else { 'a' };
            }
        }
        4 => cs.reverse(),
        5 => cs = k.chars().chain(k.chars()).take(200).collect(),
        _ => cs = cs.iter().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
    cs.into_iter().collect()
}

/// A very long key.
pub fn huge_key(s: &mut Src) -> String {
    let n = *s.pick(&[16_383usize, 32_766, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 70_000, 200_000]);
    let c = (b'a' + s.below(26) as u8) as char;
    let mut k = c.to_string().repeat(n - 1);
    k.push((b'a' + s.below(26) as u8) as char);
    k
}

/// `n` distinct keys.
pub fn keys(s: &mut Src, n: usize, max: usize) -> Vec<String> {
    let mut out: Vec<String> = Vec::with_capacity(n);
    let mut seen = std::collections::HashSet::new();
    if n > 64 {
        let tag = s.usize(6);
        for i in 0..n {
            let k = match tag {
                0 => format!("k{i}"),
                1 => format!("key-{:05}", (i * 7919) % 1_000_003),
                2 => format!("a long key that is not shared {i}"),
                // Keys stored in place among keys stored elsewhere, in and out of order.
                4 | 5 => {
                    let mut c = if tag == 4 { i } else { (i * 7919) % 1_000_003 };
                    let mut k = String::new();
                    loop {
                        k.push((b' ' + (c % 94) as u8) as char);
                        c /= 94;
                        if c == 0 {
                            break k;
                        }
                    }
                }
                _ => {
                    let c = char::from_u32(0x100 + (i % 50_000) as u32).unwrap_or('x');
                    format!("{c}{i}")
                }
            };
            if seen.insert(k.clone()) {
                out.push(k);
            }
        }
        return out;
    }
    for i in 0..n {
        let mut k = if out.is_empty() || s.chance(7, 8) {
            key(s, max)
        } else {
            let j = s.usize(out.len());
            like(s, &out[j])
        };
        while seen.contains(&k) {
            k.push_str(&i.to_string());
        }
        seen.insert(k.clone());
        out.push(k);
    }
    out
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub depth: usize,
    /// Nodes left to generate.
    pub nodes: usize,
    pub max_len: usize,
    /// Allow collections around the 2047 element header limit.
    pub wide_counts: bool,
    /// Byte budget for long strings.
    pub bytes: usize,
}
impl Cfg {
    pub fn small() -> Cfg {
        Cfg { depth: 3, nodes: 24, max_len: 130, wide_counts: false, bytes: 600 }
    }
    pub fn normal() -> Cfg {
        Cfg { depth: 5, nodes: 60, max_len: 300, wide_counts: false, bytes: 4000 }
    }
    pub fn large() -> Cfg {
        Cfg { depth: 6, nodes: 300, max_len: 70_000, wide_counts: true, bytes: 200_000 }
    }
    /// A mix of the three.
    pub fn mixed(s: &mut Src) -> Cfg {
        match s.weighted(&[6, 6, 1]) {
            0 => Cfg::small(),
            1 => Cfg::normal(),
            _ => Cfg::large(),
        }
    }
}

pub fn scalar(s: &mut Src, c: &mut Cfg) -> D {
    match s.weighted(&[10, 2, 2, 3, 3, 4, 8, 4]) {
        0 => D::Int(int(s)),
        1 => D::Null,
        2 => D::Undef,
        3 => D::Bool(s.bool()),
        4 => D::F32(f32bits(s)),
        5 => D::F64(f64bits(s)),
        6 => {
            let t = string(s, c.max_len.min(c.bytes));
            c.bytes -= t.len().min(c.bytes);
            D::Str(t)
        }
        _ => {
            let t = data(s, c.max_len.min(c.bytes));
            c.bytes -= t.len().min(c.bytes);
            D::Data(t)
        }
    }
}

pub fn value(s: &mut Src, c: &mut Cfg) -> D {
    if c.nodes > 0 {
        c.nodes -= 1;
    }
    if c.depth > 0 && c.nodes > 0 && s.chance(2, 5) {
        collection(s, c)
    } else {
        scalar(s, c)
    }
}

/// Nesting depths at which a counter of some width or an explicit limit would show.
pub fn depth(s: &mut Src) -> usize {
    let d = *s.pick(&[64usize, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1100]);
    if s.chance(1, 3) {
        d + s.usize(20)
    } else {
        d
    }
}

/// Element counts at which a counter of some width would show.
pub fn crowd(s: &mut Src) -> usize {
    *s.pick(&[16385usize, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70_000, 131_072])
}

/// Collections nested `n` deep around `inner`, with siblings on some levels.
pub fn chain(s: &mut Src, n: usize, inner: D) -> D {
    let shape = s.below(4);
    let seed = s.below(1 << 16);
    let mut r = crate::engine::Rng::new(seed);
    let mut d = inner;
    for _ in 0..n {
        let w = if seed == 0 { 0 } else { r.next() };
        let dict = match shape {
            0 => false,
            1 => true,
            _ => w & 1 == 1,
        };
        let sibling = match w >> 8 & 15 {
            0 => Some(D::Int(i128::from(w >> 20 & 0xfff))),
            1 => Some(D::Str(format!("level {}", w >> 40))),
            2 => Some(D::Arr(Vec::new())),
            _ => None,
        };
        let before = w >> 16 & 1 == 1;
        d = if dict {
            let k = ["k", "next", "a key too long to be shared", "b"][(w >> 4 & 3) as usize];
            let mut v = vec![(k.to_string(), d)];
            if let Some(x) = sibling {
                v.insert(usize::from(before), (if w >> 17 & 1 == 1 { "a" } else { "z" }.to_string(), x));
            }
            D::Dict(v)
        } else {
            let mut v = vec![d];
            if let Some(x) = sibling {
                v.insert(usize::from(before), x);
            }
            D::Arr(v)
        };
    }
    d
}

pub fn collection(s: &mut Src, c: &mut Cfg) -> D {
    let dict = s.bool();
    if c.wide_counts && c.depth > 1 && s.chance(1, 24) {
        c.wide_counts = false;
        let n = depth(s);
        c.depth -= 1;
        let inner = value(s, c);
        c.depth += 1;
        return chain(s, n, inner);
    }
    if c.wide_counts && s.chance(1, 6) {
        // Many elements of one kind, around the header limit.
        let n = match s.weighted(&[28, 4, 1]) {
            0 => *s.pick(&[2046usize, 2047, 2048, 2049, 2100, 300]),
            1 => *s.pick(&[8191usize, 8192, 8193, 9000, 16384]),
            _ => {
                c.wide_counts = false;
                crowd(s)
            }
        };
        let proto = [scalar(s, &mut Cfg { max_len: 20, ..*c }), scalar(s, &mut Cfg { max_len: 20, ..*c })];
        c.nodes /= 2;
        let vary = s.bool();
        let proto = if n > 16384 && !vary { [D::Int(1), D::Bool(true)] } else { proto };
        let mk = |i: usize| match (&proto[i % 2], vary) {
            (D::Int(_), true) => D::Int(i as i128 * 3 - 2000),
            (D::Str(t), true) => D::Str(format!("{t}{i}")),
            (d, _) => d.clone(),
        };
        return if dict {
            D::Dict(keys(s, n, 20).into_iter().enumerate().map(|(i, k)| (k, mk(i))).collect())
        } else {
            D::Arr((0..n).map(mk).collect())
        };
    }
    let d0 = c.depth;
    c.depth -= 1;
    let mut n = 0;
    let mean = 3 + s.below(3);
    while s.more(n, mean, c.nodes.min(60)) {
        n += 1;
    }
    let out = if dict {
        let ks = keys(s, n, c.max_len.min(200));
        D::Dict(ks.into_iter().map(|k| (k, value(s, c))).collect())
    } else {
        D::Arr((0..n).map(|_| value(s, c)).collect())
    };
    c.depth = d0;
    out
}

pub fn doc(s: &mut Src) -> D {
    let mut c = Cfg::mixed(s);
    collection(s, &mut c)
}
pub fn doc_with(s: &mut Src, mut c: Cfg) -> D {
    collection(s, &mut c)
}
/// A dictionary root.
pub fn dict_doc(s: &mut Src, mut c: Cfg) -> D {
    let n = s.range(0, 12);
    c.depth -= 1;
    let ks = keys(s, n, c.max_len.min(200));
    D::Dict(ks.into_iter().map(|k| (k, value(s, &mut c))).collect())
}
pub fn style(s: &mut Src) -> u64 {
    if s.bool() {
        0
    } else {
        s.word()
    }
}

/// A permutation of `0..n`.
pub fn perm(s: &mut Src, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    if n > 100 {
        let mut r = crate::engine::Rng::new(s.below(1 << 32));
        for i in (1..n).rev() {
            p.swap(i, (r.next() % (i as u64 + 1)) as usize);
        }
    } else {
        for i in (1..n).rev() {
            let j = i - s.usize(i + 1);
            p.swap(i, j);
        }
    }
    p
}
