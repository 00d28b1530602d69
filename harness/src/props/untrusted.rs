//! C04, C05, C06, C22: bytes from anywhere.

use std::collections::{BTreeMap, HashMap};
use std::hint::black_box;

use super::Prop;
use crate::engine::{clip, hash_bytes, mix, Ctx, Res, Src};
use crate::forms;
use crate::model::*;
use crate::refdec::{self, Verdict};
use crate::sd::AnyD;
use crate::{ensure, gen, guard, refenc};
use fleece::{Array, Dict, Encoder, MutableArray, MutableDict, Scope, SharedKeys, Value};
use serde::de::IgnoredAny;
use serde::Deserialize;

// ------------------------------------------------------------------------------- raw bytes

fn random_byte(s: &mut Src) -> u8 {
    match s.weighted(&[3, 4, 3]) {
        0 => *s.pick(&[0u8, 1, 2, 3, 4, 6, 8, 0x0f, 0x7f, 0xff]),
        1 => (s.below(16) as u8) << 4 | *s.pick(&[0u8, 1, 2, 3, 4, 7, 8, 9, 12, 15]),
        _ => s.below(256) as u8,
    }
}

fn random_small(s: &mut Src) -> Vec<u8> {
    let mut n = s.usize(26);
    if n % 2 == 1 && !s.chance(1, 8) {
        n += 1;
    }
    let mut b: Vec<u8> = (0..n).map(|_| random_byte(s)).collect();
    if n >= 4 && s.chance(3, 4) {
        // A root reference into the buffer.
        let off = s.range(1, n / 2) as u16;
        b[n - 2..].copy_from_slice(&(0x8000 | off).to_be_bytes());
    }
    b
}

fn pointer_bytes(s: &mut Src, here: usize, starts: &[usize], wide: bool) -> Vec<u8> {
    let off = match s.weighted(&[8, 2, 1, 1, 1]) {
        0 if !starts.is_empty() => (here - *s.pick(starts)) / 2,
        1 => s.usize(here / 2 + 1),
        2 => here / 2 + s.usize(3),
        3 => *s.pick(&[0usize, 1, 2, 0x3fff, 0x1fff, 0x3fff_ffff]),
        _ => s.usize(8),
    };
    let ext = if s.chance(1, 40) { 0x40 } else { 0 };
    if wide {
        let mut b = (0x8000_0000u32 | (off as u32 & 0x3fff_ffff)).to_be_bytes();
        b[0] |= ext;
        b.to_vec()
    } else {
        let mut b = (0x8000u16 | (off as u16 & 0x3fff)).to_be_bytes();
        b[0] |= ext;
        b.to_vec()
    }
}

fn slot_bytes(s: &mut Src, here: usize, starts: &[usize], wide: bool) -> Vec<u8> {
    let mut b = match s.weighted(&[5, 4, 2, 2]) {
        0 => pointer_bytes(s, here, starts, wide),
        1 => match s.below(5) {
            0 => vec![s.below(16) as u8, s.below(256) as u8],
            1 => vec![0x41, b'a' + s.below(4) as u8],
            2 => vec![0x30 | *s.pick(&[0u8, 4, 8, 12, 1]), 0],
            3 => vec![0x10 | s.below(16) as u8, s.below(256) as u8],
            _ => vec![0x40, 0],
        },
        2 => vec![0x60 | s.below(32) as u8, s.below(4) as u8],
        _ => vec![random_byte(s), random_byte(s)],
    };
    if wide && b.len() == 2 {
        b.push(random_byte(s));
        b.push(random_byte(s));
    }
    b
}

/// Items of the right general shape, with wrong details.
fn structured(s: &mut Src) -> Vec<u8> {
    let mut b: Vec<u8> = Vec::new();
    let mut starts = Vec::new();
    let n = s.range(1, 9);
    for _ in 0..n {
        if b.len() % 2 == 1 {
            b.push(0);
        }
        starts.push(b.len());
        match s.weighted(&[6, 3, 3, 2, 2, 2]) {
            0 => {
                let dict = s.bool();
                let wide = s.chance(1, 3);
                let slots = s.usize(7);
                let count = if dict { slots / 2 } else { slots };
                let claim = match s.weighted(&[10, 2, 1]) {
                    0 => count,
                    1 => (count + s.usize(4)).saturating_sub(1),
                    _ => *s.pick(&[2046usize, 2047, 300, 100, 2045]),
                };
                let mut h = vec![if dict { 0x70 } else { 0x60 } | if wide { 8 } else { 0 } | (claim >> 8) as u8, claim as u8];
                if claim == 2047 {
                    let v = match s.below(5) {
                        0 => count as u64,
                        1 => 2047,
                        2 => u64::MAX / *s.pick(&[1u64, 2, 4, 8, 16]),
                        3 => 1 << s.below(64),
                        _ => s.word(),
                    };
                    h.extend(refenc::varint(v));
                    if s.chance(1, 8) {
                        h.extend([0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01]);
                    }
                    if h.len() % 2 == 1 {
                        h.push(0);
                    }
                }
                b.extend(h);
                let st = starts[..starts.len() - usize::from(!s.chance(1, 30))].to_vec();
                for i in 0..slots {
                    let here = b.len();
                    let x = if dict && i % 2 == 0 && s.chance(2, 3) {
                        let mut k = vec![0x41, b'a' + (i / 2) as u8];
                        if wide {
                            k.extend([0, 0]);
                        }
                        k
                    } else {
                        slot_bytes(s, here, &st, wide)
                    };
                    b.extend(x);
                }
            }
            1 => {
                // A string or data; its length right or wrong.
                let n = gen::len(s, 200);
                let claim = match s.weighted(&[6, 2, 1, 1]) {
                    0 => n as u64,
                    1 => (n as u64 + s.below(3)).saturating_sub(1),
                    2 => s.word(),
                    _ => u64::MAX - s.below(20),
                };
                let tag = if s.bool() { 0x40 } else { 0x50 };
                if claim < 15 && !s.chance(1, 6) {
                    b.push(tag | claim as u8);
                } else {
                    b.push(tag | 15);
                    b.extend(refenc::varint(claim));
                    if s.chance(1, 10) {
                        let k = s.range(1, 12);
                        let at = b.len() - 1;
                        b[at] |= 0x80;
                        b.extend(vec![0x80; k]);
                        b.push(s.below(3) as u8);
                    }
                }
                let junk = s.fill(n);
                b.extend(junk);
            }
            2 => {
                let k = s.usize(16);
                let n = match s.weighted(&[5, 1]) {
                    0 => (k & 7) + 1,
                    _ => s.usize(9),
                };
                b.push(0x10 | k as u8);
                let junk = s.fill(n);
                b.extend(junk);
            }
            3 => {
                let k = *s.pick(&[0u8, 4, 8, 12, 1]);
                let n = if s.chance(1, 6) { s.usize(9) } else if k & 8 != 0 { 8 } else { 4 };
                b.extend([0x20 | k, 0]);
                let junk = s.fill(n);
                b.extend(junk);
            }
            4 => {
                let here = b.len();
                let st = starts[..starts.len() - 1].to_vec();
                let p = pointer_bytes(s, here, &st, true);
                b.extend(p);
            }
            _ => {
                let here = b.len();
                let x = slot_bytes(s, here, &starts[..starts.len() - 1].to_vec(), s_wide(here));
                b.extend(x);
            }
        }
    }
    if b.len() % 2 == 1 {
        b.push(0);
    }
    let here = b.len();
    let last = if s.chance(3, 4) { vec![*starts.last().unwrap()] } else { starts };
    let p = pointer_bytes(s, here, &last, false);
    b.extend(p);
    b
}
fn s_wide(here: usize) -> bool {
    here % 8 == 0
}

/// A valid document, encoded or laid out.
fn valid(s: &mut Src) -> (D, Vec<u8>) {
    let c = if s.chance(1, 10) { gen::Cfg::normal() } else { gen::Cfg { depth: 3, nodes: 14, max_len: 40, wide_counts: false, bytes: 200 } };
    let d = gen::doc_with(s, c);
    let b = if s.bool() { encode(&d, gen::style(s)).expect("encode") } else { refenc::layout(s, &d, None).0 };
    (d, b)
}

pub fn mutate(s: &mut Src, b: &mut Vec<u8>) {
    let n = s.range(1, 4);
    for _ in 0..n {
        if b.is_empty() {
            b.push(random_byte(s));
            continue;
        }
        let i = s.usize(b.len());
        match s.weighted(&[6, 5, 4, 4, 3, 3, 2, 2, 2, 2]) {
            0 => b[i] ^= 1 << s.below(8),
            1 => b[i] = if s.bool() { b[i].wrapping_add(1) } else { b[i].wrapping_sub(1) },
            2 => b[i] = b[i] & 0xf0 | s.below(16) as u8,
            3 => {
                // Overwrite a slot with a reference.
                let i = i & !1;
                let p = pointer_bytes(s, i, &[], s_wide(i));
                for (k, x) in p.iter().enumerate() {
                    if i + k < b.len() {
                        b[i + k] = *x;
                    }
                }
            }
            4 => b[i] = random_byte(s),
            5 => {
                // Cut the end, keeping or not keeping the root.
                let cut = (2 * s.range(1, 8)).min(b.len());
                let tail: Vec<u8> = b[b.len() - 2.min(b.len())..].to_vec();
                b.truncate(b.len() - cut);
                if s.bool() {
                    b.extend(tail);
                }
            }
            6 => {
                let cut = (if s.chance(1, 8) { 1 } else { 2 * s.range(1, 6) }).min(b.len());
                b.drain(..cut);
            }
            7 => {
                let k = if s.chance(1, 8) { 1 } else { 2 };
                for _ in 0..k {
                    let x = random_byte(s);
                    b.insert(i & !1, x);
                }
            }
            8 => {
                // A collection header gets the other width or a long count.
                if let Some(j) = (0..b.len()).map(|k| (i + k) % b.len()).find(|j| j % 2 == 0 && (0x60..0x80).contains(&b[*j])) {
                    if s.bool() {
                        b[j] ^= 8;
                    } else {
                        b[j] |= 7;
                        if j + 1 < b.len() {
                            b[j + 1] = 0xff;
                        }
                        let v = if s.bool() { s.word() } else { s.below(64) };
                        for (k, x) in refenc::varint(v).into_iter().enumerate() {
                            if j + 2 + k < b.len() {
                                b[j + 2 + k] = x;
                            }
                        }
                    }
                }
            }
            _ => {
                // Move the root.
                let n = b.len();
                if n >= 4 {
                    let off = s.range(1, (n / 2).min(0x3fff)) as u16;
                    b[n - 2..].copy_from_slice(&(0x8000 | off).to_be_bytes());
                }
            }
        }
    }
}

fn chain(s: &mut Src) -> Vec<u8> {
    let d = gen::scalar(s, &mut gen::Cfg { max_len: 20, ..gen::Cfg::small() });
    let mut b = match &d {
        D::Str(t) => refenc::str_bytes(0x40, t.as_bytes()),
        _ => vec![0x00, 0x07],
    };
    if b.len() % 2 == 1 {
        b.push(0);
    }
    let n = match s.weighted(&[6, 3, 1]) {
        0 => s.range(1, 12),
        1 => s.range(1, 300),
        _ => s.range(300, 12_000),
    };
    let start = b.len();
    let step = if s.chance(1, 4) { s.range(2, 6) } else { 2 };
    for i in 0..n {
        let off = if i == 0 { start / 2 } else { step.min((b.len()) / 2) };
        b.extend((0x8000_0000u32 | off as u32).to_be_bytes());
    }
    if s.chance(1, 3) {
        let k = s.below(3) as u8;
        b.extend([0x68, k]);
        for _ in 0..k {
            let off = s.range(1, (b.len() / 2).min(600));
            b.extend((0x8000_0000u32 | off as u32).to_be_bytes());
        }
        let off = 1 + 2 * u16::from(k);
        b.extend((0x8000 | off).to_be_bytes());
    } else {
        b.extend([0x80, 2]);
    }
    b
}

fn state(s: &mut Src) -> Vec<u8> {
    let n = s.usize(12);
    let keys = gen::keys(s, n, 20);
    let d = D::Arr(keys.into_iter().map(D::Str).collect());
    encode(&d, 0).expect("encode")
}

pub const KINDS: [&str; 6] = ["random bytes", "structured garbage", "mutated document", "reference chain", "mutated key table", "intact document"];

pub fn raw(s: &mut Src) -> (Vec<u8>, &'static str) {
    let k = s.weighted(&[3, 7, 12, 1, 1, 3]);
    let b = match k {
        0 => random_small(s),
        1 => structured(s),
        2 => {
            let mut b = valid(s).1;
            mutate(s, &mut b);
            b
        }
        3 => {
            let mut b = chain(s);
            if s.chance(1, 3) {
                mutate(s, &mut b);
            }
            b
        }
        4 => {
            let mut b = state(s);
            mutate(s, &mut b);
            b
        }
        _ => valid(s).1,
    };
    (b, KINDS[k])
}

fn show(b: &[u8]) -> String {
    let hex: Vec<String> = b.iter().take(120).map(|x| format!("{x:02x}")).collect();
    format!("{} bytes: {}{}", b.len(), hex.join(" "), if b.len() > 120 { " ..." } else { "" })
}

// ------------------------------------------------------------------------------------------ C04

pub const C04: Prop = Prop {
    id: "C04",
    check: c04,
    quick: 700_000,
    thorough: 8_000_000,
    rule: "a case is a byte string (random, structured garbage, valid document or layout mutated 1 to 4 times, reference chains, mutated key tables, intact documents) given to every validating entry point with an inaccessible page directly after and directly before it; whatever is accepted is read completely in every way; strings the independent decoder finds too deep (200) or too large (20,000 nodes) are left out; non-trivial: at least 4 bytes with a root reference inside the buffer; distinct by bytes",
    configs: &["chk", "rel", "asan"],
};

fn touch(b: &[u8]) {
    black_box(b.iter().fold(0u8, |a, x| a.wrapping_mul(3) ^ x));
}

/// Read everything there is to read.
pub fn exhaust(v: &Value, table: &SharedKeys) {
    black_box((v.value_type(), v.to_bool(), v.to_short(), v.to_unsigned_short(), v.to_int(), v.to_unsigned_int()));
    black_box((v.to_double(), v.to_float(), v.required_size(), v.len(), v.is_empty(), v.is_mutable()));
    touch(v.to_data());
    touch(v.to_str().as_bytes());
    if let Some(a) = v.as_array() {
        let n = a.len();
        black_box((a.is_empty(), a.is_wide(), a.width()));
        for i in [0, 1, n / 2, n.wrapping_sub(1), n, n + 1, usize::MAX] {
            if let Some(x) = a.get(i) {
                black_box(x.value_type());
            }
        }
        let mut it = a.iter();
        black_box((it.len(), it.size_hint()));
        while let Some(x) = it.next() {
            black_box(it.size_hint());
            exhaust(x, table);
        }
        black_box(it.next().is_some());
    }
    if let Some(d) = v.as_dict() {
        black_box((d.len(), d.is_empty(), d.is_wide(), d.width()));
        if let Some((k, x)) = d.first() {
            black_box((k.value_type(), x.value_type(), k.to_unsigned_short()));
            touch(k.to_str().as_bytes());
        }
        let mut it = d.iter();
        black_box(it.size_hint());
        while let Some((k, x)) = it.next() {
            black_box(it.size_hint());
            touch(k.as_bytes());
            if let Some(y) = d.get(k) {
                black_box(y.value_type());
            }
            exhaust(x, table);
        }
        for k in ["", "a", "b", "name", "a long key that cannot be inline", "\u{10ffff}"] {
            black_box((d.get(k).map(Value::value_type), d.contains_key(k)));
            black_box((d.get_with_shared_keys(k, table).map(Value::value_type), d.contains_key_with_shared_keys(k, table)));
        }
    }
}

fn exhaust_mut_array(a: &MutableArray) {
    black_box((a.len(), a.is_empty()));
    for r in a {
        if let Some(v) = r.value() {
            exhaust_scalar(v);
        }
        if let Some(x) = r.array() {
            exhaust_mut_array(x);
        }
        if let Some(x) = r.dict() {
            exhaust_mut_dict(x);
        }
    }
}
fn exhaust_mut_dict(a: &MutableDict) {
    black_box((a.len(), a.is_empty()));
    for (k, r) in a {
        touch(k.as_bytes());
        if let Some(v) = r.value() {
            exhaust_scalar(v);
        }
        if let Some(x) = r.array() {
            exhaust_mut_array(x);
        }
        if let Some(x) = r.dict() {
            exhaust_mut_dict(x);
        }
    }
}
fn exhaust_scalar(v: &Value) {
    black_box((v.value_type(), v.to_int(), v.to_double(), v.to_bool()));
    touch(v.to_data());
    touch(v.to_str().as_bytes());
}

/// Copies, prints, encodes again.
fn consume(v: &Value) {
    black_box(format!("{v:?}").len());
    let mut e = Encoder::new();
    if e.write_fleece(v).is_ok() {
        touch(&e.finish());
    }
    let mut e = Encoder::new();
    e.set_shared_keys(SharedKeys::new());
    if e.begin_array(1).is_ok() && e.write_fleece(v).is_ok() {
        touch(&e.finish());
    }
    if let Some(a) = v.as_array() {
        let m = a.to_mutable();
        exhaust_mut_array(&m);
        black_box(format!("{m:?}{a:?}").len());
        exhaust_mut_array(&m.clone());
    }
    if let Some(a) = v.as_dict() {
        let m = a.to_mutable();
        exhaust_mut_dict(&m);
        black_box(format!("{m:?}{a:?}").len());
        exhaust_mut_dict(&m.clone());
    }
    let mut m = MutableArray::new();
    m.push_fleece(v);
    exhaust_mut_array(&m);
    m.set_fleece(0, v);
    black_box(SharedKeys::from_state_value(v).map(|k| k.len()));
}

#[derive(Deserialize)]
#[allow(dead_code)]
struct Shape {
    a: i32,
    b: Option<String>,
    #[serde(default)]
    name: Vec<u16>,
}
#[derive(Deserialize)]
#[allow(dead_code)]
enum Pick {
    A,
    B(u8),
    C(i8, String),
    D { a: f64, b: Box<Option<Pick>> },
}

fn deserialise(b: &[u8]) {
    black_box(fleece::from_bytes::<AnyD>(b).is_ok());
    black_box(fleece::from_bytes::<IgnoredAny>(b).is_ok());
    black_box(fleece::from_bytes::<Vec<AnyD>>(b).is_ok());
    black_box(fleece::from_bytes::<BTreeMap<String, AnyD>>(b).is_ok());
    black_box(fleece::from_bytes::<HashMap<String, u8>>(b).is_ok());
    black_box(fleece::from_bytes::<BTreeMap<char, IgnoredAny>>(b).is_ok());
    black_box(fleece::from_bytes::<BTreeMap<i16, IgnoredAny>>(b).is_ok());
    black_box(fleece::from_bytes::<Shape>(b).is_ok());
    black_box(fleece::from_bytes::<Vec<Shape>>(b).is_ok());
    black_box(fleece::from_bytes::<Pick>(b).is_ok());
    black_box(fleece::from_bytes::<Vec<Pick>>(b).is_ok());
    black_box(fleece::from_bytes::<(u8, String, Option<()>)>(b).is_ok());
    black_box(fleece::from_bytes::<Vec<Option<i64>>>(b).is_ok());
    black_box(fleece::from_bytes::<Vec<String>>(b).is_ok());
    black_box(fleece::from_bytes::<u64>(b).is_ok());
    black_box(fleece::from_bytes::<String>(b).is_ok());
    black_box(fleece::from_bytes::<()>(b).is_ok());
}

thread_local! {
    static TABLE: SharedKeys = {
        let mut t = SharedKeys::new();
        for k in ["a", "b", "name", "id", "key-1"] {
            t.encode_and_insert(k);
        }
        t
    };
}

/// Everything one can do with untrusted bytes; gives whether they were accepted.
pub fn abuse(b: &[u8]) -> bool {
    let mut accepted = false;
    TABLE.with(|table| {
        for right in [true, false] {
            guard::with(b, right, |b| {
                if let Ok(v) = Value::from_bytes(b) {
                    accepted = true;
                    exhaust(v, table);
                    if right {
                        consume(v);
                    }
                }
                if let Ok(a) = Array::from_bytes(b) {
                    black_box((a.len(), a.iter().count(), a.get(0).map(Value::value_type)));
                }
                if let Ok(a) = Dict::from_bytes(b) {
                    black_box((a.len(), a.iter().count(), a.get("a").map(Value::value_type)));
                }
                if right {
                    deserialise(b);
                }
                black_box(SharedKeys::from_state_bytes(b).map(|k| k.len()));
            });
        }
        if let Ok(v) = Value::clone_from_bytes(b) {
            exhaust(v.value(), table);
            black_box(format!("{v:?}").len());
            black_box((v.clone().to_array().map(|a| a.len()), v.to_dict().map(|a| a.len())));
        }
        black_box(Array::clone_from_bytes(b).map(|a| MutableArray::from(a).len()).ok());
        black_box(Dict::clone_from_bytes(b).map(|a| MutableDict::from(a).len()).ok());
        for t in [None, Some(std::sync::Arc::new(table.clone()))] {
            let sc = Scope::new(b.to_vec(), t);
            black_box((sc.range(), sc.data().map(|d| d.len())));
            if let Some(v) = sc.root() {
                exhaust(v.value(), table);
                consume(v.value());
            }
            let data = sc.data().unwrap();
            deserialise(&data);
            if let Ok(m) = MutableArray::try_from(&*sc) {
                exhaust_mut_array(&m);
            }
            if let Ok(m) = MutableDict::try_from(&*sc) {
                exhaust_mut_dict(&m);
            }
            sc.remove();
        }
    });
    accepted
}

fn c04(s: &mut Src, cx: &mut Ctx) -> Res {
    let (b, kind) = raw(s);
    cx.note(|| format!("{kind}, {}", show(&b)));
    cx.class(kind);
    let verdict = refdec::decode(&b);
    cx.class(match &verdict {
        Verdict::Good(_) => "well formed",
        Verdict::Grey(..) => "within bounds, unspecified",
        Verdict::Bad(_) => "must be refused",
        Verdict::Heavy => {
            cx.class("left out: too large or deep");
            return Ok(());
        }
    });
    let ok = abuse(&b);
    cx.class_if(ok, "accepted");
    if b.len() >= 4 && b.len() % 2 == 0 && b[b.len() - 2] & 0xc0 == 0x80 {
        let off = usize::from(u16::from_be_bytes([b[b.len() - 2], b[b.len() - 1]]) & 0x3fff) * 2;
        if off > 0 && off <= b.len() - 2 {
            cx.nontrivial(hash_bytes(&b));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C05

pub const C05: Prop = Prop {
    id: "C05",
    check: c05,
    quick: 100_000,
    thorough: 6_000_000,
    rule: "a case is a document laid out by the independent encoder in a random legal way (wide or narrow collections, long integers, 32-bit doubles, shared sub-values, reference chains, inline or referenced values, junk padding), with or without a key table, or a mutated byte string which the independent decoder finds well formed; it must be accepted and read (iteration, access, serde) as that document; non-trivial: the layout uses at least one choice the encoder would not make; distinct by bytes",
    configs: &["chk", "asan"],
};

fn c05(s: &mut Src, cx: &mut Ctx) -> Res {
    if s.chance(1, 3) {
        // Arbitrary bytes that happen to be well formed.
        let mut b = valid(s).1;
        if s.chance(5, 6) {
            mutate(s, &mut b);
        }
        let Verdict::Good(d) = refdec::decode(&b) else {
            cx.class("mutant not well formed");
            return Ok(());
        };
        cx.note(|| format!("well-formed mutant {} of {}", show(&b), d.show()));
        guard::with(&b, true, |b| {
            let v = Value::from_bytes(b).map_err(|e| format!("well-formed bytes refused: {e:?}"))?;
            same(&read(v)?, &d, "well-formed bytes")
        })?;
        cx.class("well-formed mutant");
        cx.nontrivial(hash_bytes(&b));
        return Ok(());
    }
    let d = gen::doc(s);
    if s.bool() {
        let loose = s.chance(1, 8);
        let (b, st) = refenc::layout_with(s, &d, None, loose);
        cx.note(|| format!("document {} laid out with {st:?}, {}", d.show(), show(&b)));
        // Lengths longer than they need to be may be refused, but not misread.
        if st.loose > 0 && guard::with(&b, true, |b| Value::from_bytes(b).is_err()) {
            cx.class("long length refused");
            return Ok(());
        }
        cx.class_if(st.loose > 0, "long length");
        check_bytes(&b, &d, "layout")?;
        let AnyD(a) = fleece::from_bytes(&b).map_err(|e| format!("deserialising a layout: {e:?}"))?;
        same(&a, &d, "deserialised layout")?;
        check_value(fleece::Value::clone_from_bytes(&b).map_err(|e| format!("{e:?}"))?.value(), &d, "cloned layout")?;
        cx.class_if(st.wide_unneeded > 0, "wide without need");
        cx.class_if(st.chains > 0, "reference chain");
        cx.class_if(st.shared > 0, "shared sub-value");
        cx.class_if(st.long_ints > 0, "long integer");
        cx.class_if(st.double32 > 0, "32-bit double");
        cx.class_if(st.inline_wide > 0, "3- or 4-byte value inline");
        cx.class_if(st.padding > 0, "padding");
        cx.class_if(st.out_of_line_small > 0, "small value by reference");
        if st.wide_unneeded + st.chains + st.shared + st.long_ints + st.double32 + st.inline_wide + st.padding + st.out_of_line_small > 0 {
            cx.nontrivial(hash_bytes(&b));
        }
    } else {
        let h = forms::hold_layout_shared(s, &d)?;
        let data = h.data();
        cx.note(|| format!("document {} laid out with a key table, {}", d.show(), show(&data)));
        check_value(h.value(), &d, "layout with a table")?;
        check_by_access(h.value(), &d, h.table.as_deref(), "$")?;
        cx.class("layout with a key table");
        cx.nontrivial(hash_bytes(&data));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C06

pub const C06: Prop = Prop {
    id: "C06",
    check: c06,
    quick: 2_000_000,
    thorough: 8_000_000,
    rule: "a case is a byte string as for C04; when the independent decoder says something reachable does not fit, every validating entry point must refuse it. For a part of the cases every front and back cut of a small valid document is judged in the same way, and roots of each kind are asked for as arrays and dictionaries; non-trivial: the bytes must be refused for another reason than an odd or zero length; distinct by bytes",
    configs: &["chk", "rel"],
};

/// Every validating entry point refuses.
fn all_refuse(b: &[u8], why: &str) -> Res {
    macro_rules! no {
        ($e:expr, $n:expr) => {
            ensure!(!$e, "{} accepts bytes that must be refused ({why}): {}", $n, show(b));
        };
    }
    guard::with(b, true, |b| {
        no!(Value::from_bytes(b).is_ok(), "Value::from_bytes");
        no!(Array::from_bytes(b).is_ok(), "Array::from_bytes");
        no!(Dict::from_bytes(b).is_ok(), "Dict::from_bytes");
        no!(fleece::from_bytes::<IgnoredAny>(b).is_ok(), "from_bytes::<IgnoredAny>");
        no!(fleece::from_bytes::<AnyD>(b).is_ok(), "from_bytes");
        no!(SharedKeys::from_state_bytes(b).is_some(), "SharedKeys::from_state_bytes");
        Ok(())
    })?;
    no!(Value::clone_from_bytes(b).is_ok(), "Value::clone_from_bytes");
    no!(Array::clone_from_bytes(b).is_ok(), "Array::clone_from_bytes");
    no!(Dict::clone_from_bytes(b).is_ok(), "Dict::clone_from_bytes");
    let sc = Scope::new(b.to_vec(), None);
    no!(sc.root().is_some(), "Scope::root");
    no!(MutableArray::try_from(&*sc).is_ok() || MutableArray::from_scope(&sc).is_some(), "MutableArray from a scope");
    no!(MutableDict::try_from(&*sc).is_ok() || MutableDict::from_scope(&sc).is_some(), "MutableDict from a scope");
    Ok(())
}

fn judge(b: &[u8], cx: &mut Ctx) -> Res {
    match refdec::decode(b) {
        Verdict::Bad(why) => {
            all_refuse(b, &why)?;
            if b.len() % 2 == 0 && !b.is_empty() {
                cx.nontrivial(hash_bytes(b));
                cx.class("must be refused");
                if why.starts_with("value at") {
                    cx.class("value does not fit");
                } else {
                    cx.class(match why.as_str() {
                        "external reference" => "external reference",
                        "zero distance" => "zero distance",
                        "reference before the buffer" => "reference before the buffer",
                        "no room for the inner reference" => "no room for the inner reference",
                        _ => "malformed size",
                    });
                }
            } else {
                cx.class("odd or empty");
            }
        }
        Verdict::Good(d) => {
            let v = Value::from_bytes(b).map_err(|e| format!("well-formed bytes refused: {e:?}: {}", show(b)))?;
            same(&read(v)?, &d, "well-formed bytes")?;
            cx.class("well formed");
        }
        Verdict::Grey(d, why) => {
            // Unspecified encodings may be refused, but what is read must not come from outside.
            if let Ok(v) = Value::from_bytes(b) {
                if refdec::content_is_clear(why) {
                    same(&read(v)?, &d, &format!("accepted bytes with {why}"))?;
                }
            }
            cx.class("unspecified");
        }
        Verdict::Heavy => cx.class("left out: too large or deep"),
    }
    Ok(())
}

fn c06(s: &mut Src, cx: &mut Ctx) -> Res {
    match s.weighted(&[40, 2, 6]) {
        0 if s.chance(1, 8_000) => {
            // The inner reference needs four bytes; it has two of its own and two of the root
            // reference's, far enough from the front that what they make up is inside the buffer.
            let hi = s.weighted(&[6, 1, 1]);
            let back = ((hi << 16) | 0x8001) * 2;
            let n = s.usize(6) * 2;
            let mut b = s.fill(n);
            let at = b.len();
            b.extend(match s.below(4) {
                0 => vec![0x60, 0],
                1 => vec![0x70, 0],
                2 => vec![0x00, 0x07],
                _ => vec![0x41, b'a'],
            });
            b.resize(at + back, 0);
            b.extend([0x80, hi as u8, 0x80, 1]);
            cx.note(|| format!("inner reference of two bytes, {} back, {} bytes", back, b.len()));
            cx.class("two-byte inner reference");
            judge(&b, cx)
        }
        0 => {
            let (b, kind) = raw(s);
            cx.note(|| format!("{kind}, {}", show(&b)));
            judge(&b, cx)
        }
        1 => {
            // Every cut of a valid document.
            let d = gen::doc_with(s, gen::Cfg { depth: 3, nodes: 10, max_len: 30, wide_counts: false, bytes: 100 });
            let b = if s.bool() { encode(&d, 0)? } else { refenc::layout(s, &d, None).0 };
            cx.note(|| format!("all cuts of {}", show(&b)));
            cx.class("all cuts of a document");
            for n in 0..b.len().min(400) {
                judge(&b[n..], cx)?;
                judge(&b[..n], cx)?;
                // The end cut off, the root kept.
                if n + 2 <= b.len() {
                    let mut c = b[..n].to_vec();
                    c.extend(&b[b.len() - 2..]);
                    judge(&c, cx)?;
                }
                cx.sub += 3;
            }
            Ok(())
        }
        _ => {
            // The kind of the root.
            let d = if s.bool() { gen::doc_with(s, gen::Cfg { nodes: 6, ..gen::Cfg::small() }) } else { gen::scalar(s, &mut gen::Cfg::small()) };
            let b = refenc::layout(s, &d, None).0;
            cx.note(|| format!("root {} in {}", d.show(), show(&b)));
            let (arr, dict) = (matches!(d, D::Arr(_)), matches!(d, D::Dict(_)));
            ensure!(Value::from_bytes(&b).is_ok(), "layout refused");
            ensure!(Array::from_bytes(&b).is_ok() == arr, "Array::from_bytes of root {}", d.show());
            ensure!(Array::clone_from_bytes(&b).is_ok() == arr, "Array::clone_from_bytes of root {}", d.show());
            ensure!(Dict::from_bytes(&b).is_ok() == dict, "Dict::from_bytes of root {}", d.show());
            ensure!(Dict::clone_from_bytes(&b).is_ok() == dict, "Dict::clone_from_bytes of root {}", d.show());
            let sc = Scope::new(b.clone(), None);
            ensure!(MutableArray::try_from(&*sc).is_ok() == arr, "MutableArray::try_from a scope of root {}", d.show());
            ensure!(MutableArray::from_scope(&sc).is_some() == arr, "MutableArray::from_scope of root {}", d.show());
            ensure!(MutableDict::try_from(&*sc).is_ok() == dict, "MutableDict::try_from a scope of root {}", d.show());
            ensure!(MutableDict::from_scope(&sc).is_some() == dict, "MutableDict::from_scope of root {}", d.show());
            let v = Value::from_bytes(&b).unwrap();
            ensure!(v.as_array().is_some() == arr && v.as_dict().is_some() == dict, "as_array / as_dict of root {}", d.show());
            cx.class("kind of root");
            Ok(())
        }
    }
}

// ------------------------------------------------------------------------------------------ C22

pub const C22: Prop = Prop {
    id: "C22",
    check: c22,
    quick: 60_000,
    thorough: 4_000_000,
    rule: "a case is a byte string as for C04 (half of them valid documents); the checked entry points must agree on accepting it and on its content, at even and odd addresses, leaving the bytes as they were; for well-formed bytes the unchecked entry points, and for encoder calls finish, finish_value and finish_scoped, give the same content; non-trivial: well-formed with at least 2 nodes, or refused with a root reference; distinct by bytes",
    configs: &["chk", "rel", "asan"],
};

fn c22(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut calls = None;
    let b = match s.weighted(&[4, 3, 3]) {
        0 => raw(s).0,
        1 => {
            let d = if s.chance(1, 5) { gen::scalar(s, &mut gen::Cfg::small()) } else { gen::doc(s) };
            refenc::layout(s, &d, None).0
        }
        _ => {
            let d = gen::doc(s);
            let style = gen::style(s);
            let b = encode(&d, style)?;
            calls = Some((d, style));
            b
        }
    };
    cx.note(|| show(&b));
    let verdict = if calls.is_some() { Verdict::Heavy } else { refdec::decode(&b) };
    let good = match &verdict {
        Verdict::Good(_) => true,
        Verdict::Heavy if calls.is_none() => {
            cx.class("left out: too large or deep");
            return Ok(());
        }
        _ => calls.is_some(),
    };
    let copy = b.clone();
    let ok = Value::from_bytes(&b).is_ok();
    let kind = Value::from_bytes(&b).ok().map(|v| (v.as_array().is_some(), v.as_dict().is_some()));
    let (arr, dict) = kind.unwrap_or((false, false));
    // Content by debug text: works for whatever is accepted.
    let text = |v: &Value| format!("{v:?}");
    let want = Value::from_bytes(&b).ok().map(text);
    macro_rules! agree {
        ($got:expr, $when:expr, $n:expr) => {
            let got: Option<String> = $got;
            let want = if $when { want.clone() } else { None };
            ensure!(got == want, "{} gives {} but Value::from_bytes gives {}", $n, clip(&format!("{got:?}")), clip(&format!("{want:?}")));
        };
    }
    let vt = |a: &Array| text(unsafe { &*(std::ptr::from_ref(a) as *const Value) });
    let dt = |a: &Dict| text(unsafe { &*(std::ptr::from_ref(a) as *const Value) });
    agree!(Value::clone_from_bytes(&b).ok().map(|v| text(v.value())), true, "Value::clone_from_bytes");
    agree!(Array::from_bytes(&b).ok().map(vt), arr, "Array::from_bytes");
    agree!(Array::clone_from_bytes(&b).ok().map(|a| vt(a.value())), arr, "Array::clone_from_bytes");
    agree!(Dict::from_bytes(&b).ok().map(dt), dict, "Dict::from_bytes");
    agree!(Dict::clone_from_bytes(&b).ok().map(|a| dt(a.value())), dict, "Dict::clone_from_bytes");
    let sc = Scope::new(b.clone(), None);
    agree!(sc.root().map(|v| text(v.value())), true, "Scope::root");
    ensure!(sc.data().is_some_and(|d| d[..] == b[..]), "the scope's data differ from the bytes given");
    let m = MutableArray::try_from(&*sc);
    ensure!(m.is_ok() == arr && MutableArray::from_scope(&sc).is_some() == arr, "MutableArray from a scope: {}", m.is_ok());
    let m = MutableDict::try_from(&*sc);
    ensure!(m.is_ok() == dict && MutableDict::from_scope(&sc).is_some() == dict, "MutableDict from a scope: {}", m.is_ok());
    if !ok {
        ensure!(fleece::from_bytes::<IgnoredAny>(&b).is_err() && fleece::from_bytes::<AnyD>(&b).is_err(), "from_bytes accepts what Value::from_bytes refuses");
    }
    // Any address.
    let mut arena = guard::Arena::new(b.len() + 16);
    let shift = s.usize(9);
    for sh in [shift, 1, arena.cap() - b.len()] {
        let x = arena.at(&b, sh);
        let got = Value::from_bytes(x).ok().map(text);
        ensure!(got == want, "at address offset {sh}: {} instead of {}", clip(&format!("{got:?}")), clip(&format!("{want:?}")));
        ensure!(x == copy.as_slice(), "opening changed the bytes");
    }
    if good {
        let v = Value::from_bytes(&b).map_err(|e| format!("valid bytes refused: {e:?}"))?;
        let content = read(v)?;
        if let Verdict::Good(d) = &verdict {
            same(&content, d, "content")?;
        }
        if let Some((d, style)) = &calls {
            same(&content, d, "content")?;
            let mut e = Encoder::new();
            write_doc(&mut e, d, *style)?;
            let fv = e.finish_value();
            same(&read(fv.value())?, d, "finish_value")?;
            ensure!(text(fv.value()) == text(v), "finish_value differs from finish");
            let mut e = Encoder::new();
            write_doc(&mut e, d, *style)?;
            let fs = e.finish_scoped();
            ensure!(fs.data().is_some_and(|x| x[..] == b[..]), "finish_scoped and finish give different bytes");
            same(&read(fs.root().ok_or("finish_scoped has no root")?.value())?, d, "finish_scoped")?;
            let mut e = Encoder::new();
            e.set_shared_keys(SharedKeys::new());
            write_doc(&mut e, d, *style)?;
            let fs = e.finish_scoped();
            same(&read(fs.root().ok_or("finish_scoped with keys has no root")?.value())?, d, "finish_scoped with keys")?;
            cx.class("encoder calls");
        }
        unsafe {
            same(&read(Value::from_bytes_unchecked(&b))?, &content, "from_bytes_unchecked")?;
            let c = Value::clone_from_bytes_unchecked(&b);
            same(&read(c.value())?, &content, "clone_from_bytes_unchecked")?;
            ensure!(c.clone().to_array().is_some() == arr && c.to_dict().is_some() == dict, "kind of clone_from_bytes_unchecked");
        }
        let AnyD(a) = fleece::from_bytes(&b).map_err(|e| format!("from_bytes refuses valid bytes: {e:?}"))?;
        same(&a, &content, "deserialised")?;
        cx.class("valid");
        if content.nodes() >= 2 {
            cx.nontrivial(hash_bytes(&b));
        }
    } else {
        cx.class(if ok { "accepted, unspecified" } else { "refused" });
        if b.len() >= 4 && b.len() % 2 == 0 && b[b.len() - 2] & 0x80 != 0 {
            cx.nontrivial(mix(7, hash_bytes(&b)));
        }
    }
    Ok(())
}

/// Probe: how deep may documents nest?
pub fn probe_deep() -> i32 {
    // Nested inline-referenced arrays, one element each.
    let mut b: Vec<u8> = vec![0x60, 0];
    for i in 0..100_000 {
        b.extend([0x60, 1, 0x80, if i == 0 { 2 } else { 3 }]);
    }
    b.extend([0x80, 2]);
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || black_box(Value::from_bytes(&b).is_ok()))
        .unwrap()
        .join()
        .map_or(1, |_| 0)
}

/// Arrays whose two elements both refer to the next array: 40 of them are 320 bytes, and 2^40 visits.
pub fn probe_doubling() -> i32 {
    let mut b: Vec<u8> = vec![0x60, 0];
    for i in 0..40 {
        let back = if i == 0 { 2 } else { 4 };
        b.extend([0x60, 2, 0x80, back, 0x80, back + 1]);
    }
    b.extend([0x80, 3]);
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let _ = tx.send(black_box(Value::from_bytes(&b).is_ok()));
    });
    i32::from(rx.recv_timeout(std::time::Duration::from_secs(10)).is_err())
}
