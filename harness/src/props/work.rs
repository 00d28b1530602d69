//! C30: work stays in proportion. Counted, not timed: edges of the control flow graph, and bytes moved.

use super::Prop;
use crate::engine::{mix, Ctx, Res, Rng, Src};
use crate::model::{write_doc, D};
use crate::{ensure, gen, watch};
use fleece::{Array, Dict, Encoder, MutableArray, MutableDict, Scope, SharedKeys, Value, ValueType};
use std::sync::Arc;

pub const C30: Prop = Prop {
    id: "C30",
    check: c30,
    quick: 24_000,
    thorough: 1_000_000,
    rule: "a case is a shape of document (or table, or set of scopes) and an operation; the operation is run on it at five sizes, each twice the one before, and the work it does is counted (edges of the control flow graph taken, bytes copied or compared); allowed at k times the size: k times 3 times the work at the first size for operations on everything, 3 times for operations on one element; non-trivial: at least 5000 units of work at the largest size; distinct by shape and operation",
    configs: &["work"],
};

/// The work `f` does.
fn measure<R>(f: impl FnOnce() -> R) -> (R, u64) {
    let before = watch::worked().unwrap_or(0);
    let r = std::hint::black_box(f());
    (r, watch::worked().unwrap_or(0) - before)
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Kind {
    FlatArray,
    FlatDict,
    Records,
    Tree,
    Deep,
    Long,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Order {
    Ascending,
    Descending,
    Scattered,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Op {
    // Everything
    Encode,
    EncodeShared,
    EncodeScoped,
    Validate,
    Clone,
    InScope,
    Walk,
    Lookups,
    Copy,
    CopyShared,
    Mutable,
    MutableClone,
    MutableBuild,
    Debug,
    ToSerde,
    ToSerdeShared,
    FromSerde,
    TableGrow,
    // One element
    Access,
    AccessScoped,
    AccessShared,
    OpenUnchecked,
    Handles,
    MutableAccess,
    Scopes,
    Table,
    AfterPrefix,
}
const OPS: &[(Op, u32)] = &[
    (Op::Encode, 4),
    (Op::EncodeShared, 3),
    (Op::EncodeScoped, 2),
    (Op::Validate, 4),
    (Op::Clone, 1),
    (Op::InScope, 1),
    (Op::Walk, 4),
    (Op::Lookups, 3),
    (Op::Copy, 3),
    (Op::CopyShared, 2),
    (Op::Mutable, 3),
    (Op::MutableClone, 1),
    (Op::MutableBuild, 2),
    (Op::Debug, 2),
    (Op::ToSerde, 2),
    (Op::ToSerdeShared, 2),
    (Op::FromSerde, 3),
    (Op::TableGrow, 2),
    (Op::Access, 5),
    (Op::AccessScoped, 3),
    (Op::AccessShared, 3),
    (Op::OpenUnchecked, 1),
    (Op::Handles, 1),
    (Op::MutableAccess, 4),
    (Op::Scopes, 3),
    (Op::Table, 2),
    (Op::AfterPrefix, 2),
];
impl Op {
    fn of_one(self) -> bool {
        matches!(self, Op::Access | Op::AccessScoped | Op::AccessShared | Op::OpenUnchecked | Op::Handles | Op::MutableAccess | Op::Scopes | Op::Table | Op::AfterPrefix)
    }
    fn needs_document(self) -> bool {
        !matches!(self, Op::TableGrow | Op::Scopes | Op::Table)
    }
}

#[derive(Debug)]
struct Shape {
    kind: Kind,
    pattern: Vec<D>,
    /// Before and after the number in a key.
    key: (String, String),
    padded: bool,
    order: Order,
    /// Pairs of a record, or children in a tree.
    fan: usize,
    style: u64,
    seed: u64,
}

impl Shape {
    fn make(s: &mut Src, op: Op) -> Shape {
        let kind = match s.weighted(&[5, 6, 3, 4, 2, 1]) {
            0 => Kind::FlatArray,
            1 => Kind::FlatDict,
            // (An element that is overwritten or removed takes what it holds with it.)
            2 if op != Op::MutableAccess => Kind::Records,
            3 if op != Op::MutableAccess => Kind::Tree,
            4 if !op.of_one() => Kind::Deep,
            5 if !op.of_one() => Kind::Long,
            _ => Kind::FlatDict,
        };
        let n = s.range(1, 4);
        let pattern = (0..n)
            .map(|_| {
                let mut c = gen::Cfg { depth: 1, nodes: 4, max_len: 40, wide_counts: false, bytes: 80 };
                if s.chance(1, 4) {
                    gen::value(s, &mut c)
                } else {
                    gen::scalar(s, &mut c)
                }
            })
            .collect();
        let before = s.pick(&["", "k", "key_", "name-", "a rather long beginning of a key ", "é"]).to_string();
        let after = s.pick(&["", "", "", "_", " end"]).to_string();
        Shape {
            kind,
            pattern,
            key: (before, after),
            padded: s.bool(),
            order: *s.pick(&[Order::Ascending, Order::Descending, Order::Scattered]),
            fan: s.range(2, 12),
            style: gen::style(s),
            seed: s.below(1 << 32),
        }
    }
    fn key(&self, i: usize, n: usize) -> String {
        let i = match self.order {
            Order::Ascending => i,
            Order::Descending => n - 1 - i,
            Order::Scattered => i * 1_000_003 % n,
        };
        let (a, b) = &self.key;
        if self.padded {
            format!("{a}{i:05x}{b}")
        } else {
            format!("{a}{i:x}{b}")
        }
    }
    fn element(&self, i: usize) -> D {
        match &self.pattern[i % self.pattern.len()] {
            D::Int(x) if i % 3 == 0 => D::Int((*x).clamp(-1 << 60, 1 << 60) + (i % 7) as i128),
            x => x.clone(),
        }
    }
    fn first_size(&self, s: &mut Src) -> usize {
        match self.kind {
            Kind::Deep if s.bool() => s.range(4, 12),
            Kind::Deep => s.range(50, 70),
            Kind::Long => s.range(8_000, 20_000),
            _ => s.range(200, 500),
        }
    }
    fn build(&self, n: usize) -> D {
        match self.kind {
            Kind::FlatArray => D::Arr((0..n).map(|i| self.element(i)).collect()),
            Kind::FlatDict => D::Dict((0..n).map(|i| (self.key(i, n), self.element(i))).collect()),
            Kind::Records => D::Arr(
                (0..n / self.fan)
                    .map(|r| D::Dict((0..self.fan).map(|i| (self.key(i, self.fan), self.element(r + i))).collect()))
                    .collect(),
            ),
            Kind::Tree => {
                let mut level: Vec<D> = (0..n).map(|i| self.element(i)).collect();
                let mut dicts = self.seed & 1 == 0;
                while level.len() > 1 {
                    let mut up = Vec::new();
                    let mut it = level.into_iter().peekable();
                    while it.peek().is_some() {
                        let some: Vec<D> = it.by_ref().take(self.fan).collect();
                        let m = some.len();
                        up.push(if dicts { D::Dict(some.into_iter().enumerate().map(|(i, x)| (self.key(i, m), x)).collect()) } else { D::Arr(some) });
                    }
                    level = up;
                    dicts ^= self.seed & 2 == 0;
                }
                level.pop().unwrap()
            }
            Kind::Deep => {
                let mut d = self.element(0);
                for i in 0..n {
                    d = if (self.seed >> (i % 7)) & 1 == 0 {
                        D::Arr(vec![self.element(i), d])
                    } else {
                        D::Dict(vec![(self.key(0, 2), d), (self.key(1, 2), self.element(i))])
                    };
                }
                d
            }
            Kind::Long => {
                let t: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
                D::Arr(vec![D::Data(t.clone().into_bytes()), D::Str(t)])
            }
        }
    }
}

/// Goes through everything once.
fn walk(v: &Value) -> u64 {
    match v.value_type() {
        ValueType::Array => v.as_array().map_or(0, |a| a.iter().map(walk).sum::<u64>() + a.len() as u64),
        ValueType::Dict => v.as_dict().map_or(0, |a| a.iter().map(|(k, x)| k.len() as u64 + walk(x)).sum::<u64>() + a.len() as u64),
        ValueType::String => v.to_str().len() as u64,
        ValueType::Data => v.to_data().len() as u64,
        ValueType::Float | ValueType::Double32 | ValueType::Double64 => v.to_double().to_bits() & 1,
        _ => v.to_int() as u64 & 1,
    }
}
/// Goes everywhere, by index and by key.
fn look_up(v: &Value, d: &D) -> Result<u64, String> {
    Ok(match d {
        D::Arr(w) => {
            let a = v.as_array().ok_or("no array")?;
            let mut n = a.len() as u64;
            for (i, x) in w.iter().enumerate() {
                n += look_up(a.get(i).ok_or("lost element")?, x)?;
            }
            n
        }
        D::Dict(w) => {
            let a = v.as_dict().ok_or("no dictionary")?;
            let mut n = a.len() as u64;
            for (k, x) in w {
                n += look_up(a.get(k.as_str()).ok_or("lost key")?, x)?;
            }
            n
        }
        _ => 1,
    })
}
fn json(d: &D) -> serde_json::Value {
    use serde_json::Value as J;
    match d {
        D::Null | D::Undef => J::Null,
        D::Bool(b) => J::Bool(*b),
        D::Int(i) => i64::try_from(*i).map_or(J::Null, J::from),
        D::F32(b) => J::from(f64::from(f32::from_bits(*b))),
        D::F64(b) => J::from(f64::from_bits(*b)),
        D::Str(t) => J::from(t.as_str()),
        D::Data(t) => J::from(t.len()),
        D::Arr(w) => J::Array(w.iter().map(json).collect()),
        D::Dict(w) => J::Object(w.iter().map(|(k, x)| (k.clone(), json(x))).collect()),
    }
}
fn encoder(shared: bool) -> Encoder {
    let mut e = Encoder::new();
    if shared {
        e.set_shared_keys(SharedKeys::new());
    }
    e
}

const TIMES: usize = 64;

fn access(v: &Value, sh: &Shape, n: usize, table: Option<&SharedKeys>, r: &mut Rng) -> Result<u64, String> {
    let top = match sh.kind {
        Kind::FlatArray | Kind::FlatDict => n,
        _ => 2,
    };
    let keys: Vec<(String, bool)> = (0..TIMES).map(|_| sh.key(r.next() as usize % top, top)).enumerate().map(|(i, k)| if i % 4 == 3 { (format!("{k}x"), false) } else { (k, true) }).collect();
    let places: Vec<usize> = (0..TIMES).map(|_| r.next() as usize % n).collect();
    let mut lost = 0;
    let (_, w) = measure(|| {
        if let Some(a) = v.as_array() {
            for &i in &places {
                let x = a.get(i);
                lost += usize::from(x.is_none() && i < a.len());
                std::hint::black_box(x.map(Value::value_type));
            }
            std::hint::black_box((a.len(), a.is_empty(), a.iter().next().is_some(), a.iter().size_hint()));
        } else if let Some(a) = v.as_dict() {
            for (k, there) in &keys {
                let x = match table {
                    Some(t) => a.get_with_shared_keys(k.as_str(), t),
                    None => a.get(k.as_str()),
                };
                lost += usize::from(x.is_none() && *there);
            }
            std::hint::black_box((a.len(), a.is_empty(), a.iter().next().is_some(), a.first().is_some(), table.is_none() && a.contains_key("nothing")));
        }
    });
    ensure!(lost == 0 || sh.kind != Kind::FlatArray && sh.kind != Kind::FlatDict, "{lost} elements or keys not found");
    Ok(w)
}

/// The work of the operation on the shape at size `n`.
fn run(op: Op, sh: &Shape, n: usize) -> Result<u64, String> {
    let d = if op.needs_document() && op != Op::AfterPrefix { sh.build(n) } else { D::Arr(sh.pattern.clone()) };
    let mut r = Rng::new(sh.seed);
    let plain = || -> Result<Vec<u8>, String> {
        let mut e = Encoder::new();
        write_doc(&mut e, &d, sh.style)?;
        Ok(e.finish())
    };
    let scoped = || -> Result<Arc<Scope>, String> {
        let mut e = encoder(true);
        write_doc(&mut e, &d, sh.style)?;
        Ok(e.finish_scoped())
    };
    let err = |e: &dyn std::fmt::Debug| format!("{e:?}");
    Ok(match op {
        Op::Encode | Op::EncodeShared => {
            let (x, w) = measure(|| {
                let mut e = encoder(op == Op::EncodeShared);
                write_doc(&mut e, &d, sh.style).map(|()| e.finish())
            });
            x?;
            w
        }
        Op::EncodeScoped => {
            let (x, w) = measure(|| {
                let mut e = encoder(true);
                write_doc(&mut e, &d, sh.style).map(|()| drop(e.finish_scoped()))
            });
            x?;
            w
        }
        Op::Validate => {
            let b = plain()?;
            let (x, w) = measure(|| Value::from_bytes(&b).is_ok());
            ensure!(x, "refused");
            w
        }
        Op::Clone => {
            let b = plain()?;
            let (x, w) = measure(|| Value::clone_from_bytes(&b).is_ok());
            ensure!(x, "refused");
            w
        }
        Op::InScope => {
            let b = plain()?;
            measure(|| Scope::new(b, None)).1
        }
        Op::Walk => {
            if sh.seed & 4 == 0 {
                let b = plain()?;
                let v = Value::from_bytes(&b).map_err(|e| err(&e))?;
                measure(|| walk(v)).1
            } else {
                let sc = scoped()?;
                let v = sc.root().ok_or("no root")?;
                measure(|| walk(&v)).1
            }
        }
        Op::Lookups => {
            if sh.seed & 4 == 0 {
                let b = plain()?;
                let v = Value::from_bytes(&b).map_err(|e| err(&e))?;
                let (x, w) = measure(|| look_up(v, &d));
                x?;
                w
            } else {
                let sc = scoped()?;
                let v = sc.root().ok_or("no root")?;
                let (x, w) = measure(|| look_up(&v, &d));
                x?;
                w
            }
        }
        Op::Copy | Op::CopyShared => {
            let sc = if sh.seed & 4 == 0 { Scope::new(plain()?, None) } else { scoped()? };
            let v = sc.root().ok_or("no root")?;
            let (x, w) = measure(|| {
                let mut e = encoder(op == Op::CopyShared);
                e.write_fleece(&v).map(|()| e.finish())
            });
            x.map_err(|e| err(&e))?;
            w
        }
        Op::Mutable | Op::MutableClone => {
            let sc = if sh.seed & 4 == 0 { Scope::new(plain()?, None) } else { scoped()? };
            let v = sc.root().ok_or("no root")?;
            match (v.as_array(), v.as_dict()) {
                (Some(a), _) => {
                    let (m, w) = measure(|| MutableArray::clone_from(a));
                    if op == Op::Mutable { w } else { measure(|| drop(m.clone())).1 }
                }
                (_, Some(a)) => {
                    let (m, w) = measure(|| MutableDict::clone_from(a));
                    if op == Op::Mutable { w } else { measure(|| drop(m.clone())).1 }
                }
                _ => return Err("the root is no collection".into()),
            }
        }
        Op::MutableBuild => {
            if sh.seed & 4 == 0 {
                measure(|| {
                    let mut m = MutableArray::new();
                    for i in 0..n {
                        m.push(&(i as i64));
                    }
                    for i in (0..n).rev() {
                        m.set(i, "a string which does not fit");
                    }
                    for i in (0..n).rev() {
                        m.remove(i);
                    }
                })
                .1
            } else {
                let keys: Vec<String> = (0..n).map(|i| sh.key(i, n)).collect();
                measure(|| {
                    let mut m = MutableDict::new();
                    for (i, k) in keys.iter().enumerate() {
                        m.insert(k, &(i as i64));
                    }
                    for k in &keys {
                        m.insert(k, "a string which does not fit");
                    }
                    for k in &keys {
                        m.remove(k);
                    }
                })
                .1
            }
        }
        Op::Debug => {
            let b = plain()?;
            let v = Value::from_bytes(&b).map_err(|e| err(&e))?;
            measure(|| format!("{v:?}").len()).1
        }
        Op::ToSerde => {
            let j = json(&d);
            let (x, w) = measure(|| fleece::to_bytes(&j).map(|b| b.len()));
            x.map_err(|e| err(&e))?;
            w
        }
        Op::ToSerdeShared => {
            let j = json(&d);
            let (x, w) = measure(|| fleece::to_bytes_with_shared_keys(&j).map(drop));
            x.map_err(|e| err(&e))?;
            w
        }
        Op::FromSerde => {
            let j = json(&d);
            let (x, w) = if sh.seed & 4 == 0 {
                let b = fleece::to_bytes(&j).map_err(|e| err(&e))?;
                measure(|| fleece::from_bytes::<serde_json::Value>(&b).map(drop))
            } else {
                let sc = fleece::to_bytes_with_shared_keys(&j).map_err(|e| err(&e))?;
                let data = sc.data().ok_or("no data")?;
                measure(|| fleece::from_bytes::<serde_json::Value>(&data).map(drop))
            };
            x.map_err(|e| err(&e))?;
            w
        }
        Op::TableGrow => {
            let n = n / 4;
            let keys: Vec<String> = (0..n).map(|i| format!("k{}", sh.key(i, n))).collect();
            measure(|| {
                let mut t = SharedKeys::new();
                for k in &keys {
                    t.encode_and_insert(k);
                }
                let b = t.get_state_bytes();
                let u = SharedKeys::from_state_bytes(&b);
                t.iter().count() + u.map_or(0, |u| usize::from(u.len()))
            })
            .1
        }
        Op::Access => {
            let b = plain()?;
            let v = Value::from_bytes(&b).map_err(|e| err(&e))?;
            access(v, sh, n, None, &mut r)?
        }
        Op::AccessScoped => {
            let sc = scoped()?;
            access(&sc.root().ok_or("no root")?, sh, n, None, &mut r)?
        }
        Op::AccessShared => {
            let sc = scoped()?;
            let v = Value::clone_from_bytes(&sc.data().ok_or("no data")?).map_err(|e| err(&e))?;
            access(&v, sh, n, sc.shared_keys().map(|t| &**t), &mut r)?
        }
        Op::OpenUnchecked => {
            let b = plain()?;
            measure(|| (0..TIMES).map(|_| unsafe { Value::from_bytes_unchecked(&b) }.len()).sum::<usize>()).1
        }
        Op::Handles => {
            let v = Value::clone_from_bytes(&plain()?).map_err(|e| err(&e))?;
            measure(|| {
                for i in 0..TIMES {
                    let h = v.clone();
                    if i % 2 == 0 {
                        drop(h.to_array());
                    } else {
                        drop(h.to_dict());
                    }
                }
            })
            .1
        }
        Op::MutableAccess => {
            let b = plain()?;
            let v = Value::from_bytes(&b).map_err(|e| err(&e))?;
            match (v.as_array(), v.as_dict()) {
                (Some(a), _) => mutable_array(a, &mut r),
                (_, Some(a)) => mutable_dict(a, sh, n, &mut r),
                _ => return Err("the root is no collection".into()),
            }
        }
        Op::Scopes => {
            let n = n / 4;
            let b = plain()?;
            let held: Vec<Arc<Scope>> = (0..n).map(|_| Scope::new(b.clone(), None)).collect();
            let at: Vec<*const u8> = (0..TIMES).map(|_| held[r.next() as usize % n].range().map_or(0, |x| x.start) as *const u8).collect();
            let elsewhere = b.as_ptr();
            let mut lost = 0;
            let (_, w) = measure(|| {
                for p in &at {
                    lost += usize::from(Scope::containing(*p).is_none());
                    std::hint::black_box(Scope::containing(elsewhere).is_some());
                }
                for i in 0..TIMES / 2 {
                    let sc = Scope::new(b.clone(), None);
                    if i % 2 == 0 {
                        sc.remove();
                    }
                }
            });
            ensure!(lost == 0, "{lost} scopes not found");
            w
        }
        Op::Table => {
            let n = n / 4;
            let mut t = SharedKeys::new();
            let keys: Vec<String> = (0..n).map(|i| format!("k{i}")).collect();
            for k in &keys {
                t.encode_and_insert(k);
            }
            let mut lost = 0;
            let picked: Vec<usize> = (0..TIMES).map(|_| r.next() as usize % n).collect();
            let (_, w) = measure(|| {
                for &i in &picked {
                    lost += usize::from(t.encode(&keys[i]) != Some(i as u16) || t.encode_and_insert(&keys[i]) != Some(i as u16));
                    lost += usize::from(t.decode(i as u16) != Some(keys[i].as_str()));
                    lost += usize::from(t.encode("nothing").is_some());
                }
            });
            ensure!(lost == 0, "{lost} keys not found");
            w
        }
        Op::AfterPrefix => {
            let mut prefix = Vec::with_capacity(n * 200 + 100_000);
            prefix.resize(n * 200, 0x55);
            let (x, w) = measure(|| {
                let mut e = Encoder::new_to_vec(prefix);
                write_doc(&mut e, &d, sh.style).map(|()| e.finish())
            });
            x?;
            w
        }
    })
}

fn mutable_array(a: &Array, r: &mut Rng) -> u64 {
    let mut m = MutableArray::clone_from(a);
    let len = m.len();
    let at: Vec<usize> = (0..TIMES).map(|_| r.next() as usize % len.max(1)).collect();
    measure(|| {
        for &i in &at {
            std::hint::black_box((m.get(i).is_some(), m.get_array(i).is_some(), m.len(), m.iter().next().is_some()));
            if i + 1 < len {
                m.set(i, 7);
            }
            m.remove(m.len().saturating_sub(1));
            m.push("another string");
        }
    })
    .1
}

fn mutable_dict(a: &Dict, sh: &Shape, n: usize, r: &mut Rng) -> u64 {
    let mut m = MutableDict::clone_from(a);
    let keys: Vec<String> = (0..TIMES).map(|_| sh.key(r.next() as usize % n, n)).collect();
    measure(|| {
        for (i, k) in keys.iter().enumerate() {
            std::hint::black_box((m.get(k).is_some(), m.get_dict(k).is_some(), m.contains_key(k), m.len(), m.iter().next().is_some()));
            m.insert(k, 7);
            if i % 2 == 0 {
                m.remove(k);
                m.insert(k, "another string");
            }
        }
    })
    .1
}

fn c30(s: &mut Src, cx: &mut Ctx) -> Res {
    let weights: Vec<u32> = OPS.iter().map(|x| x.1).collect();
    let (op, _) = OPS[s.weighted(&weights)];
    let sh = Shape::make(s, op);
    let n = sh.first_size(s);
    cx.note(|| format!("{op:?} of {n} elements and more: {sh:?}"));
    if watch::worked().is_none() {
        cx.class("left out: this build does not count work");
        return Ok(());
    }
    // What is made once.
    run(op, &sh, if sh.kind == Kind::Deep { 3 } else { 24 })?;
    // Up to the first size, by steps in which work that doubles with every level shows before it takes for ever.
    if sh.kind == Kind::Deep {
        let (mut m, mut before) = (4, run(op, &sh, 4)?);
        while 2 * m < n {
            m *= 2;
            let w = run(op, &sh, m)?;
            ensure!(w <= 6 * before + 20_000, "{op:?} of {:?}: {before} units of work at {}, {w} at {m}", sh.kind, m / 2);
            before = w;
        }
    }
    let first = run(op, &sh, n)?;
    let mut last = first;
    for k in [2u64, 4, 8, 16] {
        last = run(op, &sh, n * k as usize)?;
        cx.sub += 1;
        let allowed = if op.of_one() { 3 * first } else { 3 * k * first } + 20_000;
        cx.note(|| format!("work {first} at the first size, {last} at {k} times of it (allowed: {allowed})"));
        ensure!(last <= allowed, "{op:?} of {:?}: {first} units of work at {n}, {last} at {k} times as many (allowed: {allowed})", sh.kind);
    }
    cx.class(match op.of_one() {
        true => "an operation on one element",
        false => "an operation on everything",
    });
    if last >= 5000 {
        cx.nontrivial(mix(mix(op as u64, sh.kind as u64), crate::engine::hash_bytes(format!("{sh:?}").as_bytes())));
    }
    Ok(())
}
