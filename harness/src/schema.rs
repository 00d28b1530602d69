//! Dynamic serde types: a schema, values of it, and the calls a derived implementation would make.

use crate::engine::{mix, Src};
use crate::gen;
use crate::model::{f32n, f64n, D};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fmt;

pub static FIELDS: &[&str] = &[
    "id", "name", "a", "b", "_id", "type", "value", "x-y", "exactly16bytes__", "seventeen_bytes__", "with space", "é", "", "zz", "r#in", "count", "c0", "c1", "a field name which is long enough to need two bytes of length: it has to have 128 or more characters in it, padding padding pad", "0", "中文字段", "k1", "k2", "k3", "K", "Z9",
];
pub static VARIANTS: &[&str] = &["A", "Bb", "unit", "newtype", "tuple-variant", "structVariant", "x", "variant with spaces", "exactly16bytes__", "É", "", "0", "AnotherVeryLongVariantNameIndeed", "Z"];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum IntTy {
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
}
const INTS: [IntTy; 8] = [IntTy::I8, IntTy::I16, IntTy::I32, IntTy::I64, IntTy::U8, IntTy::U16, IntTy::U32, IntTy::U64];
impl IntTy {
    pub fn range(self) -> (i128, i128) {
        match self {
            IntTy::I8 => (i8::MIN.into(), i8::MAX.into()),
            IntTy::I16 => (i16::MIN.into(), i16::MAX.into()),
            IntTy::I32 => (i32::MIN.into(), i32::MAX.into()),
            IntTy::I64 => (i64::MIN.into(), i64::MAX.into()),
            IntTy::U8 => (0, u8::MAX.into()),
            IntTy::U16 => (0, u16::MAX.into()),
            IntTy::U32 => (0, u32::MAX.into()),
            IntTy::U64 => (0, u64::MAX.into()),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum KeyTy {
    Str,
    Char,
    NewtypeStr,
}

/// Keys that are not strings.
pub const BAD_KEYS: u64 = 24;

#[derive(Clone, Debug)]
pub enum Ty {
    Bool,
    Int(IntTy),
    F32,
    F64,
    Char,
    Str,
    Bytes,
    Unit,
    UnitStruct,
    Option(Box<Ty>),
    Newtype(Box<Ty>),
    Seq(Box<Ty>),
    Tuple(Vec<Ty>),
    TupleStruct(Vec<Ty>),
    Map(KeyTy, Box<Ty>),
    Struct(usize, Vec<Ty>),
    Enum(usize, Vec<Var>),
    /// A map whose keys are not strings (cannot be serialised).
    BadMap(u64, Box<Ty>),
    /// A value whose own Serialize fails.
    Fails,
}
#[derive(Clone, Debug)]
pub enum Var {
    Unit,
    Newtype(Ty),
    Tuple(Vec<Ty>),
    Struct(usize, Vec<Ty>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Bool(bool),
    Int(i128),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<V>),
    /// Sequences, tuples and structs (fields in order).
    Seq(Vec<V>),
    Map(Vec<(String, V)>),
    Enum(usize, Box<V>),
}

impl V {
    /// Map entries by key, NaNs normalised.
    pub fn canon(&self) -> V {
        match self {
            V::F32(b) if f32::from_bits(*b).is_nan() => V::F32(0x7fc0_0000),
            V::F64(b) if f64::from_bits(*b).is_nan() => V::F64(0x7ff8_0000_0000_0000),
            V::Some(v) => V::Some(Box::new(v.canon())),
            V::Seq(v) => V::Seq(v.iter().map(V::canon).collect()),
            V::Map(v) => {
                let mut v: Vec<_> = v.iter().map(|(k, x)| (k.clone(), x.canon())).collect();
                v.sort_by(|a, b| a.0.cmp(&b.0));
                V::Map(v)
            }
            V::Enum(i, v) => V::Enum(*i, Box::new(v.canon())),
            v => v.clone(),
        }
    }
    pub fn nodes(&self) -> usize {
        match self {
            V::Some(v) | V::Enum(_, v) => 1 + v.nodes(),
            V::Seq(v) => 1 + v.iter().map(V::nodes).sum::<usize>(),
            V::Map(v) => 1 + v.iter().map(|x| x.1.nodes()).sum::<usize>(),
            _ => 1,
        }
    }
}

// ---------------------------------------------------------------- generation

pub struct Cfg {
    pub nodes: usize,
    pub depth: usize,
    /// Also types that cannot be serialised.
    pub bad: bool,
}

fn names(s: &mut Src, pool: usize, n: usize) -> usize {
    s.usize(pool - n + 1)
}
fn types(s: &mut Src, c: &mut Cfg, lo: usize, hi: usize) -> Vec<Ty> {
    let n = s.range(lo, hi);
    (0..n).map(|_| ty(s, c)).collect()
}

/// Does the type have a value that is null? (An option of it would be ambiguous.)
fn has_null(t: &Ty) -> bool {
    match t {
        Ty::Option(_) | Ty::UnitStruct | Ty::Fails | Ty::BadMap(..) => true,
        Ty::Newtype(t) => has_null(t),
        _ => false,
    }
}

pub fn ty(s: &mut Src, c: &mut Cfg) -> Ty {
    if c.depth == 0 || c.nodes == 0 || s.chance(3, 5) {
        c.nodes = c.nodes.saturating_sub(1);
        return match s.weighted(&[8, 2, 2, 3, 2, 5, 3, 1, 1]) {
            0 => Ty::Int(*s.pick(&INTS)),
            1 => Ty::Bool,
            2 => Ty::F32,
            3 => Ty::F64,
            4 => Ty::Char,
            5 => Ty::Str,
            6 => Ty::Bytes,
            7 => Ty::Unit,
            _ => Ty::UnitStruct,
        };
    }
    composite(s, c)
}

pub fn composite(s: &mut Src, c: &mut Cfg) -> Ty {
    c.depth -= 1;
    c.nodes = c.nodes.saturating_sub(1);
    let t = match s.weighted(&[5, 2, 4, 3, 2, 4, 6, 7, if c.bad { 3 } else { 0 }, u32::from(c.bad)]) {
        0 => {
            let t = ty(s, c);
            if has_null(&t) {
                Ty::Option(Box::new(Ty::Str))
            } else {
                Ty::Option(Box::new(t))
            }
        }
        1 => Ty::Newtype(Box::new(ty(s, c))),
        2 => Ty::Seq(Box::new(ty(s, c))),
        3 => Ty::Tuple(types(s, c, 1, 5)),
        4 => {
            let n = types(s, c, 0, 4);
            // (A tuple struct of one field is a newtype.)
            if n.len() == 1 {
                Ty::Newtype(Box::new(n.into_iter().next().unwrap()))
            } else {
                Ty::TupleStruct(n)
            }
        }
        5 => Ty::Map(*s.pick(&[KeyTy::Str, KeyTy::Str, KeyTy::Char, KeyTy::NewtypeStr]), Box::new(ty(s, c))),
        6 => {
            let f = types(s, c, 0, 7);
            Ty::Struct(names(s, FIELDS.len(), f.len()), f)
        }
        7 => {
            let n = s.range(1, 5);
            let vs: Vec<Var> = (0..n)
                .map(|_| match s.below(4) {
                    0 => Var::Unit,
                    1 => Var::Newtype(ty(s, c)),
                    2 => {
                        let t = types(s, c, 0, 4);
                        if t.len() == 1 {
                            Var::Newtype(t.into_iter().next().unwrap())
                        } else {
                            Var::Tuple(t)
                        }
                    }
                    _ => {
                        let f = types(s, c, 0, 4);
                        Var::Struct(names(s, FIELDS.len(), f.len()), f)
                    }
                })
                .collect();
            Ty::Enum(names(s, VARIANTS.len(), n), vs)
        }
        8 => Ty::BadMap(s.below(BAD_KEYS), Box::new(ty(s, c))),
        _ => Ty::Fails,
    };
    c.depth += 1;
    t
}

/// A type that serialises to a collection, whatever the value.
pub fn top(s: &mut Src, c: &mut Cfg) -> Ty {
    let t = composite(s, c);
    if always_collection(&t) {
        t
    } else {
        match s.below(3) {
            0 => Ty::Seq(Box::new(t)),
            1 => Ty::Struct(0, vec![t]),
            _ => Ty::Tuple(vec![t, Ty::Bool]),
        }
    }
}
fn always_collection(t: &Ty) -> bool {
    match t {
        Ty::Newtype(t) => always_collection(t),
        Ty::Seq(_) | Ty::Tuple(_) | Ty::TupleStruct(_) | Ty::Map(..) | Ty::Struct(..) | Ty::Enum(..) | Ty::BadMap(..) => true,
        _ => false,
    }
}

pub struct Budget {
    pub nodes: usize,
    pub bytes: usize,
}

pub fn value(s: &mut Src, t: &Ty, b: &mut Budget) -> V {
    b.nodes = b.nodes.saturating_sub(1);
    match t {
        Ty::Bool => V::Bool(s.bool()),
        Ty::Int(i) => {
            let (lo, hi) = i.range();
            let v = gen::int(s);
            V::Int(match s.below(12) {
                0 => lo,
                1 => hi,
                _ => v.clamp(lo, hi),
            })
        }
        Ty::F32 => V::F32(gen::f32bits(s)),
        Ty::F64 => V::F64(gen::f64bits(s)),
        Ty::Char => V::Char(ch(s)),
        Ty::Str => {
            let t = gen::string(s, b.bytes.min(70_000));
            b.bytes -= t.len();
            V::Str(t)
        }
        Ty::Bytes => {
            let t = gen::data(s, b.bytes.min(70_000));
            b.bytes -= t.len();
            V::Bytes(t)
        }
        Ty::Unit | Ty::UnitStruct | Ty::Fails => V::Unit,
        Ty::Option(t) => {
            if s.chance(1, 3) {
                V::None
            } else {
                V::Some(Box::new(value(s, t, b)))
            }
        }
        Ty::Newtype(t) => value(s, t, b),
        Ty::Seq(t) => {
            if s.chance(1, 150) && b.nodes > 20 && matches!(**t, Ty::Bool | Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Char | Ty::Unit | Ty::UnitStruct) {
                let n = if s.chance(1, 10) { gen::crowd(s) } else { *s.pick(&[255usize, 256, 2046, 2047, 2048, 3000, 8191, 8192]) };
                let proto = [value(s, t, b), value(s, t, b)];
                b.nodes = 0;
                return V::Seq((0..n).map(|i| proto[i % 2].clone()).collect());
            }
            let mut v = Vec::new();
            while s.more(v.len(), 4, b.nodes.min(60)) {
                v.push(value(s, t, b));
            }
            V::Seq(v)
        }
        Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(_, ts) => V::Seq(ts.iter().map(|t| value(s, t, b)).collect()),
        Ty::Map(k, t) => {
            let mut v: Vec<(String, V)> = Vec::new();
            if *k != KeyTy::Char && s.chance(1, 150) && b.nodes > 20 && matches!(**t, Ty::Bool | Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Char | Ty::Unit | Ty::UnitStruct) {
                let n = if s.chance(1, 10) { gen::crowd(s) / 2 } else { *s.pick(&[255usize, 256, 1024, 2046, 2047, 2048, 2049, 4096]) };
                let proto = [value(s, t, b), value(s, t, b)];
                b.nodes = 0;
                return V::Map(gen::keys(s, n, 40).into_iter().enumerate().map(|(i, k)| (k, proto[i % 2].clone())).collect());
            }
            while s.more(v.len(), 4, b.nodes.min(60)) {
                let key = match k {
                    KeyTy::Char => ch(s).to_string(),
                    _ => {
                        let k = gen::key(s, b.bytes.min(300));
                        b.bytes -= k.len().min(b.bytes);
                        k
                    }
                };
                if v.iter().any(|(x, _)| *x == key) {
                    break;
                }
                v.push((key, value(s, t, b)));
            }
            V::Map(v)
        }
        Ty::Enum(_, vs) => {
            let i = s.usize(vs.len());
            let p = match &vs[i] {
                Var::Unit => V::Unit,
                Var::Newtype(t) => value(s, t, b),
                Var::Tuple(ts) | Var::Struct(_, ts) => V::Seq(ts.iter().map(|t| value(s, t, b)).collect()),
            };
            V::Enum(i, Box::new(p))
        }
        Ty::BadMap(_, t) => {
            let n = s.range(1, 2);
            V::Seq((0..n).map(|_| value(s, t, b)).collect())
        }
    }
}
fn ch(s: &mut Src) -> char {
    *s.pick(&['a', 'Z', '0', '_', '\0', 'é', '中', '😀', '\u{7f}', '\u{80}', '\u{10ffff}', ' ', '"', '-'])
}

pub fn fp(t: &Ty, v: &V) -> u64 {
    mix(crate::engine::hash_bytes(format!("{t:?}").as_bytes()), crate::engine::hash_bytes(format!("{v:?}").as_bytes()))
}

// ---------------------------------------------------------------- what is documented

/// Nothing but a scalar at the top (which cannot be serialised alone).
pub fn bare(t: &Ty, v: &V) -> bool {
    match (t, v) {
        (Ty::Newtype(t), v) => bare(t, v),
        (Ty::Option(t), V::Some(v)) => bare(t, v),
        (Ty::Option(_), _) => true,
        (Ty::Bool | Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Char | Ty::Str | Ty::Bytes | Ty::Unit | Ty::UnitStruct, _) => true,
        _ => false,
    }
}

/// The first thing (in writing order) that makes serialising fail.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Refused {
    Key,
    Custom,
}
pub fn refused(t: &Ty, v: &V) -> Option<Refused> {
    match (t, v) {
        (Ty::Newtype(t), v) => refused(t, v),
        (Ty::Option(t), V::Some(v)) => refused(t, v),
        (Ty::Seq(t), V::Seq(v)) => v.iter().find_map(|v| refused(t, v)),
        (Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(_, ts), V::Seq(v)) => ts.iter().zip(v).find_map(|(t, v)| refused(t, v)),
        (Ty::Map(_, t), V::Map(v)) => v.iter().find_map(|(_, v)| refused(t, v)),
        (Ty::Enum(_, vs), V::Enum(i, v)) => match (&vs[*i], &**v) {
            (Var::Newtype(t), v) => refused(t, v),
            (Var::Tuple(ts) | Var::Struct(_, ts), V::Seq(v)) => ts.iter().zip(v).find_map(|(t, v)| refused(t, v)),
            _ => None,
        },
        (Ty::BadMap(..), _) => Some(Refused::Key),
        (Ty::Fails, _) => Some(Refused::Custom),
        _ => None,
    }
}

/// The documented document of a value.
pub fn document(t: &Ty, v: &V) -> D {
    let fields = |off: usize, ts: &[Ty], v: &[V]| D::Dict(ts.iter().zip(v).enumerate().map(|(i, (t, v))| (FIELDS[off + i].to_string(), document(t, v))).collect());
    match (t, v) {
        (Ty::Bool, V::Bool(b)) => D::Bool(*b),
        (Ty::Int(_), V::Int(i)) => D::Int(*i),
        (Ty::F32, V::F32(b)) => D::F32(*b),
        (Ty::F64, V::F64(b)) => D::F64(*b),
        (Ty::Char, V::Char(c)) => D::Str(c.to_string()),
        (Ty::Str, V::Str(x)) => D::Str(x.clone()),
        (Ty::Bytes, V::Bytes(x)) => D::Data(x.clone()),
        (Ty::Unit, _) => D::Undef,
        (Ty::UnitStruct, _) => D::Null,
        (Ty::Option(_), V::None) => D::Null,
        (Ty::Option(t), V::Some(v)) => document(t, v),
        (Ty::Newtype(t), v) => document(t, v),
        (Ty::Seq(t), V::Seq(v)) => D::Arr(v.iter().map(|v| document(t, v)).collect()),
        (Ty::Tuple(ts) | Ty::TupleStruct(ts), V::Seq(v)) => D::Arr(ts.iter().zip(v).map(|(t, v)| document(t, v)).collect()),
        (Ty::Map(_, t), V::Map(v)) => D::Dict(v.iter().map(|(k, v)| (k.clone(), document(t, v))).collect()),
        (Ty::Struct(off, ts), V::Seq(v)) => fields(*off, ts, v),
        (Ty::Enum(off, vs), V::Enum(i, v)) => {
            let name = D::Str(VARIANTS[off + i].to_string());
            match (&vs[*i], &**v) {
                (Var::Unit, _) => D::Arr(vec![name]),
                (Var::Newtype(t), v) => D::Arr(vec![name, document(t, v)]),
                (Var::Tuple(ts), V::Seq(v)) => D::Arr(vec![name, D::Arr(ts.iter().zip(v).map(|(t, v)| document(t, v)).collect())]),
                (Var::Struct(off, ts), V::Seq(v)) => D::Arr(vec![name, fields(*off, ts, v)]),
                _ => unreachable!(),
            }
        }
        _ => unreachable!("no document of {t:?} {v:?}"),
    }
}

/// What deserialising a document as a type has to give.
#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Val(V),
    Refuse,
    /// Left open.
    Open,
}

fn seq_want(ws: Vec<Want>) -> Want {
    if ws.iter().any(|w| *w == Want::Refuse) {
        return Want::Refuse;
    }
    let mut out = Vec::new();
    for w in ws {
        match w {
            Want::Val(v) => out.push(v),
            _ => return Want::Open,
        }
    }
    Want::Val(V::Seq(out))
}

fn fields_want(off: usize, ts: &[Ty], d: &[(String, D)], strict: bool) -> Want {
    let mut ws = Vec::new();
    let mut open = false;
    for (i, t) in ts.iter().enumerate() {
        ws.push(match d.iter().find(|(k, _)| k == FIELDS[off + i]) {
            Some((_, x)) => want(t, x),
            None => match t {
                Ty::Option(_) => {
                    open |= strict;
                    Want::Val(V::None)
                }
                _ => Want::Refuse,
            },
        });
    }
    // Unknown fields are ignored in a struct, and may be refused in a variant.
    open |= strict && d.iter().any(|(k, _)| !(0..ts.len()).any(|i| FIELDS[off + i] == k));
    match seq_want(ws) {
        Want::Val(_) if open => Want::Open,
        w => w,
    }
}

pub fn want(t: &Ty, d: &D) -> Want {
    use Want::*;
    match (t, d) {
        (Ty::Bool, D::Bool(b)) => Val(V::Bool(*b)),
        (Ty::Int(i), D::Int(x)) => {
            let (lo, hi) = i.range();
            if lo <= *x && *x <= hi {
                Val(V::Int(*x))
            } else {
                Refuse
            }
        }
        (Ty::F32, D::F32(b)) => Val(V::F32(*b)),
        (Ty::F64, D::F64(b)) => Val(V::F64(*b)),
        (Ty::F64, D::F32(b)) => match f64n(f64::from(f32::from_bits(*b))) {
            D::F64(b) => Val(V::F64(b)),
            _ => Open,
        },
        (Ty::F32, D::F64(_) | D::Int(_)) | (Ty::F64, D::Int(_)) => Open,
        (Ty::Char, D::Str(x)) => {
            let mut c = x.chars();
            match (c.next(), c.next()) {
                (Some(c), None) => Val(V::Char(c)),
                _ => Refuse,
            }
        }
        (Ty::Str, D::Str(x)) => Val(V::Str(x.clone())),
        (Ty::Str, D::Data(_)) => Open,
        (Ty::Bytes, D::Data(x)) => Val(V::Bytes(x.clone())),
        (Ty::Unit, D::Undef) | (Ty::UnitStruct, D::Null) => Val(V::Unit),
        (Ty::Unit, D::Null) | (Ty::UnitStruct, D::Undef) => Open,
        (Ty::Option(_), D::Null) => Val(V::None),
        (Ty::Option(t), d) => match want(t, d) {
            Val(v) => Val(V::Some(Box::new(v))),
            // (Undefined as no value would also do.)
            Refuse if *d == D::Undef => Open,
            w => w,
        },
        (Ty::Newtype(t), d) => want(t, d),
        (Ty::Seq(t), D::Arr(v)) => seq_want(v.iter().map(|d| want(t, d)).collect()),
        (Ty::Tuple(ts) | Ty::TupleStruct(ts), D::Arr(v)) => {
            if v.len() < ts.len() {
                return Refuse;
            }
            match seq_want(ts.iter().zip(v).map(|(t, d)| want(t, d)).collect()) {
                Val(_) if v.len() > ts.len() => Open,
                w => w,
            }
        }
        (Ty::Map(k, t), D::Dict(v)) => {
            if *k == KeyTy::Char && v.iter().any(|(k, _)| k.chars().count() != 1) {
                return Refuse;
            }
            match seq_want(v.iter().map(|(_, d)| want(t, d)).collect()) {
                Val(V::Seq(x)) => Val(V::Map(v.iter().map(|(k, _)| k.clone()).zip(x).collect())),
                w => w,
            }
        }
        (Ty::Struct(off, ts), D::Dict(v)) => fields_want(*off, ts, v, false),
        (Ty::Enum(off, vs), D::Arr(v)) => {
            let name = match v.first() {
                Some(D::Str(n)) => n,
                // (Variants by number or by bytes are the visitor's choice.)
                Some(D::Int(_) | D::Data(_)) => return Open,
                _ => return Refuse,
            };
            let Some(i) = (0..vs.len()).find(|i| VARIANTS[off + i] == name) else { return Refuse };
            let w = match (&vs[i], v.get(1)) {
                (Var::Unit, None) => Val(V::Unit),
                // (Stored as a variant of another kind.)
                (Var::Unit, Some(_)) => return Refuse,
                (_, None) => return Refuse,
                (Var::Newtype(t), Some(d)) => want(t, d),
                (Var::Tuple(ts), Some(D::Arr(x))) => {
                    if x.len() < ts.len() {
                        return Refuse;
                    }
                    match seq_want(ts.iter().zip(x).map(|(t, d)| want(t, d)).collect()) {
                        Val(_) if x.len() > ts.len() => Open,
                        w => w,
                    }
                }
                (Var::Struct(off, ts), Some(D::Dict(x))) => fields_want(*off, ts, x, true),
                _ => return Refuse,
            };
            match w {
                Val(_) if v.len() > 2 => Open,
                Val(x) => Val(V::Enum(i, Box::new(x))),
                w => w,
            }
        }
        _ => Refuse,
    }
}

// ---------------------------------------------------------------- Serialize

#[derive(Clone, Copy)]
pub struct S<'a>(pub &'a Ty, pub &'a V, pub u64);

struct BadKey(u64);
impl Serialize for BadKey {
    fn serialize<Se: Serializer>(&self, s: Se) -> Result<Se::Ok, Se::Error> {
        match self.0 {
            0 => s.serialize_bool(true),
            1 => s.serialize_i8(-1),
            2 => s.serialize_i16(1),
            3 => s.serialize_i32(1),
            4 => s.serialize_i64(1),
            5 => s.serialize_u8(1),
            6 => s.serialize_u16(1),
            7 => s.serialize_u32(1),
            8 => s.serialize_u64(1),
            9 => s.serialize_f32(1.0),
            10 => s.serialize_f64(1.0),
            11 => s.serialize_bytes(b"key"),
            12 => s.serialize_unit(),
            13 => s.serialize_none(),
            14 => s.serialize_unit_struct("Key"),
            15 => s.serialize_unit_variant("Key", 0, "Key"),
            16 => s.serialize_newtype_variant("Key", 0, "Key", "key"),
            17 => s.serialize_seq(Some(1)).and_then(|mut x| {
                x.serialize_element("key")?;
                x.end()
            }),
            18 => s.serialize_tuple(1).and_then(|mut x| {
                x.serialize_element("key")?;
                x.end()
            }),
            19 => s.serialize_tuple_struct("Key", 2).and_then(|mut x| {
                x.serialize_field("key")?;
                x.serialize_field("key")?;
                x.end()
            }),
            20 => s.serialize_tuple_variant("Key", 0, "Key", 1).and_then(|mut x| {
                x.serialize_field("key")?;
                x.end()
            }),
            21 => s.serialize_map(Some(1)).and_then(|mut x| {
                x.serialize_entry("key", "key")?;
                x.end()
            }),
            22 => s.serialize_struct("Key", 1).and_then(|mut x| {
                x.serialize_field("key", "key")?;
                x.end()
            }),
            _ => s.serialize_struct_variant("Key", 0, "Key", 1).and_then(|mut x| {
                x.serialize_field("key", "key")?;
                x.end()
            }),
        }
    }
}
struct NewtypeKey<'a>(&'a str);
impl Serialize for NewtypeKey<'_> {
    fn serialize<Se: Serializer>(&self, s: Se) -> Result<Se::Ok, Se::Error> {
        s.serialize_newtype_struct("Key", self.0)
    }
}

impl Serialize for S<'_> {
    fn serialize<Se: Serializer>(&self, s: Se) -> Result<Se::Ok, Se::Error> {
        let S(t, v, st) = *self;
        let sub = |i: usize| mix(st, i as u64);
        match (t, v) {
            (Ty::Bool, V::Bool(b)) => s.serialize_bool(*b),
            (Ty::Int(i), V::Int(x)) => match i {
                IntTy::I8 => s.serialize_i8(*x as i8),
                IntTy::I16 => s.serialize_i16(*x as i16),
                IntTy::I32 => s.serialize_i32(*x as i32),
                IntTy::I64 => s.serialize_i64(*x as i64),
                IntTy::U8 => s.serialize_u8(*x as u8),
                IntTy::U16 => s.serialize_u16(*x as u16),
                IntTy::U32 => s.serialize_u32(*x as u32),
                IntTy::U64 => s.serialize_u64(*x as u64),
            },
            (Ty::F32, V::F32(b)) => s.serialize_f32(f32::from_bits(*b)),
            (Ty::F64, V::F64(b)) => s.serialize_f64(f64::from_bits(*b)),
            (Ty::Char, V::Char(c)) => s.serialize_char(*c),
            (Ty::Str, V::Str(x)) => s.serialize_str(x),
            (Ty::Bytes, V::Bytes(x)) => s.serialize_bytes(x),
            (Ty::Unit, _) => s.serialize_unit(),
            (Ty::UnitStruct, _) => s.serialize_unit_struct("UnitStruct"),
            (Ty::Option(_), V::None) => s.serialize_none(),
            (Ty::Option(t), V::Some(v)) => s.serialize_some(&S(t, v, sub(0))),
            (Ty::Newtype(t), v) => s.serialize_newtype_struct("Newtype", &S(t, v, sub(0))),
            (Ty::Seq(t), V::Seq(v)) => {
                // (Some iterators do not know their length.)
                let mut q = s.serialize_seq(if st & 3 == 0 { None } else { Some(v.len()) })?;
                for (i, v) in v.iter().enumerate() {
                    q.serialize_element(&S(t, v, sub(i)))?;
                }
                q.end()
            }
            (Ty::Tuple(ts), V::Seq(v)) => {
                let mut q = s.serialize_tuple(v.len())?;
                for (i, (t, v)) in ts.iter().zip(v).enumerate() {
                    q.serialize_element(&S(t, v, sub(i)))?;
                }
                q.end()
            }
            (Ty::TupleStruct(ts), V::Seq(v)) => {
                let mut q = s.serialize_tuple_struct("TupleStruct", v.len())?;
                for (i, (t, v)) in ts.iter().zip(v).enumerate() {
                    q.serialize_field(&S(t, v, sub(i)))?;
                }
                q.end()
            }
            (Ty::Map(k, t), V::Map(v)) => {
                let mut q = s.serialize_map(if st & 3 == 0 { None } else { Some(v.len()) })?;
                for (i, (key, v)) in v.iter().enumerate() {
                    match k {
                        KeyTy::Str => q.serialize_key(key.as_str())?,
                        KeyTy::Char => q.serialize_key(&key.chars().next().unwrap())?,
                        KeyTy::NewtypeStr => q.serialize_key(&NewtypeKey(key))?,
                    }
                    q.serialize_value(&S(t, v, sub(i)))?;
                }
                q.end()
            }
            (Ty::Struct(off, ts), V::Seq(v)) => {
                let mut q = s.serialize_struct("Struct", v.len())?;
                for (i, (t, v)) in ts.iter().zip(v).enumerate() {
                    q.serialize_field(FIELDS[off + i], &S(t, v, sub(i)))?;
                }
                q.end()
            }
            (Ty::Enum(off, vs), V::Enum(n, v)) => {
                let name = VARIANTS[off + n];
                match (&vs[*n], &**v) {
                    (Var::Unit, _) => s.serialize_unit_variant("Enum", *n as u32, name),
                    (Var::Newtype(t), v) => s.serialize_newtype_variant("Enum", *n as u32, name, &S(t, v, sub(0))),
                    (Var::Tuple(ts), V::Seq(v)) => {
                        let mut q = s.serialize_tuple_variant("Enum", *n as u32, name, v.len())?;
                        for (i, (t, v)) in ts.iter().zip(v).enumerate() {
                            q.serialize_field(&S(t, v, sub(i)))?;
                        }
                        q.end()
                    }
                    (Var::Struct(off, ts), V::Seq(v)) => {
                        let mut q = s.serialize_struct_variant("Enum", *n as u32, name, v.len())?;
                        for (i, (t, v)) in ts.iter().zip(v).enumerate() {
                            q.serialize_field(FIELDS[off + i], &S(t, v, sub(i)))?;
                        }
                        q.end()
                    }
                    _ => unreachable!(),
                }
            }
            (Ty::BadMap(k, t), V::Seq(v)) => {
                let mut q = s.serialize_map(Some(v.len()))?;
                for (i, v) in v.iter().enumerate() {
                    // (Sometimes good keys come first.)
                    if v_good_first(st) {
                        q.serialize_entry("good", &0)?;
                    }
                    q.serialize_key(&BadKey(*k))?;
                    q.serialize_value(&S(t, v, sub(i)))?;
                }
                q.end()
            }
            (Ty::Fails, _) => Err(ser::Error::custom("this value refuses")),
            _ => unreachable!("{t:?} {v:?}"),
        }
    }
}
fn v_good_first(st: u64) -> bool {
    st & 8 == 0
}

// ---------------------------------------------------------------- Deserialize

pub struct Seed<'t>(pub &'t Ty);

impl<'de> DeserializeSeed<'de> for Seed<'_> {
    type Value = V;
    fn deserialize<De: Deserializer<'de>>(self, d: De) -> Result<V, De::Error> {
        let t = self.0;
        match t {
            Ty::Bool => bool::deserialize(d).map(V::Bool),
            Ty::Int(i) => match i {
                IntTy::I8 => i8::deserialize(d).map(|x| V::Int(x.into())),
                IntTy::I16 => i16::deserialize(d).map(|x| V::Int(x.into())),
                IntTy::I32 => i32::deserialize(d).map(|x| V::Int(x.into())),
                IntTy::I64 => i64::deserialize(d).map(|x| V::Int(x.into())),
                IntTy::U8 => u8::deserialize(d).map(|x| V::Int(x.into())),
                IntTy::U16 => u16::deserialize(d).map(|x| V::Int(x.into())),
                IntTy::U32 => u32::deserialize(d).map(|x| V::Int(x.into())),
                IntTy::U64 => u64::deserialize(d).map(|x| V::Int(x.into())),
            },
            Ty::F32 => f32::deserialize(d).map(|x| match f32n(x) {
                D::F32(b) => V::F32(b),
                _ => unreachable!(),
            }),
            Ty::F64 => f64::deserialize(d).map(|x| match f64n(x) {
                D::F64(b) => V::F64(b),
                _ => unreachable!(),
            }),
            Ty::Char => char::deserialize(d).map(V::Char),
            Ty::Str => String::deserialize(d).map(V::Str),
            Ty::Bytes => d.deserialize_byte_buf(BytesV),
            Ty::Unit => <()>::deserialize(d).map(|()| V::Unit),
            Ty::UnitStruct => d.deserialize_unit_struct("UnitStruct", UnitV),
            Ty::Option(t) => d.deserialize_option(OptionV(t)),
            Ty::Newtype(t) => d.deserialize_newtype_struct("Newtype", NewtypeV(t)),
            Ty::Seq(t) => d.deserialize_seq(SeqV(t)),
            Ty::Tuple(ts) => d.deserialize_tuple(ts.len(), TupleV(ts)),
            Ty::TupleStruct(ts) => d.deserialize_tuple_struct("TupleStruct", ts.len(), TupleV(ts)),
            Ty::Map(k, t) => d.deserialize_map(MapV(*k, t)),
            Ty::Struct(off, ts) => d.deserialize_struct("Struct", &FIELDS[*off..off + ts.len()], StructV(*off, ts)),
            Ty::Enum(off, vs) => d.deserialize_enum("Enum", &VARIANTS[*off..off + vs.len()], EnumV(*off, vs)),
            Ty::BadMap(..) | Ty::Fails => Err(de::Error::custom("not a type to deserialise")),
        }
    }
}

struct BytesV;
impl<'de> Visitor<'de> for BytesV {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("bytes")
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<V, E> {
        Ok(V::Bytes(v.to_vec()))
    }
    fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<V, E> {
        Ok(V::Bytes(v))
    }
}
struct UnitV;
impl<'de> Visitor<'de> for UnitV {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("unit struct")
    }
    fn visit_unit<E>(self) -> Result<V, E> {
        Ok(V::Unit)
    }
}
struct OptionV<'t>(&'t Ty);
impl<'de> Visitor<'de> for OptionV<'_> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("option")
    }
    fn visit_none<E>(self) -> Result<V, E> {
        Ok(V::None)
    }
    fn visit_unit<E>(self) -> Result<V, E> {
        Ok(V::None)
    }
    fn visit_some<De: Deserializer<'de>>(self, d: De) -> Result<V, De::Error> {
        Seed(self.0).deserialize(d).map(|v| V::Some(Box::new(v)))
    }
}
struct NewtypeV<'t>(&'t Ty);
impl<'de> Visitor<'de> for NewtypeV<'_> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("newtype struct")
    }
    fn visit_newtype_struct<De: Deserializer<'de>>(self, d: De) -> Result<V, De::Error> {
        Seed(self.0).deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        a.next_element_seed(Seed(self.0))?.ok_or_else(|| de::Error::invalid_length(0, &"a newtype"))
    }
}
struct SeqV<'t>(&'t Ty);
impl<'de> Visitor<'de> for SeqV<'_> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("sequence")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        let mut out = Vec::new();
        let hint = a.size_hint();
        while let Some(v) = a.next_element_seed(Seed(self.0))? {
            out.push(v);
        }
        if hint.is_some_and(|h| h != out.len()) {
            return Err(de::Error::custom(format!("HINT: sequence of {} elements announced as {hint:?}", out.len())));
        }
        Ok(V::Seq(out))
    }
}
struct TupleV<'t>(&'t [Ty]);
impl<'de> Visitor<'de> for TupleV<'_> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("tuple")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        let mut out = Vec::new();
        for t in self.0 {
            out.push(a.next_element_seed(Seed(t))?.ok_or_else(|| de::Error::invalid_length(out.len(), &self))?);
        }
        Ok(V::Seq(out))
    }
}
struct MapV<'t>(KeyTy, &'t Ty);
#[derive(Deserialize)]
struct OwnKey(String);
impl<'de> Visitor<'de> for MapV<'_> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        let mut out = Vec::new();
        let hint = a.size_hint();
        loop {
            let k = match self.0 {
                KeyTy::Str => a.next_key::<String>()?,
                KeyTy::Char => a.next_key::<char>()?.map(String::from),
                KeyTy::NewtypeStr => a.next_key::<OwnKey>()?.map(|k| k.0),
            };
            let Some(k) = k else { break };
            out.push((k, a.next_value_seed(Seed(self.1))?));
        }
        if hint.is_some_and(|h| h != out.len()) {
            return Err(de::Error::custom(format!("HINT: map of {} pairs announced as {hint:?}", out.len())));
        }
        Ok(V::Map(out))
    }
}
struct StructV<'t>(usize, &'t [Ty]);
/// A field or variant name, as derived code reads it.
struct Ident(String);
impl<'de> Deserialize<'de> for Ident {
    fn deserialize<De: Deserializer<'de>>(d: De) -> Result<Ident, De::Error> {
        struct I;
        impl<'de> Visitor<'de> for I {
            type Value = Ident;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("identifier")
            }
            fn visit_str<E>(self, v: &str) -> Result<Ident, E> {
                Ok(Ident(v.to_string()))
            }
        }
        d.deserialize_identifier(I)
    }
}
impl<'de> Visitor<'de> for StructV<'_> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("struct")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        let StructV(off, ts) = self;
        let mut out: Vec<Option<V>> = vec![None; ts.len()];
        while let Some(Ident(k)) = a.next_key()? {
            match (0..ts.len()).find(|i| FIELDS[off + i] == k) {
                Some(i) if out[i].is_some() => return Err(de::Error::duplicate_field(FIELDS[off + i])),
                Some(i) => out[i] = Some(a.next_value_seed(Seed(&ts[i]))?),
                None => {
                    a.next_value::<IgnoredAny>()?;
                }
            }
        }
        let mut v = Vec::new();
        for (i, x) in out.into_iter().enumerate() {
            v.push(match (x, &ts[i]) {
                (Some(x), _) => x,
                (None, Ty::Option(_)) => V::None,
                _ => return Err(de::Error::missing_field(FIELDS[off + i])),
            });
        }
        Ok(V::Seq(v))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<V, A::Error> {
        TupleV(self.1).visit_seq(a)
    }
}
struct EnumV<'t>(usize, &'t [Var]);
impl<'de> Visitor<'de> for EnumV<'_> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("enum")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<V, A::Error> {
        let EnumV(off, vs) = self;
        let (Ident(name), x) = a.variant()?;
        let Some(i) = (0..vs.len()).find(|i| VARIANTS[off + i] == name) else {
            return Err(de::Error::unknown_variant(&name, &VARIANTS[off..off + vs.len()]));
        };
        let v = match &vs[i] {
            Var::Unit => {
                x.unit_variant()?;
                V::Unit
            }
            Var::Newtype(t) => x.newtype_variant_seed(Seed(t))?,
            Var::Tuple(ts) => x.tuple_variant(ts.len(), TupleV(ts))?,
            Var::Struct(off, ts) => x.struct_variant(&FIELDS[*off..off + ts.len()], StructV(*off, ts))?,
        };
        Ok(V::Enum(i, Box::new(v)))
    }
}

thread_local! {
    static TARGET: RefCell<Option<Ty>> = const { RefCell::new(None) };
}
struct Dynamic(V);
impl<'de> Deserialize<'de> for Dynamic {
    fn deserialize<De: Deserializer<'de>>(d: De) -> Result<Dynamic, De::Error> {
        let t = TARGET.with(|t| t.borrow_mut().take()).expect("target type");
        Seed(&t).deserialize(d).map(Dynamic)
    }
}

/// `fleece::from_bytes` as the type the schema describes.
pub fn from_bytes(b: &[u8], t: &Ty) -> Result<V, fleece::Error> {
    TARGET.with(|x| *x.borrow_mut() = Some(t.clone()));
    fleece::from_bytes::<Dynamic>(b).map(|d| d.0)
}
