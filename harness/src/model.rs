//! The reference document model and the ways to get from and to it.

use fleece::alloced::AllocedValue;
use fleece::encoder::{NullValue, UndefinedValue};
use fleece::{Array, Dict, Encoder, SharedKeys, Value, ValueType};

use crate::engine::{clip, mix};

#[derive(Clone, Debug, PartialEq)]
pub enum D {
    Null,
    Undef,
    Bool(bool),
    Int(i128),
    F32(u32),
    F64(u64),
    Str(String),
    Data(Vec<u8>),
    Arr(Vec<D>),
    Dict(Vec<(String, D)>),
}

pub fn f32n(f: f32) -> D {
    D::F32(if f.is_nan() { 0x7fc0_0000 } else { f.to_bits() })
}
pub fn f64n(f: f64) -> D {
    D::F64(if f.is_nan() { 0x7ff8_0000_0000_0000 } else { f.to_bits() })
}

impl D {
    /// NaNs normalised, dictionaries sorted by key: equal documents are equal canons.
    pub fn canon(&self) -> D {
        match self {
            D::F32(b) => f32n(f32::from_bits(*b)),
            D::F64(b) => f64n(f64::from_bits(*b)),
            D::Arr(v) => D::Arr(v.iter().map(D::canon).collect()),
            D::Dict(v) => {
                let mut v: Vec<(String, D)> = v.iter().map(|(k, d)| (k.clone(), d.canon())).collect();
                v.sort_by(|a, b| a.0.cmp(&b.0));
                D::Dict(v)
            }
            d => d.clone(),
        }
    }
    pub fn nodes(&self) -> usize {
        match self {
            D::Arr(v) => 1 + v.iter().map(D::nodes).sum::<usize>(),
            D::Dict(v) => 1 + v.iter().map(|(_, d)| d.nodes()).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            D::Arr(v) => 1 + v.iter().map(D::depth).max().unwrap_or(0),
            D::Dict(v) => 1 + v.iter().map(|(_, d)| d.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn any(&self, f: &mut dyn FnMut(&D) -> bool) -> bool {
        if f(self) {
            return true;
        }
        match self {
            D::Arr(v) => v.iter().any(|d| d.any(f)),
            D::Dict(v) => v.iter().any(|(_, d)| d.any(f)),
            _ => false,
        }
    }
    pub fn is_coll(&self) -> bool {
        matches!(self, D::Arr(_) | D::Dict(_))
    }
    /// A fingerprint of shape and content.
    pub fn fp(&self) -> u64 {
        match self {
            D::Null => 1,
            D::Undef => 2,
            D::Bool(b) => 3 + u64::from(*b),
            D::Int(i) => mix(5, *i as u64),
            D::F32(b) => mix(6, u64::from(*b)),
            D::F64(b) => mix(7, *b),
            D::Str(s) => mix(8, crate::engine::hash_bytes(s.as_bytes())),
            D::Data(s) => mix(9, crate::engine::hash_bytes(s)),
            D::Arr(v) => v.iter().fold(10, |h, d| mix(h, d.fp())),
            D::Dict(v) => v.iter().fold(11, |h, (k, d)| mix(mix(h, crate::engine::hash_bytes(k.as_bytes())), d.fp())),
        }
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_into(&mut s, 6, 0);
        s
    }
    fn show_into(&self, s: &mut String, width: usize, depth: usize) {
        use std::fmt::Write;
        if s.len() > 1200 || depth > 40 {
            s.push('~');
            return;
        }
        let _ = match self {
            D::Null => write!(s, "null"),
            D::Undef => write!(s, "undefined"),
            D::Bool(b) => write!(s, "{b}"),
            D::Int(i) => write!(s, "{i}"),
            D::F32(b) => write!(s, "{:?}f32", f32::from_bits(*b)),
            D::F64(b) => write!(s, "{:?}f64", f64::from_bits(*b)),
            D::Str(t) if t.len() <= 24 => write!(s, "{t:?}"),
            D::Str(t) => write!(s, "str({})", t.len()),
            D::Data(t) if t.len() <= 10 => write!(s, "x{t:02x?}"),
            D::Data(t) => write!(s, "data({})", t.len()),
            D::Arr(v) => {
                s.push('[');
                for (i, d) in v.iter().enumerate() {
                    if i > 0 {
                        s.push_str(", ");
                    }
                    if i >= width {
                        let _ = write!(s, "..{} elements", v.len());
                        break;
                    }
                    d.show_into(s, width, depth + 1);
                }
                s.push(']');
                Ok(())
            }
            D::Dict(v) => {
                s.push('{');
                for (i, (k, d)) in v.iter().enumerate() {
                    if i > 0 {
                        s.push_str(", ");
                    }
                    if i >= width {
                        let _ = write!(s, "..{} pairs", v.len());
                        break;
                    }
                    if k.len() <= 24 {
                        let _ = write!(s, "{k:?}: ");
                    } else {
                        let _ = write!(s, "key({}): ", k.len());
                    }
                    d.show_into(s, width, depth + 1);
                }
                s.push('}');
                Ok(())
            }
        };
    }
}

/// Where two documents first differ.
pub fn diff(got: &D, want: &D, path: &str) -> Option<String> {
    match (got, want) {
        (D::Arr(a), D::Arr(b)) => {
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                if let Some(s) = diff(x, y, &format!("{path}[{i}]")) {
                    return Some(s);
                }
            }
            (a.len() != b.len()).then(|| format!("{path}: length {} instead of {}", a.len(), b.len()))
        }
        (D::Dict(a), D::Dict(b)) => {
            for ((k, x), (l, y)) in a.iter().zip(b) {
                if k != l {
                    return Some(format!("{path}: key {:?} instead of {:?}", clip(k), clip(l)));
                }
                if let Some(s) = diff(x, y, &format!("{path}.{}", clip(k))) {
                    return Some(s);
                }
            }
            (a.len() != b.len()).then(|| format!("{path}: {} pairs instead of {}", a.len(), b.len()))
        }
        _ => (got != want).then(|| format!("{path}: got {} want {}", clip(&got.show()), clip(&want.show()))),
    }
}

/// `Err` unless the two documents have the same content.
pub fn same(got: &D, want: &D, what: &str) -> Result<(), String> {
    match diff(&got.canon(), &want.canon(), "$") {
        None => Ok(()),
        Some(s) => Err(format!("{what}: {s}")),
    }
}

// ---------------------------------------------------------------- writing

/// Write an integer through the `which`-th of the integer types able to hold it.
pub fn with_int<R>(i: i128, style: u64, f: &mut dyn FnMut(&dyn WriteTo) -> R) -> R {
    macro_rules! tries {
        ($($t:ty),*) => {{
            let mut n = 0u64;
            $( if <$t>::try_from(i).is_ok() { n += 1; } )*
            let mut k = if n == 0 { 0 } else { style % n };
            $( if let Ok(v) = <$t>::try_from(i) {
                if k == 0 {
                    return match (style >> 32) & 7 {
                        1 => f(&W(&v)),
                        2 => f(&W(Some(v))),
                        3 => f(&W(Some(&v))),
                        4 => f(&W(&Some(v))),
                        _ => f(&W(v)),
                    };
                }
                k -= 1;
            } )*
            let _ = k;
        }};
    }
    tries!(i64, u64, i32, u32, i16, u16, i8, u8, isize, usize);
    panic!("integer {i} outside every supported width");
}

pub struct W<T>(pub T);
pub trait WriteTo {
    fn write_to(&self, e: &mut Encoder) -> Result<(), String>;
    fn push_to(&self, a: &mut fleece::MutableArray);
    fn set_to(&self, a: &mut fleece::MutableArray, i: usize);
    fn insert_to(&self, a: &mut fleece::MutableDict, k: &str);
    fn enc(&self) -> &dyn fleece::encoder::Encodable;
}
impl<T: fleece::encoder::Encodable> WriteTo for W<T> {
    fn write_to(&self, e: &mut Encoder) -> Result<(), String> {
        e.write_value(&self.0).map_err(|e| format!("{e:?}"))
    }
    fn push_to(&self, a: &mut fleece::MutableArray) {
        a.push(&self.0)
    }
    fn set_to(&self, a: &mut fleece::MutableArray, i: usize) {
        a.set(i, &self.0)
    }
    fn insert_to(&self, a: &mut fleece::MutableDict, k: &str) {
        a.insert(k, &self.0)
    }
    fn enc(&self) -> &dyn fleece::encoder::Encodable {
        &self.0
    }
}

/// Call `f` with the scalar as an `Encodable`; the form (owned, borrowed, optional, integer
/// width) follows from `style`.
pub fn with_scalar<R>(d: &D, style: u64, f: &mut dyn FnMut(&dyn WriteTo) -> R) -> R {
    let form = (style >> 40) & 3;
    macro_rules! forms {
        ($v:expr) => {{
            let v = $v;
            match form {
                1 => f(&W(&v)),
                2 => f(&W(Some(v))),
                _ => f(&W(v)),
            }
        }};
    }
    match d {
        D::Null if form == 3 => f(&W(None::<u8>)),
        D::Null if form == 2 => f(&W(None::<&str>)),
        D::Null => f(&W(NullValue)),
        D::Undef => f(&W(UndefinedValue)),
        D::Bool(b) => forms!(*b),
        D::Int(i) => with_int(*i, style, f),
        D::F32(b) => forms!(f32::from_bits(*b)),
        D::F64(b) => forms!(f64::from_bits(*b)),
        D::Str(s) => forms!(s.as_str()),
        D::Data(s) => forms!(s.as_slice()),
        D::Arr(_) | D::Dict(_) => unreachable!(),
    }
}

/// Write a document through the encoder's calls. `style` picks integer widths and value forms.
pub fn write_doc(e: &mut Encoder, d: &D, style: u64) -> Result<(), String> {
    match d {
        D::Arr(v) => {
            e.begin_array(if style & 4 == 0 { v.len() } else { 0 }).map_err(|e| format!("begin_array: {e:?}"))?;
            for (i, x) in v.iter().enumerate() {
                write_doc(e, x, sub_style(style, i))?;
            }
            e.end_array().map_err(|e| format!("end_array: {e:?}"))
        }
        D::Dict(v) => {
            e.begin_dict().map_err(|e| format!("begin_dict: {e:?}"))?;
            for (i, (k, x)) in v.iter().enumerate() {
                e.write_key(k).map_err(|e| format!("write_key: {e:?}"))?;
                write_doc(e, x, sub_style(style, i))?;
            }
            e.end_dict().map_err(|e| format!("end_dict: {e:?}"))
        }
        s => with_scalar(s, style, &mut |w| w.write_to(e)).map_err(|e| format!("write_value({}): {e}", clip(&s.show()))),
    }
}
pub fn sub_style(style: u64, i: usize) -> u64 {
    if style == 0 {
        0
    } else {
        mix(style, i as u64)
    }
}

pub fn encode(d: &D, style: u64) -> Result<Vec<u8>, String> {
    let mut e = Encoder::new();
    write_doc(&mut e, d, style)?;
    Ok(e.finish())
}
pub fn encode_value(d: &D) -> Result<AllocedValue, String> {
    let mut e = Encoder::new();
    write_doc(&mut e, d, 0)?;
    Ok(e.finish_value())
}

// ---------------------------------------------------------------- reading

/// The scalar content of a value, or `None` for a collection.
pub fn read_scalar(v: &Value) -> Result<Option<D>, String> {
    Ok(Some(match v.value_type() {
        ValueType::Null => D::Null,
        ValueType::Undefined => D::Undef,
        ValueType::False => D::Bool(false),
        ValueType::True => D::Bool(true),
        ValueType::Short => D::Int(i128::from(v.to_int())),
        ValueType::Int => D::Int(i128::from(v.to_int())),
        ValueType::UnsignedInt => D::Int(i128::from(v.to_unsigned_int())),
        ValueType::Float => f32n(v.to_float()),
        ValueType::Double32 | ValueType::Double64 => f64n(v.to_double()),
        ValueType::String => D::Str(v.to_str().to_string()),
        ValueType::Data => D::Data(v.to_data().to_vec()),
        ValueType::Pointer => return Err("a pointer reached the reader".into()),
        ValueType::Array | ValueType::Dict => return Ok(None),
    }))
}

/// Read by iteration.
pub fn read(v: &Value) -> Result<D, String> {
    if let Some(d) = read_scalar(v)? {
        return Ok(d);
    }
    if let Some(a) = v.as_array() {
        read_array(a)
    } else if let Some(d) = v.as_dict() {
        read_dict(d)
    } else {
        Err("collection that is neither array nor dict".into())
    }
}
pub fn read_array(a: &Array) -> Result<D, String> {
    let mut out = Vec::new();
    for x in a {
        out.push(read(x)?);
    }
    if out.len() != a.len() {
        return Err(format!("array of length {} iterated {} elements", a.len(), out.len()));
    }
    Ok(D::Arr(out))
}
pub fn read_dict(d: &Dict) -> Result<D, String> {
    let mut out = Vec::new();
    for (k, x) in d {
        out.push((k.to_string(), read(x)?));
    }
    if out.len() != d.len() {
        return Err(format!("dict of length {} iterated {} pairs", d.len(), out.len()));
    }
    Ok(D::Dict(out))
}

/// Check a value against a document by indexing and lookup only.
pub fn check_by_access(v: &Value, want: &D, sk: Option<&SharedKeys>, path: &str) -> Result<(), String> {
    match want {
        D::Arr(xs) => {
            let a = v.as_array().ok_or_else(|| format!("{path}: not an array but {:?}", v.value_type()))?;
            if a.len() != xs.len() || a.is_empty() != xs.is_empty() {
                return Err(format!("{path}: array length {} want {}", a.len(), xs.len()));
            }
            for (i, x) in xs.iter().enumerate() {
                let got = a.get(i).ok_or_else(|| format!("{path}[{i}]: missing"))?;
                check_by_access(got, x, sk, &format!("{path}[{i}]"))?;
            }
            if a.get(xs.len()).is_some() || a.get(xs.len() + 1).is_some() || a.get(usize::MAX / 8).is_some() {
                return Err(format!("{path}: index past the end gave a value"));
            }
            Ok(())
        }
        D::Dict(xs) => {
            let a = v.as_dict().ok_or_else(|| format!("{path}: not a dict but {:?}", v.value_type()))?;
            if a.len() != xs.len() || a.is_empty() != xs.is_empty() {
                return Err(format!("{path}: dict length {} want {}", a.len(), xs.len()));
            }
            for (k, x) in xs {
                let got = match sk {
                    Some(sk) => a.get_with_shared_keys(k.as_str(), sk),
                    None => a.get(k.as_str()),
                };
                let got = got.ok_or_else(|| format!("{path}: key {:?} not found", clip(k)))?;
                check_by_access(got, x, sk, &format!("{path}.{}", clip(k)))?;
            }
            Ok(())
        }
        s => match read_scalar(v)? {
            Some(g) => {
                let (g, s) = (g.canon(), s.canon());
                if g == s {
                    Ok(())
                } else {
                    Err(format!("{path}: got {} want {}", clip(&g.show()), clip(&s.show())))
                }
            }
            None => Err(format!("{path}: a collection instead of {}", clip(&s.show()))),
        },
    }
}

/// Read both ways and compare with the document.
pub fn check_value(v: &Value, want: &D, what: &str) -> Result<(), String> {
    same(&read(v).map_err(|e| format!("{what}: {e}"))?, want, what)?;
    check_by_access(v, want, None, "$").map_err(|e| format!("{what} (by access): {e}"))
}
/// Validate, read both ways, compare.
pub fn check_bytes(bytes: &[u8], want: &D, what: &str) -> Result<(), String> {
    let v = Value::from_bytes(bytes).map_err(|e| format!("{what}: refused: {e:?}"))?;
    check_value(v, want, what)
}

// ---------------------------------------------------------------- mutable collections

pub fn read_mut_array(a: &fleece::MutableArray) -> Result<D, String> {
    let mut out = Vec::new();
    for (i, r) in a.iter().enumerate() {
        let kinds = (r.is_value(), r.is_array(), r.is_dict());
        let got = (a.get(i).is_some(), a.get_array(i).is_some(), a.get_dict(i).is_some());
        if kinds != got {
            return Err(format!("element {i}: iterated kind {kinds:?}, indexed kind {got:?}"));
        }
        out.push(match (r.value(), r.array(), r.dict()) {
            (Some(v), None, None) => read_scalar(v)?.ok_or("a slot holds an encoded collection")?,
            (None, Some(x), None) => read_mut_array(x)?,
            (None, None, Some(x)) => read_mut_dict(x)?,
            _ => return Err(format!("element {i} is of no or several kinds")),
        });
    }
    if out.len() != a.len() || a.is_empty() != out.is_empty() {
        return Err(format!("mutable array of length {} iterated {} elements", a.len(), out.len()));
    }
    Ok(D::Arr(out))
}
pub fn read_mut_dict(a: &fleece::MutableDict) -> Result<D, String> {
    let mut out = Vec::new();
    for (k, r) in a.iter() {
        let kinds = (r.is_value(), r.is_array(), r.is_dict());
        let got = (a.get(k).is_some(), a.get_array(k).is_some(), a.get_dict(k).is_some());
        if kinds != got || !a.contains_key(k) {
            return Err(format!("key {:?}: iterated kind {kinds:?}, kind by key {got:?}, contained {}", clip(k), a.contains_key(k)));
        }
        let d = match (r.value(), r.array(), r.dict()) {
            (Some(v), None, None) => read_scalar(v)?.ok_or("a slot holds an encoded collection")?,
            (None, Some(x), None) => read_mut_array(x)?,
            (None, None, Some(x)) => read_mut_dict(x)?,
            _ => return Err(format!("value of {:?} is of no or several kinds", clip(k))),
        };
        out.push((k.to_string(), d));
    }
    if out.len() != a.len() || a.is_empty() != out.is_empty() {
        return Err(format!("mutable dictionary of length {} iterated {} pairs", a.len(), out.len()));
    }
    Ok(D::Dict(out))
}
