//! Ways of holding an encoded document.

use std::sync::Arc;

use fleece::alloced::AllocedValue;
use fleece::{Encoder, Scope, SharedKeys, Value};

use crate::engine::Src;
use crate::model::*;
use crate::refenc;

pub enum Bytes {
    Plain(Vec<u8>),
    Scoped(Arc<Scope>, AllocedValue),
}

pub struct Held {
    pub bytes: Bytes,
    /// The shared-key table of the scope.
    pub table: Option<Arc<SharedKeys>>,
    pub form: &'static str,
}

impl Held {
    pub fn value(&self) -> &Value {
        match &self.bytes {
            Bytes::Plain(b) => Value::from_bytes(b).expect("held document is valid"),
            Bytes::Scoped(_, v) => v.value(),
        }
    }
    pub fn data(&self) -> Vec<u8> {
        match &self.bytes {
            Bytes::Plain(b) => b.clone(),
            Bytes::Scoped(s, _) => s.data().unwrap().to_vec(),
        }
    }
    pub fn scope(&self) -> Option<&Arc<Scope>> {
        match &self.bytes {
            Bytes::Plain(_) => None,
            Bytes::Scoped(s, _) => Some(s),
        }
    }
}

pub fn shareable(k: &str) -> bool {
    k.len() <= 16 && k.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '-')
}

/// Every key of the document, in the order of writing.
pub fn all_keys(d: &D, out: &mut Vec<String>) {
    match d {
        D::Arr(v) => v.iter().for_each(|x| all_keys(x, out)),
        D::Dict(v) => {
            for (k, x) in v {
                out.push(k.clone());
                all_keys(x, out);
            }
        }
        _ => {}
    }
}

fn filled(n: usize, tag: &str) -> SharedKeys {
    let mut t = SharedKeys::new();
    for i in 0..n {
        t.encode_and_insert(&format!("{tag}{i}"));
    }
    t
}

thread_local! {
    static FULL: [SharedKeys; 2] = [filled(2048, "full"), filled(2046, "nearly")];
}

/// A table: fresh, or already holding some of the document's keys and others, or (nearly) full.
pub fn table(s: &mut Src, keys: &[String]) -> (SharedKeys, &'static str) {
    match s.weighted(&[4, 6, 1, 1]) {
        0 => (SharedKeys::new(), "fresh table"),
        1 => {
            let mut t = SharedKeys::new();
            let mut order: Vec<&String> = keys.iter().take(200).collect();
            if s.bool() {
                order.reverse();
            }
            let extra = s.usize(4);
            for i in 0..extra {
                t.encode_and_insert(["other", "a", "z", "_", "b"][(i + order.len()) % 5]);
            }
            let skip = s.below(4);
            for (i, k) in order.iter().enumerate() {
                if skip == 0 || i as u64 % (skip + 1) != 0 {
                    t.encode_and_insert(k);
                }
            }
            (t, "populated table")
        }
        2 => (FULL.with(|f| f[0].clone()), "full table"),
        _ => (FULL.with(|f| f[1].clone()), "nearly full table"),
    }
}

pub fn table_names(t: &SharedKeys) -> Vec<String> {
    (0..t.len()).map(|i| t.decode(i).expect("decode of a key in the table").to_string()).collect()
}

/// Encode inside a scope with a shared-key table.
pub fn hold_shared(s: &mut Src, d: &D, style: u64) -> Result<Held, String> {
    let mut keys = Vec::new();
    all_keys(d, &mut keys);
    let (t, form) = table(s, &keys);
    let mut e = Encoder::new();
    e.set_shared_keys(t);
    write_doc(&mut e, d, style)?;
    let scope = e.finish_scoped();
    let table = scope.shared_keys().cloned();
    let root = scope.root().ok_or("scope of an encoded document has no root")?;
    Ok(Held { bytes: Bytes::Scoped(scope, root), table, form })
}

/// An independent layout read within a scope, its keys numbers and strings.
pub fn hold_layout_shared(s: &mut Src, d: &D) -> Result<Held, String> {
    let mut keys = Vec::new();
    all_keys(d, &mut keys);
    let (mut t, _) = table(s, &keys);
    if s.bool() {
        for k in &keys {
            t.encode_and_insert(k);
        }
    }
    let names = table_names(&t);
    let (b, _) = refenc::layout(s, d, Some(&names));
    let table = Arc::new(t);
    let scope = Scope::new(b, Some(table.clone()));
    let root = scope.root().ok_or("scope of a valid layout has no root")?;
    Ok(Held { bytes: Bytes::Scoped(scope, root), table: Some(table), form: "layout with table" })
}

pub fn hold_plain(d: &D, style: u64) -> Result<Held, String> {
    let b = encode(d, style)?;
    Value::from_bytes(&b).map_err(|e| format!("encoded document refused: {e:?}"))?;
    Ok(Held { bytes: Bytes::Plain(b), table: None, form: "plain" })
}

/// Any of the forms.
pub fn hold(s: &mut Src, d: &D) -> Result<Held, String> {
    let style = crate::gen::style(s);
    match s.weighted(&[5, 5, 3, 2]) {
        0 => hold_plain(d, style),
        1 => hold_shared(s, d, style),
        2 => {
            let (b, _) = refenc::layout(s, d, None);
            Value::from_bytes(&b).map_err(|e| format!("valid layout refused: {e:?} {}", crate::engine::clip(&format!("{b:02x?}"))))?;
            Ok(Held { bytes: Bytes::Plain(b), table: None, form: "layout" })
        }
        _ => hold_layout_shared(s, d),
    }
}
