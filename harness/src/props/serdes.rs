//! C18, C19, C20: serde.

use super::untrusted;
use super::Prop;
use crate::derived::*;
use crate::engine::{clip, hash_bytes, mix, Ctx, Res, Src};
use crate::forms;
use crate::model::*;
use crate::schema::{self, Refused, Ty, Want, S, V};
use crate::sd::AnyD;
use crate::{ensure, gen, refenc};
use fleece::error::SerializeError;
use fleece::{Error, Value};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;

pub const C18: Prop = Prop {
    id: "C18",
    check: c18,
    quick: 1_500_000,
    thorough: 60_000_000,
    rule: "a case is a random serde type (structs, newtypes, tuples, tuple and unit structs, enums of all four kinds of variant, sequences, maps with string, char and newtype keys, options, all primitives, bytes) with a random value, or a random value of one of twenty types with derived implementations (renames, flattening, tagged and untagged enums, defaults, standard library types); it is serialised plainly and with shared keys and deserialised as the same type; non-trivial: at least 4 values within it; distinct by type and value",
    configs: &["chk", "asan"],
};

fn round_trip<T: Gen + Serialize + DeserializeOwned + PartialEq + Debug>(s: &mut Src, cx: &mut Ctx, name: &'static str) -> Res {
    let depth = s.range(1, 4) as u32;
    let v = T::gen(s, depth);
    cx.note(|| format!("{name}: {}", clip(&format!("{v:?}"))));
    let b = fleece::to_bytes(&v).map_err(|e| format!("{name}: serialising: {e}"))?;
    let r: T = fleece::from_bytes(&b).map_err(|e| format!("{name}: deserialising: {e}"))?;
    ensure!(r == v, "{name}: {} came back as {}", clip(&format!("{v:?}")), clip(&format!("{r:?}")));
    let sc = fleece::to_bytes_with_shared_keys(&v).map_err(|e| format!("{name}: serialising with shared keys: {e}"))?;
    let data = sc.data().ok_or("scope without data")?;
    let r: T = fleece::from_bytes(&data).map_err(|e| format!("{name}: deserialising with shared keys: {e}"))?;
    ensure!(r == v, "{name} with shared keys: {} came back as {}", clip(&format!("{v:?}")), clip(&format!("{r:?}")));
    cx.class(name);
    let text = format!("{v:?}");
    if text.len() > 40 {
        cx.nontrivial(mix(hash_bytes(name.as_bytes()), hash_bytes(text.as_bytes())));
    }
    Ok(())
}

fn derived(s: &mut Src, cx: &mut Ctx) -> Res {
    match s.below(27) {
        20 => round_trip::<More>(s, cx, "More"),
        21 => round_trip::<TwoFlat>(s, cx, "TwoFlat"),
        22 => round_trip::<Vec<Loose>>(s, cx, "Vec<Loose>"),
        23 => round_trip::<Link>(s, cx, "Link"),
        24 => round_trip::<Unsized>(s, cx, "Unsized"),
        25 => round_trip::<Vec<Tagged>>(s, cx, "Vec<Tagged>"),
        26 => round_trip::<BTreeMap<String, Adjacent>>(s, cx, "BTreeMap<String, Adjacent>"),
        0 => round_trip::<Numbers>(s, cx, "Numbers"),
        1 => round_trip::<Texts>(s, cx, "Texts"),
        2 => round_trip::<Person>(s, cx, "Person"),
        3 => round_trip::<Empty>(s, cx, "Empty"),
        4 => round_trip::<Maps>(s, cx, "Maps"),
        5 => round_trip::<Seqs>(s, cx, "Seqs"),
        6 => round_trip::<Shapes>(s, cx, "Shapes"),
        7 => round_trip::<Std>(s, cx, "Std"),
        8 => round_trip::<Flat>(s, cx, "Flat"),
        9 => round_trip::<FlatMapNoClash>(s, cx, "FlatMap"),
        10 => round_trip::<Defaults>(s, cx, "Defaults"),
        11 => round_trip::<Holder>(s, cx, "Holder"),
        12 => round_trip::<Shape>(s, cx, "Shape"),
        13 => round_trip::<Tree>(s, cx, "Tree"),
        14 => round_trip::<Vec<Person>>(s, cx, "Vec<Person>"),
        15 => round_trip::<HashMap<String, Vec<Shape>>>(s, cx, "HashMap<String, Vec<Shape>>"),
        16 => round_trip::<Wrapper<Wrapper<Person>>>(s, cx, "Wrapper<Wrapper<Person>>"),
        17 => round_trip::<(Numbers, [Shape; 2], Texts)>(s, cx, "tuple"),
        18 => round_trip::<BTreeMap<char, Holder>>(s, cx, "BTreeMap<char, Holder>"),
        _ => round_trip::<Result<Vec<Numbers>, Shape>>(s, cx, "Result<Vec<Numbers>, Shape>"),
    }
}

/// A flattened map whose keys never are the other field's name.
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct FlatMapNoClash(FlatMap);
impl Gen for FlatMapNoClash {
    fn gen(s: &mut Src, d: u32) -> Self {
        let mut f = FlatMap::gen(s, d);
        f.rest.remove("known");
        FlatMapNoClash(f)
    }
}

fn typed(s: &mut Src, bad: bool) -> (Ty, V) {
    let (nodes, depth, vn, vb) = match s.weighted(&[5, 4, 1]) {
        0 => (6, 2, 12, 300),
        1 => (14, 4, 40, 1500),
        _ => (20, 4, 150, 60_000),
    };
    let t = schema::top(s, &mut schema::Cfg { nodes, depth, bad });
    let v = schema::value(s, &t, &mut schema::Budget { nodes: vn, bytes: vb });
    (t, v)
}

fn hint_error(e: &Error) -> bool {
    matches!(e, Error::Message(m) if m.starts_with("HINT"))
}

fn c18(s: &mut Src, cx: &mut Ctx) -> Res {
    if s.chance(1, 3) {
        return derived(s, cx);
    }
    let (t, v) = typed(s, false);
    let style = s.word();
    cx.note(|| format!("type {}", clip(&format!("{t:?}"))));
    cx.note(|| format!("value {}", clip(&format!("{v:?}"))));
    let want = v.canon();
    let b = fleece::to_bytes(S(&t, &v, style)).map_err(|e| format!("serialising: {e}"))?;
    let r = schema::from_bytes(&b, &t).map_err(|e| format!("deserialising: {e}"))?;
    ensure!(r.canon() == want, "came back as {}", clip(&format!("{r:?}")));
    let sc = fleece::to_bytes_with_shared_keys(S(&t, &v, style)).map_err(|e| format!("serialising with shared keys: {e}"))?;
    let data = sc.data().ok_or("scope without data")?;
    let r = schema::from_bytes(&data, &t).map_err(|e| format!("deserialising with shared keys: {e}"))?;
    ensure!(r.canon() == want, "with shared keys: came back as {}", clip(&format!("{r:?}")));
    let n = v.nodes();
    cx.class_if(b.len() > 0x7fff, "> 32767 bytes");
    cx.class_if(n > 2046, "> 2046 values");
    cx.class_if(sc.shared_keys().is_some_and(|k| !k.is_empty()), "shared keys used");
    cx.class_if(format!("{t:?}").contains("Enum("), "enums");
    if n >= 4 {
        cx.nontrivial(schema::fp(&t, &v));
    }
    Ok(())
}

// ---------------------------------------------------------------- C19

pub const C19: Prop = Prop {
    id: "C19",
    check: c19,
    quick: 3_000_000,
    thorough: 100_000_000,
    rule: "a case is one of: a random value whose top level is a scalar, or which holds a map with keys of one of 24 non-string kinds or a value refusing to be serialised at some depth; a document of a random type, changed at one to three places (other scalars, kinds, missing and extra fields, other variants), deserialised as the type; unrelated or damaged bytes deserialised as a random type; a document away from the table of its shared keys - against an independent account of which documents fit a type; non-trivial: the outcome is a refusal, or the document was changed and accepted with the right value; distinct by type and document",
    configs: &["chk", "rel", "asan"],
};

fn serialise_refused(s: &mut Src, cx: &mut Ctx) -> Res {
    let (t, v) = if s.bool() {
        // Something alone at the top.
        let mut t = schema::ty(s, &mut schema::Cfg { nodes: 1, depth: 0, bad: false });
        for _ in 0..s.usize(3) {
            t = match s.below(3) {
                0 => Ty::Newtype(Box::new(t)),
                1 if !matches!(t, Ty::Option(_)) => Ty::Option(Box::new(t)),
                _ => t,
            };
        }
        let v = schema::value(s, &t, &mut schema::Budget { nodes: 10, bytes: 300 });
        (t, v)
    } else {
        typed(s, true)
    };
    let style = s.word();
    cx.note(|| format!("type {}", clip(&format!("{t:?}"))));
    cx.note(|| format!("value {}", clip(&format!("{v:?}"))));
    let shared = s.bool();
    let r = if shared {
        fleece::to_bytes_with_shared_keys(S(&t, &v, style)).map(|sc| sc.data().map(|d| d.to_vec()).unwrap_or_default())
    } else {
        fleece::to_bytes(S(&t, &v, style))
    };
    match (schema::bare(&t, &v), schema::refused(&t, &v)) {
        (true, _) => match r {
            Err(Error::Serialize(SerializeError::ValueNotCollection)) => cx.class("scalar at the top"),
            r => return Err(format!("a scalar alone gave {}", clip(&format!("{r:?}")))),
        },
        (_, Some(Refused::Key)) => match r {
            Err(Error::Serialize(SerializeError::KeyNotString(_))) => cx.class("key that is no string"),
            r => return Err(format!("a map with keys which are no strings gave {}", clip(&format!("{r:?}")))),
        },
        (_, Some(Refused::Custom)) => match r {
            Err(Error::Message(m)) if m == "this value refuses" => cx.class("value refuses"),
            r => return Err(format!("a value refusing to be serialised gave {}", clip(&format!("{r:?}")))),
        },
        (false, None) => {
            let b = r.map_err(|e| format!("a value that can be serialised was refused: {e}"))?;
            ensure!(!b.is_empty(), "no bytes");
            return Ok(());
        }
    }
    cx.nontrivial(schema::fp(&t, &v));
    Ok(())
}

/// An array stored like an enum.
fn schema_variant(v: &[D]) -> bool {
    matches!(v.first(), Some(D::Str(n)) if schema::VARIANTS.contains(&n.as_str()))
}

/// Change a document somewhere.
fn alter(s: &mut Src, d: &mut D) {
    let n = d.nodes();
    let mut at = s.usize(n);
    walk(s, d, &mut at);
}
fn walk(s: &mut Src, d: &mut D, at: &mut usize) -> bool {
    if *at == 0 {
        *d = changed(s, d);
        return true;
    }
    *at -= 1;
    match d {
        D::Arr(v) => v.iter_mut().any(|x| walk(s, x, at)),
        D::Dict(v) => v.iter_mut().any(|(_, x)| walk(s, x, at)),
        _ => false,
    }
}
fn changed(s: &mut Src, d: &D) -> D {
    let mut d = d.clone();
    match &mut d {
        D::Arr(v) if schema_variant(v) && s.chance(1, 2) => {
            // A variant of another kind.
            v.truncate(1);
            match s.below(7) {
                0 => {}
                1 => v.push(D::Null),
                2 => v.push(D::Undef),
                3 => v.push(D::Arr(vec![])),
                4 => v.push(D::Dict(vec![])),
                5 => v.push(gen::scalar(s, &mut gen::Cfg::small())),
                _ => v.push(gen::collection(s, &mut gen::Cfg { nodes: 4, depth: 2, max_len: 20, wide_counts: false, bytes: 100 })),
            }
        }
        D::Arr(v) if s.chance(3, 4) => match s.below(4) {
            0 => {
                v.pop();
            }
            1 => {
                let x = if v.is_empty() || s.bool() { D::Int(1) } else { v[s.usize(v.len())].clone() };
                v.push(x);
            }
            2 if !v.is_empty() => {
                let i = s.usize(v.len());
                v.remove(i);
            }
            _ if v.len() > 1 => {
                let (i, j) = (s.usize(v.len()), s.usize(v.len()));
                v.swap(i, j);
            }
            _ => v.clear(),
        },
        D::Dict(v) if s.chance(3, 4) => match s.below(4) {
            0 if !v.is_empty() => {
                let i = s.usize(v.len());
                v.remove(i);
            }
            1 => {
                let k = (*s.pick(schema::FIELDS)).to_string();
                if !v.iter().any(|x| x.0 == k) {
                    v.push((k, gen::scalar(s, &mut gen::Cfg::small())));
                }
            }
            2 if !v.is_empty() => {
                let i = s.usize(v.len());
                let k = (*s.pick(schema::FIELDS)).to_string();
                if !v.iter().any(|x| x.0 == k) {
                    v[i].0 = k;
                }
            }
            _ if v.len() > 1 => {
                let (i, j) = (s.usize(v.len()), s.usize(v.len()));
                let t = v[i].1.clone();
                v[i].1 = v[j].1.clone();
                v[j].1 = t;
            }
            _ => v.clear(),
        },
        D::Int(i) if s.chance(2, 3) => {
            // Just out of, or within, some range.
            *i = match s.below(4) {
                0 => gen::int(s),
                1 => -*i,
                2 => *i * 256,
                _ => *s.pick(&[127i128, 128, 255, 256, 32767, 32768, 65535, 65536, -1, -128, -129, 1 << 31, (1 << 31) - 1, 1 << 32, -(1 << 31) - 1, 1 << 63, (1 << 63) - 1, -(1 << 63)]),
            }
            .clamp(i64::MIN.into(), u64::MAX.into());
        }
        D::Str(t) if s.chance(2, 3) => match s.below(3) {
            0 => *t = (*s.pick(schema::VARIANTS)).to_string(),
            1 => t.push('x'),
            _ => t.clear(),
        },
        _ => {
            d = match s.below(4) {
                0 => gen::collection(s, &mut gen::Cfg { nodes: 4, depth: 2, max_len: 20, wide_counts: false, bytes: 100 }),
                1 => D::Str((*s.pick(&["", "a", "x", "A", "Z", "unit"])).to_string()),
                2 => D::Arr(vec![d.clone()]),
                _ => gen::scalar(s, &mut gen::Cfg::small()),
            };
        }
    }
    d
}

/// The outcome of deserialising `d` as `t` is right.
fn outcome(t: &Ty, d: &D, r: Result<V, Error>) -> Result<bool, String> {
    if let Err(e) = &r {
        ensure!(!hint_error(e), "{e}");
    }
    match (schema::want(t, d), r) {
        (Want::Val(w), Ok(v)) => {
            ensure!(v.canon() == w.canon(), "deserialised as {} instead of {}", clip(&format!("{v:?}")), clip(&format!("{w:?}")));
            Ok(true)
        }
        (Want::Val(w), Err(e)) => Err(format!("{} was refused: {e}", clip(&format!("{w:?}")))),
        (Want::Refuse, Ok(v)) => Err(format!("a document which does not fit the type gave {}", clip(&format!("{v:?}")))),
        (Want::Refuse, Err(_)) => Ok(true),
        (Want::Open, _) => Ok(false),
    }
}

/// A dictionary with a key twice has no clear content.
fn clear(d: &D) -> bool {
    !d.any(&mut |x| match x {
        D::Dict(v) => {
            let mut k: Vec<&String> = v.iter().map(|x| &x.0).collect();
            k.sort();
            k.windows(2).any(|w| w[0] == w[1])
        }
        _ => false,
    })
}

fn deserialise_altered(s: &mut Src, cx: &mut Ctx) -> Res {
    let (t, v) = typed(s, false);
    let mut d = schema::document(&t, &v);
    let n = s.range(0, 3);
    for _ in 0..n {
        alter(s, &mut d);
    }
    if !d.is_coll() {
        d = D::Arr(vec![d]);
    }
    cx.note(|| format!("type {}", clip(&format!("{t:?}"))));
    cx.note(|| format!("document {}", d.show()));
    let held = forms::hold(s, &d)?;
    let r = match held.scope() {
        Some(sc) => schema::from_bytes(&sc.data().ok_or("no data")?, &t),
        None => schema::from_bytes(&held.data(), &t),
    };
    let refused = r.is_err();
    if outcome(&t, &d, r).map_err(|e| format!("{e} ({})", held.form))? && (n > 0 || refused) {
        cx.nontrivial(mix(schema::fp(&t, &V::Unit), d.fp()));
    }
    cx.class(if refused { "refused" } else { "accepted" });
    Ok(())
}

fn deserialise_bytes(s: &mut Src, cx: &mut Ctx) -> Res {
    let (t, v) = typed(s, false);
    let b = if s.bool() {
        untrusted::raw(s).0
    } else {
        let (mut b, _) = if s.bool() { (fleece::to_bytes(S(&t, &v, 1)).map_err(|e| format!("{e}"))?, ()) } else { (refenc::layout(s, &schema::document(&t, &v), None).0, ()) };
        for _ in 0..s.range(1, 2) {
            untrusted::mutate(s, &mut b);
        }
        b
    };
    // (Deep nesting and blow-up are C04's known findings and limits.)
    let dec = crate::refdec::decode_with(&b, None, 20_000, 100);
    if matches!(dec, crate::refdec::Verdict::Heavy) {
        cx.class("too deep or large");
        return Ok(());
    }
    cx.note(|| format!("type {}", clip(&format!("{t:?}"))));
    cx.note(|| format!("bytes {}", clip(&format!("{b:02x?}"))));
    let r = schema::from_bytes(&b, &t);
    let any = fleece::from_bytes::<AnyD>(&b);
    let json = fleece::from_bytes::<serde_json::Value>(&b);
    let ign = fleece::from_bytes::<serde::de::IgnoredAny>(&b);
    let typed = fleece::from_bytes::<Holder>(&b).is_ok() | fleece::from_bytes::<Shape>(&b).is_ok() | fleece::from_bytes::<BTreeMap<String, i32>>(&b).is_ok();
    cx.class_if(typed, "accepted as an unrelated type");
    match Value::from_bytes(&b) {
        Err(_) => {
            ensure!(r.is_err() && any.is_err() && json.is_err() && ign.is_err() && !typed, "bytes which are no document were deserialised");
            cx.class("not a document");
        }
        Ok(x) => {
            if let (crate::refdec::Verdict::Good(d), Ok(y)) = (dec, read(x)) {
                if clear(&d) && d.canon() == y.canon() {
                    let refused = r.is_err();
                    if outcome(&t, &d, r)? {
                        cx.class(if refused { "document refused" } else { "document accepted" });
                    }
                    let AnyD(a) = any.map_err(|e| format!("a document was refused as self-describing: {e}"))?;
                    same(&a, &d, "self-describing")?;
                }
            }
        }
    }
    cx.nontrivial(mix(schema::fp(&t, &V::Unit), hash_bytes(&b)));
    Ok(())
}

/// A document with shared keys, away from their table.
fn keys_lost(s: &mut Src, cx: &mut Ctx) -> Res {
    let (t, v) = typed(s, false);
    cx.note(|| format!("type {}", clip(&format!("{t:?}"))));
    cx.note(|| format!("value {}", clip(&format!("{v:?}"))));
    let sc = fleece::to_bytes_with_shared_keys(S(&t, &v, 1)).map_err(|e| format!("serialising: {e}"))?;
    let b = sc.data().ok_or("no data")?.to_vec();
    if !matches!(crate::refdec::decode(&b), crate::refdec::Verdict::Grey(_, "numeric key without a table")) {
        cx.class("no shared keys");
        return Ok(());
    }
    if s.bool() {
        drop(sc);
    }
    let r = schema::from_bytes(&b, &t);
    ensure!(r.is_err(), "shared keys without a table: deserialised as {}", clip(&format!("{r:?}")));
    let r = fleece::from_bytes::<AnyD>(&b);
    ensure!(r.is_err(), "shared keys without a table: deserialised as self-describing");
    let r = fleece::from_bytes::<serde_json::Value>(&b);
    ensure!(r.is_err(), "shared keys without a table: deserialised as {}", clip(&format!("{r:?}")));
    cx.class("shared keys lost");
    cx.nontrivial(schema::fp(&t, &v));
    Ok(())
}

fn c19(s: &mut Src, cx: &mut Ctx) -> Res {
    match s.weighted(&[6, 10, 6, 1]) {
        3 => keys_lost(s, cx),
        0 => serialise_refused(s, cx),
        1 => deserialise_altered(s, cx),
        _ => deserialise_bytes(s, cx),
    }
}

// ---------------------------------------------------------------- C20

pub const C20: Prop = Prop {
    id: "C20",
    check: c20,
    quick: 500_000,
    thorough: 20_000_000,
    rule: "a case is a random value of a random type serialised (plainly and with shared keys) and read directly against its documented document, the same document written by encoder calls or an independent layout and deserialised as the type, or a random document deserialised into self-describing targets (the harness's own, and serde_json's) against direct reading; non-trivial: at least 4 nodes; distinct by type and content",
    configs: &["chk", "asan"],
};

fn to_json(d: &D) -> Option<serde_json::Value> {
    use serde_json::Value as J;
    Some(match d {
        D::Null | D::Undef => J::Null,
        D::Bool(b) => J::Bool(*b),
        D::Int(i) => match i64::try_from(*i) {
            Ok(i) => J::from(i),
            Err(_) => J::from(u64::try_from(*i).ok()?),
        },
        D::F32(b) => serde_json::Number::from_f64(f64::from(f32::from_bits(*b))).map_or(J::Null, J::Number),
        D::F64(b) => serde_json::Number::from_f64(f64::from_bits(*b)).map_or(J::Null, J::Number),
        D::Str(t) => J::String(t.clone()),
        D::Data(_) => return None,
        D::Arr(v) => J::Array(v.iter().map(to_json).collect::<Option<_>>()?),
        D::Dict(v) => J::Object(v.iter().map(|(k, x)| Some((k.clone(), to_json(x)?))).collect::<Option<_>>()?),
    })
}
fn from_json(j: &serde_json::Value) -> D {
    use serde_json::Value as J;
    match j {
        // (serde_json serialises null as a unit.)
        J::Null => D::Undef,
        J::Bool(b) => D::Bool(*b),
        J::Number(n) => match (n.as_i64(), n.as_u64(), n.as_f64()) {
            (Some(i), _, _) => D::Int(i.into()),
            (_, Some(i), _) => D::Int(i.into()),
            (_, _, Some(f)) => f64n(f),
            _ => unreachable!(),
        },
        J::String(t) => D::Str(t.clone()),
        J::Array(v) => D::Arr(v.iter().map(from_json).collect()),
        J::Object(v) => D::Dict(v.iter().map(|(k, x)| (k.clone(), from_json(x))).collect()),
    }
}

fn c20(s: &mut Src, cx: &mut Ctx) -> Res {
    match s.weighted(&[4, 3, 3]) {
        0 => {
            let (t, v) = typed(s, false);
            let style = s.word();
            let d = schema::document(&t, &v);
            cx.note(|| format!("type {}", clip(&format!("{t:?}"))));
            cx.note(|| format!("value {}", clip(&format!("{v:?}"))));
            let b = fleece::to_bytes(S(&t, &v, style)).map_err(|e| format!("serialising: {e}"))?;
            check_bytes(&b, &d, "serialised")?;
            let sc = fleece::to_bytes_with_shared_keys(S(&t, &v, style)).map_err(|e| format!("serialising with shared keys: {e}"))?;
            check_value(&sc.root().ok_or("no root")?, &d, "serialised with shared keys")?;
            let AnyD(a) = fleece::from_bytes(&b).map_err(|e| format!("self-describing: {e}"))?;
            same(&a, &d, "self-describing")?;
            cx.class("serialised and read");
            if d.nodes() >= 4 {
                cx.nontrivial(schema::fp(&t, &v));
            }
        }
        1 => {
            let (t, v) = typed(s, false);
            let d = schema::document(&t, &v);
            cx.note(|| format!("type {}", clip(&format!("{t:?}"))));
            cx.note(|| format!("document {}", d.show()));
            let held = forms::hold(s, &d)?;
            let r = match held.scope() {
                Some(sc) => schema::from_bytes(&sc.data().ok_or("no data")?, &t),
                None => schema::from_bytes(&held.data(), &t),
            };
            let r = r.map_err(|e| format!("deserialising a document written otherwise ({}): {e}", held.form))?;
            ensure!(r.canon() == v.canon(), "({}) deserialised as {}", held.form, clip(&format!("{r:?}")));
            cx.class("written and deserialised");
            if d.nodes() >= 4 {
                cx.nontrivial(schema::fp(&t, &v));
            }
        }
        _ => {
            let d = gen::doc(s);
            cx.note(|| format!("document {}", d.show()));
            let held = forms::hold(s, &d)?;
            let data = held.scope().and_then(|sc| sc.data());
            let own = held.data();
            let b: &[u8] = data.as_deref().unwrap_or(&own);
            let AnyD(a) = fleece::from_bytes(b).map_err(|e| format!("self-describing ({}): {e}", held.form))?;
            same(&a, &d, "self-describing")?;
            same(&a, &read(held.value())?, "self-describing against direct reading")?;
            if let Some(j) = to_json(&d) {
                let r: serde_json::Value = fleece::from_bytes(b).map_err(|e| format!("as JSON ({}): {e}", held.form))?;
                ensure!(r == j, "as JSON: {} instead of {}", clip(&r.to_string()), clip(&j.to_string()));
                // And back.
                let w = from_json(&j);
                let b2 = fleece::to_bytes(&j).map_err(|e| format!("serialising JSON: {e}"))?;
                check_bytes(&b2, &w, "JSON serialised")?;
                cx.class("as JSON");
            }
            // A value seen as a map of unread values.
            if let D::Dict(v) = &d {
                let m: BTreeMap<String, serde::de::IgnoredAny> = fleece::from_bytes(b).map_err(|e| format!("as a map: {e}"))?;
                ensure!(m.len() == v.len(), "as a map: {} entries of {}", m.len(), v.len());
            }
            if d.nodes() >= 4 {
                cx.nontrivial(d.fp());
            }
        }
    }
    Ok(())
}
