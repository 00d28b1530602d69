//! C01, C02: documents and scalars.

use super::Prop;
use crate::engine::{Ctx, Res, Src};
use crate::model::*;
use crate::{ensure, gen, refdec};
use fleece::{MutableArray, MutableDict, Value, ValueType};

pub const C01: Prop = Prop {
    id: "C01",
    check: c01,
    quick: 120_000,
    thorough: 3_000_000,
    rule: "a case is a random tree (root array or dictionary, all leaf kinds, string and collection sizes biased to the format's limits) written through the encoder with random integer widths and value forms; non-trivial: at least 3 nodes with a nested collection or a value that needs a reference; distinct by content and style",
    configs: &["chk", "asan"],
};

fn c01(s: &mut Src, cx: &mut Ctx) -> Res {
    let d = gen::doc(s);
    let style = gen::style(s);
    cx.note(|| format!("document {} style {style}", d.show()));
    let b = encode(&d, style)?;
    cx.note(|| format!("{} bytes", b.len()));
    check_bytes(&b, &d, "decoded document")?;
    match refdec::decode_with(&b, None, 400_000, 1500) {
        refdec::Verdict::Good(r) => same(&r, &d, "independent decoder")?,
        refdec::Verdict::Heavy => cx.class("too large for the independent decoder"),
        v => return Err(format!("independent decoder: {v:?}")),
    }
    let n = d.nodes();
    cx.class_if(d.depth() >= 3, "depth >= 3");
    cx.class_if(d.depth() >= 64, "depth >= 64");
    cx.class_if(d.depth() > 256, "depth > 256");
    cx.class_if(n >= 2046, ">= 2046 nodes");
    cx.class_if(n > 65536, "> 65536 nodes");
    cx.class_if(b.len() > 0x3fff, "> 16383 bytes");
    cx.class_if(b.len() > 0x7fff, "> 32767 bytes");
    cx.class_if(d.any(&mut |x| matches!(x, D::Dict(v) if v.len() > 1)), "dictionary with several keys");
    if n >= 3 && (d.depth() >= 2 || b.len() > 2 * n + 4) {
        cx.nontrivial(crate::engine::mix(d.fp(), style));
    }
    Ok(())
}

pub const C02: Prop = Prop {
    id: "C02",
    check: c02,
    quick: 2_000_000,
    thorough: 20_000_000,
    rule: "a case is one scalar (integers of every width biased to powers of two and byte-count limits, float bit patterns, strings and bytes at length limits) written in one of ten integer types and owned / borrowed / optional form, at one of six places; non-trivial: any scalar other than a small integer, null or boolean; distinct by value, form and place",
    configs: &["chk", "asan"],
};

fn kind_ok(v: &Value, d: &D) -> bool {
    use ValueType as T;
    let t = v.value_type();
    match d {
        D::Null => t == T::Null,
        D::Undef => t == T::Undefined,
        D::Bool(b) => t == if *b { T::True } else { T::False },
        D::Int(i) => match t {
            T::Short | T::Int => i64::try_from(*i).is_ok(),
            T::UnsignedInt => *i >= 0,
            _ => false,
        },
        D::F32(_) => t == T::Float,
        D::F64(_) => t == T::Double32 || t == T::Double64,
        D::Str(_) => t == T::String,
        D::Data(_) => t == T::Data,
        D::Arr(_) => t == T::Array,
        D::Dict(_) => t == T::Dict,
    }
}

fn expect(v: Option<&Value>, d: &D, at: &str) -> Res {
    let v = v.ok_or_else(|| format!("{at}: nothing there"))?;
    ensure!(kind_ok(v, d), "{at}: kind {:?} for {}", v.value_type(), d.show());
    same(&read(v).map_err(|e| format!("{at}: {e}"))?, d, at)
}

fn c02(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut c = gen::Cfg { max_len: 70_000, bytes: 70_000, ..gen::Cfg::normal() };
    let d = gen::scalar(s, &mut c);
    let style = s.word();
    let place = s.usize(7);
    // Padding makes the collection wide or narrow.
    let far = s.chance(1, 12);
    cx.note(|| format!("scalar {} style {style:#x} place {place} far {far}", d.show()));
    let pad = D::Str("p".repeat(if far { 40_000 } else { 20 }));
    let w = |a: &mut MutableArray, i: Option<usize>| {
        with_scalar(&d, style, &mut |x| match i {
            None => x.push_to(a),
            Some(i) => x.set_to(a, i),
        })
    };
    match place {
        0 => {
            let doc = D::Arr(vec![d.clone()]);
            let b = encode_with_style(&doc, style)?;
            let v = Value::from_bytes(&b).map_err(|e| format!("refused: {e:?}"))?;
            expect(v.as_array().and_then(|a| a.get(0)), &d, "array element")?;
            expect(v.as_array().and_then(|a| a.iter().next()), &d, "iterated element")?;
        }
        1 => {
            // Far from the collection: between two other values.
            let doc = D::Arr(vec![pad.clone(), d.clone(), pad, D::Int(1)]);
            let b = encode_with_style(&doc, style)?;
            let v = Value::from_bytes(&b).map_err(|e| format!("refused: {e:?}"))?;
            expect(v.as_array().and_then(|a| a.get(1)), &d, "array element after padding")?;
            check_value(v, &doc, "array with padding")?;
        }
        2 => {
            let doc = D::Dict(vec![("key".into(), d.clone()), ("b".into(), pad)]);
            let b = encode_with_style(&doc, style)?;
            let v = Value::from_bytes(&b).map_err(|e| format!("refused: {e:?}"))?;
            expect(v.as_dict().and_then(|a| a.get("key")), &d, "dictionary value")?;
            expect(v.as_dict().and_then(|a| a.iter().find(|(k, _)| *k == "key")).map(|x| x.1), &d, "iterated dictionary value")?;
        }
        3 => {
            // A key: any string.
            let k = match &d {
                D::Str(t) => t.clone(),
                _ => gen::key(s, 5000),
            };
            let doc = D::Dict(vec![(k.clone(), D::Int(7)), (format!("{k}x"), pad)]);
            let b = encode_with_style(&doc, style)?;
            let v = Value::from_bytes(&b).map_err(|e| format!("refused: {e:?}"))?;
            check_value(v, &doc, "dictionary key")?;
            cx.nontrivial(crate::engine::hash_bytes(k.as_bytes()));
        }
        4 => {
            let mut a = MutableArray::new();
            w(&mut a, None);
            expect(a.get(0), &d, "pushed slot")?;
            expect(a.iter().next().and_then(|r| r.slot_value()), &d, "iterated slot")?;
            expect(a.clone().get(0), &d, "slot of a clone")?;
        }
        5 => {
            let mut a = MutableArray::new();
            a.push("x");
            w(&mut a, Some(0));
            expect(a.get(0), &d, "replaced slot")?;
        }
        _ => {
            let mut m = MutableDict::new();
            with_scalar(&d, style, &mut |x| x.insert_to(&mut m, "key"));
            expect(m.get("key"), &d, "mutable dictionary value")?;
            expect(m.clone().get("key"), &d, "value of a clone")?;
        }
    }
    match &d {
        D::Null | D::Undef | D::Bool(_) => {}
        D::Int(i) if (-10..30).contains(i) => {}
        _ => cx.nontrivial(crate::engine::mix(crate::engine::mix(d.fp(), style >> 32), place as u64)),
    }
    cx.class(match d {
        D::Int(i) if (-2048..2048).contains(&i) => "short integer",
        D::Int(_) => "long integer",
        D::F32(_) | D::F64(_) => "float",
        D::Str(_) => "string",
        D::Data(_) => "data",
        _ => "special",
    });
    Ok(())
}

/// Encode with `style` applied to every scalar as it is (not derived per position).
fn encode_with_style(doc: &D, style: u64) -> Result<Vec<u8>, String> {
    let mut e = fleece::Encoder::new();
    fn go(e: &mut fleece::Encoder, d: &D, style: u64) -> Res {
        match d {
            D::Arr(v) => {
                e.begin_array(v.len()).map_err(|e| format!("{e:?}"))?;
                v.iter().try_for_each(|x| go(e, x, style))?;
                e.end_array().map_err(|e| format!("{e:?}"))
            }
            D::Dict(v) => {
                e.begin_dict().map_err(|e| format!("{e:?}"))?;
                for (k, x) in v {
                    e.write_key(k).map_err(|e| format!("{e:?}"))?;
                    go(e, x, style)?;
                }
                e.end_dict().map_err(|e| format!("{e:?}"))
            }
            s => with_scalar(s, style, &mut |w| w.write_to(e)),
        }
    }
    go(&mut e, doc, style)?;
    Ok(e.finish())
}

pub trait SlotValue<'a> {
    fn slot_value(self) -> Option<&'a Value>;
}
impl<'a> SlotValue<'a> for fleece::mutable::array::Ref<'a> {
    fn slot_value(self) -> Option<&'a Value> {
        // `Ref::value` borrows from the reference; the slot outlives it.
        self.value().map(|v| unsafe { &*std::ptr::from_ref(v) })
    }
}
