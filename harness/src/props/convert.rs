//! C21: conversions of values.

use super::Prop;
use crate::engine::{clip, mix, Ctx, Res, Src};
use crate::model::*;
use crate::{ensure, gen, refenc};
use fleece::{MutableArray, MutableDict, Value};

pub const C21: Prop = Prop {
    id: "C21",
    check: c21,
    quick: 12_000_000,
    thorough: 400_000_000,
    rule: "a case is one to eight values of any kind (numbers biased to the limits of every target type) in an array, a dictionary or mutable collection, written by the encoder or laid out in any permitted way (over-long integers, four-byte doubles, wide slots, pointers); every conversion of every value is compared with an independent table; non-trivial: a value other than null, undefined, a boolean or a small integer; distinct by value and place",
    configs: &["chk", "rel"],
};

/// Numbers at the limits of every type one can convert to.
fn number(s: &mut Src) -> D {
    const EDGES: &[f64] = &[
        0.0, 1.0, 2047.0, 2048.0, 32767.0, 32768.0, 65535.0, 65536.0, 2_147_483_648.0, 4_294_967_296.0, 16_777_216.0, 16_777_217.0,
        9_007_199_254_740_992.0, 9_223_372_036_854_774_784.0, 9_223_372_036_854_775_808.0, 18_446_744_073_709_549_568.0, 18_446_744_073_709_551_616.0,
        1e300, 3.5e38, 1.17e-38, 1e-45,
    ];
    match s.weighted(&[4, 3, 3, 3, 2]) {
        0 => D::Int(gen::int(s)),
        1 => {
            let f = *s.pick(EDGES) + (s.below(5) as f64 - 2.0);
            let f = if s.bool() { -f } else { f };
            D::F64(f.to_bits())
        }
        2 => {
            let f = gen::int(s) as f64;
            if s.bool() { D::F64(f.to_bits()) } else { D::F32((f as f32).to_bits()) }
        }
        3 => D::F64(gen::f64bits(s)),
        _ => D::F32(gen::f32bits(s)),
    }
}

fn any_value(s: &mut Src) -> D {
    match s.weighted(&[12, 2, 2, 2, 2]) {
        0 => number(s),
        1 => D::Str(gen::string(s, 300)),
        2 => D::Data(gen::data(s, 300)),
        3 => s.pick(&[D::Null, D::Undef, D::Bool(false), D::Bool(true)]).clone(),
        _ => {
            let n = s.usize(3);
            if s.bool() {
                D::Arr((0..n).map(|_| number(s)).collect())
            } else {
                D::Dict((0..n).map(|i| (format!("k{i}"), number(s))).collect())
            }
        }
    }
}

fn eqf(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

fn conversions(v: &Value, d: &D, at: &str) -> Res {
    // Every conversion returns, whatever the value.
    let b = v.to_bool();
    let (i16_, u16_, i64_, u64_) = (v.to_short(), v.to_unsigned_short(), v.to_int(), v.to_unsigned_int());
    let (f64_, f32_) = (v.to_double(), v.to_float());
    let (st, da) = (v.to_str(), v.to_data());
    let (arr, dict) = (v.as_array(), v.as_dict());
    let what = |c: &str| format!("{at}: {c} of {} ({:?})", clip(&d.show()), v.value_type());

    // The number the value stands for, as an integer and as a float.
    let whole: Option<i128> = match d {
        D::Int(i) => Some(*i),
        D::Bool(x) => Some(i128::from(*x)),
        D::F32(x) => integral(f64::from(f32::from_bits(*x))),
        D::F64(x) => integral(f64::from_bits(*x)),
        _ => Some(0),
    };
    if let Some(n) = whole {
        if let Ok(x) = i16::try_from(n) {
            ensure!(i16_ == x, "{} gave {i16_}", what("to_short"));
        }
        if let Ok(x) = u16::try_from(n) {
            ensure!(u16_ == x, "{} gave {u16_}", what("to_unsigned_short"));
        }
        if let Ok(x) = i64::try_from(n) {
            ensure!(i64_ == x, "{} gave {i64_}", what("to_int"));
        }
        if let Ok(x) = u64::try_from(n) {
            ensure!(u64_ == x, "{} gave {u64_}", what("to_unsigned_int"));
        }
    }
    let (wf, wg) = match d {
        D::F32(x) => (f64::from(f32::from_bits(*x)), f32::from_bits(*x)),
        D::F64(x) => (f64::from_bits(*x), f64::from_bits(*x) as f32),
        _ => (whole.unwrap_or(0) as f64, whole.unwrap_or(0) as f32),
    };
    ensure!(eqf(f64_, wf), "{} gave {f64_:?}, want {wf:?}", what("to_double"));
    ensure!(eqf(f64::from(f32_), f64::from(wg)), "{} gave {f32_:?}, want {wg:?}", what("to_float"));
    if let D::F32(_) | D::F64(_) = d {
        if !wf.is_nan() {
            ensure!(f64_.is_sign_negative() == wf.is_sign_negative(), "{} lost the sign of zero", what("to_double"));
            ensure!(f32_.is_sign_negative() == wg.is_sign_negative(), "{} lost the sign of zero", what("to_float"));
        }
    }

    match (d, whole) {
        (D::Bool(x), _) => ensure!(b == *x, "{} gave {b}", what("to_bool")),
        (D::Int(_) | D::F32(_) | D::F64(_), Some(n)) => ensure!(b == (n != 0), "{} gave {b}", what("to_bool")),
        // Fractions are not settled by the property.
        (D::F32(_) | D::F64(_), None) => {}
        _ => ensure!(b, "{} gave false", what("to_bool")),
    }
    match d {
        D::Str(x) => {
            ensure!(st == x, "{} gave {:?}", what("to_str"), clip(st));
            ensure!(da == x.as_bytes(), "{} differs", what("to_data"));
        }
        D::Data(x) => ensure!(da == &x[..], "{} differs", what("to_data")),
        _ => {
            ensure!(st.is_empty(), "{} gave {:?}", what("to_str"), clip(st));
            ensure!(da.is_empty(), "{} gave {} bytes", what("to_data"), da.len());
        }
    }
    match d {
        D::Arr(x) => {
            ensure!(arr.map(|a| a.len()) == Some(x.len()) && dict.is_none(), "{} is wrong", what("as_array / as_dict"));
            for (i, d) in x.iter().enumerate() {
                conversions(arr.unwrap().get(i).ok_or("element missing")?, d, "element of an inner array")?;
            }
        }
        D::Dict(x) => {
            ensure!(dict.map(|a| a.len()) == Some(x.len()) && arr.is_none(), "{} is wrong", what("as_array / as_dict"));
            for (k, d) in x {
                conversions(dict.unwrap().get(k.as_str()).ok_or("key missing")?, d, "value of an inner dictionary")?;
            }
        }
        _ => ensure!(arr.is_none() && dict.is_none(), "{} is not nothing", what("as_array / as_dict")),
    }
    Ok(())
}

/// The integer a float equals, if any. Infinite values are truncated to something large.
fn integral(f: f64) -> Option<i128> {
    if f.is_nan() || f.fract() != 0.0 {
        return None;
    }
    Some(f as i128)
}

fn c21(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = s.range(1, 8);
    let items: Vec<D> = (0..n).map(|_| any_value(s)).collect();
    let place = s.usize(6);
    let style = gen::style(s);
    cx.note(|| format!("place {place} style {style:#x} values {}", D::Arr(items.clone()).show()));
    match place {
        0 | 1 => {
            let doc = D::Arr(items.clone());
            let bytes = if place == 0 { encode(&doc, style)? } else { refenc::layout(s, &doc, None).0 };
            let v = Value::from_bytes(&bytes).map_err(|e| format!("refused: {e:?}"))?;
            conversions(v, &doc, "the root")?;
            let a = v.as_array().ok_or("not an array")?;
            for (x, d) in a.iter().zip(&items) {
                conversions(x, d, "iterated element")?;
            }
        }
        2 | 3 => {
            let doc = D::Dict(items.iter().enumerate().map(|(i, d)| (format!("k{i}"), d.clone())).collect());
            let bytes = if place == 2 { encode(&doc, style)? } else { refenc::layout(s, &doc, None).0 };
            let v = Value::from_bytes(&bytes).map_err(|e| format!("refused: {e:?}"))?;
            conversions(v, &doc, "the root")?;
        }
        4 => {
            let mut a = MutableArray::new();
            for (i, d) in items.iter().enumerate() {
                if !d.is_coll() {
                    with_scalar(d, crate::model::sub_style(style, i), &mut |w| w.push_to(&mut a));
                }
            }
            for (i, d) in items.iter().filter(|d| !d.is_coll()).enumerate() {
                conversions(a.get(i).ok_or("slot missing")?, d, "slot of a mutable array")?;
            }
        }
        _ => {
            let mut m = MutableDict::new();
            for (i, d) in items.iter().enumerate() {
                if !d.is_coll() {
                    with_scalar(d, crate::model::sub_style(style, i), &mut |w| w.insert_to(&mut m, &format!("k{i}")));
                }
            }
            for (i, d) in items.iter().enumerate().filter(|(_, d)| !d.is_coll()) {
                conversions(m.get(&format!("k{i}")).ok_or("slot missing")?, d, "slot of a mutable dictionary")?;
            }
        }
    }
    for d in &items {
        cx.class(match d {
            D::Int(i) if *i > i128::from(i64::MAX) => "integer past the signed range",
            D::Int(_) => "integer",
            D::F32(_) => "float",
            D::F64(_) => "double",
            D::Str(_) | D::Data(_) => "string or data",
            D::Arr(_) | D::Dict(_) => "collection",
            _ => "special",
        });
        match d {
            D::Null | D::Undef | D::Bool(_) => {}
            D::Int(i) if (-10..30).contains(i) => {}
            _ => cx.nontrivial(mix(d.fp(), place as u64)),
        }
    }
    Ok(())
}

/// The programs are made and run by /verif/macro.py; nothing is run here.
pub const C24: Prop = Prop {
    id: "C24",
    check: |_, _| Ok(()),
    quick: 0,
    thorough: 0,
    rule: "a case is a random macro literal (nested dictionaries and arrays, empty ones included, trailing commas, every kind of scalar as a literal, a variable or a parenthesised expression, names that the macro uses itself) compiled against the crate and run in debug and release; its content is compared with that of a document built by explicit encoder calls; non-trivial: nested, or longer than 20 characters; distinct by source text",
    configs: &["chk"],
};
