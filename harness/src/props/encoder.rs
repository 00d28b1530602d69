//! C07, C08, C09, C23, C25: the encoder.

use super::Prop;
use crate::engine::{clip, hash_bytes, mix, Ctx, Res, Src};
use crate::model::*;
use crate::{ensure, ensure_eq, forms, gen, refdec};
use fleece::encoder::Encodable;
use fleece::{Encoder, Scope, SharedKeys, Value};

// ---------------------------------------------------------------- C07

pub const C07: Prop = Prop {
    id: "C07",
    check: c07,
    quick: 1_000_000,
    thorough: 12_000_000,
    rule: "a case is a random history of encoder calls (begin/end of both kinds, keys, values, encoded values, setting a shared-key table; about a third of them illegal at their point) run against a stack model that decides legality and content, then finished one of three ways at whatever point it has reached; non-trivial: at least 6 calls with at least one refused and at least 3 accepted; distinct by the history",
    configs: &["chk", "rel"],
};

enum Open {
    Arr(Vec<D>),
    Dict(Vec<(String, D)>, Option<String>),
}

#[derive(Default)]
struct Model {
    stack: Vec<Open>,
    root: Option<D>,
}

impl Model {
    fn takes_value(&self) -> bool {
        matches!(self.stack.last(), Some(Open::Arr(_) | Open::Dict(_, Some(_))))
    }
    fn can_begin(&self) -> bool {
        self.root.is_none() && (self.stack.is_empty() || self.takes_value())
    }
    fn takes_key(&self) -> bool {
        matches!(self.stack.last(), Some(Open::Dict(_, None)))
    }
    fn can_end_array(&self) -> bool {
        matches!(self.stack.last(), Some(Open::Arr(_)))
    }
    fn can_end_dict(&self) -> bool {
        matches!(self.stack.last(), Some(Open::Dict(_, None)))
    }
    fn value(&mut self, d: D) {
        match self.stack.last_mut() {
            Some(Open::Arr(v)) => v.push(d),
            Some(Open::Dict(v, k)) => v.push((k.take().unwrap(), d)),
            None => self.root = Some(d),
        }
    }
    fn close(&mut self) {
        let d = match self.stack.pop().unwrap() {
            Open::Arr(v) => D::Arr(v),
            Open::Dict(v, _) => D::Dict(v),
        };
        self.value(d);
    }
    fn finish(mut self) -> Option<D> {
        while let Some(top) = self.stack.last_mut() {
            if let Open::Dict(_, k) = top {
                *k = None;
            }
            self.close();
        }
        self.root
    }
    /// A key not used in the innermost dictionary.
    fn fresh_key(&self, s: &mut Src) -> String {
        let mut k = gen::key(s, 200);
        if let Some(Open::Dict(v, p)) = self.stack.last() {
            while v.iter().any(|(x, _)| *x == k) || p.as_ref() == Some(&k) {
                k.push_str(&v.len().to_string());
            }
        }
        k
    }
}

fn leaf(s: &mut Src) -> D {
    let mut c = gen::Cfg { max_len: if s.chance(1, 40) { 20_000 } else { 140 }, bytes: 40_000, ..gen::Cfg::small() };
    gen::scalar(s, &mut c)
}

fn c07(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut e = if s.chance(1, 8) {
        let n = s.usize(9);
        Encoder::new_to_vec(s.fill(n))
    } else {
        Encoder::new()
    };
    let mut shared = false;
    let mut m = Model::default();
    let mut history = 0u64;
    let (mut accepted, mut refused) = (0u32, 0u32);
    let mean = *s.pick(&[4u64, 12, 40]);
    let mut n = 0;
    let mut after_close = 0;
    // Some histories open very many collections, or write very many elements.
    let bursts = s.chance(1, 200);
    loop {
        if bursts && m.can_begin() && s.chance(1, 5) {
            let n = gen::depth(s).min(700);
            let kind = s.usize(3);
            let seed = s.below(1 << 16);
            let mut r = crate::engine::Rng::new(seed);
            cx.note(|| format!("open {n} collections (kind {kind}, seed {seed})"));
            cx.class("many collections open");
            history = mix(history, 100 + n as u64);
            for i in 0..n {
                let err = |e| format!("opening collection {i} of {n}: {e:?}");
                let w = r.next();
                if kind == 0 || (kind == 2 && w & 1 == 0) {
                    e.begin_array(0).map_err(err)?;
                    m.stack.push(Open::Arr(Vec::new()));
                } else {
                    e.begin_dict().map_err(err)?;
                    e.write_key("deeper").map_err(err)?;
                    m.stack.push(Open::Dict(Vec::new(), Some("deeper".into())));
                }
                if w & 0xf0 == 0 && matches!(m.stack.last(), Some(Open::Arr(_))) {
                    e.write_value(i as i64).map_err(err)?;
                    m.value(D::Int(i as i128));
                }
            }
            accepted += 3;
            continue;
        }
        if bursts && m.can_end_array() && s.chance(1, 8) {
            let n = if s.chance(1, 6) { gen::crowd(s) } else { *s.pick(&[255usize, 256, 257, 2046, 2047, 2048, 4096]) };
            cx.note(|| format!("write {n} integers"));
            cx.class("many elements");
            history = mix(history, 5000 + n as u64);
            for i in 0..n {
                e.write_value((i % 1000) as u32).map_err(|e| format!("writing element {i} of {n}: {e:?}"))?;
                m.value(D::Int((i % 1000) as i128));
            }
            continue;
        }
        if bursts && m.takes_key() && s.chance(1, 4) {
            let n = if s.chance(1, 10) { gen::crowd(s) / 4 } else { *s.pick(&[10usize, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1023, 2046, 2047, 2048, 4096]) };
            let tag = s.below(1 << 16);
            cx.note(|| format!("write {n} pairs \"burst-{tag}-..\""));
            cx.class("many pairs");
            history = mix(history, 9000 + n as u64);
            for i in 0..n {
                let k = format!("burst-{tag}-{}", (i * 7919) % 1_000_003);
                if matches!(m.stack.last(), Some(Open::Dict(v, _)) if i == 0 && v.iter().any(|x| x.0 == k)) {
                    break;
                }
                e.write_key(&k).map_err(|e| format!("writing key {i} of {n}: {e:?}"))?;
                if let Some(Open::Dict(_, p)) = m.stack.last_mut() {
                    *p = Some(k);
                }
                e.write_value((i % 1000) as u32).map_err(|e| format!("writing value {i} of {n}: {e:?}"))?;
                m.value(D::Int((i % 1000) as i128));
            }
            continue;
        }
        if !s.more(n, mean, 160) {
            break;
        }
        n += 1;
        // What the next call is; usually one that is legal now.
        let (legal, result, name): (bool, Result<(), String>, u64);
        let wild = s.chance(1, 4);
        let op = if wild {
            s.usize(8)
        } else if m.takes_key() {
            *s.pick(&[3usize, 3, 3, 3, 6])
        } else if m.can_end_array() {
            *s.pick(&[0usize, 0, 0, 1, 2, 4, 5, 4])
        } else if m.takes_value() {
            *s.pick(&[0usize, 0, 0, 1, 2, 4])
        } else if m.can_begin() {
            *s.pick(&[1usize, 2, 4])
        } else {
            s.usize(8)
        };
        match op {
            0 => {
                let d = leaf(s);
                let style = gen::style(s);
                legal = m.takes_value();
                result = with_scalar(&d, style, &mut |w| w.write_to(&mut e));
                cx.note(|| format!("write_value({}) -> {result:?}, legal {legal}", clip(&d.show())));
                name = mix(1, d.fp());
                if legal {
                    m.value(d);
                }
            }
            1 => {
                let cap = *s.pick(&[0usize, 1, 3, 100]);
                legal = m.can_begin();
                result = e.begin_array(cap).map_err(|e| format!("{e:?}"));
                cx.note(|| format!("begin_array({cap}) -> {result:?}, legal {legal}"));
                name = 2;
                if legal {
                    m.stack.push(Open::Arr(Vec::new()));
                }
            }
            2 => {
                legal = m.can_begin();
                result = e.begin_dict().map_err(|e| format!("{e:?}"));
                cx.note(|| format!("begin_dict() -> {result:?}, legal {legal}"));
                name = 3;
                if legal {
                    m.stack.push(Open::Dict(Vec::new(), None));
                }
            }
            3 => {
                let k = m.fresh_key(s);
                legal = m.takes_key();
                result = e.write_key(&k).map_err(|e| format!("{e:?}"));
                cx.note(|| format!("write_key({:?}) -> {result:?}, legal {legal}", clip(&k)));
                name = mix(4, hash_bytes(k.as_bytes()));
                if legal {
                    if let Some(Open::Dict(_, p)) = m.stack.last_mut() {
                        *p = Some(k);
                    }
                }
            }
            4 => {
                // An already encoded value: scalar or collection.
                let doc = gen::doc_with(s, gen::Cfg { nodes: 8, depth: 2, max_len: 40, wide_counts: false, bytes: 300 });
                let held = forms::hold(s, &doc)?;
                let (v, d) = sub_value(s, held.value(), &doc, 2);
                legal = if d.is_coll() { m.can_begin() } else { m.takes_value() };
                result = e.write_fleece(v).map_err(|e| format!("{e:?}"));
                cx.note(|| format!("write_fleece({} from {}) -> {result:?}, legal {legal}", clip(&d.show()), held.form));
                name = mix(5, d.fp());
                if legal {
                    m.value(d.clone());
                }
            }
            5 => {
                legal = m.can_end_array();
                result = e.end_array().map_err(|e| format!("{e:?}"));
                cx.note(|| format!("end_array() -> {result:?}, legal {legal}"));
                name = 6;
                if legal {
                    m.close();
                }
            }
            6 => {
                legal = m.can_end_dict();
                result = e.end_dict().map_err(|e| format!("{e:?}"));
                cx.note(|| format!("end_dict() -> {result:?}, legal {legal}"));
                name = 7;
                if legal {
                    m.close();
                }
            }
            _ => {
                if shared {
                    continue;
                }
                // A table may be set at any point, once.
                let (t, form) = forms::table(s, &[]);
                e.set_shared_keys(t);
                shared = true;
                cx.note(|| format!("set_shared_keys({form})"));
                history = mix(history, 8);
                continue;
            }
        }
        history = mix(history, name);
        if legal {
            accepted += 1;
            ensure!(result.is_ok(), "call {n} is legal but was refused: {result:?}");
        } else {
            refused += 1;
            ensure!(result.is_err(), "call {n} is not legal but was accepted");
        }
        if m.root.is_some() {
            after_close += 1;
            if after_close > 12 {
                break;
            }
        }
    }
    let open = m.stack.len();
    let pending = matches!(m.stack.last(), Some(Open::Dict(_, Some(_))));
    cx.note(|| format!("finish with {open} open, key pending {pending}"));
    let closed = m.root.is_some();
    let Some(want) = m.finish() else {
        // Nothing was written: there is no document.
        let _ = e.finish();
        return Ok(());
    };
    match if shared { 1 } else { s.usize(3) } {
        0 => {
            let b = e.finish();
            check_bytes(&b, &want, "finished document")?;
        }
        1 => {
            let sc = e.finish_scoped();
            ensure_eq!(sc.shared_keys().is_some(), shared, "the scope has a table");
            let root = sc.root().ok_or("finish_scoped gave a scope without a root")?;
            Value::from_bytes(&sc.data().unwrap()).map_err(|e| format!("finished document refused: {e:?}"))?;
            check_value(root.value(), &want, "scoped document")?;
        }
        _ => check_value(e.finish_value().value(), &want, "finished value")?,
    }
    cx.class_if(open >= 2, "finished with several collections open");
    cx.class_if(pending, "finished with a key pending");
    cx.class_if(closed && refused > 0, "calls after the root was closed");
    cx.class_if(shared, "shared keys");
    cx.class_if(want.nodes() > 20, "> 20 nodes");
    if accepted >= 3 && refused >= 1 {
        cx.nontrivial(history);
    }
    Ok(())
}

/// A value somewhere inside a document, with its content.
pub fn sub_value<'a, 'b>(s: &mut Src, mut v: &'a Value, mut d: &'b D, steps: usize) -> (&'a Value, &'b D) {
    for _ in 0..steps {
        if !s.bool() {
            break;
        }
        match d {
            D::Arr(xs) if !xs.is_empty() => {
                let i = s.usize(xs.len());
                match v.as_array().and_then(|a| a.get(i)) {
                    Some(x) => (v, d) = (x, &xs[i]),
                    None => break,
                }
            }
            D::Dict(xs) if !xs.is_empty() => {
                let (k, x) = &xs[s.usize(xs.len())];
                match v.as_dict().and_then(|a| a.iter().find(|p| p.0 == k)) {
                    Some(p) => (v, d) = (p.1, x),
                    None => break,
                }
            }
            _ => break,
        }
    }
    (v, d)
}

// ---------------------------------------------------------------- C08

pub const C08: Prop = Prop {
    id: "C08",
    check: c08,
    quick: 25_000,
    thorough: 2_500_000,
    rule: "a case is a document built around filler strings and element counts sized so that the distance from some reference (element, dictionary value, dictionary key, root, nested collection) to its target lands within 48 bytes of 16383, 32767, 65535 or 131071, or a string length / element count lands at a header limit; non-trivial: the encoded document is larger than 16300 bytes; distinct by content",
    configs: &["chk", "rel"],
};

fn filler(s: &mut Src) -> D {
    let base = *s.pick(&[16383usize, 16383, 16383, 32767, 65535, 131_071, 8191, 4095]);
    let n = base + s.usize(97) - 64;
    let c = char::from(b'a' + s.below(26) as u8);
    let t: String = std::iter::repeat(c).take(n).collect();
    if s.chance(1, 4) {
        D::Data(t.into_bytes())
    } else {
        D::Str(t)
    }
}
fn pointee(s: &mut Src, i: usize) -> D {
    match s.below(6) {
        0 => D::Str(format!("near {i}")),
        1 => D::F64((i as f64 + 0.5).to_bits()),
        2 => D::Int(1_000_000 + i as i128),
        3 => D::Arr(vec![D::Int(i as i128), D::Str(format!("in {i}"))]),
        4 => D::Dict(vec![(format!("a longer key {i}"), D::Str("v".repeat(3 + i % 5))), ("k".into(), D::Null)]),
        _ => D::Int(i as i128 % 2000),
    }
}
fn far_key(s: &mut Src, i: usize) -> String {
    match s.below(4) {
        0 => format!("{}", (b'a' + (i % 26) as u8) as char),
        1 => format!("key{i}"),
        2 => format!("zz a key that cannot be shared {i}"),
        _ => format!("-{i}"),
    }
}

/// Something that mentions far apart values.
fn spread(s: &mut Src, depth: usize) -> D {
    let mut items: Vec<D> = Vec::new();
    let n = s.range(1, 5);
    let mut fills = 0;
    for i in 0..n {
        match s.below(5) {
            0 | 1 if fills < 2 => {
                fills += 1;
                items.push(filler(s));
            }
            2 if depth > 0 => items.push(spread(s, depth - 1)),
            _ => {
                let p = pointee(s, i);
                items.push(p);
            }
        }
    }
    if s.bool() {
        D::Arr(items)
    } else {
        D::Dict(
            items
                .into_iter()
                .enumerate()
                .map(|(i, d)| {
                    let mut k = far_key(s, i);
                    if s.chance(1, 10) {
                        // A key long enough to push others away.
                        k = format!("{k}{}", "q".repeat(*s.pick(&[16300usize, 16370, 16380, 130, 14, 15])));
                    }
                    k.push_str(&"'".repeat(i));
                    (k, d)
                })
                .collect(),
        )
    }
}

/// Many slots: the collection itself is as long as a narrow reference reaches.
fn crowd(s: &mut Src) -> D {
    let base = match s.weighted(&[12, 3, 1]) {
        0 => *s.pick(&[8191usize, 8191, 4095, 2047, 16383, 5460]),
        1 => *s.pick(&[16384usize, 32767, 32768, 65535, 65536]),
        // The next length of a count.
        _ if s.chance(1, 12) => 1 << 21,
        _ => 131_072,
    };
    let n = (base + s.usize(41)).saturating_sub(24);
    let refs = s.usize(8);
    let dict = s.bool();
    let edges = s.range(1, 2);
    let n = if dict { n / 2 } else { n };
    // A single value that may be too far for its slot, while all else is near.
    let lone = (if s.bool() { 0 } else { s.usize(n.clamp(1, 40)) }, s.usize(33_500));
    let mut xs: Vec<D> = Vec::with_capacity(n);
    for i in 0..n {
        let near_edge = i < 3 || i + 6 > n;
        xs.push(match refs {
            0 => D::Null,
            1 if near_edge => D::Str(format!("edge {i}")),
            2 if i % 97 == 0 => D::Str(format!("some {i}")),
            3 => D::Str(format!("{i:03}")),
            4 if i == 0 || i + 1 == n => D::Arr(vec![D::Str(format!("inner {i}"))]),
            // The header itself decides whether the first slots still reach.
            5 if i < edges => {
                let base = *s.pick(&[16383usize, 16383, 8191, 32767]);
                D::Str("e".repeat(base + s.usize(25) - 20))
            }
            6 | 7 if i == lone.0 => D::Data(vec![b'L'; lone.1]),
            _ => D::Int(i as i128 % 2048),
        });
    }
    if dict {
        let tag = s.below(4);
        const DIGITS: &[u8; 64] = b"!#0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
        D::Dict(
            xs.into_iter()
                .enumerate()
                .map(|(i, d)| {
                    let k = match tag {
                        0 => format!("{i}"),
                        1 => format!("key {i:05} not shareable"),
                        // As short as can be: some fit in their slots.
                        2 => {
                            let (mut k, mut i) = (String::new(), i);
                            while k.is_empty() || i > 0 {
                                k.push(DIGITS[i % 64] as char);
                                i /= 64;
                            }
                            k
                        }
                        _ => format!("{:07}", 9_999_999 - i),
                    };
                    (k, d)
                })
                .collect(),
        )
    } else {
        D::Arr(xs)
    }
}

fn wrap(s: &mut Src, d: D) -> D {
    match s.below(4) {
        0 => d,
        1 => D::Arr(vec![d]),
        2 => D::Arr(vec![D::Str("before".into()), d, D::Str("after".into())]),
        _ => D::Dict(vec![("wrapped".into(), d), ("a long enough key!".into(), D::Str("xyz".into()))]),
    }
}

fn c08(s: &mut Src, cx: &mut Ctx) -> Res {
    let d = match s.weighted(&[12, 4, 3]) {
        0 => {
            let x = spread(s, 2);
            wrap(s, x)
        }
        1 => {
            cx.class("many elements");
            let x = crowd(s);
            if s.chance(1, 5) {
                // Every reference to what is in front is a long one.
                let f = filler(s);
                let n = 40_000 + s.usize(40_000);
                let far = D::Str("f".repeat(n));
                return c08_check(s, cx, D::Arr(vec![D::Str("shared start".into()), f, far, x, D::Int(1)]));
            }
            wrap(s, x)
        }
        _ => {
            cx.class("length limits");
            let base = if s.chance(1, 60) {
                // 16 MiB is slow, so rarer still; 256 MiB much more so.
                match s.below(160) {
                    159 if cfg!(not(feature = "bigstack")) => 1usize << 28,
                    140.. => 1usize << 24,
                    _ => 1usize << 21,
                }
            } else { *s.pick(&[14usize, 15, 127, 128, 16383, 16384, 2047, 255, 256]) };
            let n = base + s.usize(7) - 3;
            let t = "l".repeat(n);
            let x = match s.below(4) {
                0 => D::Str(t),
                1 => D::Data(t.into_bytes()),
                2 => D::Dict(vec![(t, D::Bool(true)), ("k".into(), D::Str("value".into()))]),
                _ => D::Arr(vec![D::Str(t), D::Str("next".into())]),
            };
            let x = wrap(s, x);
            if x.is_coll() {
                x
            } else {
                D::Arr(vec![x])
            }
        }
    };
    c08_check(s, cx, d)
}

fn c08_check(s: &mut Src, cx: &mut Ctx, d: D) -> Res {
    cx.note(|| format!("document {}", d.show()));
    let shared = s.chance(1, 4);
    let mut e = Encoder::new();
    if shared {
        e.set_shared_keys(SharedKeys::new());
    }
    write_doc(&mut e, &d, 0)?;
    let (bytes, names);
    if shared {
        let sc = e.finish_scoped();
        let root = sc.root().ok_or("no root")?;
        check_value(root.value(), &d, "scoped document")?;
        let t = sc.shared_keys().ok_or("no table")?;
        check_by_access(root.value(), &d, Some(t), "$")?;
        bytes = sc.data().unwrap().to_vec();
        names = Some(forms::table_names(t));
        Value::from_bytes(&bytes).map_err(|e| format!("document refused: {e:?}"))?;
        cx.class("shared keys");
    } else {
        bytes = e.finish();
        names = None;
        check_bytes(&bytes, &d, "document")?;
    }
    cx.note(|| format!("{} bytes", bytes.len()));
    match refdec::decode_with(&bytes, names.as_deref(), 400_000, 1500) {
        refdec::Verdict::Good(r) => same(&r, &d, "independent decoder")?,
        refdec::Verdict::Heavy => cx.class("too large for the independent decoder"),
        v => return Err(format!("independent decoder: {}", clip(&format!("{v:?}")))),
    }
    cx.class_if(bytes.len() > 65_535, "> 65535 bytes");
    cx.class_if(bytes.len() > 16_383 - 100 && bytes.len() < 16_383 + 600, "just around 16383 bytes");
    if bytes.len() > 16_300 {
        cx.nontrivial(d.fp());
    }
    Ok(())
}

// ---------------------------------------------------------------- C09

pub const C09: Prop = Prop {
    id: "C09",
    check: c09,
    quick: 80_000,
    thorough: 5_000_000,
    rule: "a case holds a random document in one of the forms (encoder output, independent layout, either with a shared-key table in a scope), copies it or a value inside it with write_fleece to the top level, an array element or a dictionary value of a plain or shared-key encoder, reads the result, and copies the copy; non-trivial: the copied value is a collection with at least 3 nodes, or a scalar that needs more than two bytes; distinct by content, form and destination",
    configs: &["chk", "rel"],
};

/// Copy `v` into a new document at `place`, giving the document it should be.
fn copy_into(s: &mut Src, v: &Value, d: &D, place: usize, e: &mut Encoder) -> Result<D, String> {
    let err = |e| format!("write_fleece: {e:?}");
    let er2 = |e| format!("{e:?}");
    Ok(match place {
        0 => {
            e.write_fleece(v).map_err(err)?;
            d.clone()
        }
        1 => {
            e.begin_array(0).map_err(er2)?;
            e.write_value("first").map_err(er2)?;
            e.write_fleece(v).map_err(err)?;
            e.write_value(7).map_err(er2)?;
            let twice = s.bool();
            if twice {
                e.write_fleece(v).map_err(err)?;
            }
            e.end_array().map_err(er2)?;
            let mut o = vec![D::Str("first".into()), d.clone(), D::Int(7)];
            if twice {
                o.push(d.clone());
            }
            D::Arr(o)
        }
        2 => {
            e.begin_dict().map_err(er2)?;
            e.write_key("zz").map_err(er2)?;
            e.write_value(1.5f32).map_err(er2)?;
            e.write_key("copy").map_err(er2)?;
            e.write_fleece(v).map_err(err)?;
            e.write_key("a").map_err(er2)?;
            e.write_fleece(v).map_err(err)?;
            e.end_dict().map_err(er2)?;
            D::Dict(vec![("zz".into(), D::F32(1.5f32.to_bits())), ("copy".into(), d.clone()), ("a".into(), d.clone())])
        }
        _ => {
            e.begin_array(1).map_err(er2)?;
            e.begin_dict().map_err(er2)?;
            e.write_key("inner").map_err(er2)?;
            e.begin_array(0).map_err(er2)?;
            e.write_fleece(v).map_err(err)?;
            e.end_array().map_err(er2)?;
            e.end_dict().map_err(er2)?;
            e.end_array().map_err(er2)?;
            D::Arr(vec![D::Dict(vec![("inner".into(), D::Arr(vec![d.clone()]))])])
        }
    })
}

fn c09(s: &mut Src, cx: &mut Ctx) -> Res {
    let cfg = gen::Cfg::mixed(s);
    let doc = gen::doc_with(s, cfg);
    let held = forms::hold(s, &doc)?;
    cx.note(|| format!("source ({}) {}", held.form, doc.show()));
    let before = held.data();
    let (v, d) = sub_value(s, held.value(), &doc, 4);
    let place = if d.is_coll() { s.usize(4) } else { s.range(1, 3) };
    let mut e = Encoder::new();
    let dest_shared = s.chance(1, 3);
    let mut keys = Vec::new();
    forms::all_keys(d, &mut keys);
    if dest_shared {
        // Its own table, or the table of the source.
        let t = match (&held.table, s.below(3)) {
            (Some(t), 0) => (**t).clone(),
            _ => forms::table(s, &keys).0,
        };
        e.set_shared_keys(t);
    }
    cx.note(|| format!("copy {} to place {place}, destination shared {dest_shared}", d.show()));
    let want = copy_into(s, v, d, place, &mut e)?;
    let first: forms::Held = if dest_shared {
        let sc = e.finish_scoped();
        let root = sc.root().ok_or("copy has no root")?;
        check_value(root.value(), &want, "copy within its scope")?;
        let table = sc.shared_keys().cloned();
        forms::Held { bytes: forms::Bytes::Scoped(sc, root), table, form: "copy" }
    } else {
        let b = e.finish();
        check_bytes(&b, &want, "copy")?;
        forms::Held { bytes: forms::Bytes::Plain(b), table: None, form: "copy" }
    };
    // Copying the copy changes nothing further.
    let mut e = Encoder::new();
    e.write_fleece(first.value()).map_err(|e| format!("copy of the copy: {e:?}"))?;
    let second = e.finish();
    check_bytes(&second, &want, "copy of the copy")?;
    let mut e = Encoder::new();
    e.write_fleece(Value::from_bytes(&second).unwrap()).map_err(|e| format!("third copy: {e:?}"))?;
    let third = e.finish();
    // (Dictionaries of a plain document are written in the order they iterate from here on.)
    let mut e = Encoder::new();
    e.write_fleece(Value::from_bytes(&third).map_err(|e| format!("{e:?}"))?).map_err(|e| format!("fourth copy: {e:?}"))?;
    ensure!(e.finish() == third, "copying a plain copy again changed its bytes");
    check_value(first.value(), &want, "the copy after being copied")?;
    ensure!(held.data() == before, "copying changed the source");
    check_value(held.value(), &doc, "the source after being copied")?;
    cx.class(held.form);
    cx.class_if(held.table.is_some() && dest_shared, "shared keys to shared keys");
    cx.class_if(held.table.is_some() && !dest_shared, "shared keys to plain");
    cx.class_if(held.table.is_none() && dest_shared, "plain to shared keys");
    cx.class_if(place == 0, "top level");
    let big = match d {
        D::Arr(_) | D::Dict(_) => d.nodes() >= 3,
        D::Int(i) => !(-2048..2048).contains(i),
        D::Str(t) => t.len() > 1,
        D::Data(t) => t.len() > 1,
        D::F32(_) | D::F64(_) => true,
        _ => false,
    };
    if big {
        cx.nontrivial(mix(d.fp(), mix(hash_bytes(held.form.as_bytes()), place as u64 * 2 + u64::from(dest_shared))));
    }
    Ok(())
}

// ---------------------------------------------------------------- C23

pub const C23: Prop = Prop {
    id: "C23",
    check: c23,
    quick: 100_000,
    thorough: 4_000_000,
    rule: "a case starts an encoder on a buffer holding random bytes or an earlier document (lengths 0 to 5, odd and even, near 16383, 32767, 65535, 131071) and writes a random document after it, with or without shared keys, finished one of three ways; non-trivial: a non-empty prefix and a document with at least 3 nodes; distinct by prefix and content",
    configs: &["chk", "rel"],
};

fn c23(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut earlier: Option<D> = None;
    let prefix: Vec<u8> = match s.weighted(&[5, 4, 3, 2]) {
        0 => {
            let n = s.usize(12);
            s.fill(n)
        }
        1 => {
            let n = s.usize(700);
            s.fill(n)
        }
        2 => {
            let d = gen::doc_with(s, gen::Cfg::small());
            let st = gen::style(s);
            let b = encode(&d, st)?;
            earlier = Some(d);
            b
        }
        _ => {
            let base = if s.chance(1, 60) {
                *s.pick(&[(1usize << 20) + 7, 1 << 21, (1 << 22) + 100, 1 << 24, 17_000_000])
            } else {
                *s.pick(&[16383usize, 32767, 65535, 131_071, 40_000, 262_143])
            };
            let n = base + s.usize(33) - 16;
            s.fill(n)
        }
    };
    let c = gen::Cfg::mixed(s);
    let d = gen::doc_with(s, c);
    let style = gen::style(s);
    cx.note(|| format!("prefix of {} bytes, document {}", prefix.len(), d.show()));
    let mut buf = prefix.clone();
    if s.bool() {
        buf.reserve(s.usize(5000));
    }
    let mut e = Encoder::new_to_vec(buf);
    let way = s.usize(4);
    if way == 3 {
        e.set_shared_keys(SharedKeys::new());
    }
    write_doc(&mut e, &d, style)?;
    let out: Vec<u8>;
    match way {
        0 | 1 => {
            out = e.finish();
            check_bytes(&out, &d, "document after a prefix")?;
            match refdec::decode_with(&out, None, 400_000, 1500) {
                refdec::Verdict::Good(r) => same(&r, &d, "independent decoder")?,
                refdec::Verdict::Heavy => cx.class("too large for the independent decoder"),
                v => return Err(format!("independent decoder: {}", clip(&format!("{v:?}")))),
            }
            let sc = Scope::new(out.clone(), None);
            check_value(sc.root().ok_or("no root")?.value(), &d, "scope of the whole buffer")?;
        }
        2 => {
            let v = e.finish_value();
            check_value(v.value(), &d, "finished value")?;
            out = prefix.clone();
        }
        _ => {
            let sc = e.finish_scoped();
            check_value(sc.root().ok_or("no root")?.value(), &d, "scoped document after a prefix")?;
            out = sc.data().unwrap().to_vec();
            Value::from_bytes(&out).map_err(|e| format!("scoped document refused: {e:?}"))?;
        }
    }
    ensure!(out.len() >= prefix.len() && out[..prefix.len()] == prefix[..], "the bytes in front of the document changed");
    if let Some(x) = &earlier {
        check_bytes(&out[..prefix.len()], x, "the earlier document")?;
        cx.class("prefix is a document");
    }
    // The same as in an empty buffer.
    let alone = encode(&d, style)?;
    same(&read(Value::from_bytes(&alone).map_err(|e| format!("{e:?}"))?)?, &d, "document in an empty buffer")?;
    cx.class_if(prefix.len() % 2 == 1, "odd prefix");
    cx.class_if(prefix.len() > 16_000, "prefix > 16000 bytes");
    if !prefix.is_empty() && d.nodes() >= 3 {
        cx.nontrivial(mix(hash_bytes(&prefix), d.fp()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C25

pub const C25: Prop = Prop {
    id: "C25",
    check: c25,
    quick: 2_000_000,
    thorough: 20_000_000,
    rule: "a case is one encodable value (all scalar kinds and widths, owned / borrowed / optional forms, compact forms) written straight into buffers of every length from 0 to past its announced size, narrow and wide, between canary bytes; the written bytes are decoded by the crate and by the independent decoder; non-trivial: any value but null, booleans and one-digit numbers; distinct by value and form",
    configs: &["chk", "asan"],
};

fn c25(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut c = gen::Cfg::normal();
    c.max_len = if s.chance(1, 30) { 20_000 } else { 300 };
    c.bytes = 40_000;
    let d = gen::scalar(s, &mut c);
    let style = gen::style(s);
    let skew = s.usize(3);
    let lens: Vec<usize> = (0..4).map(|_| s.usize(1 << 16)).collect();
    cx.note(|| format!("value {} style {style}", d.show()));
    with_scalar(&d, style, &mut |w| sized(w.enc(), &d, skew, &lens, cx))?;
    with_scalar(&d, style, &mut |w| match w.enc().to_sized_value() {
        None => Ok(()),
        Some(c) => {
            cx.class("compact form");
            sized(&c, &d, skew, &lens, cx)?;
            // Offered in compact form, it reads as the same value in an array and a dictionary.
            let mut e = Encoder::new();
            e.begin_array(2).unwrap();
            e.write_value(c).map_err(|e| format!("{e:?}"))?;
            e.write_value(w.enc()).map_err(|e| format!("{e:?}"))?;
            e.end_array().unwrap();
            check_bytes(&e.finish(), &D::Arr(vec![d.clone(), d.clone()]), "compact and full form")
        }
    })?;
    match &d {
        D::Null | D::Undef | D::Bool(_) => {}
        D::Int(i) if (-10..30).contains(i) => {}
        _ => cx.nontrivial(mix(d.fp(), style)),
    }
    Ok(())
}

fn sized(v: &dyn Encodable, d: &D, skew: usize, lens: &[usize], cx: &mut Ctx) -> Res {
    let announced = v.fleece_size();
    ensure!(announced >= 2, "announced size {announced}");
    for wide in [false, true] {
        // A value in a wide slot takes at least the slot's four bytes.
        let need = if wide { announced.max(4) } else { announced };
        // (A three-byte value is not padded unless it is a slot of its own.)
        let exact = |n: usize| n == need || (wide && announced == 3 && n == 3);
        let mut tries: Vec<usize> = if announced <= 24 {
            (0..announced + 6).collect()
        } else {
            let mut t = vec![0, 1, 2, 3, 4, announced / 2, announced - 2, announced - 1, announced, announced + 1, announced + 5];
            t.extend(lens.iter().map(|x| x % (announced + 8)));
            t
        };
        tries.push(announced + 64);
        for n in tries {
            cx.sub += 1;
            const CANARY: u8 = 0xA5;
            let front = 8 + skew;
            let mut mem = vec![CANARY; front + n + 16];
            let got = v.write_fleece_to(&mut mem[front..front + n], wide).map(|x| x.get());
            ensure!(mem[..front].iter().all(|b| *b == CANARY), "wrote in front of its buffer");
            ensure!(mem[front + n..].iter().all(|b| *b == CANARY), "wrote behind its buffer");
            match got {
                None => {
                    ensure!(n < need, "reported failure for a buffer of {n} bytes; announced {announced}, wide {wide}");
                    ensure!(mem.iter().all(|b| *b == CANARY), "reported failure but wrote into the buffer");
                }
                Some(w) => {
                    ensure!(n >= announced && w <= n, "reported {w} bytes written to a buffer of {n}; announced {announced}, wide {wide}");
                    ensure!(exact(w), "reported {w} bytes written; announced {announced}, wide {wide}");
                    ensure!(mem[front + w..].iter().all(|b| *b == CANARY), "wrote beyond the {w} bytes it reported");
                    if n == announced || n == announced + 5 {
                        decodes(&mem[front..front + w], d, if wide { "bytes written wide" } else { "bytes written" })?;
                    }
                }
            }
        }
    }
    Ok(())
}

/// The bytes of one value, made a document of their own.
fn decodes(bytes: &[u8], d: &D, what: &str) -> Res {
    let mut doc = bytes.to_vec();
    if doc.len() == 2 {
        let v = Value::from_bytes(&doc).map_err(|e| format!("{what}: refused: {e:?}"))?;
        return same(&read(v)?, d, what);
    }
    if doc.len() % 2 == 1 {
        doc.push(0);
    }
    let dist = doc.len();
    if dist <= 0x3fff {
        doc.extend_from_slice(&(0x8000 | (dist / 2) as u16).to_be_bytes());
    } else {
        doc.extend_from_slice(&(0x8000_0000 | (dist / 2) as u32).to_be_bytes());
        doc.extend_from_slice(&(0x8000u16 | 2).to_be_bytes());
    }
    let v = Value::from_bytes(&doc).map_err(|e| format!("{what}: refused: {e:?}"))?;
    same(&read(v)?, d, what)?;
    match refdec::decode_with(&doc, None, 400_000, 300) {
        refdec::Verdict::Good(r) => same(&r, d, what),
        v => Err(format!("{what}: independent decoder: {}", clip(&format!("{v:?}")))),
    }
}
