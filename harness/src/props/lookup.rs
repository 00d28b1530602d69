//! C03, C26, C27: dictionaries and arrays seen through lookup, index and iteration.

use super::Prop;
use crate::engine::{clip, mix, Ctx, Res, Src};
use crate::forms::{self, Held};
use crate::model::*;
use crate::{ensure, ensure_eq, gen};
use fleece::{Array, Dict, Encoder, MutableArray, MutableDict, SharedKeys, Value, ValueType};

pub const C03: Prop = Prop {
    id: "C03",
    check: c03,
    quick: 150_000,
    thorough: 3_000_000,
    rule: "a case is a dictionary document with distinct keys (0 to 60, sometimes thousands, rarely tens of thousands; near-miss keys, key lengths at the inline and sharing limits, optionally pushed into wide layout) held plain, in a scope with a fresh, populated or full key table, or as an independent layout; every dictionary in it is probed with its keys, near misses and table keys; non-trivial: some dictionary has at least 3 pairs; distinct by content and form",
    configs: &["chk", "asan"],
};

/// Keys to look up that may or may not be present.
fn near_misses(k: &str, out: &mut Vec<String>) {
    out.push(format!("{k}a"));
    out.push(format!("{k}\0"));
    out.push(k.to_uppercase());
    let mut cs = k.chars();
    if let Some(last) = cs.next_back() {
        out.push(cs.as_str().to_string());
        out.push(format!("{}{}", cs.as_str(), char::from_u32(last as u32 + 1).unwrap_or('x')));
        if last as u32 > 0 {
            out.push(format!("{}{}", cs.as_str(), char::from_u32(last as u32 - 1).unwrap_or('x')));
        }
        out.push(k.chars().skip(1).collect());
    }
    if k.len() == 16 || k.len() == 15 {
        out.push(format!("{k}_x"));
    }
}

/// Check one dictionary against its pairs.
fn check_dict(s: &mut Src, cx: &mut Ctx, d: &Dict, want: &[(String, D)], table: Option<&SharedKeys>) -> Res {
    ensure_eq!(d.len(), want.len(), "reported length");
    ensure_eq!(d.is_empty(), want.is_empty(), "is_empty");
    // Iteration.
    let mut it = d.iter();
    let mut got: Vec<(String, &Value)> = Vec::new();
    for left in (0..=want.len()).rev() {
        ensure_eq!(it.size_hint(), (left, Some(left)), "size hint with {left} pairs left");
        match it.next() {
            Some((k, v)) if left > 0 => got.push((k.to_string(), v)),
            None if left == 0 => {}
            x => return Err(format!("iteration with {left} pairs left gave {:?}", x.map(|x| x.0.to_string()))),
        }
    }
    ensure!(it.next().is_none(), "iterator gave a pair after its end");
    let mut sorted: Vec<&(String, &Value)> = got.iter().collect();
    sorted.sort_by(|a, b| a.0.cmp(&b.0));
    let mut ws: Vec<&(String, D)> = want.iter().collect();
    ws.sort_by(|a, b| a.0.cmp(&b.0));
    for (g, w) in sorted.iter().zip(&ws) {
        ensure_eq!(g.0, w.0, "iterated keys");
        same(&read(g.1)?, &w.1, &format!("iterated value of {:?}", clip(&w.0)))?;
    }
    // The first pair.
    match (d.first(), got.first()) {
        (None, None) => {}
        (Some((k, v)), Some((gk, gv))) => {
            ensure!(std::ptr::eq(v, *gv), "first() gives another value than iteration");
            let name = match k.value_type() {
                ValueType::Short => table.and_then(|t| t.decode(k.to_unsigned_short())).map(str::to_string),
                _ => Some(k.to_str().to_string()),
            };
            ensure_eq!(name.as_ref(), Some(gk), "key of first()");
        }
        (f, g) => return Err(format!("first() is {:?} but iteration starts with {:?}", f.is_some(), g.is_some())),
    }
    // Lookup of every key.
    for (k, gv) in &got {
        let v = d.get(k.as_str()).ok_or_else(|| format!("get({:?}) found nothing", clip(k)))?;
        ensure!(std::ptr::eq(v, *gv), "get({:?}) gives another value than iteration", clip(k));
        ensure!(d.contains_key(k.as_str()), "contains_key({:?}) is false", clip(k));
        ensure!(std::ptr::eq(&d[k.as_str()], *gv), "index {:?} gives another value", clip(k));
        if let Some(t) = table {
            let v = d.get_with_shared_keys(k.as_str(), t).ok_or_else(|| format!("get_with_shared_keys({:?}) found nothing", clip(k)))?;
            ensure!(std::ptr::eq(v, *gv), "get_with_shared_keys({:?}) gives another value", clip(k));
            ensure!(d.contains_key_with_shared_keys(k.as_str(), t), "contains_key_with_shared_keys({:?}) is false", clip(k));
        }
    }
    // Lookup of others.
    let mut others: Vec<String> = vec![String::new(), "a".into(), "~".into(), "\u{10ffff}".into(), "zzzzzzzzzzzzzzzzzz".into()];
    for _ in 0..want.len().min(6) {
        let k = &want[s.usize(want.len())].0;
        near_misses(k, &mut others);
    }
    if let Some(t) = table {
        let n = t.len();
        for i in 0..n.min(40) {
            others.push(t.decode(if n > 40 { n - 1 - i } else { i }).ok_or("decode")?.to_string());
        }
    }
    for k in &others {
        let present = want.iter().find(|(w, _)| w == k);
        let v = d.get(k.as_str());
        ensure!(v.is_some() == present.is_some(), "get({:?}) found {:?}, present: {}", clip(k), v.map(Value::value_type), present.is_some());
        ensure!(d.contains_key(k.as_str()) == present.is_some(), "contains_key({:?})", clip(k));
        if let Some(t) = table {
            ensure!(d.get_with_shared_keys(k.as_str(), t).is_some() == present.is_some(), "get_with_shared_keys({:?})", clip(k));
            ensure!(d.contains_key_with_shared_keys(k.as_str(), t) == present.is_some(), "contains_key_with_shared_keys({:?})", clip(k));
        }
    }
    cx.sub += (want.len() + others.len()) as u64;
    // The dictionaries within.
    for (k, x) in want {
        walk(s, cx, d.get(k.as_str()).ok_or("lost")?, x, table)?;
    }
    Ok(())
}

fn walk(s: &mut Src, cx: &mut Ctx, v: &Value, d: &D, table: Option<&SharedKeys>) -> Res {
    match d {
        D::Dict(w) => check_dict(s, cx, v.as_dict().ok_or("not a dictionary")?, w, table),
        D::Arr(w) => {
            let a = v.as_array().ok_or("not an array")?;
            for (i, x) in w.iter().enumerate() {
                if x.is_coll() {
                    walk(s, cx, a.get(i).ok_or("missing element")?, x, table)?;
                }
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

/// A dictionary document, sometimes with far-away content so that it must be wide.
fn dict_doc(s: &mut Src) -> D {
    let mut c = gen::Cfg { depth: 3, nodes: 60, ..gen::Cfg::small() };
    let n = match s.weighted(&[8, 6, 3, 1]) {
        0 => s.range(0, 6),
        1 => s.range(3, 20),
        2 => s.range(15, 62),
        _ if s.chance(1, 60) => gen::crowd(s) / 2 + s.usize(3),
        _ if s.chance(1, 600) => 131_060 + s.usize(20_000),
        _ => *s.pick(&[70usize, 127, 128, 129, 200, 255, 256, 257, 511, 512, 600, 1023, 1024, 2046, 2047, 2048, 2050, 4095, 4096, 8191, 8192]),
    };
    c.bytes = 300;
    let ks = gen::keys(s, n, 150);
    let mut v: Vec<(String, D)> = Vec::with_capacity(n);
    for k in ks {
        let d = if n > 100 { D::Int(v.len() as i128) } else { gen::value(s, &mut c) };
        v.push((k, d));
    }
    if s.chance(1, 6) {
        let len = *s.pick(&[17_000usize, 33_000, 70_000]);
        let at = s.usize(v.len() + 1);
        v.insert(at, ("far filler".into(), D::Str("f".repeat(len))));
    }
    if s.chance(1, 40) {
        let k = gen::huge_key(s);
        for k in [gen::like(s, &k), k] {
            if s.chance(3, 4) && !v.iter().any(|x| x.0 == k) {
                let at = s.usize(v.len() + 1);
                v.insert(at, (k, D::Int(at as i128)));
            }
        }
    }
    D::Dict(v)
}

fn c03(s: &mut Src, cx: &mut Ctx) -> Res {
    let d = dict_doc(s);
    cx.note(|| format!("document {}", d.show()));
    let h = forms::hold(s, &d)?;
    cx.note(|| format!("held as {}", h.form));
    cx.class(h.form);
    let D::Dict(w) = &d else { unreachable!() };
    let v = h.value();
    check_dict(s, cx, v.as_dict().ok_or("root is not a dictionary")?, w, h.table.as_deref())?;
    cx.class_if(v.as_dict().is_some_and(Dict::is_wide), "wide root");
    cx.class_if(w.len() > 60, "many keys");
    if d.any(&mut |x| matches!(x, D::Dict(v) if v.len() >= 3)) {
        cx.nontrivial(mix(d.fp(), h.form.len() as u64));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C26

pub const C26: Prop = Prop {
    id: "C26",
    check: c26,
    quick: 300_000,
    thorough: 2_000_000,
    rule: "a case is an array document (0 to 60 elements, sometimes around the 2047 and 8191 element header limits, rarely up to 131072; narrow and wide) held plain, scoped or as an independent layout, and its mutable copy; every array and dictionary iterator in it is stepped to the end and beyond with its size hint compared at each step, and driven by generated programs of next, nth, skip, take, find, step_by, last, fold and count against a position, and every index up to and beyond the length is read; non-trivial: at least 2 elements; distinct by content and form",
    configs: &["chk", "asan"],
};

/// Drive an iterator over `n` items in a generated way: stepping, skipping, taking, counting.
/// `is(item, i)` says whether the item is the one at position `i`.
fn drive<I: Iterator>(s: &mut Src, what: &str, n: usize, mut it: I, is: impl Fn(&I::Item, usize) -> bool) -> Res {
    let mut p = 0;
    let is_at = |x: &Option<I::Item>, i: usize| match x {
        Some(x) => i < n && is(x, i),
        None => i >= n,
    };
    let mut log = String::new();
    for _ in 0..s.range(1, 8) {
        let left = n - p;
        ensure_eq!(it.size_hint(), (left, Some(left)), "{what} of {n}: size hint after{log}");
        let k = match s.below(7) {
            0 => 0,
            // So many that a position, or a distance in bytes, overflows.
            6 => {
                let base = *s.pick(&[0usize, 1 << 16, 1 << 31, 1 << 32, 1 << 62, 1 << 63, usize::MAX / 4 + 1, 0usize.wrapping_sub(p)]);
                base.wrapping_add(s.usize(9)).wrapping_sub(4)
            }
            1 => left,
            2 => left.saturating_sub(1),
            3 => left + 1,
            _ => s.usize(left.min(9) + 2),
        };
        match s.below(10) {
            0 | 1 => {
                log.push_str(" next");
                let x = it.next();
                ensure!(is_at(&x, p), "{what} of {n}: wrong item after{log}");
                p = (p + 1).min(n);
            }
            2 | 3 => {
                log.push_str(&format!(" nth({k})"));
                let x = it.nth(k);
                ensure!(is_at(&x, p.saturating_add(k)), "{what} of {n}: wrong item after{log}");
                p = p.saturating_add(k).saturating_add(1).min(n);
            }
            4 => {
                log.push_str(&format!(" skip({k}).next"));
                let x = it.by_ref().skip(k).next();
                ensure!(is_at(&x, p.saturating_add(k)), "{what} of {n}: wrong item after{log}");
                p = p.saturating_add(k).saturating_add(1).min(n);
            }
            5 => {
                log.push_str(&format!(" take({k})"));
                let mut j = 0;
                for x in it.by_ref().take(k) {
                    ensure!(p + j < n && is(&x, p + j), "{what} of {n}: wrong item {j} of{log}");
                    j += 1;
                }
                ensure_eq!(j, k.min(left), "{what} of {n}: items of{log}");
                p += j;
            }
            6 => {
                log.push_str(&format!(" find({k})"));
                let mut j = 0;
                let x = it.find(|_| {
                    j += 1;
                    j > k
                });
                ensure!(is_at(&x, p.saturating_add(k)), "{what} of {n}: wrong item after{log}");
                p = p.saturating_add(k).saturating_add(1).min(n);
            }
            7 => {
                let step = k.saturating_add(1);
                log.push_str(&format!(" step_by({step})"));
                let mut at = p;
                for x in it.by_ref().step_by(step) {
                    ensure!(at < n && is(&x, at), "{what} of {n}: wrong item at {at} of{log}");
                    at = at.saturating_add(step);
                }
                ensure!(at >= n, "{what} of {n}: ended before {at} in{log}");
                p = n;
            }
            8 => {
                log.push_str(" last");
                let x = it.by_ref().last();
                ensure!(if left == 0 { x.is_none() } else { x.is_some_and(|x| is(&x, n - 1)) }, "{what} of {n}: wrong item after{log}");
                p = n;
            }
            _ => {
                log.push_str(" fold");
                let (c, ok) = it.by_ref().fold((0, true), |(c, ok), x| (c + 1, ok && p + c < n && is(&x, p + c)));
                ensure!(ok && c == left, "{what} of {n}: {c} items, right {ok}, by{log}");
                p = n;
            }
        }
    }
    let left = n - p;
    ensure_eq!(it.size_hint(), (left, Some(left)), "{what} of {n}: size hint after{log}");
    if s.bool() {
        ensure_eq!(it.count(), left, "{what} of {n}: count after{log}");
    } else {
        ensure_eq!(it.by_ref().count(), left, "{what} of {n}: count after{log}");
        for _ in 0..2 {
            ensure!(it.next().is_none() && it.nth(0).is_none() && it.nth(1).is_none(), "{what} of {n}: an item after its end:{log}");
            ensure_eq!(it.size_hint(), (0, Some(0)), "{what} of {n}: size hint at the end");
        }
    }
    Ok(())
}

fn check_array(s: &mut Src, cx: &mut Ctx, a: &Array, want: &[D]) -> Res {
    let n = want.len();
    ensure_eq!(a.len(), n, "reported length");
    ensure_eq!(a.is_empty(), n == 0, "is_empty");
    let mut it = a.iter();
    for (i, w) in want.iter().enumerate() {
        ensure_eq!(it.size_hint(), (n - i, Some(n - i)), "size hint after {i} of {n}");
        let v = it.next().ok_or_else(|| format!("iteration ended after {i} of {n}"))?;
        let g = a.get(i).ok_or_else(|| format!("get({i}) of {n} found nothing"))?;
        ensure!(std::ptr::eq(v, g), "get({i}) gives another element than iteration");
        ensure!(std::ptr::eq(&a[i], g), "index {i} gives another element than get");
        if !w.is_coll() {
            same(&read(v)?, w, &format!("element {i}"))?;
        }
    }
    for _ in 0..3 {
        ensure_eq!(it.size_hint(), (0, Some(0)), "size hint at the end");
        ensure!(it.next().is_none(), "iterator gave an element after its end");
    }
    for i in [n, n + 1, n + 2, n * 2, n + 0x7ff, n + 0x800, n + 0x1000, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, usize::MAX / 2 + n, usize::MAX] {
        if i >= n {
            ensure!(a.get(i).is_none(), "get({i}) of an array of {n} gave a value");
        }
    }
    ensure_eq!((&*a).into_iter().count(), n, "count of an owned iteration");
    for _ in 0..2 {
        drive(s, "array iterator", n, a.iter(), |x, i| a.get(i).is_some_and(|g| std::ptr::eq(*x, g)))?;
    }
    cx.sub += n as u64;
    for (i, w) in want.iter().enumerate() {
        walk26(s, cx, a.get(i).ok_or("lost element")?, w)?;
    }
    Ok(())
}

fn walk26(s: &mut Src, cx: &mut Ctx, v: &Value, d: &D) -> Res {
    match d {
        D::Arr(w) => check_array(s, cx, v.as_array().ok_or("not an array")?, w),
        D::Dict(w) => {
            let a = v.as_dict().ok_or("not a dictionary")?;
            let mut it = a.iter();
            for left in (1..=w.len()).rev() {
                ensure_eq!(it.size_hint(), (left, Some(left)), "dictionary size hint with {left} left");
                ensure!(it.next().is_some(), "dictionary iteration ended with {left} left");
            }
            for _ in 0..3 {
                ensure_eq!(it.size_hint(), (0, Some(0)), "dictionary size hint at the end");
                ensure!(it.next().is_none(), "dictionary iterator gave a pair after its end");
            }
            let order: Vec<(&str, &Value)> = a.iter().collect();
            drive(s, "dictionary iterator", w.len(), a.iter(), |x, i| x.0 == order[i].0 && std::ptr::eq(x.1, order[i].1))?;
            for (k, x) in w {
                if x.is_coll() {
                    walk26(s, cx, a.get(k.as_str()).ok_or("lost value")?, x)?;
                }
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

fn check_mut_array(s: &mut Src, a: &MutableArray, want: &[D]) -> Res {
    let n = want.len();
    ensure_eq!(a.len(), n, "length of the mutable array");
    ensure_eq!(a.is_empty(), n == 0, "is_empty of the mutable array");
    let mut it = a.iter();
    for (i, w) in want.iter().enumerate() {
        ensure_eq!(it.size_hint(), (n - i, Some(n - i)), "mutable size hint after {i} of {n}");
        let r = it.next().ok_or_else(|| format!("mutable iteration ended after {i} of {n}"))?;
        match w {
            D::Arr(w) => check_mut_array(s, r.array().ok_or("not an array")?, w)?,
            D::Dict(w) => check_mut_dict(s, r.dict().ok_or("not a dict")?, w)?,
            w => {
                same(&read(r.value().ok_or("no value")?)?, w, "mutable element")?;
                ensure!(a.get(i).is_some_and(|g| std::ptr::eq(g, r.value().unwrap())), "mutable get({i}) and iteration differ");
            }
        }
    }
    for _ in 0..3 {
        ensure_eq!(it.size_hint(), (0, Some(0)), "mutable size hint at the end");
        ensure!(it.next().is_none(), "mutable iterator gave an element after its end");
    }
    for i in [n, n + 1, usize::MAX] {
        ensure!(a.get(i).is_none() && a.get_array(i).is_none() && a.get_dict(i).is_none(), "mutable get({i}) of {n} gave something");
    }
    let order: Vec<_> = a.iter().map(|r| slot(&r)).collect();
    drive(s, "mutable array iterator", n, a.iter(), |x, i| slot(x) == order[i])?;
    Ok(())
}

fn check_mut_dict(s: &mut Src, a: &MutableDict, want: &[(String, D)]) -> Res {
    let n = want.len();
    ensure_eq!(a.len(), n, "length of the mutable dictionary");
    let mut it = a.iter();
    for i in 0..n {
        ensure_eq!(it.size_hint(), (n - i, Some(n - i)), "mutable dictionary size hint after {i} of {n}");
        let (k, r) = it.next().ok_or_else(|| format!("mutable dictionary iteration ended after {i} of {n}"))?;
        let w = want.iter().find(|w| w.0 == k).ok_or_else(|| format!("unknown key {:?}", clip(k)))?;
        match &w.1 {
            D::Arr(w) => check_mut_array(s, r.array().ok_or("not an array")?, w)?,
            D::Dict(w) => check_mut_dict(s, r.dict().ok_or("not a dict")?, w)?,
            w => same(&read(r.value().ok_or("no value")?)?, w, "mutable dictionary value")?,
        }
    }
    for _ in 0..3 {
        ensure_eq!(it.size_hint(), (0, Some(0)), "mutable dictionary size hint at the end");
        ensure!(it.next().is_none(), "mutable dictionary iterator gave a pair after its end");
    }
    let order: Vec<_> = a.iter().map(|(k, r)| (k.to_string(), dict_slot(&r))).collect();
    drive(s, "mutable dictionary iterator", n, a.iter(), |x, i| *x.0 == order[i].0 && dict_slot(&x.1) == order[i].1)?;
    Ok(())
}

macro_rules! slot_fn {
    ($name:ident, $t:ty) => {
        /// What tells one slot of a mutable collection from the others.
        fn $name(r: &$t) -> (usize, usize, usize) {
            (
                r.value().map_or(0, |v| std::ptr::from_ref(v).cast::<u8>() as usize),
                r.array().map_or(0, |v| std::ptr::from_ref(v) as usize),
                r.dict().map_or(0, |v| std::ptr::from_ref(v) as usize),
            )
        }
    };
}
slot_fn!(slot, fleece::mutable::array::Ref);
slot_fn!(dict_slot, fleece::mutable::dict::Ref);

/// Iterators of dictionaries whose keys are numbers that cannot be resolved: what they give is
/// not settled, but it comes to an end and stays there.
fn unresolvable(s: &mut Src, cx: &mut Ctx) -> Res {
    let names: Vec<String> = (0..s.range(1, 6)).map(|i| format!("k{i}")).collect();
    let mut t = SharedKeys::new();
    for n in &names {
        t.encode_and_insert(n);
    }
    let mut d: Vec<(String, D)> = Vec::new();
    for n in &names {
        if s.chance(3, 4) {
            d.push((n.clone(), D::Str(gen::string(s, 6))));
        }
    }
    for i in 0..s.usize(4) {
        d.push((format!("plain key {i}"), D::Int(i as i128)));
    }
    let doc = D::Dict(d.clone());
    let (bytes, _) = crate::refenc::layout(s, &doc, Some(&names));
    let keep = s.usize(names.len());
    let few = {
        let mut t = SharedKeys::new();
        for n in &names[..keep] {
            t.encode_and_insert(n);
        }
        std::sync::Arc::new(t)
    };
    let sc = fleece::Scope::new(bytes.clone(), s.bool().then_some(few));
    let root = sc.root().ok_or("no root")?;
    let v = if s.bool() { root.value() } else { Value::from_bytes(&bytes).map_err(|e| format!("{e:?}"))? };
    let a = v.as_dict().ok_or("not a dictionary")?;
    let mut it = a.iter();
    let mut n = 0;
    while let Some((k, x)) = it.next() {
        n += 1;
        ensure!(n <= d.len(), "more pairs than the dictionary has");
        let w = d.iter().find(|w| w.0 == k).ok_or_else(|| format!("iteration made up the key {:?}", clip(k)))?;
        same(&read(x)?, &w.1, "value of a resolvable key")?;
    }
    cx.class_if(n < d.len(), "iteration stopped at a key that cannot be resolved");
    for _ in 0..8 {
        ensure!(it.next().is_none(), "dictionary iterator gave a pair after its end");
        ensure_eq!(it.size_hint(), (0, Some(0)), "dictionary size hint at the end");
    }
    Ok(())
}

fn array_doc(s: &mut Src) -> D {
    let n = match s.weighted(&[8, 6, 3, 2]) {
        0 => s.range(0, 5),
        1 => s.range(2, 20),
        2 => s.range(15, 80),
        _ if s.chance(1, 40) => gen::crowd(s),
        _ => *s.pick(&[2045usize, 2046, 2047, 2048, 2049, 4094, 8191, 127, 128, 255, 256]),
    };
    let mut c = gen::Cfg { depth: 3, nodes: 60, max_len: 140, ..gen::Cfg::small() };
    let mut v: Vec<D> = Vec::with_capacity(n);
    let proto = gen::scalar(s, &mut c);
    for i in 0..n {
        if n > 100 {
            v.push(if i % 3 == 0 { D::Int(i as i128) } else { proto.clone() });
        } else {
            v.push(gen::value(s, &mut c));
        }
    }
    if s.chance(1, 6) {
        let at = s.usize(v.len() + 1);
        let len = *s.pick(&[17_000usize, 33_000, 70_000]);
        v.insert(at, D::Str("f".repeat(len)));
    }
    D::Arr(v)
}

fn c26(s: &mut Src, cx: &mut Ctx) -> Res {
    if s.chance(1, 20) {
        return unresolvable(s, cx);
    }
    let d = array_doc(s);
    cx.note(|| format!("document {}", d.show()));
    let h = forms::hold(s, &d)?;
    cx.note(|| format!("held as {}", h.form));
    let D::Arr(w) = &d else { unreachable!() };
    let a = h.value().as_array().ok_or("root is not an array")?;
    check_array(s, cx, a, w)?;
    check_mut_array(s, &MutableArray::clone_from(a), w).map_err(|e| format!("mutable copy: {e}"))?;
    cx.class(h.form);
    cx.class_if(a.is_wide(), "wide");
    cx.class_if(w.len() >= 2047, "long count");
    if w.len() >= 2 {
        cx.nontrivial(mix(d.fp(), h.form.len() as u64));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C27

pub const C27: Prop = Prop {
    id: "C27",
    check: c27,
    quick: 100_000,
    thorough: 3_000_000,
    rule: "a case is a document written twice by the same calls (bytes compared) and once with the entries of every dictionary permuted (content and iteration order compared), without a table, with a populated one and with a fresh one; iteration order must split into shared keys by ascending number and strings by ascending bytes; non-trivial: some dictionary has at least 3 keys and the permutation is not the identity; distinct by content and permutation",
    configs: &["chk"],
};

fn permuted(s: &mut Src, d: &D, moved: &mut bool) -> D {
    match d {
        D::Arr(v) => D::Arr(v.iter().map(|x| permuted(s, x, moved)).collect()),
        D::Dict(v) => {
            let p = gen::perm(s, v.len());
            *moved |= p.iter().enumerate().any(|(i, j)| i != *j);
            D::Dict(p.iter().map(|&i| (v[i].0.clone(), permuted(s, &v[i].1, moved))).collect())
        }
        x => x.clone(),
    }
}

fn held_with(d: &D, style: u64, t: Option<SharedKeys>) -> Result<Held, String> {
    match t {
        None => forms::hold_plain(d, style),
        Some(t) => {
            let mut e = Encoder::new();
            e.set_shared_keys(t);
            write_doc(&mut e, d, style)?;
            let scope = e.finish_scoped();
            let table = scope.shared_keys().cloned();
            let root = scope.root().ok_or("no root")?;
            Ok(Held { bytes: forms::Bytes::Scoped(scope, root), table, form: "scoped" })
        }
    }
}

/// Every dictionary of a document as iterated, in document order by sorted key.
fn orders(v: &Value, table: Option<&SharedKeys>) -> Result<Vec<Vec<String>>, String> {
    let mut out = Vec::new();
    fn go(v: &Value, table: Option<&SharedKeys>, out: &mut Vec<Vec<String>>) -> Res {
        if let Some(a) = v.as_array() {
            for x in a {
                go(x, table, out)?;
            }
        } else if let Some(d) = v.as_dict() {
            let pairs: Vec<(String, &Value)> = d.iter().map(|(k, v)| (k.to_string(), v)).collect();
            ensure_eq!(pairs.len(), d.len(), "iterated pairs");
            let keys: Vec<String> = pairs.iter().map(|p| p.0.clone()).collect();
            let strings_ascend = |k: &[String]| k.windows(2).all(|w| w[0].as_bytes() < w[1].as_bytes());
            let ok = match table {
                None => strings_ascend(&keys),
                Some(t) => {
                    // Some prefix ascends by number and the rest ascends by bytes.
                    let n = keys.len();
                    let nums: Vec<Option<u16>> = keys.iter().map(|k| t.encode(k)).collect();
                    let mut prefix = 0;
                    while prefix < n && nums[prefix].is_some() && (prefix == 0 || nums[prefix - 1] < nums[prefix]) {
                        prefix += 1;
                    }
                    strings_ascend(&keys[prefix..]) || {
                        let mut suffix = n;
                        while suffix > 0 && strings_ascend(&keys[suffix - 1..n.min(suffix + 1)]) {
                            suffix -= 1;
                        }
                        suffix <= prefix
                    }
                }
            };
            ensure!(ok, "dictionary iterates its keys as {}", clip(&format!("{keys:?}")));
            out.push(keys);
            let mut sorted = pairs;
            sorted.sort_by(|a, b| a.0.cmp(&b.0));
            for (_, x) in sorted {
                go(x, table, out)?;
            }
        }
        Ok(())
    }
    go(v, table, &mut out)?;
    Ok(out)
}

fn c27(s: &mut Src, cx: &mut Ctx) -> Res {
    let d = match s.weighted(&[4, 3]) {
        0 => gen::doc(s),
        _ => dict_doc(s),
    };
    let style = gen::style(s);
    let mut moved = false;
    let p = permuted(s, &d, &mut moved);
    let mut keys = Vec::new();
    forms::all_keys(&d, &mut keys);
    let mode = s.weighted(&[3, 3, 2]);
    cx.note(|| format!("document {} permuted {} mode {mode}", d.show(), p.show()));
    let t = |full: bool| {
        let mut t = SharedKeys::new();
        if full {
            for k in keys.iter().rev() {
                t.encode_and_insert(k);
            }
        }
        t
    };
    let mk = |d: &D| {
        held_with(d, if style == 0 { 0 } else { 1 }, match mode {
            0 => None,
            1 => Some(t(true)),
            _ => Some(t(false)),
        })
    };
    let (a, b, c) = (mk(&d)?, mk(&d)?, mk(&p)?);
    ensure!(a.data() == b.data(), "the same calls gave different bytes");
    if mode == 0 {
        ensure!(encode(&d, if style == 0 { 0 } else { 1 })? == a.data(), "the same calls gave different bytes");
    }
    same(&read(a.value())?, &d, "document")?;
    same(&read(c.value())?, &d, "permuted document")?;
    let oa = orders(a.value(), a.table.as_deref())?;
    let oc = orders(c.value(), c.table.as_deref())?;
    if mode < 2 {
        // With a fresh table the numbers themselves follow the order of insertion.
        ensure!(oa == oc, "iteration order depends on the order of insertion: {} and {}", clip(&format!("{oa:?}")), clip(&format!("{oc:?}")));
    }
    cx.class(["no table", "populated table", "fresh table"][mode]);
    if moved && d.any(&mut |x| matches!(x, D::Dict(v) if v.len() >= 3)) {
        cx.nontrivial(mix(d.fp(), p.fp()));
    }
    Ok(())
}
