//! C10, C11, C28: shared keys.

use super::Prop;
use crate::engine::{clip, hash_bytes, mix, Ctx, Res, Src};
use crate::forms::{self, shareable};
use crate::model::*;
use crate::sd::AnyD;
use crate::{ensure, ensure_eq, gen, refdec};
use fleece::{Encoder, MutableArray, MutableDict, Scope, SharedKeys, Value};
use std::sync::Arc;

pub const C10: Prop = Prop {
    id: "C10",
    check: c10,
    quick: 80_000,
    thorough: 1_500_000,
    rule: "a case is a history of insertions (eligible keys, near-eligible ones, repeats; single or in runs that approach and pass 2048), lookups, decodes and clones over one to four tables descending from each other, each against a list model; non-trivial: at least 4 insertions with one accepted and one repeated, refused or made after a clone; distinct by the history",
    configs: &["chk", "rel"],
};

struct Table {
    t: SharedKeys,
    m: Vec<String>,
}

fn check_table(t: &SharedKeys, m: &[String], probe: &mut dyn FnMut() -> usize) -> Res {
    ensure_eq!(t.len() as usize, m.len(), "length");
    ensure_eq!(t.is_empty(), m.is_empty(), "is_empty");
    for _ in 0..6.min(m.len()) {
        let i = probe() % m.len();
        ensure_eq!(t.decode(i as u16), Some(m[i].as_str()), "decode({i})");
        ensure_eq!(t.encode(&m[i]), Some(i as u16), "encode({:?})", m[i]);
    }
    for i in [m.len(), m.len() + 1, 2047, 2048, 2049, 4096, 65535] {
        if i >= m.len() {
            ensure_eq!(t.decode(i as u16), None, "decode({i}) of a table of {}", m.len());
        }
    }
    Ok(())
}

fn check_whole(t: &SharedKeys, m: &[String]) -> Res {
    ensure_eq!(t.len() as usize, m.len(), "length");
    for (i, k) in m.iter().enumerate() {
        ensure_eq!(t.decode(i as u16), Some(k.as_str()), "decode({i})");
        ensure_eq!(t.encode(k), Some(i as u16), "encode({k:?})");
    }
    let mut got: Vec<(String, u16)> = t.iter().map(|(k, i)| (k.to_string(), i)).collect();
    got.sort_by_key(|x| x.1);
    let want: Vec<(String, u16)> = m.iter().enumerate().map(|(i, k)| (k.clone(), i as u16)).collect();
    ensure!(got == want, "iteration gave {} want {}", clip(&format!("{got:?}")), clip(&format!("{want:?}")));
    ensure_eq!(t.into_iter().count(), m.len(), "pairs iterated");
    Ok(())
}

thread_local! {
    static POOL: (SharedKeys, Vec<String>) = {
        let mut t = SharedKeys::new();
        let mut m = Vec::new();
        for i in 0..2040 {
            let k = format!("pool{i}");
            t.encode_and_insert(&k);
            m.push(k);
        }
        (t, m)
    };
}

fn insert(x: &mut Table, k: &str) -> Result<bool, String> {
    let present = x.m.iter().position(|y| y == k);
    let eligible = shareable(k);
    ensure_eq!(x.t.can_add(k), eligible && x.m.len() < 2048, "can_add({k:?}) with {} keys", x.m.len());
    ensure_eq!(x.t.encode(k), present.map(|i| i as u16), "encode({k:?})");
    let want = match present {
        Some(i) => Some(i as u16),
        None if eligible && x.m.len() < 2048 => Some(x.m.len() as u16),
        None => None,
    };
    ensure_eq!(x.t.encode_and_insert(k), want, "encode_and_insert({k:?}) with {} keys", x.m.len());
    if present.is_none() && want.is_some() {
        x.m.push(k.to_string());
        return Ok(true);
    }
    Ok(false)
}

fn c10(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut all: Vec<Table> = Vec::new();
    if s.chance(1, 4) {
        let (t, m) = POOL.with(|p| (p.0.clone(), p.1.clone()));
        cx.note(|| "a table of 2040 keys".into());
        cx.class("starts with 2040 keys");
        all.push(Table { t, m });
    } else {
        all.push(Table { t: if s.bool() { SharedKeys::new() } else { SharedKeys::default() }, m: Vec::new() });
    }
    let mut hist = 0u64;
    let (mut inserts, mut accepted, mut special) = (0, 0, 0);
    let mut n = 0;
    let mean = *s.pick(&[6u64, 20, 60]);
    while s.more(n, mean, 250) {
        n += 1;
        let which = s.usize(all.len());
        match s.weighted(&[12, 3, 3, 1, 1, 1, 1]) {
            0 => {
                let k = if s.chance(1, 6) && !all[which].m.is_empty() {
                    // A key at or near one already there.
                    let mut k = all[which].m[s.usize(all[which].m.len())].clone();
                    match s.below(4) {
                        0 => {}
                        1 => k.push('x'),
                        2 => k.push(' '),
                        _ => k = k.to_uppercase(),
                    }
                    k
                } else {
                    gen::key(s, 40)
                };
                cx.note(|| format!("table {which}: insert {k:?}"));
                hist = mix(hist, mix(which as u64, hash_bytes(k.as_bytes())));
                inserts += 1;
                if insert(&mut all[which], &k)? {
                    accepted += 1;
                    special += usize::from(all.len() > 1);
                } else {
                    special += 1;
                }
            }
            1 => {
                let k = gen::key(s, 40);
                let x = &all[which];
                ensure_eq!(x.t.encode(&k), x.m.iter().position(|y| *y == k).map(|i| i as u16), "encode({k:?})");
            }
            2 => {
                let i = s.below(65536) as u16 >> s.below(14);
                let x = &all[which];
                ensure_eq!(x.t.decode(i), x.m.get(i as usize).map(String::as_str), "decode({i})");
            }
            3 => {
                if all.len() < 4 {
                    let x = &all[which];
                    let c = Table { t: x.t.clone(), m: x.m.clone() };
                    cx.note(|| format!("table {} = clone of {which}", all.len()));
                    cx.class("clone");
                    all.push(c);
                    hist = mix(hist, 99);
                }
            }
            4 => {
                // A run of keys.
                let n = *s.pick(&[5usize, 9, 40, 2050]);
                let tag = s.below(26) as u8;
                cx.note(|| format!("table {which}: run of {n}"));
                hist = mix(hist, n as u64);
                let x = &mut all[which];
                let before = x.m.len();
                if n > 1000 && x.m.len() < 2000 && !s.chance(1, 10) {
                    continue;
                }
                for i in 0..n {
                    let k = format!("{}{i}", (b'a' + tag) as char);
                    if x.m.len() > 200 && n > 100 {
                        // (without the linear model lookup)
                        let room = x.m.len() < 2048;
                        let known = x.t.encode(&k).is_some();
                        let got = x.t.encode_and_insert(&k);
                        ensure_eq!(got.is_some(), room || known, "encode_and_insert({k:?}) with {} keys", x.m.len());
                        if !known && room {
                            ensure_eq!(got, Some(x.m.len() as u16), "number of {k:?}");
                            x.m.push(k);
                        }
                    } else {
                        insert(x, &k)?;
                    }
                }
                cx.class_if(before < 2048 && x.m.len() == 2048, "table became full");
            }
            5 => {
                // Encoding with (a clone of) the table only ever appends to it.
                let x = &mut all[which];
                let d = gen::dict_doc(s, gen::Cfg { nodes: 10, depth: 2, max_len: 20, wide_counts: false, bytes: 100 });
                let mut e = Encoder::new();
                e.set_shared_keys(x.t.clone());
                write_doc(&mut e, &d, 0)?;
                let sc = e.finish_scoped();
                let t = sc.shared_keys().ok_or("the scope lost its table")?;
                let names = forms::table_names(t);
                ensure!(names.len() >= x.m.len() && names[..x.m.len()] == x.m[..], "encoding changed existing keys of the table");
                check_whole(t, &names)?;
                x.t = (**t).clone();
                for k in &names[x.m.len()..] {
                    ensure!(shareable(k), "encoding added the ineligible key {k:?}");
                }
                x.m = names;
                cx.class("encoded with the table");
            }
            _ => {
                if all.len() > 1 {
                    cx.note(|| format!("drop table {which}"));
                    all.remove(which);
                    hist = mix(hist, 98);
                }
            }
        }
        let seed = s.below(1 << 16) as usize;
        let mut p = seed;
        for x in &all {
            check_table(&x.t, &x.m, &mut || {
                p = p.wrapping_mul(31).wrapping_add(17);
                p
            })?;
        }
    }
    for x in &all {
        check_whole(&x.t, &x.m)?;
    }
    cx.class_if(all.iter().any(|x| x.m.len() == 2048), "ends with a full table");
    if inserts >= 4 && accepted >= 1 && special >= 1 {
        cx.nontrivial(hist);
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

pub const C11: Prop = Prop {
    id: "C11",
    check: c11,
    quick: 12_000,
    thorough: 1_200_000,
    rule: "a case is one to four documents, each encoded plain and with a shared-key table (fresh, populated with its keys and others, nearly full, full) or laid out independently against one, several of them alive in scopes at once (also the same bytes under tables with other names), and every way of reading compared: lookup with and without the table, membership, iteration, mutable copy, deserialising, re-encoding; non-trivial: some dictionary actually holds a shared key; distinct by contents and tables",
    configs: &["chk", "rel", "asan"],
};

/// Is some dictionary key of the held document stored as a number?
fn uses_numbers(v: &Value) -> bool {
    if let Some(a) = v.as_array() {
        a.into_iter().any(uses_numbers)
    } else if let Some(d) = v.as_dict() {
        d.first().is_some_and(|(k, _)| k.value_type() == fleece::ValueType::Short) || d.into_iter().any(|(_, v)| uses_numbers(v))
    } else {
        false
    }
}

fn absent(s: &mut Src, v: &Value, d: &D, t: &SharedKeys) -> Res {
    match d {
        D::Dict(w) => {
            let x = v.as_dict().ok_or("not a dictionary")?;
            let n = t.len();
            let mut ks: Vec<String> = (0..5).map(|_| gen::key(s, 30)).collect();
            for i in 0..6.min(n) {
                ks.push(t.decode(if i < 3 { i } else { n - 1 - i % n }).unwrap_or("").to_string());
            }
            for (k, _) in w.iter().take(3) {
                ks.push(format!("{k}."));
                ks.push(format!("{k}1"));
            }
            for k in ks {
                let want = w.iter().any(|(y, _)| *y == k);
                ensure_eq!(x.get(k.as_str()).is_some(), want, "get({:?})", clip(&k));
                ensure_eq!(x.contains_key(k.as_str()), want, "contains_key({:?})", clip(&k));
                ensure_eq!(x.get_with_shared_keys(k.as_str(), t).is_some(), want, "get_with_shared_keys({:?})", clip(&k));
                ensure_eq!(x.contains_key_with_shared_keys(k.as_str(), t), want, "contains_key_with_shared_keys({:?})", clip(&k));
            }
            for (k, y) in w {
                if y.is_coll() {
                    absent(s, x.get(k.as_str()).ok_or("lost key")?, y, t)?;
                }
                ensure!(x.contains_key(k.as_str()), "contains_key({:?}) is false", clip(k));
                ensure!(x.contains_key_with_shared_keys(k.as_str(), t), "contains_key_with_shared_keys({:?}) is false", clip(k));
            }
            Ok(())
        }
        D::Arr(w) => {
            let x = v.as_array().ok_or("not an array")?;
            for (i, y) in w.iter().enumerate() {
                if y.is_coll() {
                    absent(s, x.get(i).ok_or("lost element")?, y, t)?;
                }
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

/// Every way of reading a document within its scope.
fn read_every_way(sc: &Scope, d: &D, what: &str) -> Res {
    let t = sc.shared_keys().ok_or("scope without a table")?;
    let root = sc.root().ok_or("scope without a root")?;
    check_value(root.value(), d, what)?;
    check_by_access(root.value(), d, Some(t), "$").map_err(|e| format!("{what} (with the table): {e}"))?;
    let m = match d {
        D::Arr(_) => read_mut_array(&MutableArray::clone_from(root.as_array().ok_or("not an array")?))?,
        _ => read_mut_dict(&MutableDict::clone_from(root.as_dict().ok_or("not a dictionary")?))?,
    };
    same(&m, d, &format!("{what}: mutable copy"))?;
    let m = match d {
        D::Arr(_) => read_mut_array(&MutableArray::from_scope(sc).ok_or("MutableArray::from_scope")?)?,
        _ => read_mut_dict(&MutableDict::from_scope(sc).ok_or("MutableDict::from_scope")?)?,
    };
    same(&m, d, &format!("{what}: mutable copy from the scope"))?;
    let data = sc.data().ok_or("scope without data")?;
    let AnyD(x) = fleece::from_bytes(&data).map_err(|e| format!("{what}: deserialising: {e:?}"))?;
    same(&x, d, &format!("{what}: deserialised"))?;
    let mut e = Encoder::new();
    e.write_fleece(root.value()).map_err(|e| format!("{what}: re-encoding: {e:?}"))?;
    let b = e.finish();
    check_bytes(&b, d, &format!("{what}: re-encoded"))
}

fn c11(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = s.range(1, 4);
    let mut alive: Vec<(Arc<Scope>, D)> = Vec::new();
    let mut fp = 0;
    let mut shared = false;
    for i in 0..n {
        let c = if s.chance(1, 40) { gen::Cfg::large() } else { gen::Cfg::small() };
        let d = if s.chance(2, 3) { gen::dict_doc(s, c) } else { gen::doc_with(s, c) };
        let style = gen::style(s);
        // Without a table: the reference.
        let plain = encode(&d, style)?;
        check_bytes(&plain, &d, "plain encoding")?;
        let held = if s.chance(1, 4) { forms::hold_layout_shared(s, &d)? } else { forms::hold_shared(s, &d, style)? };
        cx.note(|| format!("document {i} ({}, {} keys in the table): {}", held.form, held.table.as_ref().map_or(0, |t| t.len()), d.show()));
        cx.class(held.form);
        shared |= uses_numbers(held.value());
        fp = mix(fp, mix(d.fp(), hash_bytes(held.form.as_bytes())));
        let sc = held.scope().unwrap().clone();
        // Read before anything else is alive, and by absent keys.
        let t = sc.shared_keys().ok_or("no table")?.clone();
        absent(s, held.value(), &d, &t)?;
        if s.chance(1, 3) {
            // The same bytes under a table with other names.
            let names = forms::table_names(&t);
            let mut other = SharedKeys::new();
            let mut renamed = std::collections::HashMap::new();
            for (j, k) in names.iter().enumerate() {
                let mut nk = format!("{j}_{}", k.chars().rev().filter(|c| c.is_ascii()).take(6).collect::<String>());
                nk.truncate(12);
                ensure_eq!(other.encode_and_insert(&nk), Some(j as u16), "renamed key {nk:?}");
                renamed.insert(j as u16, nk);
            }
            let sc2 = Scope::new(sc.data().ok_or("no data")?.to_vec(), Some(Arc::new(other)));
            if let Some(d2) = rename(held.value(), &d, &renamed, &t) {
                cx.class("same bytes under another table");
                alive.push((sc2, d2));
            }
        }
        alive.push((sc, d));
    }
    for (i, (sc, d)) in alive.iter().enumerate() {
        read_every_way(sc, d, &format!("scope {i}"))?;
    }
    // Drop some; the others still use their own tables.
    while alive.len() > 1 {
        let gone = s.usize(alive.len());
        alive.swap_remove(gone);
        let (sc, d) = &alive[s.usize(alive.len())];
        read_every_way(sc, d, "remaining scope")?;
    }
    cx.class_if(n > 1, "several scopes");
    if shared {
        cx.nontrivial(fp);
    }
    Ok(())
}

/// The document as another table names it: keys stored as numbers take the new names. `None` if
/// names would collide.
fn rename(v: &Value, d: &D, names: &std::collections::HashMap<u16, String>, t: &SharedKeys) -> Option<D> {
    match d {
        D::Arr(w) => {
            let a = v.as_array()?;
            Some(D::Arr(w.iter().enumerate().map(|(i, x)| rename(a.get(i)?, x, names, t)).collect::<Option<_>>()?))
        }
        D::Dict(w) => {
            let a = v.as_dict()?;
            // Which keys are numbers? Seen without any scope: lookups of a plain copy of the table.
            let empty = SharedKeys::new();
            let mut out: Vec<(String, D)> = Vec::new();
            let mut seen = std::collections::HashSet::new();
            for (k, x) in w {
                let stored_as_string = a.get_with_shared_keys(k.as_str(), &empty).is_some();
                let nk = if stored_as_string { k.clone() } else { names.get(&t.encode(k)?)?.clone() };
                if !seen.insert(nk.clone()) {
                    return None;
                }
                out.push((nk, rename(a.get(k.as_str())?, x, names, t)?));
            }
            Some(D::Dict(out))
        }
        s => Some(s.clone()),
    }
}

// ---------------------------------------------------------------- C28

pub const C28: Prop = Prop {
    id: "C28",
    check: c28,
    quick: 600_000,
    thorough: 2_000_000,
    rule: "a case saves a table (0 to 2048 keys) as bytes or into a larger document and restores it from bytes or from the decoded value, or restores from a document that is not a table, a mutated saved table, or arbitrary bytes; non-trivial: a table of at least 3 keys with a document encoded by it, or input the decoder accepts that is not a saved table; distinct by keys or bytes",
    configs: &["chk", "asan"],
};

fn c28(s: &mut Src, cx: &mut Ctx) -> Res {
    match s.weighted(&[5, 3, 4]) {
        0 => {
            cx.class("save and restore");
            let mut t;
            match s.weighted(&[6, 4, 1]) {
                0 => {
                    t = SharedKeys::new();
                    let n = s.usize(30);
                    for _ in 0..n {
                        let k = gen::key(s, 40);
                        t.encode_and_insert(&k);
                    }
                }
                1 => {
                    t = SharedKeys::new();
                    let n = s.usize(200);
                    for i in 0..n {
                        t.encode_and_insert(&format!("{}{i}", ["a", "key_", "k-", "é", "0"][i * 7 % 5]));
                    }
                }
                _ => {
                    t = forms::table(s, &[]).0;
                    for i in 0..s.usize(20) {
                        t.encode_and_insert(&format!("extra{i}"));
                    }
                }
            }
            let mut names = forms::table_names(&t);
            // A document encoded with the table, which may add to it.
            let mut keys = names.clone();
            keys.truncate(40);
            let d = {
                let mut c = gen::Cfg::small();
                let mut pairs: Vec<(String, D)> = Vec::new();
                for k in &keys {
                    if s.chance(1, 3) {
                        pairs.push((k.clone(), gen::scalar(s, &mut c)));
                    }
                }
                pairs.push(("a key of this document".into(), D::Int(1)));
                if s.bool() && !pairs.iter().any(|p| p.0 == "added") {
                    pairs.push(("added".into(), D::Dict(vec![("inner1".into(), D::Null)])));
                }
                D::Dict(pairs)
            };
            let mut e = Encoder::new();
            e.set_shared_keys(t.clone());
            write_doc(&mut e, &d, 0)?;
            let sc = e.finish_scoped();
            let doc: Vec<u8> = sc.data().ok_or("no data")?.to_vec();
            t = (**sc.shared_keys().ok_or("no table")?).clone();
            drop(sc);
            names.truncate(0);
            names.extend(forms::table_names(&t));
            cx.note(|| format!("table of {} keys {}", names.len(), clip(&format!("{names:?}"))));
            let mut restored: SharedKeys;
            match s.below(4) {
                0 | 1 => {
                    let b = t.get_state_bytes();
                    check_bytes(&b, &D::Arr(names.iter().map(|k| D::Str(k.clone())).collect()), "saved table")?;
                    restored = if s.bool() {
                        SharedKeys::from_state_bytes(&b).ok_or("from_state_bytes of a saved table gave nothing")?
                    } else {
                        let v = Value::from_bytes(&b).map_err(|e| format!("{e:?}"))?;
                        SharedKeys::from_state_value(v).ok_or("from_state_value of a saved table gave nothing")?
                    };
                }
                2 => {
                    let mut e = Encoder::new();
                    t.write_state(&mut e).ok_or("write_state to an empty encoder failed")?;
                    ensure!(t.write_state(&mut e).is_none(), "write_state succeeded on a finished encoder");
                    let b = e.finish();
                    restored = SharedKeys::from_state_bytes(&b).ok_or("a table saved with write_state is not restored")?;
                }
                _ => {
                    // Inside a larger document.
                    let mut e = Encoder::new();
                    e.begin_dict().unwrap();
                    ensure!(t.write_state(&mut e).is_none(), "write_state succeeded where a key is due");
                    e.write_key("state of the keys").unwrap();
                    t.write_state(&mut e).ok_or("write_state after a key failed")?;
                    e.write_key("b").unwrap();
                    e.write_value("a long enough value").unwrap();
                    e.end_dict().unwrap();
                    let b = e.finish();
                    let v = Value::from_bytes(&b).map_err(|e| format!("{e:?}"))?;
                    let st = v.as_dict().and_then(|d| d.get("state of the keys")).ok_or("state not found")?;
                    restored = SharedKeys::from_state_value(st).ok_or("from_state_value of a nested table gave nothing")?;
                }
            }
            check_whole(&restored, &names)?;
            if s.chance(1, 2) {
                // It takes further keys as the table that was saved does.
                let mut x = Table { t: restored.clone(), m: names.clone() };
                let n = match s.weighted(&[6, 4, 1]) {
                    0 => s.usize(10),
                    1 => s.usize(200),
                    _ => {
                        cx.class("filled after restoring");
                        2060usize.saturating_sub(names.len())
                    }
                };
                for i in 0..n {
                    let k = if n < 200 && s.bool() { gen::key(s, 30) } else { format!("more{i}") };
                    let got = insert(&mut x, &k)?;
                    if shareable(&k) && !names.contains(&k) {
                        ensure_eq!(t.encode_and_insert(&k), x.t.encode(&k), "key {k:?} added to the restored table and to the one saved");
                    }
                    if got {
                        cx.class("key added after restoring");
                    }
                }
                check_whole(&x.t, &x.m)?;
                // The restored table itself has stayed as it was.
                check_whole(&restored, &names)?;
                if s.bool() {
                    let b = x.t.get_state_bytes();
                    let again = SharedKeys::from_state_bytes(&b).ok_or("a table with keys added after restoring is not restored")?;
                    check_whole(&again, &x.m)?;
                }
                if s.bool() {
                    restored = x.t;
                }
            }
            let sc = Scope::new(doc, Some(Arc::new(restored)));
            read_every_way(&sc, &d, "document under the restored table")?;
            cx.class_if(names.len() == 2048, "full table");
            if names.len() >= 3 {
                cx.nontrivial(mix(d.fp(), names.iter().fold(0, |h, k| mix(h, hash_bytes(k.as_bytes())))));
            }
            Ok(())
        }
        1 => {
            cx.class("restore from a document");
            let d = match s.below(5) {
                0 => gen::doc_with(s, gen::Cfg::small()),
                1 | 2 => {
                    // Almost a table.
                    let n = s.range(1, 12);
                    let mut v: Vec<D> = gen::keys(s, n, 20).into_iter().map(D::Str).collect();
                    let i = s.usize(n);
                    v[i] = match s.below(5) {
                        0 => D::Str("not a shareable".into()),
                        1 => D::Str("this_is_seventeen".into()),
                        2 => gen::value(s, &mut gen::Cfg::small()),
                        3 => D::Null,
                        _ => v[s.usize(n)].clone(),
                    };
                    D::Arr(v)
                }
                3 if s.chance(1, 20) => D::Arr((0..2040 + s.usize(20)).map(|i| D::Str(format!("k{i}"))).collect()),
                _ => {
                    let n = s.usize(8);
                    D::Arr((0..n).map(|i| D::Str(format!("key{i}"))).collect())
                }
            };
            let held = forms::hold(s, &d)?;
            cx.note(|| format!("restore from ({}) {}", held.form, d.show()));
            cx.nontrivial(d.fp());
            restore(held.value(), &d)
        }
        _ => {
            let mut b = if s.bool() {
                let mut t = SharedKeys::new();
                for _ in 0..s.usize(10) {
                    t.encode_and_insert(&gen::key(s, 20));
                }
                let mut b = t.get_state_bytes().to_vec();
                super::untrusted::mutate(s, &mut b);
                cx.class("mutated saved table");
                b
            } else {
                cx.class("arbitrary bytes");
                super::untrusted::raw(s).0
            };
            if s.chance(1, 10) {
                b.truncate(s.usize(b.len() + 1));
            }
            cx.note(|| format!("restore from {}", clip(&format!("{b:02x?}"))));
            let got = SharedKeys::from_state_bytes(&b);
            match Value::from_bytes(&b) {
                Err(_) => {
                    ensure!(got.is_none(), "a table was restored from bytes the decoder refuses");
                    Ok(())
                }
                Ok(v) => {
                    if let Some(a) = v.as_array() {
                        cx.nontrivial(hash_bytes(&b));
                        // (A hostile document can be far larger read out than its bytes.)
                        if let refdec::Verdict::Good(d @ D::Arr(_)) = refdec::decode_with(&b, None, 20_000, 200) {
                            return restore(v, &d);
                        }
                        let _ = a;
                    } else {
                        ensure!(got.is_none(), "a table was restored from a {:?}", v.value_type());
                    }
                    Ok(())
                }
            }
        }
    }
}

fn restore(v: &Value, d: &D) -> Res {
    let got = SharedKeys::from_state_value(v);
    let D::Arr(xs) = d else {
        ensure!(got.is_none(), "a table was restored from something other than an array");
        return Ok(());
    };
    let mut names: Vec<String> = Vec::new();
    let (mut ok, mut repeats) = (true, false);
    for x in xs {
        match x {
            D::Str(k) if shareable(k) => {
                if names.contains(k) {
                    repeats = true;
                } else {
                    names.push(k.clone());
                }
            }
            _ => ok = false,
        }
    }
    if !ok || names.len() > 2048 {
        ensure!(got.is_none(), "a table was restored from an array that holds something that is no key");
        return Ok(());
    }
    if repeats {
        // Not a saved table; whatever is restored must still be a table.
        if let Some(t) = got {
            let n = forms::table_names(&t);
            check_whole(&t, &n)?;
        }
        return Ok(());
    }
    let t = got.ok_or("nothing was restored from an array of distinct keys")?;
    check_whole(&t, &names)
}
