//! C15, C16, C17: mutable collections against ordinary lists and maps.

use super::Prop;
use crate::engine::{clip, hash_bytes, mix, take_panic, Ctx, Res, Src};
use crate::forms;
use crate::model::*;
use crate::{ensure, gen, refenc};
use fleece::alloced::{AllocedArray, AllocedDict, AllocedValue};
use fleece::{Array, Dict, MutableArray, MutableDict, Scope, SharedKeys, Value};
use std::sync::Arc;

pub const C15: Prop = Prop {
    id: "C15",
    check: c15,
    quick: 120_000,
    thorough: 8_000_000,
    rule: "a case is (rarely: a collection of up to 131072 entries or 1100 levels with a few edits, otherwise) a history of up to 80 operations over up to six mutable collections whose first is an array (push, push_fleece, set, set_array, set_dict, set_fleece, remove, clone, edits at nested paths, reads and writes out of range) against nested lists and maps; after every operation the edited root is read by index and iteration, and regularly every other root; non-trivial: at least 6 operations on arrays of which one removes or overwrites; distinct by the history",
    configs: &["chk", "rel", "asan"],
};

pub const C16: Prop = Prop {
    id: "C16",
    check: c16,
    quick: 90_000,
    thorough: 8_000_000,
    rule: "a case is (rarely: a collection of up to 131072 entries or 1100 levels with a few edits, otherwise) a history of up to 80 operations over up to six mutable collections whose first is a dictionary, with or without a (possibly full) shared-key table (insert, overwrite, insert_array, insert_dict, remove, clone, edits at nested paths, reads of present and absent keys) against nested maps and lists; after every operation the edited root is read by key and iteration, and regularly every other root; non-trivial: at least 6 operations on dictionaries of which one removes or overwrites; distinct by the history",
    configs: &["chk", "rel", "asan"],
};

enum Root {
    A(MutableArray),
    D(MutableDict),
}

impl Root {
    fn read(&self) -> Result<D, String> {
        match self {
            Root::A(a) => read_mut_array(a),
            Root::D(d) => read_mut_dict(d),
        }
    }
    fn check(&self, want: &D, what: &str) -> Res {
        same(&self.read().map_err(|e| format!("{what}: {e}"))?, want, what)?;
        match self {
            Root::A(a) => absent_array(a, want),
            Root::D(d) => absent_dict(d, want),
        }
        .map_err(|e| format!("{what}: {e}"))
    }
    fn dup(&self) -> Root {
        match self {
            Root::A(a) => Root::A(a.clone()),
            Root::D(d) => Root::D(d.clone()),
        }
    }
}

/// What is not there is not found, and size hints are exact.
fn absent_array(a: &MutableArray, want: &D) -> Res {
    let D::Arr(w) = want else { return Err("model is no array".into()) };
    for i in [w.len(), w.len() + 1, usize::MAX] {
        ensure!(a.get(i).is_none() && a.get_array(i).is_none() && a.get_dict(i).is_none(), "index {i} of {} elements gave something", w.len());
    }
    Ok(())
}
fn absent_dict(a: &MutableDict, want: &D) -> Res {
    let D::Dict(w) = want else { return Err("model is no dictionary".into()) };
    let mut tries: Vec<String> = vec![String::new(), "a".into(), "a1".into(), "absent".into()];
    if let Some((k, _)) = w.first() {
        tries.push(format!("{k}x"));
        let mut t = k.clone();
        t.pop();
        tries.push(t);
    }
    for k in tries {
        if w.iter().any(|(x, _)| *x == k) {
            continue;
        }
        ensure!(
            !a.contains_key(&k) && a.get(&k).is_none() && a.get_array(&k).is_none() && a.get_dict(&k).is_none(),
            "absent key {:?} was found",
            clip(&k)
        );
    }
    Ok(())
}

fn build_array(v: &[D], style: u64) -> MutableArray {
    let mut a = MutableArray::new();
    for (i, x) in v.iter().enumerate() {
        let st = sub_style(style, i);
        match x {
            D::Arr(w) => {
                a.push(&0u8);
                a.set_array(i, build_array(w, st));
            }
            D::Dict(w) => {
                a.push(&0u8);
                a.set_dict(i, build_dict(w, st, None));
            }
            s => with_scalar(s, st, &mut |w| w.push_to(&mut a)),
        }
    }
    a
}
fn build_dict(v: &[(String, D)], style: u64, table: Option<&Arc<SharedKeys>>) -> MutableDict {
    let mut a = match table {
        Some(t) => MutableDict::new_with_shared_keys(t.clone()),
        None => MutableDict::new(),
    };
    for (i, (k, x)) in v.iter().enumerate() {
        let st = sub_style(style, i);
        match x {
            D::Arr(w) => a.insert_array(k, build_array(w, st)),
            D::Dict(w) => a.insert_dict(k, build_dict(w, st, if st & 16 == 0 { table } else { None })),
            s => with_scalar(s, st, &mut |w| w.insert_to(&mut a, k)),
        }
    }
    a
}

/// An encoded value handed to set_fleece, push_fleece or a conversion, gone afterwards.
struct Source {
    bytes: Vec<u8>,
    held: Option<forms::Held>,
}
impl Source {
    fn new(s: &mut Src, d: &D) -> Result<Source, String> {
        Ok(match s.weighted(&[4, 3, 2]) {
            0 => Source { bytes: encode(d, gen::style(s))?, held: None },
            1 => {
                let st = gen::style(s);
                Source { bytes: Vec::new(), held: Some(forms::hold_shared(s, d, st)?) }
            }
            _ => {
                let (b, _) = refenc::layout(s, d, None);
                Source { bytes: b, held: None }
            }
        })
    }
    fn value(&self) -> &Value {
        match &self.held {
            Some(h) => h.value(),
            None => Value::from_bytes(&self.bytes).expect("valid source"),
        }
    }
    /// Overwrite what can be, drop the rest.
    fn wreck(self) {
        let mut b = self.bytes;
        b.iter_mut().for_each(|x| *x = 0xA5);
        std::hint::black_box(&b);
    }
}

enum At<'a> {
    A(&'a mut MutableArray, &'a mut Vec<D>),
    D(&'a mut MutableDict, &'a mut Vec<(String, D)>),
}

/// Go down to a collection: nested ones by get_array_mut and get_dict_mut.
fn descend<'a>(s: &mut Src, at: At<'a>, path: &mut String) -> Result<At<'a>, String> {
    let nested: Vec<usize> = match &at {
        At::A(_, v) => v.iter().enumerate().filter(|(_, x)| x.is_coll()).map(|x| x.0).collect(),
        At::D(_, v) => v.iter().enumerate().filter(|(_, (_, x))| x.is_coll()).map(|x| x.0).collect(),
    };
    if nested.is_empty() || s.chance(1, 2) {
        return Ok(at);
    }
    let i = nested[s.usize(nested.len())];
    let next = match at {
        At::A(a, v) => {
            path.push_str(&format!("[{i}]"));
            match &mut v[i] {
                D::Arr(w) => {
                    ensure!(a.get_dict_mut(i).is_none(), "{path}: an array given as a dictionary");
                    At::A(a.get_array_mut(i).ok_or_else(|| format!("{path}: nested array not given for editing"))?, w)
                }
                D::Dict(w) => {
                    ensure!(a.get_array_mut(i).is_none(), "{path}: a dictionary given as an array");
                    At::D(a.get_dict_mut(i).ok_or_else(|| format!("{path}: nested dictionary not given for editing"))?, w)
                }
                _ => unreachable!(),
            }
        }
        At::D(a, v) => {
            let (k, x) = &mut v[i];
            path.push_str(&format!(".{}", clip(k)));
            match x {
                D::Arr(w) => {
                    ensure!(a.get_dict_mut(k).is_none(), "{path}: an array given as a dictionary");
                    At::A(a.get_array_mut(k).ok_or_else(|| format!("{path}: nested array not given for editing"))?, w)
                }
                D::Dict(w) => {
                    ensure!(a.get_array_mut(k).is_none(), "{path}: a dictionary given as an array");
                    At::D(a.get_dict_mut(k).ok_or_else(|| format!("{path}: nested dictionary not given for editing"))?, w)
                }
                _ => unreachable!(),
            }
        }
    };
    descend(s, next, path)
}

fn put(v: &mut Vec<(String, D)>, k: String, x: D) -> bool {
    match v.iter_mut().find(|(y, _)| *y == k) {
        Some(e) => {
            e.1 = x;
            true
        }
        None => {
            v.push((k, x));
            false
        }
    }
}

fn new_scalar(s: &mut Src) -> D {
    gen::scalar(s, &mut gen::Cfg { max_len: 140, bytes: 300, ..gen::Cfg::small() })
}
fn new_coll(s: &mut Src) -> D {
    gen::doc_with(s, gen::Cfg { depth: 3, nodes: 8, max_len: 40, wide_counts: false, bytes: 200 })
}
fn fleece_source(s: &mut Src) -> D {
    match s.below(3) {
        0 => new_scalar(s),
        _ => new_coll(s),
    }
}

#[derive(Default)]
struct Tally {
    arr: usize,
    dict: usize,
    arr_change: bool,
    dict_change: bool,
    hist: u64,
    nested: bool,
    deep_clone: bool,
}

/// Where in a source a value for push_fleece / set_fleece comes from: the root or an element.
fn with_fleece(s: &mut Src, d: &D, f: &mut dyn FnMut(&Value)) -> Res {
    // A scalar has to be inside a collection.
    if d.is_coll() && s.bool() {
        let src = Source::new(s, d)?;
        f(src.value());
        src.wreck();
    } else {
        let pad = s.below(3);
        let doc = match pad {
            0 => D::Arr(vec![d.clone()]),
            1 => D::Arr(vec![D::Str("x".repeat(if s.chance(1, 10) { 66_000 } else { 30 })), d.clone()]),
            _ => D::Dict(vec![("k".into(), d.clone()), ("z".into(), D::Int(1))]),
        };
        let src = Source::new(s, &doc)?;
        let v = src.value();
        let x = match pad {
            0 => v.as_array().and_then(|a| a.get(0)),
            1 => v.as_array().and_then(|a| a.iter().nth(1)),
            _ => v.as_dict().and_then(|a| a.get("k")),
        };
        f(x.ok_or("source lost its element")?);
        src.wreck();
    }
    Ok(())
}

/// One operation at a random place of a root. `others` are copies of roots to nest.
fn edit(s: &mut Src, cx: &mut Ctx, root: &mut Root, model: &mut D, table: Option<&Arc<SharedKeys>>, t: &mut Tally, label: &str) -> Res {
    let mut path = String::from("$");
    let at = match (root, model) {
        (Root::A(a), D::Arr(v)) => At::A(a, v),
        (Root::D(a), D::Dict(v)) => At::D(a, v),
        _ => unreachable!(),
    };
    let at = descend(s, at, &mut path)?;
    t.nested |= path.len() > 1;
    t.hist = mix(t.hist, hash_bytes(path.as_bytes()));
    match at {
        At::A(a, v) => {
            t.arr += 1;
            let op = s.weighted(&[8, 4, 6, 3, 3, 3, 5, 1, 1]);
            t.hist = mix(t.hist, op as u64);
            // An index, usually in range.
            let i = if v.is_empty() { 0 } else { s.usize(v.len()) };
            match op {
                0 => {
                    let d = new_scalar(s);
                    t.hist = mix(t.hist, d.fp());
                    cx.note(|| format!("{label}{path}: push {}", d.show()));
                    let st = gen::style(s);
                    with_scalar(&d, st, &mut |w| w.push_to(a));
                    v.push(d);
                }
                1 => {
                    let d = fleece_source(s);
                    t.hist = mix(t.hist, d.fp());
                    cx.note(|| format!("{label}{path}: push_fleece {}", d.show()));
                    with_fleece(s, &d, &mut |x| a.push_fleece(x))?;
                    v.push(d);
                }
                2 if !v.is_empty() => {
                    let d = new_scalar(s);
                    t.hist = mix(t.hist, mix(d.fp(), i as u64));
                    cx.note(|| format!("{label}{path}: set {i} {}", d.show()));
                    let st = gen::style(s);
                    with_scalar(&d, st, &mut |w| w.set_to(a, i));
                    v[i] = d;
                    t.arr_change = true;
                }
                3 if !v.is_empty() => {
                    let d = new_coll(s);
                    t.hist = mix(t.hist, mix(d.fp(), i as u64));
                    cx.note(|| format!("{label}{path}: set_array/set_dict {i} {}", d.show()));
                    let st = gen::style(s);
                    match &d {
                        D::Arr(w) => match s.below(3) {
                            0 => a.set_array(i, Array::clone_from_bytes(&encode(&d, st)?).map_err(|e| format!("{e:?}"))?),
                            1 => {
                                let src = Source::new(s, &d)?;
                                a.set_array(i, src.value().as_array().ok_or("not an array")?);
                                src.wreck();
                            }
                            _ => a.set_array(i, build_array(w, st)),
                        },
                        D::Dict(w) => {
                            if s.bool() {
                                a.set_dict(i, Dict::clone_from_bytes(&encode(&d, st)?).map_err(|e| format!("{e:?}"))?);
                            } else {
                                a.set_dict(i, build_dict(w, st, if s.bool() { table } else { None }));
                            }
                        }
                        _ => unreachable!(),
                    }
                    v[i] = d;
                    t.arr_change = true;
                }
                4 if !v.is_empty() => {
                    let d = fleece_source(s);
                    t.hist = mix(t.hist, mix(d.fp(), i as u64));
                    cx.note(|| format!("{label}{path}: set_fleece {i} {}", d.show()));
                    with_fleece(s, &d, &mut |x| a.set_fleece(i, x))?;
                    v[i] = d;
                    t.arr_change = true;
                }
                5 if !v.is_empty() => {
                    // One element to another place.
                    let j = s.usize(v.len());
                    let d = v[i].clone();
                    cx.note(|| format!("{label}{path}: copy element {i} to {j}"));
                    match &d {
                        D::Arr(_) => {
                            let c = a.get_array(i).ok_or("nested array lost")?.clone();
                            a.set_array(j, c);
                            t.deep_clone = true;
                        }
                        D::Dict(_) => {
                            let c = a.get_dict(i).ok_or("nested dictionary lost")?.clone();
                            a.set_dict(j, c);
                            t.deep_clone = true;
                        }
                        _ => {
                            let c = build_array(std::slice::from_ref(&d), 0);
                            let x = a.get(i).ok_or("element lost")?;
                            check_by_access(x, &d, None, "$")?;
                            a.set_fleece(j, c.get(0).ok_or("element lost")?);
                        }
                    }
                    v[j] = d;
                    t.arr_change = true;
                }
                6 => {
                    let i = if s.chance(1, 4) { v.len() + s.usize(3) } else { i };
                    cx.note(|| format!("{label}{path}: remove {i} of {}", v.len()));
                    t.hist = mix(t.hist, i as u64);
                    a.remove(i);
                    if i < v.len() {
                        v.remove(i);
                        t.arr_change = true;
                    } else {
                        cx.class("remove out of range");
                    }
                }
                7 => {
                    // Documented to panic, and nothing may change.
                    let i = v.len() + s.usize(3);
                    cx.note(|| format!("{label}{path}: set {i} of {} (must panic)", v.len()));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.set(i, "out of range")));
                    take_panic();
                    ensure!(r.is_err(), "set out of range did not panic");
                }
                8 if v.len() < 200 => {
                    let n = *s.pick(&[3usize, 17, 70, 300]);
                    let d = new_scalar(s);
                    cx.note(|| format!("{label}{path}: push {n} times {}", d.show()));
                    for _ in 0..n {
                        with_scalar(&d, 0, &mut |w| w.push_to(a));
                        v.push(d.clone());
                    }
                    t.hist = mix(t.hist, n as u64);
                }
                _ => {}
            }
        }
        At::D(a, v) => {
            t.dict += 1;
            let op = s.weighted(&[10, 5, 5, 5, 3, 1]);
            t.hist = mix(t.hist, op as u64);
            let k = if !v.is_empty() && s.chance(2, 5) {
                let k = v[s.usize(v.len())].0.clone();
                if s.chance(1, 5) { gen::like(s, &k) } else { k }
            } else {
                gen::key(s, 300)
            };
            t.hist = mix(t.hist, hash_bytes(k.as_bytes()));
            match op {
                0 => {
                    let d = new_scalar(s);
                    t.hist = mix(t.hist, d.fp());
                    cx.note(|| format!("{label}{path}: insert {:?} {}", clip(&k), d.show()));
                    let st = gen::style(s);
                    with_scalar(&d, st, &mut |w| w.insert_to(a, &k));
                    t.dict_change |= put(v, k, d);
                }
                1 | 2 => {
                    let d = new_coll(s);
                    t.hist = mix(t.hist, d.fp());
                    cx.note(|| format!("{label}{path}: insert_array/insert_dict {:?} {}", clip(&k), d.show()));
                    let st = gen::style(s);
                    match &d {
                        D::Arr(w) => match s.below(3) {
                            0 => a.insert_array(&k, Array::clone_from_bytes(&encode(&d, st)?).map_err(|e| format!("{e:?}"))?),
                            1 => {
                                let src = Source::new(s, &d)?;
                                a.insert_array(&k, src.value().as_array().ok_or("not an array")?);
                                src.wreck();
                            }
                            _ => a.insert_array(&k, build_array(w, st)),
                        },
                        D::Dict(w) => {
                            if s.bool() {
                                a.insert_dict(&k, Dict::clone_from_bytes(&encode(&d, st)?).map_err(|e| format!("{e:?}"))?);
                            } else {
                                a.insert_dict(&k, build_dict(w, st, if s.bool() { table } else { None }));
                            }
                        }
                        _ => unreachable!(),
                    }
                    t.dict_change |= put(v, k, d);
                }
                3 => {
                    cx.note(|| format!("{label}{path}: remove {:?}", clip(&k)));
                    a.remove(&k);
                    let n = v.len();
                    v.retain(|(x, _)| *x != k);
                    t.dict_change |= v.len() != n;
                    cx.class_if(v.len() == n, "remove of an absent key");
                    ensure!(!a.contains_key(&k), "{path}: removed key {:?} is still there", clip(&k));
                }
                4 if !v.is_empty() => {
                    // One value to another key.
                    let (from, d) = v[s.usize(v.len())].clone();
                    cx.note(|| format!("{label}{path}: copy {:?} to {:?}", clip(&from), clip(&k)));
                    match &d {
                        D::Arr(_) => {
                            let c = a.get_array(&from).ok_or("nested array lost")?.clone();
                            a.insert_array(&k, c);
                            t.deep_clone = true;
                        }
                        D::Dict(_) => {
                            let c = a.get_dict(&from).ok_or("nested dictionary lost")?.clone();
                            a.insert_dict(&k, c);
                            t.deep_clone = true;
                        }
                        d => {
                            let x = a.get(&from).ok_or("value lost")?;
                            check_by_access(x, d, None, "$")?;
                            with_scalar(d, 0, &mut |w| w.insert_to(a, &k));
                        }
                    }
                    t.dict_change |= put(v, k, d);
                }
                5 if v.len() < 200 => {
                    let n = *s.pick(&[3usize, 17, 70, 300]);
                    let tag = *s.pick(&["k", "K_", "a key too long to be shared "]);
                    cx.note(|| format!("{label}{path}: insert {n} keys {tag:?}"));
                    for i in 0..n {
                        let k = format!("{tag}{i}");
                        a.insert(&k, i);
                        put(v, k, D::Int(i as i128));
                    }
                    t.hist = mix(t.hist, n as u64);
                }
                _ => {}
            }
        }
    }
    Ok(())
}

fn new_root(s: &mut Src, dict: bool, table: Option<&Arc<SharedKeys>>) -> (Root, D) {
    if dict {
        match (s.below(3), table) {
            (0, _) => (Root::D(MutableDict::new()), D::Dict(vec![])),
            (_, Some(t)) => (Root::D(MutableDict::new_with_shared_keys(t.clone())), D::Dict(vec![])),
            _ => (Root::D(MutableDict::default()), D::Dict(vec![])),
        }
    } else {
        (Root::A(if s.bool() { MutableArray::new() } else { MutableArray::default() }), D::Arr(vec![]))
    }
}

fn world(s: &mut Src, cx: &mut Ctx, dict: bool) -> Res {
    let table: Option<Arc<SharedKeys>> = if s.chance(2, 3) {
        let n = s.usize(14);
        let ks = gen::keys(s, n, 16);
        let (t, form) = forms::table(s, &ks);
        cx.class(form);
        Some(Arc::new(t))
    } else {
        None
    };
    let mut roots = vec![new_root(s, dict, table.as_ref())];
    let mut t = Tally { hist: u64::from(dict), ..Tally::default() };
    let mean = *s.pick(&[6u64, 15, 40]);
    let mut n = 0;
    let mut cloned = false;
    while s.more(n, mean, 80) {
        n += 1;
        // (Bounded, because every operation reads the root in full.)
        let total: usize = roots.iter().map(|r| r.1.nodes()).sum();
        match s.weighted(&[16, 1, 2, 1]) {
            1 if roots.len() < 6 => {
                let other = s.chance(1, 3);
                let r = new_root(s, dict != other, table.as_ref());
                roots.push(r);
            }
            2 if roots.len() < 6 && total < 2000 => {
                let i = s.usize(roots.len());
                cx.note(|| format!("root {} is a clone of root {i}", roots.len()));
                let c = (roots[i].0.dup(), roots[i].1.clone());
                c.0.check(&c.1, "fresh clone")?;
                roots.push(c);
                cloned = true;
            }
            3 if roots.len() > 1 && total < 2000 => {
                // Nest a copy of one root in another.
                let i = s.usize(roots.len());
                let j = s.usize(roots.len());
                let (c, m) = (roots[j].0.dup(), roots[j].1.clone());
                cx.note(|| format!("root {i}: nest root {j}"));
                match (&mut roots[i], c) {
                    ((Root::A(a), D::Arr(v)), c) => {
                        a.push(&false);
                        match c {
                            Root::A(c) => a.set_array(v.len(), c),
                            Root::D(c) => a.set_dict(v.len(), c),
                        }
                        v.push(m);
                    }
                    ((Root::D(a), D::Dict(v)), c) => {
                        let k = gen::key(s, 140);
                        match c {
                            Root::A(c) => a.insert_array(&k, c),
                            Root::D(c) => a.insert_dict(&k, c),
                        }
                        put(v, k, m);
                    }
                    _ => unreachable!(),
                }
                let (r, m) = &roots[i];
                r.check(m, &format!("root {i}"))?;
                t.deep_clone = true;
            }
            _ => {
                let i = if s.chance(2, 3) { roots.len() - 1 } else { s.usize(roots.len()) };
                let (r, m) = &mut roots[i];
                edit(s, cx, r, m, table.as_ref(), &mut t, &format!("root {i} "))?;
                r.check(m, &format!("root {i}"))?;
                cx.sub += 1;
            }
        }
        if roots.len() > 1 && s.chance(1, 6) {
            for (i, (r, m)) in roots.iter().enumerate() {
                r.check(m, &format!("root {i} (not edited now)"))?;
            }
        }
    }
    // Drop some, the rest stay as they are.
    while roots.len() > 1 {
        let i = s.usize(roots.len());
        roots.swap_remove(i);
        for (i, (r, m)) in roots.iter().enumerate() {
            r.check(m, &format!("root {i} (at the end)"))?;
        }
    }
    cx.class_if(t.nested, "edits at nested paths");
    cx.class_if(cloned, "cloned roots");
    cx.class_if(t.deep_clone, "nested copies");
    if if dict { t.dict >= 6 && t.dict_change } else { t.arr >= 6 && t.arr_change } {
        cx.nontrivial(t.hist);
    }
    Ok(())
}

/// A collection of thousands of entries, edited at its ends, its middle and the limits of counters.
fn huge(s: &mut Src, cx: &mut Ctx, dict: bool) -> Res {
    let n = match s.weighted(&[3, 4]) {
        0 => *s.pick(&[255usize, 256, 257, 1000, 2047, 2048, 2049, 4096, 8191, 16383, 16384]),
        _ => gen::crowd(s),
    };
    let n = n + s.usize(2);
    let table: Option<Arc<SharedKeys>> = s.bool().then(|| {
        let (t, _) = forms::table(s, &["k0".into(), "k5".into(), "k300".into()]);
        Arc::new(t)
    });
    let tag = *s.pick(&["k", "a key too long to be shared ", "K_"]);
    cx.class("thousands of entries");
    cx.note(|| format!("{n} entries {tag:?}, dictionary: {dict}, table: {}", table.is_some()));
    let item = |i: usize| match i % 3 {
        0 => D::Int(i as i128),
        1 => D::Str(format!("s{i}")),
        _ => D::Int(-(i as i128)),
    };
    let key = |i: usize| format!("{tag}{i}");
    // By number, None where there is nothing now.
    let mut want: std::collections::BTreeMap<usize, D> = (0..n).map(|i| (i, item(i))).collect();
    let mut arr: Vec<D> = Vec::new();
    let mut a = MutableArray::new();
    let mut d = match &table {
        Some(t) => MutableDict::new_with_shared_keys(t.clone()),
        None => MutableDict::new(),
    };
    let back = s.bool();
    for i in 0..n {
        let i = if back && dict { n - 1 - i } else { i };
        let x = &want[&i];
        if dict {
            with_scalar(x, 0, &mut |w| w.insert_to(&mut d, &key(i)));
        } else {
            with_scalar(x, 0, &mut |w| w.push_to(&mut a));
            arr.push(x.clone());
        }
    }
    let spots = |s: &mut Src, n: usize| -> usize {
        let k = *s.pick(&[0usize, 1, 127, 128, 255, 256, 2046, 2047, 2048, 32767, 32768, 65534, 65535, 65536]);
        match s.below(4) {
            0 if n > 0 => n - 1 - s.usize(n.min(3)),
            1 if n > 0 => s.usize(n),
            _ if k < n => k,
            _ => n / 2,
        }
    };
    let rounds = s.range(1, 6);
    for round in 0..=rounds {
        if round > 0 {
            let m = if dict { n + 10 } else { arr.len() };
            let i = spots(s, m);
            let op = s.below(4);
            t_note(cx, op, i);
            if dict {
                match op {
                    0 | 1 => {
                        d.remove(&key(i));
                        want.remove(&i);
                    }
                    2 => {
                        let x = D::Str(format!("new {round}"));
                        with_scalar(&x, 0, &mut |w| w.insert_to(&mut d, &key(i)));
                        want.insert(i, x);
                    }
                    _ => {
                        let x = D::Arr(vec![D::Int(round as i128)]);
                        let D::Arr(w) = &x else { unreachable!() };
                        d.insert_array(&key(i), build_array(w, 0));
                        want.insert(i, x);
                    }
                }
            } else if !arr.is_empty() {
                match op {
                    0 | 1 => {
                        a.remove(i);
                        arr.remove(i);
                    }
                    2 => {
                        let x = D::Str(format!("new {round}"));
                        with_scalar(&x, 0, &mut |w| w.set_to(&mut a, i));
                        arr[i] = x;
                    }
                    _ => {
                        let x = D::Arr(vec![D::Int(round as i128)]);
                        let D::Arr(w) = &x else { unreachable!() };
                        a.set_array(i, build_array(w, 0));
                        arr[i] = x;
                    }
                }
            }
        }
        // All of it, by iteration and by index or key.
        if dict {
            ensure!(d.len() == want.len(), "length {} of {} entries", d.len(), want.len());
            let mut got: Vec<(&str, D)> = Vec::with_capacity(want.len());
            for (k, r) in d.iter() {
                got.push((k, match r.array() {
                    Some(x) => read_mut_array(x)?,
                    None => read(r.value().ok_or("no value")?)?,
                }));
            }
            got.sort_by(|x, y| x.0.cmp(y.0));
            let mut ws: Vec<(String, &D)> = want.iter().map(|(i, x)| (key(*i), x)).collect();
            ws.sort_by(|x, y| x.0.cmp(&y.0));
            ensure!(got.len() == ws.len(), "{} of {} entries by iteration", got.len(), ws.len());
            for (g, w) in got.iter().zip(&ws) {
                ensure!(g.0 == w.0, "key {:?} where {:?} is expected", clip(g.0), clip(&w.0));
                same(&g.1, w.1, &format!("value of {:?}", clip(g.0)))?;
            }
            for i in (0..n + 3).step_by(if n > 5000 && s.bool() { 13 } else { 1 }) {
                let k = key(i);
                let w = want.get(&i);
                ensure!(d.contains_key(&k) == w.is_some(), "contains_key({k:?}), present: {}", w.is_some());
                match w {
                    Some(D::Arr(_)) => ensure!(d.get_array(&k).is_some(), "array under {k:?} lost"),
                    Some(x) => same(&read(d.get(&k).ok_or_else(|| format!("value under {k:?} lost"))?)?, x, &k)?,
                    None => ensure!(d.get(&k).is_none(), "value under absent {k:?}"),
                }
            }
        } else {
            ensure!(a.len() == arr.len(), "length {} of {} elements", a.len(), arr.len());
            let mut m = 0;
            for (i, r) in a.iter().enumerate() {
                let w = arr.get(i).ok_or("iteration goes past the end")?;
                let g = match r.array() {
                    Some(x) => read_mut_array(x)?,
                    None => read(r.value().ok_or("no value")?)?,
                };
                same(&g, w, &format!("element {i} of {} by iteration", arr.len()))?;
                if !w.is_coll() {
                    let x = a.get(i).ok_or_else(|| format!("element {i} lost"))?;
                    ensure!(std::ptr::eq(x, r.value().unwrap()), "get({i}) and iteration differ");
                }
                m += 1;
            }
            ensure!(m == arr.len(), "iteration gave {m} of {} elements", arr.len());
            ensure!(a.get(arr.len()).is_none() && a.get(arr.len() + 65536).is_none(), "an element past the end");
        }
        cx.sub += n as u64;
    }
    let c = if dict { Root::D(d.clone()) } else { Root::A(a.clone()) };
    drop((a, d));
    match c {
        Root::A(c) => ensure!(c.len() == arr.len() && c.iter().count() == arr.len(), "length of a clone"),
        Root::D(c) => ensure!(c.len() == want.len() && c.iter().count() == want.len(), "length of a clone"),
    }
    cx.nontrivial(mix(n as u64, u64::from(dict)));
    Ok(())
}
fn t_note(cx: &mut Ctx, op: u64, i: usize) {
    cx.note(|| format!("{} at {i}", ["remove", "remove", "set a string", "set an array"][op as usize]));
}

/// A collection nested hundreds of levels deep, built, read, edited and cloned.
fn deep(s: &mut Src, cx: &mut Ctx, dict: bool) -> Res {
    let n = gen::depth(s);
    let inner = gen::doc_with(s, gen::Cfg::small());
    let m = gen::chain(s, n, inner);
    let m = match (dict, m) {
        (false, m @ D::Arr(_)) | (true, m @ D::Dict(_)) => m,
        (true, m) => D::Dict(vec![("root".into(), m)]),
        (false, m) => D::Arr(vec![m]),
    };
    cx.class("hundreds of levels");
    cx.note(|| format!("{n} levels"));
    let how = s.below(3);
    let st = gen::style(s);
    let mut root = match (&m, how) {
        (D::Arr(v), 0) => Root::A(build_array(v, st)),
        (D::Dict(v), 0) => Root::D(build_dict(v, st, None)),
        (_, _) => {
            let src = Source::new(s, &m)?;
            let r = match (src.value().as_array(), src.value().as_dict()) {
                (Some(a), _) => Root::A(MutableArray::clone_from(a)),
                (_, Some(d)) => Root::D(MutableDict::clone_from(d)),
                _ => return Err("source of no kind".into()),
            };
            src.wreck();
            r
        }
    };
    root.check(&m, "deep collection")?;
    let mut want = m;
    let dup = (root.dup(), want.clone());
    let mut t = Tally::default();
    for i in 0..s.range(1, 4) {
        edit(s, cx, &mut root, &mut want, None, &mut t, "deep ")?;
        root.check(&want, &format!("deep collection after edit {i}"))?;
    }
    dup.0.check(&dup.1, "clone of a deep collection")?;
    cx.nontrivial(mix(t.hist, n as u64));
    Ok(())
}

fn c15(s: &mut Src, cx: &mut Ctx) -> Res {
    if s.chance(1, 1500) {
        return huge(s, cx, false);
    }
    if s.chance(1, 400) {
        return deep(s, cx, false);
    }
    world(s, cx, false)
}
fn c16(s: &mut Src, cx: &mut Ctx) -> Res {
    if s.chance(1, 1500) {
        return huge(s, cx, true);
    }
    if s.chance(1, 400) {
        return deep(s, cx, true);
    }
    world(s, cx, true)
}

// ---------------------------------------------------------------- C17

pub const C17: Prop = Prop {
    id: "C17",
    check: c17,
    quick: 90_000,
    thorough: 6_000_000,
    rule: "a case is an encoded document (plain, owned or scoped, with or without shared keys, from the encoder or an independent layout) of which a collection at any depth is copied by one of the conversions; the copy is compared with the source, edited by a random history while the source is re-read, and read after the source is overwritten and dropped; scopes whose root is of the other kind, or invalid, must be refused; non-trivial: the copied collection has at least two nodes below it and the copy is edited; distinct by document, place and conversion",
    configs: &["chk", "rel", "asan"],
};

/// The collections of a document, with the way to each.
fn collections<'a>(v: &'a Value, d: &'a D, out: &mut Vec<(&'a Value, &'a D)>) -> Res {
    if out.len() > 60 {
        return Ok(());
    }
    match d {
        D::Arr(w) => {
            out.push((v, d));
            let a = v.as_array().ok_or("source: not an array")?;
            for (i, x) in w.iter().enumerate() {
                if x.is_coll() {
                    collections(a.get(i).ok_or("source: missing element")?, x, out)?;
                }
            }
        }
        D::Dict(w) => {
            out.push((v, d));
            let a = v.as_dict().ok_or("source: not a dictionary")?;
            for (k, x) in w {
                if x.is_coll() {
                    collections(a.get(k.as_str()).ok_or("source: missing key")?, x, out)?;
                }
            }
        }
        _ => {}
    }
    Ok(())
}

fn c17(s: &mut Src, cx: &mut Ctx) -> Res {
    let d = match s.weighted(&[5, 3, 1]) {
        0 => gen::doc_with(s, gen::Cfg::small()),
        1 => gen::doc_with(s, gen::Cfg::normal()),
        _ => {
            let c = gen::Cfg { bytes: 70_000, ..gen::Cfg::large() };
            gen::doc_with(s, c)
        }
    };
    cx.note(|| format!("source {}", d.show()));
    let mut t = Tally::default();
    let how;
    let (mut copy, mut want, keep): (Root, D, Option<Kept>);
    match s.weighted(&[6, 4, 5]) {
        0 => {
            // A borrowed collection at any depth.
            let held = forms::hold(s, &d)?;
            let place;
            {
                let mut all = Vec::new();
                collections(held.value(), &d, &mut all)?;
                let i = s.usize(all.len());
                place = i;
                let (v, m) = all[i];
                want = m.clone();
                let wrap = s.below(3);
                how = wrap;
                copy = match (v.as_array(), v.as_dict()) {
                    (Some(a), None) => match wrap {
                        0 => Root::A(MutableArray::clone_from(a)),
                        1 => Root::A(MutableArray::from(a)),
                        _ => {
                            let mut x = MutableArray::new();
                            x.push_fleece(v);
                            Root::A(x.get_array(0).ok_or("push_fleece of an array gave no array")?.clone())
                        }
                    },
                    (None, Some(a)) => match wrap {
                        0 | 1 => Root::D(MutableDict::clone_from(a)),
                        _ => {
                            let mut x = MutableArray::new();
                            x.push(&1);
                            x.set_fleece(0, v);
                            Root::D(x.get_dict(0).ok_or("set_fleece of a dictionary gave no dictionary")?.clone())
                        }
                    },
                    _ => return Err("source collection is not one".into()),
                };
            }
            cx.note(|| format!("borrowed from {}, place {place}, conversion {how}", held.form));
            t.hist = mix(place as u64, how);
            keep = Some(Kept::Held(held));
        }
        1 => {
            // An owned one.
            let held = forms::hold(s, &d)?;
            let root: AllocedValue = match &held.bytes {
                forms::Bytes::Plain(b) => Value::clone_from_bytes(b).map_err(|e| format!("{e:?}"))?,
                forms::Bytes::Scoped(_, v) => v.clone(),
            };
            want = d.clone();
            how = 10;
            let other = if s.bool() { Some(root.clone()) } else { None };
            copy = match &d {
                D::Arr(_) => Root::A(MutableArray::from(root.to_array().ok_or("to_array failed")?)),
                _ => Root::D(MutableDict::from(root.to_dict().ok_or("to_dict failed")?)),
            };
            cx.note(|| format!("owned, {}", held.form));
            cx.class("owned source");
            t.hist = 100;
            keep = Some(Kept::Owned(held, other));
        }
        _ => {
            // A scope.
            let held = match s.below(2) {
                0 => {
                    let st = gen::style(s);
                    forms::hold_shared(s, &d, st)?
                }
                _ => forms::hold_layout_shared(s, &d)?,
            };
            let sc = held.scope().ok_or("no scope")?.clone();
            let is_array = matches!(d, D::Arr(_));
            let by_try = s.bool();
            how = 20 + u64::from(by_try);
            want = d.clone();
            let (a, o) = if by_try {
                (MutableArray::try_from(&*sc).ok(), MutableDict::try_from(&*sc).ok())
            } else {
                (MutableArray::from_scope(&sc), MutableDict::from_scope(&sc))
            };
            ensure!(a.is_some() == is_array, "mutable array from a scope whose root is an array: {is_array}, got one: {}", a.is_some());
            ensure!(o.is_some() != is_array, "mutable dictionary from a scope whose root is a dictionary: {}, got one: {}", !is_array, o.is_some());
            copy = match (a, o) {
                (Some(a), _) => Root::A(a),
                (_, Some(o)) => Root::D(o),
                _ => unreachable!(),
            };
            cx.note(|| format!("from a scope ({}), conversion {how}", held.form));
            cx.class("scope source");
            t.hist = how;
            keep = Some(Kept::Held(held));
        }
    }
    let before = keep.as_ref().map(|k| k.data()).unwrap_or_default();
    let start = t.hist;
    copy.check(&want, "copy")?;
    let kids = want.nodes();
    let n = if kids > 400 { 1 } else { s.usize(6) };
    for i in 0..n {
        edit(s, cx, &mut copy, &mut want, None, &mut t, "copy ")?;
        copy.check(&want, &format!("copy after edit {i}"))?;
    }
    if let Some(k) = &keep {
        ensure!(k.data() == before, "editing the copy changed the bytes of the source");
        k.check(&d)?;
    }
    // The source goes.
    if let Some(k) = keep {
        k.wreck();
    }
    copy.check(&want, "copy after the source is gone")?;
    let c2 = copy.dup();
    drop(copy);
    c2.check(&want, "clone of the copy")?;

    // What has no such root is refused.
    if s.chance(1, 4) {
        let bad = match s.below(4) {
            0 => Vec::new(),
            1 => s.fill(9),
            2 => encode(&d, 0)?[1..].to_vec(),
            // A scalar root.
            _ => vec![0x00, 0x05],
        };
        let kind = Value::from_bytes(&bad).ok().map(|v| (v.as_array().is_some(), v.as_dict().is_some()));
        let (want_a, want_d) = kind.unwrap_or((false, false));
        let sc = Scope::new(bad, None);
        ensure!(MutableArray::from_scope(&sc).is_some() == want_a, "MutableArray::from_scope of {kind:?}");
        ensure!(MutableDict::from_scope(&sc).is_some() == want_d, "MutableDict::from_scope of {kind:?}");
        ensure!(MutableArray::try_from(&*sc).is_ok() == want_a, "MutableArray::try_from of {kind:?}");
        ensure!(MutableDict::try_from(&*sc).is_ok() == want_d, "MutableDict::try_from of {kind:?}");
        cx.class("scope without such a root");
    }
    let _ = (AllocedArray::empty(), AllocedDict::empty());
    cx.class_if(kids > 400, "over 400 nodes copied");
    if kids >= 3 && n >= 1 {
        cx.nontrivial(mix(mix(start, d.fp()), how));
    }
    Ok(())
}

enum Kept {
    Held(forms::Held),
    Owned(forms::Held, Option<AllocedValue>),
}
impl Kept {
    fn held(&self) -> &forms::Held {
        match self {
            Kept::Held(h) | Kept::Owned(h, _) => h,
        }
    }
    fn data(&self) -> Vec<u8> {
        self.held().data()
    }
    fn check(&self, d: &D) -> Res {
        check_value(self.held().value(), d, "source after the copy was edited")?;
        if let Kept::Owned(h, Some(v)) = self {
            if h.table.is_none() {
                check_value(v, d, "owned source after the copy was edited")?;
            }
        }
        Ok(())
    }
    fn wreck(self) {
        let (Kept::Held(h) | Kept::Owned(h, _)) = self;
        if let forms::Bytes::Plain(mut b) = h.bytes {
            b.iter_mut().for_each(|x| *x = 0xA5);
            std::hint::black_box(&b);
        }
    }
}
