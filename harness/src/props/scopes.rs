//! C12, C13, C14: scopes, threads and owned values.

use super::Prop;
use crate::engine::{clip, hash_bytes, mix, Ctx, Res, Src};
use crate::forms;
use crate::model::*;
use crate::{ensure, ensure_eq, gen, watch};
use fleece::alloced::{Alloced, AllocedArray, AllocedDict, AllocedValue};
use fleece::{Array, Dict, Encoder, Scope, SharedKeys, Value};
use std::sync::{Arc, Barrier, Weak};

// ---------------------------------------------------------------- C12

pub const C12: Prop = Prop {
    id: "C12",
    check: c12,
    quick: 60_000,
    thorough: 3_000_000,
    rule: "a case is a history of creating scopes (rarely thousands at once; documents, arbitrary, truncated, empty data; with and without tables; from bytes, from the encoder, from serde), cloning and dropping handles, removing, and keeping roots past their scope, against a list of live ranges; addresses inside, at and next to the ends of every present and past range, and unrelated ones, are looked up after every step; non-trivial: at least 3 scopes with a drop or removal followed by more operations; distinct by the history",
    configs: &["chk", "rel", "asan"],
};

struct Live {
    sc: Arc<Scope>,
    extra: Vec<Arc<Scope>>,
    data: Vec<u8>,
    start: usize,
    table: Option<Arc<SharedKeys>>,
    root: Option<D>,
    removed: bool,
    id: usize,
}

/// Data whose conversion runs code of the caller's.
struct Odd {
    data: Vec<u8>,
    panics: bool,
}
impl From<Odd> for Arc<[u8]> {
    fn from(o: Odd) -> Self {
        if o.panics {
            std::panic::panic_any("the caller's own panic");
        }
        let inner = Scope::new(vec![0x40u8, 0x41, 0x42], None);
        let at = inner.range().map_or(0, |r| r.start);
        assert!(Scope::containing(at as *const u8).is_some_and(|s| Arc::ptr_eq(&s, &inner)));
        inner.remove();
        Arc::from(o.data)
    }
}

/// Data for a scope, with the document it holds.
fn scope_data(s: &mut Src, table: Option<&SharedKeys>) -> (Vec<u8>, Option<D>) {
    match s.weighted(&[6, 2, 2, 1]) {
        0 => {
            let d = gen::doc_with(s, gen::Cfg { nodes: 10, depth: 2, max_len: 60, wide_counts: false, bytes: 200 });
            if let (Some(t), true) = (table, s.bool()) {
                let (b, _) = crate::refenc::layout(s, &d, Some(&forms::table_names(t)));
                (b, Some(d))
            } else {
                (encode(&d, 0).expect("encode"), Some(d))
            }
        }
        1 => {
            // A document cut short, or nothing that is one.
            let n = s.usize(20);
            let b = s.fill(n * 2 + 1);
            (b, None)
        }
        2 => {
            let n = *s.pick(&[1usize, 2, 3, 16, 100]);
            (vec![0x80; n], None)
        }
        _ => (Vec::new(), None),
    }
}

fn look(addr: usize, live: &[Live]) -> Res {
    // (Several scopes may have the same data, with the same table: it may be any of them.)
    let want: Vec<&Live> = live.iter().filter(|l| !l.removed && addr >= l.start && addr < l.start + l.data.len()).collect();
    let w = want.first().copied();
    let got = Scope::containing(addr as *const u8);
    match (&got, w) {
        (None, None) => {}
        (Some(g), Some(w)) => {
            ensure!(want.iter().any(|w| Arc::ptr_eq(g, &w.sc)), "an address of scope {} resolved to another scope", w.id);
        }
        (Some(g), None) => {
            let who = live.iter().find(|l| Arc::ptr_eq(&l.sc, g)).map(|l| (l.id, l.removed));
            return Err(format!("an address of no live scope resolved to a scope ({who:?}), range {:?}", g.range().map(|r| r.len())));
        }
        (None, Some(w)) => {
            return Err(format!("offset {} of {} of live scope {} resolved to nothing", addr - w.start, w.data.len(), w.id));
        }
    }
    let t = Scope::find_shared_keys(addr as *const u8);
    let wt = w.and_then(|w| w.table.as_ref());
    ensure!(
        match (&t, wt) {
            (None, None) => true,
            (Some(a), Some(b)) => Arc::ptr_eq(a, b),
            _ => false,
        },
        "find_shared_keys gave {} table, want {}",
        if t.is_some() { "a" } else { "no" },
        if wt.is_some() { "another" } else { "none" }
    );
    Ok(())
}

fn check_live(l: &Live) -> Res {
    let d = l.sc.data().ok_or_else(|| format!("scope {} has no data", l.id))?;
    ensure!(d[..] == l.data[..], "data of scope {} changed", l.id);
    ensure_eq!(l.sc.range(), Some(l.start..l.start + l.data.len()), "range of scope {}", l.id);
    ensure_eq!(d.as_ptr() as usize, l.start, "address of scope {}", l.id);
    match (l.sc.shared_keys(), &l.table) {
        (None, None) => {}
        (Some(a), Some(b)) => ensure!(Arc::ptr_eq(a, b), "scope {} reports another table", l.id),
        _ => return Err(format!("table of scope {}", l.id)),
    }
    match (&l.root, l.sc.root()) {
        (None, None) => {}
        (Some(w), Some(r)) => {
            if l.removed && l.table.is_some() {
                // Keys stored as numbers need the scope to be findable, or the table.
                check_by_access(&r, w, l.table.as_deref(), "$").map_err(|e| format!("root of removed scope {}: {e}", l.id))?;
            } else {
                check_value(&r, w, &format!("root of scope {}", l.id))?;
            }
        }
        (w, r) => return Err(format!("scope {}: root {} but data holds {}", l.id, r.is_some(), w.is_some())),
    }
    Ok(())
}

/// Hundreds or thousands of scopes at once.
fn multitude(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = *s.pick(&[63usize, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 2048, 4097]);
    cx.class("hundreds of scopes");
    cx.note(|| format!("{n} scopes at once"));
    let tables: Vec<Option<Arc<SharedKeys>>> = (0..3)
        .map(|i| {
            (i > 0).then(|| {
                let mut t = SharedKeys::new();
                t.encode_and_insert(["one", "two", "three"][i]);
                Arc::new(t)
            })
        })
        .collect();
    let seed = s.below(1 << 24);
    let mut r = crate::engine::Rng::new(seed);
    let mut live: Vec<Live> = Vec::new();
    let mut old: Vec<(usize, usize)> = Vec::new();
    let mut add = |live: &mut Vec<Live>, id: usize| -> Res {
        let w = r.next();
        let d = D::Arr(vec![D::Int(id as i128), D::Str(format!("scope {id}"))]);
        let mut data = encode(&d, 0)?;
        let mut root = Some(d);
        if w % 7 == 0 {
            data = vec![0x80; (w >> 8) as usize % 60];
            root = None;
        }
        if data.is_empty() {
            data = vec![0x80];
        }
        if let (None, Ok(_)) = (&root, Value::from_bytes(&data)) {
            root = Value::from_bytes(&data).ok().and_then(|v| read(v).ok());
        }
        let table = tables[(w >> 16) as usize % 3].clone();
        let sc = if w & 0x100_0000 == 0 { Scope::new(data.clone(), table.clone()) } else { Scope::new(&data[..], table.clone()) };
        let start = sc.range().ok_or("new scope without a range")?.start;
        live.push(Live { sc, extra: Vec::new(), data, start, table, root, removed: false, id });
        Ok(())
    };
    for id in 0..n {
        add(&mut live, id)?;
        let l = live.last().expect("just made");
        look(l.start, std::slice::from_ref(l))?;
    }
    let mut id = n;
    for round in 0..s.range(1, 4) {
        let all = |live: &[Live], old: &[(usize, usize)], s: &mut Src| -> Res {
            // The model, by address.
            let at: std::collections::BTreeMap<usize, &Live> = live.iter().map(|l| (l.start, l)).collect();
            let near = |a: usize| -> Vec<&Live> { at.range(..=a).next_back().map(|x| *x.1).into_iter().collect() };
            let step = if live.len() > 600 && s.bool() { 7 } else { 1 };
            for l in live.iter().step_by(step) {
                for a in [l.start, l.start + l.data.len() - 1, l.start + l.data.len(), l.start.wrapping_sub(1)] {
                    let w = near(a).into_iter().find(|l| !l.removed && a < l.start + l.data.len());
                    let g = Scope::containing(a as *const u8);
                    match (&g, w) {
                        (None, None) => {}
                        (Some(g), Some(w)) => ensure!(Arc::ptr_eq(g, &w.sc), "an address of scope {} resolved to another scope", w.id),
                        (None, Some(w)) => return Err(format!("an address of live scope {} of {} resolved to nothing", w.id, live.len())),
                        (Some(g), None) => {
                            let who = live.iter().find(|l| Arc::ptr_eq(&l.sc, g)).map(|l| (l.id, l.removed));
                            return Err(format!("an address of no live scope resolved to a scope ({who:?})"));
                        }
                    }
                }
            }
            for l in live.iter().rev().take(40) {
                check_live(l)?;
            }
            for (a, n) in old.iter().rev().take(200) {
                for a in [*a, *a + n / 2] {
                    let w = near(a).into_iter().find(|l| !l.removed && a < l.start + l.data.len());
                    let g = Scope::containing(a as *const u8);
                    ensure!(g.is_some() == w.is_some(), "an address of a scope that has gone resolved to {}", if g.is_some() { "a scope" } else { "nothing" });
                }
            }
            Ok(())
        };
        all(&live, &old, s).map_err(|e| format!("round {round}: {e}"))?;
        cx.sub += live.len() as u64;
        let share = *s.pick(&[1usize, 10, 50, 90, 100]);
        let pick = s.below(3);
        let remove = s.weighted(&[3, 1, 1]);
        let mut k = 0;
        for i in (0..live.len()).rev() {
            k += share;
            let go = match pick {
                0 => k >= 100,
                1 => i * 100 < live.len() * share,
                _ => (live.len() - 1 - i) * 100 < live.len() * share,
            };
            if go {
                k = 0;
                if remove == 1 || (remove == 2 && i % 2 == 0) {
                    live[i].sc.remove();
                    live[i].removed = true;
                } else {
                    let l = if s.chance(1, 2) { live.swap_remove(i) } else { live.remove(i) };
                    old.push((l.start, l.data.len()));
                }
            }
        }
        all(&live, &old, s).map_err(|e| format!("round {round}, after some ended: {e}"))?;
        for _ in 0..s.usize(n / 2 + 1) {
            add(&mut live, id)?;
            id += 1;
        }
    }
    cx.nontrivial(mix(n as u64, seed));
    Ok(())
}

fn c12(s: &mut Src, cx: &mut Ctx) -> Res {
    if s.chance(1, 300) {
        return multitude(s, cx);
    }
    let mut live: Vec<Live> = Vec::new();
    let mut old: Vec<(usize, usize)> = Vec::new();
    // Roots kept after their scope has gone (which keep its memory).
    let mut kept: Vec<(AllocedValue, D, Option<Arc<SharedKeys>>)> = Vec::new();
    // Data of scopes which are gone.
    let mut spare: Vec<(Arc<[u8]>, Option<D>, Option<Arc<SharedKeys>>)> = Vec::new();
    let mut n = 0;
    let mut next_id = 0;
    let mut hist = 0u64;
    let (mut created, mut ended, mut after) = (0, 0, 0);
    let mean = *s.pick(&[8u64, 20, 40]);
    while s.more(n, mean, 120) {
        n += 1;
        let op = s.weighted(&[8, 4, 3, 2, 2]);
        hist = mix(hist, op as u64);
        after += usize::from(ended > 0);
        match op {
            _ if live.is_empty() || op == 0 => {
                let table = match s.below(3) {
                    0 => None,
                    1 => {
                        let mut t = SharedKeys::new();
                        for _ in 0..s.usize(6) {
                            t.encode_and_insert(&gen::key(s, 16));
                        }
                        Some(Arc::new(t))
                    }
                    // Another scope's table.
                    _ => live.get(s.usize(live.len().max(1))).and_then(|l| l.table.clone()),
                };
                let sc;
                let (mut data, mut root);
                let how = s.below(6);
                let mut table = table;
                // The data of a scope which is there, was removed, or is gone.
                let held: Vec<usize> = (0..live.len()).filter(|i| !live[*i].data.is_empty()).collect();
                let again = if how < 5 {
                    None
                } else if let (true, false) = (s.bool(), held.is_empty()) {
                    let l = &live[*s.pick(&held)];
                    cx.class(if l.removed { "data of a removed scope in a new scope" } else { "two scopes over the same data" });
                    Some((l.sc.data().ok_or("no data")?, l.root.clone(), l.table.clone()))
                } else if !spare.is_empty() {
                    let i = s.usize(spare.len());
                    cx.class("data of a dropped scope in a new scope");
                    Some(spare.swap_remove(i))
                } else {
                    None
                };
                if let Some((arc, r, t)) = again {
                    data = arc.to_vec();
                    root = r;
                    table = t;
                    sc = Scope::new(arc, table.clone());
                } else if how == 4 {
                    // From the encoder.
                    let d = gen::doc_with(s, gen::Cfg { nodes: 8, depth: 2, max_len: 40, wide_counts: false, bytes: 100 });
                    let mut e = Encoder::new();
                    let with = s.usize(3);
                    if with > 0 {
                        let mut t = SharedKeys::new();
                        for _ in 1..with {
                            t.encode_and_insert(&gen::key(s, 16));
                        }
                        e.set_shared_keys(t);
                    }
                    write_doc(&mut e, &d, 0)?;
                    sc = e.finish_scoped();
                    // (Even a table without keys is the scope's.)
                    ensure_eq!(sc.shared_keys().is_some(), with > 0, "an encoder's scope has a table exactly if the encoder had one");
                    table = sc.shared_keys().cloned();
                    data = sc.data().ok_or("no data")?.to_vec();
                    root = Some(d);
                } else {
                    (data, root) = scope_data(s, table.as_deref());
                    if s.chance(1, 8) && !data.is_empty() {
                        let keep = s.usize(data.len());
                        data.truncate(keep);
                        root = None;
                        if let Ok(v) = Value::from_bytes(&data) {
                            // (what is left is a document by chance)
                            root = if data.len() < 400 { read(v).ok().filter(|_| table.is_none()) } else { None };
                            if root.is_none() {
                                data.clear();
                            }
                        }
                    } else if root.is_none() {
                        if let Ok(v) = Value::from_bytes(&data) {
                            root = read(v).ok().filter(|_| table.is_none());
                            if root.is_none() {
                                data.clear();
                            }
                        }
                    }
                    sc = match how {
                        0 => Scope::new(data.clone(), table.clone()),
                        1 => Scope::new(data.clone().into_boxed_slice(), table.clone()),
                        2 => Scope::new(&data[..], table.clone()),
                        3 if s.bool() => {
                            // A conversion that uses scopes itself, or gives up.
                            let odd = Odd { data: data.clone(), panics: s.chance(1, 3) };
                            if odd.panics {
                                let t = table.clone();
                                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || Scope::new(odd, t)));
                                ensure!(r.is_err(), "a panic was swallowed");
                                cx.class("conversion panicked");
                                continue;
                            }
                            cx.class("conversion used scopes");
                            Scope::new(odd, table.clone())
                        }
                        _ => Scope::new(Arc::<[u8]>::from(&data[..]), table.clone()),
                    };
                }
                let start = sc.range().ok_or("new scope without a range")?.start;
                cx.note(|| format!("scope {next_id}: {} bytes, table {}, root {}", data.len(), table.is_some(), root.is_some()));
                hist = mix(hist, hash_bytes(&data));
                cx.class_if(data.is_empty(), "empty data");
                cx.class_if(root.is_none() && !data.is_empty(), "invalid data");
                cx.class_if(old.iter().any(|(a, l)| *a < start + data.len() && start < *a + *l), "memory of an earlier scope used again");
                live.push(Live { sc, extra: Vec::new(), data, start, table, root, removed: false, id: next_id });
                next_id += 1;
                created += 1;
            }
            1 => {
                let i = s.usize(live.len());
                let l = &mut live[i];
                if l.extra.is_empty() || s.bool() {
                    let l = live.swap_remove(i);
                    cx.note(|| format!("drop scope {}", l.id));
                    if let (Some(d), true) = (&l.root, s.chance(1, 4)) {
                        // Its root lives on: the memory stays, the scope does not.
                        kept.push((l.sc.root().ok_or("no root")?, d.clone(), l.table.clone()));
                        cx.class("root kept past its scope");
                    }
                    if !l.data.is_empty() && s.chance(1, 3) {
                        spare.push((l.sc.data().ok_or("no data")?, l.root.clone(), l.table.clone()));
                    }
                    old.push((l.start, l.data.len()));
                    ended += 1;
                } else {
                    l.extra.pop();
                    cx.note(|| format!("drop one handle of scope {}", l.id));
                }
            }
            2 => {
                let i = s.usize(live.len());
                let l = &mut live[i];
                cx.note(|| format!("remove scope {}", l.id));
                l.sc.remove();
                l.removed = true;
                ended += 1;
            }
            3 => {
                let i = s.usize(live.len());
                let l = &mut live[i];
                cx.note(|| format!("another handle of scope {}", l.id));
                l.extra.push(l.sc.clone());
            }
            _ => {
                if !kept.is_empty() {
                    let i = s.usize(kept.len());
                    kept.swap_remove(i);
                }
            }
        }
        // Look around.
        for (i, l) in live.iter().enumerate() {
            let mut at: Vec<usize> = vec![l.start, l.start.wrapping_sub(1), l.start + l.data.len()];
            if !l.data.is_empty() {
                at.push(l.start + l.data.len() - 1);
                at.push(l.start + l.data.len() / 2);
                at.push(l.start + s.usize(l.data.len()));
            }
            for a in at {
                look(a, &live)?;
                cx.sub += 1;
            }
            if i == live.len() - 1 || s.chance(1, 4) {
                check_live(l)?;
            }
        }
        for _ in 0..3.min(old.len()) {
            let (a, n) = old[s.usize(old.len())];
            look(a, &live)?;
            look(a + n / 2, &live)?;
            look((a + n).wrapping_sub(1), &live)?;
        }
        for (v, d, t) in &kept {
            // (The scope is gone, so its data is in no scope.)
            look(std::ptr::from_ref(v.value()).cast::<u8>() as usize, &live)?;
            check_by_access(v, d, t.as_deref(), "$").map_err(|e| format!("kept root: {e}"))?;
        }
        let local = 0u8;
        for a in [0usize, 1, usize::MAX, usize::MAX - 1, std::ptr::from_ref(&local) as usize, live.as_ptr() as usize] {
            look(a, &live)?;
        }
        if let Some(l) = live.last() {
            // A copy of the data is not the data.
            look(l.data.as_ptr() as usize, &live)?;
        }
    }
    for l in &live {
        check_live(l)?;
        for m in &live {
            let same_data = l.id != m.id && l.start == m.start;
            if l.id == m.id || (!same_data && (!l.data.is_empty() || !m.data.is_empty())) {
                ensure_eq!(*l.sc == *m.sc, l.id == m.id, "scope {} == scope {}", l.id, m.id);
            }
        }
    }
    cx.class_if(live.iter().any(|l| l.removed), "removed scope");
    if created >= 3 && ended >= 1 && after >= 2 {
        cx.nontrivial(hist);
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

pub const C13: Prop = Prop {
    id: "C13",
    check: c13,
    quick: 40_000,
    thorough: 1_500_000,
    rule: "a case starts two to eight (rarely up to 72) threads at once, each running its own generated program of creating, looking up, reading (with shared keys), removing and dropping scopes and owned values, some of them shared by all threads or handed from one to the next, each against its own sequential model; every thread must see only what it would see alone, and the registry must work afterwards; non-trivial: at least 3 threads and 60 operations; distinct by the programs (the interleaving is the operating system's)",
    configs: &["chk", "rel"],
};

struct Doc {
    bytes: Vec<u8>,
    d: D,
    table: Option<Arc<SharedKeys>>,
    /// For scopes of several threads over the same memory.
    common: Arc<[u8]>,
}

enum Op {
    Create(usize),
    CreateCommon(usize),
    CreateRaw(Vec<u8>),
    CreateEncoded(usize),
    Drop(usize),
    Remove(usize),
    Look(usize, usize),
    Read(usize),
    ReadShared(usize),
    KeepRoot(usize),
    DropRoot(usize),
    Probe,
    CloneValue(usize),
    Mutable(usize),
}

struct Mine {
    sc: Arc<Scope>,
    doc: Option<usize>,
    len: usize,
    removed: bool,
    /// There may be other scopes over its memory.
    common: bool,
}

fn thread_body(ops: &[Op], docs: &[Doc], shared: &[(Arc<Scope>, usize)], handed: Vec<AllocedValue>) -> Res {
    let mut mine: Vec<Mine> = Vec::new();
    let mut roots: Vec<(AllocedValue, usize)> = Vec::new();
    let mut handed = handed;
    for op in ops {
        match op {
            Op::Create(i) => {
                let doc = &docs[*i];
                let sc = Scope::new(doc.bytes.clone(), doc.table.clone());
                mine.push(Mine { sc, doc: Some(*i), len: doc.bytes.len(), removed: false, common: false });
            }
            Op::CreateCommon(i) => {
                let doc = &docs[*i];
                let sc = Scope::new(doc.common.clone(), doc.table.clone());
                mine.push(Mine { sc, doc: Some(*i), len: doc.bytes.len(), removed: false, common: true });
            }
            Op::CreateRaw(b) => {
                let sc = Scope::new(&b[..], None);
                mine.push(Mine { sc, doc: None, len: b.len(), removed: false, common: false });
            }
            Op::CreateEncoded(i) => {
                let mut e = Encoder::new();
                e.set_shared_keys(SharedKeys::new());
                write_doc(&mut e, &docs[*i].d, 0)?;
                let sc = e.finish_scoped();
                let root = sc.root().ok_or("encoded scope without a root")?;
                check_value(&root, &docs[*i].d, "document encoded in this thread")?;
                let t = sc.shared_keys().ok_or("encoded scope without a table")?;
                let found = Scope::find_shared_keys(sc.data().ok_or("no data")?.as_ptr()).ok_or("the table of an encoded scope is not found")?;
                ensure!(Arc::ptr_eq(t, &found), "the table of an encoded scope is another one");
                roots.push((root, usize::MAX));
                let len = sc.data().ok_or("no data")?.len();
                mine.push(Mine { sc, doc: None, len, removed: false, common: false });
            }
            Op::Drop(i) => {
                if !mine.is_empty() {
                    let i = i % mine.len();
                    mine.swap_remove(i);
                }
            }
            Op::Remove(i) => {
                if !mine.is_empty() {
                    let i = i % mine.len();
                    mine[i].sc.remove();
                    mine[i].removed = true;
                }
            }
            Op::Look(i, off) => {
                if !mine.is_empty() {
                    let m = &mine[i % mine.len()];
                    if m.len > 0 {
                        let a = m.sc.range().ok_or("no range")?.start + off % m.len;
                        let got = Scope::containing(a as *const u8);
                        match (m.removed, got) {
                            (_, Some(g)) if m.common => {
                                ensure!(g.range() == m.sc.range(), "own address resolved to a scope of other data");
                                ensure!(!m.removed || !Arc::ptr_eq(&g, &m.sc), "address of a removed scope resolved to it");
                            }
                            (true, None) => {}
                            (false, Some(g)) => ensure!(Arc::ptr_eq(&g, &m.sc), "own address resolved to another scope"),
                            (true, Some(_)) => return Err("address of a removed scope resolved to a scope".into()),
                            (false, None) => return Err("own address resolved to nothing".into()),
                        }
                    } else {
                        ensure!(m.sc.range().ok_or("no range")?.is_empty(), "empty scope has a range");
                    }
                }
            }
            Op::Read(i) => {
                if !mine.is_empty() {
                    let m = &mine[i % mine.len()];
                    if let Some(j) = m.doc {
                        let doc = &docs[j];
                        let root = m.sc.root().ok_or("own scope lost its root")?;
                        if m.removed {
                            let none = SharedKeys::new();
                            check_by_access(&root, &doc.d, Some(doc.table.as_deref().unwrap_or(&none)), "$")?;
                        } else {
                            check_value(&root, &doc.d, "own document")?;
                        }
                        ensure!(m.sc.data().ok_or("no data")?[..] == doc.bytes[..], "own data changed");
                    }
                }
            }
            Op::ReadShared(i) => {
                if !shared.is_empty() {
                    let (sc, j) = &shared[i % shared.len()];
                    let doc = &docs[*j];
                    let r = sc.range().ok_or("shared scope without a range")?;
                    for a in [r.start, r.end - 1, r.start + i % r.len()] {
                        let g = Scope::containing(a as *const u8).ok_or("an address of a shared scope resolved to nothing")?;
                        ensure!(Arc::ptr_eq(&g, sc), "an address of a shared scope resolved to another scope");
                        match (Scope::find_shared_keys(a as *const u8), &doc.table) {
                            (None, None) => {}
                            (Some(a), Some(b)) => ensure!(Arc::ptr_eq(&a, b), "a shared scope's table is another one"),
                            _ => return Err("a shared scope's table".into()),
                        }
                    }
                    let root = sc.root().ok_or("shared scope lost its root")?;
                    check_value(&root, &doc.d, "shared document")?;
                    if let Some(t) = &doc.table {
                        check_by_access(&root, &doc.d, Some(t), "$")?;
                    }
                }
            }
            Op::KeepRoot(i) => {
                if !mine.is_empty() {
                    let m = &mine[i % mine.len()];
                    if let (Some(j), Some(r)) = (m.doc, m.sc.root()) {
                        roots.push((r, j));
                    }
                }
            }
            Op::DropRoot(i) => {
                if !roots.is_empty() {
                    let i = i % roots.len();
                    let (r, j) = roots.swap_remove(i);
                    if j != usize::MAX {
                        let none = SharedKeys::new();
                        check_by_access(&r, &docs[j].d, Some(docs[j].table.as_deref().unwrap_or(&none)), "$").map_err(|e| format!("kept root: {e}"))?;
                    }
                } else {
                    handed.pop();
                }
            }
            Op::Probe => {
                let local = 0u8;
                ensure!(Scope::containing(std::ptr::from_ref(&local)).is_none(), "a stack address resolved to a scope");
                ensure!(Scope::containing(std::ptr::null()).is_none(), "the null address resolved to a scope");
            }
            Op::CloneValue(i) => {
                if !shared.is_empty() {
                    let (sc, j) = &shared[i % shared.len()];
                    let r = sc.root().ok_or("no root")?;
                    let c = r.clone();
                    drop(r);
                    check_value(&c, &docs[*j].d, "cloned shared root")?;
                }
            }
            Op::Mutable(i) => {
                if !shared.is_empty() {
                    let (sc, j) = &shared[i % shared.len()];
                    let r = sc.root().ok_or("no root")?;
                    let got = match (r.as_array(), r.as_dict()) {
                        (Some(a), _) => read_mut_array(&a.to_mutable())?,
                        (_, Some(d)) => read_mut_dict(&d.to_mutable())?,
                        _ => return Err("root of no kind".into()),
                    };
                    same(&got, &docs[*j].d, "mutable copy of a shared document")?;
                }
            }
        }
    }
    for m in &mine {
        if m.len > 0 {
            let a = m.sc.range().ok_or("no range")?.start;
            let g = Scope::containing(a as *const u8);
            ensure!(g.is_some() != m.removed || (m.removed && m.common), "own scope found: {}, removed: {}", g.is_some(), m.removed);
        }
    }
    Ok(())
}

fn c13(s: &mut Src, cx: &mut Ctx) -> Res {
    let (nt, per) = if s.chance(1, 150) {
        // More threads than anything is striped over.
        (s.range(9, 72), *s.pick(&[3usize, 10, 40]))
    } else {
        (s.range(2, 8), *s.pick(&[10usize, 40, 120]))
    };
    let ndocs = s.range(1, 5);
    let mut docs = Vec::new();
    for _ in 0..ndocs {
        let d = gen::dict_doc(s, gen::Cfg { nodes: 12, depth: 3, max_len: 40, wide_counts: false, bytes: 300 });
        if s.bool() {
            let h = forms::hold_shared(s, &d, 0)?;
            docs.push(Doc { common: Arc::from(h.data()), bytes: h.data(), d, table: h.table });
        } else {
            let bytes = encode(&d, 0)?;
            docs.push(Doc { common: Arc::from(&bytes[..]), bytes, d, table: None });
        }
    }
    let mut programs: Vec<Vec<Op>> = Vec::new();
    let mut hist = 0;
    let common = s.chance(1, 3);
    cx.class_if(common, "scopes of several threads over the same data");
    for _ in 0..nt {
        let mut v = Vec::new();
        // Tight loops on the registry, or everything.
        let ws: [u32; 13] = *s.pick(&[
            [6, 2, 2, 4, 2, 6, 3, 5, 2, 2, 1, 2, 2],
            [8, 2, 1, 8, 1, 8, 1, 2, 0, 0, 0, 0, 0],
            [6, 6, 0, 2, 8, 8, 0, 2, 0, 0, 1, 0, 0],
            [1, 0, 0, 1, 0, 1, 1, 10, 0, 0, 0, 2, 2],
        ]);
        for _ in 0..per {
            let k = s.weighted(&ws);
            let x = s.usize(1 << 12);
            hist = mix(hist, mix(k as u64, x as u64));
            v.push(match k {
                0 if common && x & 0x800 != 0 => Op::CreateCommon(x % ndocs),
                0 => Op::Create(x % ndocs),
                1 => Op::CreateRaw(vec![x as u8 & 0x0f; x % 40]),
                2 => Op::CreateEncoded(x % ndocs),
                3 => Op::Drop(x),
                4 => Op::Remove(x),
                5 => Op::Look(x, x / 7),
                6 => Op::Read(x),
                7 => Op::ReadShared(x),
                8 => Op::KeepRoot(x),
                9 => Op::DropRoot(x),
                10 => Op::Probe,
                11 => Op::CloneValue(x),
                _ => Op::Mutable(x),
            });
        }
        programs.push(v);
    }
    let nshared = s.usize(4);
    let shared: Vec<(Arc<Scope>, usize)> = (0..nshared).map(|i| (Scope::new(docs[i % ndocs].bytes.clone(), docs[i % ndocs].table.clone()), i % ndocs)).collect();
    cx.note(|| format!("{nt} threads of {per} operations over {ndocs} documents, {nshared} shared scopes"));
    let barrier = Barrier::new(nt);
    let mut handed: Vec<Vec<AllocedValue>> = (0..nt).map(|i| shared.iter().take(i % 3).filter_map(|x| x.0.root()).collect()).collect();
    // Handles that end in one of the threads, on any schedule.
    let results: Vec<Result<Res, String>> = std::thread::scope(|sc| {
        let mut hs = Vec::new();
        for p in &programs {
            let (docs, shared, barrier) = (&docs, &shared, &barrier);
            let h = handed.pop().unwrap_or_default();
            hs.push(sc.spawn(move || {
                barrier.wait();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| thread_body(p, docs, shared, h)));
                r.map_err(|_| format!("panic: {}", crate::engine::take_panic()))
            }));
        }
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    for (i, r) in results.into_iter().enumerate() {
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) | Err(e) => return Err(format!("thread {i}: {e}")),
        }
    }
    // The registry still works.
    for (sc, j) in &shared {
        let a = sc.range().ok_or("no range")?.start;
        ensure!(Scope::containing(a as *const u8).is_some_and(|g| Arc::ptr_eq(&g, sc)), "a shared scope is not found after the threads ended");
        check_value(&sc.root().ok_or("no root")?, &docs[*j].d, "shared document after the threads ended")?;
        sc.remove();
        ensure!(Scope::containing(a as *const u8).is_none(), "a removed scope is found after the threads ended");
    }
    let sc = Scope::new(docs[0].bytes.clone(), docs[0].table.clone());
    check_value(&sc.root().ok_or("no root")?, &docs[0].d, "document created after the threads ended")?;
    cx.class_if(nt >= 6, "6 or more threads");
    cx.class_if(nt > 8, "more than 8 threads");
    cx.class_if(nshared > 0, "scopes shared by all threads");
    cx.sub += (nt * per) as u64;
    if nt >= 3 && nt * per >= 60 {
        cx.nontrivial(hist);
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

pub const C14: Prop = Prop {
    id: "C14",
    check: c14,
    quick: 600_000,
    thorough: 20_000_000,
    rule: "a case is a history over owned values, arrays and dictionaries made from bytes (checked, unchecked, typed), the encoder, scopes and empties: cloning, converting (rightly and wrongly), reading, overwriting and freeing the source, dropping scopes and handles in any order and in other threads; an allocator watch tells when each document's memory is freed; non-trivial: at least two handles of one document with a source or handle dropped before a later read; distinct by the history",
    configs: &["chk", "rel", "asan"],
};

enum H {
    V(AllocedValue),
    A(AllocedArray),
    Di(AllocedDict),
}
impl H {
    fn value(&self) -> usize {
        match self {
            H::V(v) => std::ptr::from_ref(v.value()).cast::<u8>() as usize,
            H::A(v) => std::ptr::from_ref(v.value()).cast::<u8>() as usize,
            H::Di(v) => std::ptr::from_ref(v.value()).cast::<u8>() as usize,
        }
    }
}

struct Doc14 {
    d: D,
    handles: Vec<H>,
    scope: Option<Arc<Scope>>,
    weak: Option<Weak<[u8]>>,
    table: Option<Arc<SharedKeys>>,
    watch: Option<usize>,
    /// The memory is a constant of the crate.
    constant: bool,
}

fn read_handle(h: &H, x: &Doc14) -> Res {
    let d = &x.d;
    if x.table.is_some() && x.scope.is_none() {
        // Keys stored as numbers need the table, once the scope has gone.
        let t = x.table.as_deref();
        return match h {
            H::V(v) => check_by_access(v, d, t, "$"),
            H::A(a) => match d {
                D::Arr(w) => {
                    ensure_eq!(a.len(), w.len(), "length");
                    for (i, y) in w.iter().enumerate() {
                        check_by_access(a.get(i).ok_or("lost element")?, y, t, "$")?;
                    }
                    Ok(())
                }
                _ => Err("an owned array of something else".into()),
            },
            H::Di(a) => match d {
                D::Dict(w) => {
                    ensure_eq!(a.len(), w.len(), "length");
                    for (k, y) in w {
                        check_by_access(a.get_with_shared_keys(k.as_str(), t.unwrap()).ok_or("lost key")?, y, t, "$")?;
                    }
                    Ok(())
                }
                _ => Err("an owned dictionary of something else".into()),
            },
        };
    }
    match h {
        H::V(v) => check_value(v, d, "owned value"),
        H::A(a) => same(&read_array(a)?, d, "owned array"),
        H::Di(a) => same(&read_dict(a)?, d, "owned dictionary"),
    }
}

fn c14(s: &mut Src, cx: &mut Ctx) -> Res {
    watch::clear();
    let r = c14_run(s, cx);
    watch::clear();
    r
}

fn c14_run(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut docs: Vec<Doc14> = Vec::new();
    let mut hist = 0u64;
    let (mut dropped, mut late_reads, mut many) = (false, false, false);
    let mean = *s.pick(&[8u64, 20, 40]);
    let mut n = 0;
    while s.more(n, mean, 100) {
        n += 1;
        let op = s.weighted(&[4, 6, 5, 6, 6, 2, 2, 2]);
        hist = mix(hist, op as u64);
        if docs.is_empty() || (op == 0 && docs.len() < 8) {
            // A new document.
            let d = gen::doc_with(s, gen::Cfg { nodes: 14, depth: 3, max_len: 150, wide_counts: false, bytes: 500 });
            let style = gen::style(s);
            let how = s.usize(8);
            let mut x = Doc14 { d, handles: Vec::new(), scope: None, weak: None, table: None, watch: None, constant: false };
            match how {
                0..=3 => {
                    let mut b = encode(&x.d, style)?;
                    let h = match (how, &x.d) {
                        (0, _) => H::V(Value::clone_from_bytes(&b).map_err(|e| format!("{e:?}"))?),
                        (1, _) => H::V(unsafe { Value::clone_from_bytes_unchecked(&b) }),
                        (_, D::Arr(_)) => {
                            ensure!(Dict::clone_from_bytes(&b).is_err(), "Dict::clone_from_bytes of an array");
                            H::A(Array::clone_from_bytes(&b).map_err(|e| format!("{e:?}"))?)
                        }
                        _ => {
                            ensure!(Array::clone_from_bytes(&b).is_err(), "Array::clone_from_bytes of a dictionary");
                            H::Di(Dict::clone_from_bytes(&b).map_err(|e| format!("{e:?}"))?)
                        }
                    };
                    // The source goes, with other content in its place.
                    let fill = s.below(256) as u8;
                    b.iter_mut().for_each(|y| *y = fill);
                    drop(b);
                    x.handles.push(h);
                }
                4 => {
                    let mut e = Encoder::new();
                    write_doc(&mut e, &x.d, style)?;
                    x.handles.push(H::V(e.finish_value()));
                }
                5 if s.chance(1, 4) => {
                    x.constant = true;
                    if s.bool() {
                        x.d = D::Arr(vec![]);
                        x.handles.push(H::A(AllocedArray::empty()));
                    } else {
                        x.d = D::Dict(vec![]);
                        x.handles.push(H::Di(AllocedDict::empty()));
                    }
                }
                _ => {
                    let sc = if s.bool() {
                        let mut e = Encoder::new();
                        let mut keys = Vec::new();
                        forms::all_keys(&x.d, &mut keys);
                        if s.chance(2, 3) {
                            let mut t = SharedKeys::new();
                            keys.iter().take(3).for_each(|k| {
                                t.encode_and_insert(k);
                            });
                            e.set_shared_keys(t);
                        }
                        write_doc(&mut e, &x.d, style)?;
                        e.finish_scoped()
                    } else {
                        Scope::new(encode(&x.d, style)?, None)
                    };
                    x.table = sc.shared_keys().cloned();
                    let data = sc.data().ok_or("no data")?;
                    // (A weak handle keeps the allocation, which then can't be watched.)
                    x.weak = s.bool().then(|| Arc::downgrade(&data));
                    x.handles.push(H::V(sc.root().ok_or("no root")?));
                    x.scope = Some(sc);
                }
            }
            if !x.constant && x.weak.is_none() {
                x.watch = watch::watch(x.handles[0].value());
            }
            cx.note(|| format!("document {} (made by {how}): {}", docs.len(), x.d.show()));
            hist = mix(hist, x.d.fp());
            docs.push(x);
            continue;
        }
        let i = s.usize(docs.len());
        let x = &mut docs[i];
        match op {
            0 | 1 => {
                // Another handle.
                if let (Some(sc), true) = (&x.scope, s.bool()) {
                    let r = sc.root().ok_or("scope lost its root")?;
                    x.handles.push(H::V(r));
                } else if !x.handles.is_empty() {
                    let j = s.usize(x.handles.len());
                    // (Sometimes a crowd of them, of which any may be the last.)
                    let more = if s.chance(1, 500) {
                        cx.class("a crowd of handles");
                        *s.pick(&[40usize, 300, 1100, 3000])
                    } else {
                        1
                    };
                    for k in 0..more {
                        let h = match &x.handles[if more > 1 { (j + 7 * k) % x.handles.len() } else { j }] {
                            H::V(v) => H::V(v.clone()),
                            H::A(v) => H::A(v.clone()),
                            H::Di(v) => H::Di(v.clone()),
                        };
                        x.handles.push(h);
                    }
                    if more > 1 {
                        // Most of them go.
                        let keep = s.range(1, 5);
                        while x.handles.len() > keep {
                            let j = s.usize(x.handles.len());
                            x.handles.swap_remove(j);
                        }
                        dropped = true;
                    }
                }
                many |= x.handles.len() >= 2;
                cx.note(|| format!("document {i}: now {} handles", x.handles.len()));
            }
            2 => {
                // Convert.
                if !x.handles.is_empty() {
                    let j = s.usize(x.handles.len());
                    let h = x.handles.swap_remove(j);
                    match h {
                        H::V(v) => {
                            let to_array = s.bool();
                            cx.note(|| format!("document {i}: handle to {}", if to_array { "array" } else { "dictionary" }));
                            let is_array = matches!(x.d, D::Arr(_));
                            if to_array {
                                match v.to_array() {
                                    Some(a) => {
                                        ensure!(is_array, "to_array of a dictionary gave an array");
                                        x.handles.push(H::A(a));
                                    }
                                    None => ensure!(!is_array, "to_array of an array gave nothing"),
                                }
                            } else {
                                match v.to_dict() {
                                    Some(a) => {
                                        ensure!(!is_array, "to_dict of an array gave a dictionary");
                                        x.handles.push(H::Di(a));
                                    }
                                    None => ensure!(is_array, "to_dict of a dictionary gave nothing"),
                                }
                            }
                        }
                        h => x.handles.push(h),
                    }
                }
            }
            3 => {
                if !x.handles.is_empty() {
                    let j = s.usize(x.handles.len());
                    late_reads |= dropped;
                    read_handle(&x.handles[j], x).map_err(|e| format!("document {i}: {e}"))?;
                }
            }
            4 => {
                // Drop a handle, here or in another thread.
                if !x.handles.is_empty() {
                    let j = s.usize(x.handles.len());
                    let h = x.handles.swap_remove(j);
                    cx.note(|| format!("document {i}: drop a handle, {} left", x.handles.len()));
                    dropped = true;
                    if s.chance(1, 20) {
                        let boxed = Send1(h);
                        std::thread::spawn(move || {
                            let b = boxed;
                            drop(b);
                        })
                        .join()
                        .map_err(|_| "dropping in a thread panicked")?;
                        cx.class("dropped in another thread");
                    }
                }
            }
            5 => {
                if let Some(sc) = x.scope.take() {
                    cx.note(|| format!("document {i}: drop its scope"));
                    if s.bool() {
                        sc.remove();
                    }
                    dropped = true;
                    cx.class_if(!x.handles.is_empty(), "values outlive their scope");
                }
            }
            7 => {
                // Handles are the same exactly if the values they refer to are.
                let j = s.usize(docs.len());
                let (a, b) = (&docs[i], &docs[j]);
                if !a.handles.is_empty() && !b.handles.is_empty() {
                    let (g, h) = (&a.handles[s.usize(a.handles.len())], &b.handles[s.usize(b.handles.len())]);
                    cx.class_if(compare(g, h)?, "compared handles");
                }
                if let (Some(p), Some(q)) = (&a.scope, &b.scope) {
                    if p.data().is_some() && q.data().is_some() {
                        ensure!((**p == **q) == (i == j), "scopes of documents {i} and {j}: equal is {}", **p == **q);
                    }
                }
            }
            _ => {
                // Allocate over whatever was freed.
                let junk: Vec<Vec<u8>> = (0..4).map(|k| vec![0xEE; 40 + 64 * k]).collect();
                drop(junk);
            }
        }
        for (i, x) in docs.iter().enumerate() {
            let held = !x.handles.is_empty() || x.scope.is_some();
            if let Some(w) = x.watch {
                ensure!(watch::freed(w) != held, "document {i}: memory freed: {}, still held: {held} ({} handles, scope {})", watch::freed(w), x.handles.len(), x.scope.is_some());
            }
            if let Some(w) = &x.weak {
                ensure!(w.upgrade().is_some() == held, "document {i}: data alive: {}, still held: {held}", w.upgrade().is_some());
            }
        }
    }
    for (i, x) in docs.iter().enumerate() {
        for h in &x.handles {
            read_handle(h, x).map_err(|e| format!("document {i} at the end: {e}"))?;
        }
    }
    for (i, mut x) in docs.into_iter().enumerate() {
        if s.bool() {
            x.scope = None;
            x.handles.clear();
        } else {
            x.handles.clear();
            x.scope = None;
        }
        if let Some(w) = x.watch {
            ensure!(watch::freed(w), "document {i}: memory not released with its last handle");
        }
        if let Some(w) = &x.weak {
            ensure!(w.upgrade().is_none(), "document {i}: data not released with its last handle");
        }
    }
    if dropped && late_reads && many {
        cx.nontrivial(hist);
    }
    let _ = clip("");
    Ok(())
}

/// Whether the two are of one kind; if so, their comparison has to follow the addresses of their values.
fn compare(g: &H, h: &H) -> Result<bool, String> {
    fn each<T: ?Sized>(a: &Alloced<T>, b: &Alloced<T>) -> Res {
        let at = |x: &Alloced<T>| std::ptr::from_ref(x.value()).cast::<u8>() as usize;
        let by_deref: &T = a;
        let by_ref: &T = a.as_ref();
        let borrowed: &T = std::borrow::Borrow::borrow(a);
        for (p, how) in [(by_deref, "dereferenced"), (by_ref, "as_ref"), (borrowed, "borrowed")] {
            ensure!(std::ptr::from_ref(p).cast::<u8>() as usize == at(a), "handle {how} gives another value");
            ensure!(std::mem::size_of_val(p) == std::mem::size_of_val(a.value()), "handle {how} gives a value of another length");
        }
        let same = at(a) == at(b);
        ensure!((a == b) == same && (a != b) != same && (b == a) == same, "handles to {} value: == is {}, != is {}", if same { "one" } else { "another" }, a == b, a != b);
        let (o, r) = (a.cmp(b), b.cmp(a));
        ensure!(o.is_eq() == same, "handles to {} value: cmp is {o:?}", if same { "one" } else { "another" });
        ensure!(o == r.reverse(), "cmp is {o:?} one way, {r:?} the other");
        ensure!(a.partial_cmp(b) == Some(o) && (a < b) == o.is_lt() && (a >= b) == o.is_ge(), "partial_cmp is {:?}, cmp is {o:?}", a.partial_cmp(b));
        Ok(())
    }
    match (g, h) {
        (H::V(a), H::V(b)) => each(a, b)?,
        (H::A(a), H::A(b)) => each(a, b)?,
        (H::Di(a), H::Di(b)) => each(a, b)?,
        _ => return Ok(false),
    }
    Ok(true)
}

struct Send1(#[allow(dead_code)] H);
unsafe impl Send for Send1 {}

/// Keys iterated from an owned dictionary are `&str` with the lifetime of the handle, but point
/// into the scope's table.
pub fn probe_dangling_key() -> i32 {
    let mut e = Encoder::new();
    e.set_shared_keys(SharedKeys::new());
    e.begin_dict().unwrap();
    e.write_key("shared_key").unwrap();
    e.write_value(1).unwrap();
    e.end_dict().unwrap();
    let sc = e.finish_scoped();
    let owned = sc.root().unwrap().to_dict().unwrap();
    let key: &str = owned.iter().next().unwrap().0;
    drop(sc);
    // `owned` is alive, and so is the borrow of it.
    let sum: u32 = key.bytes().map(u32::from).sum();
    let want: u32 = "shared_key".bytes().map(u32::from).sum();
    i32::from(sum != want)
}
