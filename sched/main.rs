//! C13 under Miri: a small concurrent program over scopes, given as text (see ../sched.py).
//!
//! phases are separated by '/', the threads of a phase by '|'; what comes first in a phase is the
//! kind of each scope the threads share ('a': array, 'k': dictionary with a shared-key table).
use fleece::{Encoder, Scope, SharedKeys};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::Arc;

static NEXT_ID: AtomicU32 = AtomicU32::new(1);

struct Doc {
    id: u32,
    kind: u8,
    addr: usize,
    len: usize,
    removed: AtomicBool,
    has_owner: bool,
    will_drop: bool,
}

fn make(kind: u8) -> (Doc, Arc<Scope>) {
    let id = NEXT_ID.fetch_add(1, Ordering::Relaxed);
    let mut e = Encoder::new();
    if kind == b'k' {
        e.set_shared_keys(SharedKeys::new());
        e.begin_dict().unwrap();
        e.write_key("id").unwrap();
        e.write_value(id).unwrap();
        e.write_key(&format!("t{id}")).unwrap();
        e.write_value(format!("text {id}").as_str()).unwrap();
        e.end_dict().unwrap();
    } else {
        e.begin_array(2).unwrap();
        e.write_value(id).unwrap();
        e.write_value(format!("text {id}").as_str()).unwrap();
        e.end_array().unwrap();
    }
    let s = e.finish_scoped();
    // folklore frees a table under another layout than it was allocated with, which Miri refuses
    std::mem::forget(s.shared_keys().cloned());
    let r = s.range().expect("a new scope has a range");
    (Doc { id, kind, addr: r.start, len: r.len(), removed: AtomicBool::new(false), has_owner: false, will_drop: false }, s)
}

/// Read a scope through its handle; the number of the document in it.
fn read(s: &Scope) -> u32 {
    let root = s.root().expect("no root");
    let v = root.value();
    if let Some(a) = v.as_array() {
        let id = a.get(0).expect("no first element").to_int() as u32;
        assert_eq!(a.get(1).expect("no second element").to_str(), format!("text {id}"), "content");
        assert!(s.shared_keys().is_none(), "a table from nowhere");
        id
    } else {
        let d = v.as_dict().expect("neither an array nor a dictionary");
        let t = s.shared_keys().expect("the table is gone");
        let id = d.get_with_shared_keys("id", t).expect("no id").to_int() as u32;
        let k = format!("t{id}");
        assert_eq!(t.decode(1), Some(k.as_str()), "table");
        assert_eq!(d.get_with_shared_keys(k.as_str(), t).expect("no text").to_str(), format!("text {id}"), "content");
        id
    }
}

/// What the address leads to, which must contain the address and be intact.
fn find(addr: usize) -> Option<(Arc<Scope>, u32)> {
    let s = Scope::containing(addr as *const u8)?;
    let id = read(&s);
    let r = s.range().expect("no range");
    assert!(r.contains(&addr), "the scope found for {addr:#x} has the range {r:x?}");
    Some((s, id))
}

/// The registered scope of this document, seen through its addresses.
fn registered(d: &Doc, at: usize) {
    let (_, id) = find(d.addr + at % d.len).expect("a live scope was not found");
    assert_eq!(id, d.id, "another scope was found");
    let t = Scope::find_shared_keys((d.addr + at % d.len) as *const u8);
    assert_eq!(t.is_some(), d.kind == b'k', "table by address");
    if let Some(t) = t {
        assert_eq!(t.decode(1), Some(format!("t{id}").as_str()), "table by address");
    }
}

/// Reads that look the table up by themselves.
fn read_by_lookup(d: &Doc, s: &Scope) {
    if d.kind == b'k' {
        let root = s.root().expect("no root");
        let dict = root.value().as_dict().expect("a dictionary");
        assert_eq!(dict.get("id").map(|v| v.to_int()), Some(i64::from(d.id)), "lookup by key");
        let keys: Vec<String> = dict.iter().map(|(k, _)| k.to_string()).collect();
        assert_eq!(keys, ["id".to_string(), format!("t{}", d.id)], "iterated keys");
    }
}

fn thread(ops: &str, docs: &[Arc<Doc>], mut own: Vec<Option<Arc<Scope>>>, all: Vec<Option<Arc<Scope>>>) -> (Vec<(Doc, Arc<Scope>)>, Vec<Arc<Scope>>) {
    let mut local: Vec<(Doc, Arc<Scope>)> = Vec::new();
    let mut kept = Vec::new();
    let mut dropped = vec![false; docs.len()];
    for op in ops.split_whitespace() {
        let (c, arg) = (op.as_bytes()[0], &op[1..]);
        let i: usize = arg.chars().take(1).collect::<String>().parse().unwrap_or(0);
        let at = i * 5 + arg.len() * 3;
        match c {
            b'L' => {
                let d = &docs[i];
                let mine = own[i].is_some() || dropped[i];
                if !d.has_owner || (own[i].is_some() && !d.removed.load(Ordering::Relaxed)) {
                    registered(d, at);
                } else if mine && !dropped[i] {
                    assert!(find(d.addr + at % d.len).is_none(), "a removed scope was found");
                } else if let Some((_, id)) = find(d.addr + at % d.len) {
                    assert!(id == d.id || d.will_drop, "another scope was found");
                }
            }
            b'W' => {
                let d = &docs[i];
                if d.removed.load(Ordering::Acquire) {
                    if let Some((_, id)) = find(d.addr) {
                        assert!(id != d.id && d.will_drop, "a removed scope was found");
                    }
                }
            }
            b'V' => {
                if let Some(s) = &all[i] {
                    assert_eq!(read(s), docs[i].id, "content of a scope held");
                    if !docs[i].has_owner {
                        read_by_lookup(&docs[i], s);
                    }
                }
            }
            b'R' => {
                own[i].as_ref().expect("owner").remove();
                docs[i].removed.store(true, Ordering::Release);
                assert!(Scope::containing(docs[i].addr as *const u8).is_none(), "a scope was found right after its removal");
            }
            b'D' => {
                dropped[i] = true;
                drop(own[i].take());
                if let Some((_, id)) = find(docs[i].addr) {
                    let gone = docs[i].removed.load(Ordering::Relaxed);
                    assert!(id != docs[i].id || !gone, "a removed scope was found");
                }
            }
            b'S' => {
                // Another scope over the same data, for a while.
                if let (false, Some(s)) = (docs[i].has_owner, &all[i]) {
                    let again = Scope::new(s.data().expect("no data"), s.shared_keys().cloned());
                    registered(&docs[i], at);
                    if arg.len() > 1 {
                        again.remove();
                        registered(&docs[i], at);
                    }
                    drop(again);
                    registered(&docs[i], at);
                }
            }
            b'N' => {
                let (d, s) = make(arg.as_bytes()[0]);
                registered(&d, at);
                read_by_lookup(&d, &s);
                local.push((d, s));
            }
            b'G' => {
                if let Some((d, s)) = local.last() {
                    registered(d, at);
                    read_by_lookup(d, s);
                }
            }
            b'Q' => {
                if let Some((d, s)) = local.pop() {
                    s.remove();
                    assert!(find(d.addr).is_none(), "a scope was found right after its removal");
                    assert_eq!(read(&s), d.id, "content after removal");
                    kept.push(s);
                }
            }
            b'P' => {
                if let Some((d, s)) = local.pop() {
                    drop(s);
                    // A reader of the address may still hold it, or the address be used again.
                    drop(find(d.addr));
                }
            }
            _ => panic!("unknown operation {op}"),
        }
    }
    kept.extend(own.into_iter().flatten());
    (local, kept)
}

fn main() {
    let text = std::env::args().nth(1).expect("program");
    for (p, phase) in text.split('/').enumerate() {
        let mut parts = phase.split('|');
        let kinds = parts.next().unwrap().trim();
        let progs: Vec<String> = parts.map(str::to_string).collect();
        let mut docs = Vec::new();
        let mut handles = Vec::new();
        for (i, k) in kinds.bytes().enumerate() {
            let (mut d, s) = make(k);
            d.has_owner = progs.iter().any(|t| t.contains(&format!("R{i}")) || t.contains(&format!("D{i}")));
            d.will_drop = progs.iter().any(|t| t.contains(&format!("D{i}")));
            docs.push(Arc::new(d));
            handles.push(Some(s));
        }
        // Only the owner holds a scope that is going to be dropped.
        let all: Vec<_> = handles.iter().enumerate().map(|(i, h)| if docs[i].will_drop { None } else { h.clone() }).collect();
        let mut threads = Vec::new();
        for t in progs {
            let own: Vec<_> = (0..docs.len())
                .map(|i| if t.contains(&format!("R{i}")) || t.contains(&format!("D{i}")) { handles[i].take() } else { None })
                .collect();
            let (docs, all) = (docs.clone(), all.clone());
            threads.push(std::thread::spawn(move || thread(&t, &docs, own, all)));
        }
        let mut locals = Vec::new();
        let mut kept = Vec::new();
        for t in threads {
            match t.join() {
                Ok((l, k)) => {
                    locals.extend(l);
                    kept.extend(k);
                }
                Err(_) => {
                    println!("SCHED-FAIL phase={p}");
                    std::process::exit(7);
                }
            }
        }
        let end = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for (i, d) in docs.iter().enumerate() {
                if !d.has_owner {
                    registered(d, i);
                    read_by_lookup(d, all[i].as_ref().unwrap());
                } else if let Some((_, id)) = find(d.addr) {
                    assert!(id != d.id, "a scope that is gone was found once all was quiet");
                    assert!(d.will_drop, "another scope was found");
                }
            }
            for (d, s) in &locals {
                registered(d, 1);
                read_by_lookup(d, s);
            }
        }));
        if end.is_err() {
            println!("SCHED-FAIL phase={p}");
            std::process::exit(7);
        }
        drop(kept);
    }
    println!("SCHED-OK");
}
