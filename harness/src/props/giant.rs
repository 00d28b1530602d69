//! Documents of a gigabyte and more: run after the other cases of a property, few at a time.
//! The large parts are zero pages which were never touched, so they cost little until copied.

use fleece::{Encoder, Value, ValueType};

use super::Prop;
use crate::engine::{hash_bytes, mix, Ctx, Res, Src};
use crate::model::{check_value, encode, read, same, sub_style, write_doc, D};
use crate::{ensure, ensure_eq, gen};

/// The longest distance the encoder's references reach.
const REACH: usize = 0x3fff_ffff;

#[derive(Debug)]
enum Node {
    Leaf(D),
    /// Length, and whether it is a string.
    Blob(usize, bool),
    Arr(Vec<Node>),
    Dict(Vec<(String, Node)>),
}

fn from_d(d: D) -> Node {
    match d {
        D::Arr(v) => Node::Arr(v.into_iter().map(from_d).collect()),
        D::Dict(v) => Node::Dict(v.into_iter().map(|(k, x)| (k, from_d(x))).collect()),
        x => Node::Leaf(x),
    }
}

/// More bytes than this node takes in any layout.
fn bound(n: &Node) -> usize {
    match n {
        Node::Leaf(D::Str(s)) => s.len() + 24,
        Node::Leaf(D::Data(s)) => s.len() + 24,
        Node::Leaf(_) => 24,
        Node::Blob(n, _) => n + 24,
        Node::Arr(v) => 24 + v.iter().map(bound).sum::<usize>(),
        Node::Dict(v) => 24 + v.iter().map(|(k, x)| k.len() + 24 + bound(x)).sum::<usize>(),
    }
}

/// Put a blob somewhere below (or at) a collection.
fn put(s: &mut Src, n: &mut Node, blob: Node, serial: usize) {
    let down: Vec<usize> = match n {
        Node::Arr(v) => v.iter().enumerate().filter(|(_, x)| matches!(x, Node::Arr(_) | Node::Dict(_))).map(|(i, _)| i).collect(),
        Node::Dict(v) => v.iter().enumerate().filter(|(_, x)| matches!(x.1, Node::Arr(_) | Node::Dict(_))).map(|(i, _)| i).collect(),
        _ => unreachable!(),
    };
    if !down.is_empty() && s.chance(2, 3) {
        let i = *s.pick(&down);
        return match n {
            Node::Arr(v) => put(s, &mut v[i], blob, serial),
            Node::Dict(v) => put(s, &mut v[i].1, blob, serial),
            _ => unreachable!(),
        };
    }
    match n {
        Node::Arr(v) => {
            let i = s.usize(v.len() + 1);
            v.insert(i, blob);
        }
        Node::Dict(v) => {
            let i = s.usize(v.len() + 1);
            let k = format!("{} giant {serial}", s.pick(&["", "m", "~", "zzz"]));
            v.insert(i, (k, blob));
        }
        _ => unreachable!(),
    }
}

struct Call {
    /// Go on after a refused call.
    go_on: bool,
    refused: bool,
    wrong: Option<String>,
}

impl Call {
    fn note(&mut self, r: Result<(), String>) -> bool {
        if let Err(m) = r {
            // What follows a refused call may be refused for other reasons.
            if !self.refused && !m.contains("PointerTooLarge") {
                self.wrong = Some(m);
            }
            self.refused = true;
        }
        !self.refused || self.go_on
    }
}

fn write(e: &mut Encoder, n: &Node, style: u64, zeros: &[u8], c: &mut Call) {
    match n {
        Node::Leaf(d) => {
            c.note(write_doc(e, d, style));
        }
        Node::Blob(len, text) => {
            let b = &zeros[..*len];
            let r = if *text { e.write_value(unsafe { std::str::from_utf8_unchecked(b) }) } else { e.write_value(b) };
            c.note(r.map_err(|e| format!("write_value of {len} bytes: {e:?}")));
        }
        Node::Arr(v) => {
            if !c.note(e.begin_array(v.len()).map_err(|e| format!("begin_array: {e:?}"))) {
                return;
            }
            for (i, x) in v.iter().enumerate() {
                write(e, x, sub_style(style, i), zeros, c);
                if c.refused && !c.go_on {
                    return;
                }
            }
            c.note(e.end_array().map_err(|e| format!("end_array: {e:?}")));
        }
        Node::Dict(v) => {
            if !c.note(e.begin_dict().map_err(|e| format!("begin_dict: {e:?}"))) {
                return;
            }
            for (i, (k, x)) in v.iter().enumerate() {
                if !c.note(e.write_key(k).map_err(|e| format!("write_key: {e:?}"))) {
                    return;
                }
                write(e, x, sub_style(style, i), zeros, c);
                if c.refused && !c.go_on {
                    return;
                }
            }
            c.note(e.end_dict().map_err(|e| format!("end_dict: {e:?}")));
        }
    }
}

fn check(v: &Value, n: &Node, path: &str) -> Res {
    match n {
        Node::Leaf(d) => check_value(v, d, path),
        Node::Blob(len, text) => {
            let want = if *text { ValueType::String } else { ValueType::Data };
            ensure_eq!(v.value_type(), want, "type of {path}");
            let b = v.to_data();
            ensure_eq!(b.len(), *len, "length of {path}");
            // The bytes are all zero: look at both ends and at a few places between.
            let step = (b.len() / 61).max(1);
            ensure!(
                b.iter().step_by(step).all(|x| *x == 0) && b[..b.len().min(9000)].iter().all(|x| *x == 0)
                    && b[b.len().saturating_sub(9000)..].iter().all(|x| *x == 0),
                "the bytes of {path} differ"
            );
            Ok(())
        }
        Node::Arr(v2) => {
            let a = v.as_array().ok_or_else(|| format!("{path} is not an array"))?;
            ensure_eq!(a.len(), v2.len(), "length of {path}");
            for (i, x) in v2.iter().enumerate() {
                check(a.get(i).ok_or_else(|| format!("{path}[{i}] is missing"))?, x, &format!("{path}[{i}]"))?;
            }
            ensure_eq!(a.iter().count(), v2.len(), "elements iterated of {path}");
            Ok(())
        }
        Node::Dict(v2) => {
            let a = v.as_dict().ok_or_else(|| format!("{path} is not a dictionary"))?;
            ensure_eq!(a.len(), v2.len(), "length of {path}");
            for (k, x) in v2 {
                check(a.get(k.as_str()).ok_or_else(|| format!("{path}.{k:?} is missing"))?, x, &format!("{path}.{k:?}"))?;
            }
            let mut want: Vec<&str> = v2.iter().map(|(k, _)| k.as_str()).collect();
            let mut got: Vec<&str> = a.iter().map(|(k, _)| k).collect();
            want.sort_unstable();
            got.sort_unstable();
            ensure!(want == got, "the keys of {path} are {got:?}, want {want:?}");
            Ok(())
        }
    }
}

fn show(n: &Node) -> String {
    match n {
        Node::Leaf(d) => d.show(),
        Node::Blob(n, t) => format!("<{} of {n} zero bytes>", if *t { "a string" } else { "data" }),
        Node::Arr(v) => format!("[{}]", v.iter().map(show).collect::<Vec<_>>().join(", ")),
        Node::Dict(v) => format!("{{{}}}", v.iter().map(|(k, x)| format!("{k:?}: {}", show(x))).collect::<Vec<_>>().join(", ")),
    }
}

pub const C08: Prop = Prop {
    id: "C08G",
    check: c08,
    quick: 24,
    thorough: 600,
    rule: "",
    configs: &["giant"],
};

fn c08(s: &mut Src, cx: &mut Ctx) -> Res {
    let d = gen::doc_with(s, gen::Cfg::small());
    let mut n = from_d(d);
    let rest = bound(&n);
    let total = match s.weighted(&[4, 8, 2, 1]) {
        0 => (1usize << 28) - 8 + s.usize(17),
        1 => REACH + 20 - s.usize(2 * rest + 200),
        2 => REACH + (1 << 20) * s.usize(1500),
        _ => (1usize << 32) - s.usize(rest + 100) + (1 << 20) * s.usize(500),
    };
    let text = s.bool();
    let zeros = if s.chance(1, 3) {
        let first = total / (2 + s.usize(6));
        put(s, &mut n, Node::Blob(first, false), 0);
        put(s, &mut n, Node::Blob(total - first, text), 1);
        vec![0u8; total - first]
    } else {
        put(s, &mut n, Node::Blob(total, text), 0);
        vec![0u8; total]
    };
    let style = gen::style(s);
    let must = bound(&n) <= REACH;
    let mut c = Call { go_on: s.bool(), refused: false, wrong: None };
    cx.note(|| format!("{}", show(&n)));
    cx.nontrivial(mix(total as u64, hash_bytes(show(&n).as_bytes())));
    let mut e = Encoder::new();
    write(&mut e, &n, style, &zeros, &mut c);
    drop(zeros);
    let out = e.finish();
    if let Some(m) = c.wrong {
        return Err(format!("a call was refused: {m}"));
    }
    ensure!(!(must && c.refused), "a document of less than 2^30 bytes was refused as too large");
    cx.class(match (c.refused, out.len()) {
        (true, _) => "giant: refused, a reference cannot reach",
        (_, n) if n > 1 << 29 => "giant: document of about 1 GiB",
        _ => "giant: document of 256 MiB",
    });
    if c.refused {
        return Ok(());
    }
    let v = Value::from_bytes(&out).map_err(|e| format!("a document of {} bytes is refused: {e:?}", out.len()))?;
    cx.sub += 1;
    check(v, &n, "root")
}

pub const C23: Prop = Prop {
    id: "C23G",
    check: c23,
    quick: 300,
    thorough: 600,
    rule: "",
    configs: &["giant"],
};

fn c23(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = match s.weighted(&[4, 3, 1]) {
        0 => REACH - 200 + s.usize(400),
        1 => (1usize << 31) - 200 + s.usize(400),
        _ => (1usize << 32) - 200 + s.usize(400),
    };
    let d = gen::doc_with(s, gen::Cfg::small());
    let style = gen::style(s);
    cx.note(|| format!("prefix of {n} bytes, document {}", d.show()));
    cx.nontrivial(mix(n as u64, d.fp()));
    let mut buf = vec![0u8; n];
    buf[0] = 1;
    buf[n - 1] = 2;
    let mut e = Encoder::new_to_vec(buf);
    write_doc(&mut e, &d, style)?;
    let out = e.finish();
    cx.class("giant: prefix of 1 GiB or more");
    ensure!(out[0] == 1 && out[n - 1] == 2, "the existing bytes changed");
    ensure!(out[1..9000].iter().all(|b| *b == 0) && out[n - 9000..n - 1].iter().all(|b| *b == 0), "the existing bytes changed");
    ensure!(out[1..n - 1].iter().step_by(n / 61).all(|b| *b == 0), "the existing bytes changed");
    let v = Value::from_bytes(&out).map_err(|e| format!("refused: {e:?}"))?;
    same(&read(v)?, &d, "document after a long prefix")?;
    let alone = encode(&d, style)?;
    ensure!(out[n + n % 2..] == alone[..], "the document differs from the one encoded into an empty buffer");
    Ok(())
}

/// The longest distance a wide reference can hold.
const WIDE: usize = 0x7fff_fffe;

pub const C05: Prop = Prop {
    id: "C05G",
    check: c05,
    quick: 1500,
    thorough: 6000,
    rule: "",
    configs: &["giant"],
};
pub const C06: Prop = Prop {
    id: "C06G",
    check: c06,
    quick: 3000,
    thorough: 6000,
    rule: "",
    configs: &["giant"],
};

fn wide(dist: usize, tag: u8) -> [u8; 4] {
    let mut b = ((dist / 2) as u32).to_be_bytes();
    b[0] |= tag;
    b
}

fn c05(s: &mut Src, cx: &mut Ctx) -> Res {
    far(s, cx, false)
}
fn c06(s: &mut Src, cx: &mut Ctx) -> Res {
    far(s, cx, true)
}

/// A wide collection whose elements refer far back, over zeros that nothing refers to; or a string,
/// binary or array that is itself huge. `bad`: with something that must be refused.
fn far(s: &mut Src, cx: &mut Ctx, bad: bool) -> Res {
    match s.weighted(&[6, 2, 1]) {
        0 => {
            // The targets, at the front. The encoded form of a document, its root reference included,
            // which the references pass over.
            let lead = 2 * s.usize(20);
            let k = 1 + s.usize(4);
            let mut b: Vec<u8> = vec![0; lead];
            let mut targets: Vec<(usize, D)> = Vec::new();
            for _ in 0..k {
                let d = gen::doc_with(s, gen::Cfg::small());
                let e = encode(&d, 0)?;
                // Where its root is: follow the references at its end.
                let mut at = e.len() - 2;
                let mut size = 2;
                while e[at] & 0x80 != 0 {
                    let dist = if size == 2 {
                        2 * (usize::from(e[at] & 0x3f) << 8 | usize::from(e[at + 1]))
                    } else {
                        2 * (u32::from_be_bytes([e[at] & 0x3f, e[at + 1], e[at + 2], e[at + 3]]) as usize)
                    };
                    at -= dist;
                    size = 4;
                }
                targets.push((b.len() + at, d));
                b.extend(&e);
            }
            let far = s.usize(k);
            // The distance of the first reference, which leads to target `far`.
            let dist = match s.weighted(&[4, 2, 3, 1]) {
                0 => WIDE - 2 * s.usize(20),
                1 => REACH - 41 + 2 * s.usize(40),
                2 => 2 * (20_000 + s.usize((WIDE - 40_000) / 2)),
                _ => (1usize << 31) - 2 - 2 * s.usize(3000),
            };
            let dist = dist & !1;
            let first = targets[far].0 + dist;
            let end = b.len();
            if first < end + 2 {
                return Ok(());
            }
            // The other elements refer to targets which are within reach from their places.
            let mut elems: Vec<usize> = vec![far];
            for i in 1..1 + s.usize(4) {
                let fit: Vec<usize> = (0..k).filter(|t| first + 4 * i - targets[*t].0 <= WIDE).collect();
                if !fit.is_empty() {
                    elems.push(*s.pick(&fit));
                }
            }
            let head = first - 2;
            let mut doc = vec![0u8; head + 2 + 4 * elems.len() + 6];
            doc[..end].copy_from_slice(&b);
            // Zeros would be read as shorts, and only if something referred to them.
            let dict = false;
            doc[head] = if dict { 0x78 } else { 0x68 };
            doc[head + 1] = elems.len() as u8;
            let mut at = first;
            let spoiled = if bad { s.usize(elems.len()) } else { usize::MAX };
            let mut how = "";
            for (i, t) in elems.iter().enumerate() {
                let p = match i == spoiled {
                    false => wide(at - targets[*t].0, 0x80),
                    true => match s.usize(3) {
                        0 if at + 2 <= WIDE => {
                            how = "a target before the data";
                            wide(at + 2 + 2 * s.usize((WIDE - at - 2) / 2 + 1).min(40), 0x80)
                        }
                        1 => {
                            how = "an external reference";
                            wide(at - targets[*t].0, 0xc0)
                        }
                        _ => {
                            how = "a reference to itself";
                            wide(0, 0x80)
                        }
                    },
                };
                doc[at..at + 4].copy_from_slice(&p);
                at += 4;
            }
            // The root: a narrow reference, through a wide one or not.
            let through = s.bool();
            if through {
                doc[at..at + 4].copy_from_slice(&wide(at - head, 0x80));
                doc[at + 4..at + 6].copy_from_slice(&[0x80, 2]);
            } else {
                let d = (at - head) / 2;
                doc[at..at + 2].copy_from_slice(&[0x80 | (d >> 8) as u8, d as u8]);
                doc.truncate(at + 2);
            }
            cx.note(|| format!("{} bytes, element 0 refers {dist} back to {}; {} elements{}{}", doc.len(), targets[far].1.show(), elems.len(), if bad { ", bad: " } else { "" }, how));
            cx.nontrivial(mix(dist as u64, targets[far].1.fp()));
            let r = Value::from_bytes(&doc);
            cx.class(if bad { "giant: malformed far reference" } else { "giant: references of up to 2 GiB" });
            if bad {
                ensure!(r.is_err(), "accepted although it holds {how}");
                return Ok(());
            }
            let v = r.map_err(|e| format!("refused: {e:?}"))?;
            let a = v.as_array().ok_or("the root is not an array")?;
            ensure_eq!(a.len(), elems.len(), "length");
            for (i, t) in elems.iter().enumerate() {
                same(&read(a.get(i).ok_or("no element")?)?, &targets[*t].1, "element by index")?;
            }
            for (x, t) in a.iter().zip(&elems) {
                same(&read(x)?, &targets[*t].1, "element by iteration")?;
            }
            ensure!(Value::from_bytes(&doc[2..]).is_err() || targets[far].0 >= 2, "cut at the front, it is accepted");
            Ok(())
        }
        1 => {
            // A huge string or binary.
            let len = match s.usize(4) {
                0 => (1usize << 28) - 4 + s.usize(8),
                1 => (1usize << 30) + s.usize(1000),
                2 => (1usize << 31) - 40 - s.usize(1000),
                _ => s.usize((1 << 31) - 1000) + 500,
            };
            let tag = if s.bool() { 0x4f } else { 0x5f };
            let mut head = vec![tag];
            // One byte more than there is room for
            let said = if bad { len + 3 + s.usize(4) } else { len };
            head.extend(crate::refenc::varint(said as u64));
            let odd = (head.len() + len) % 2;
            let body = head.len() + len + odd;
            let said_end = head.len() + said;
            let mut doc = vec![0u8; body + 12];
            doc[..head.len()].copy_from_slice(&head);
            // Wide array of the one reference to it
            doc[body] = 0x68;
            doc[body + 1] = 1;
            doc[body + 2..body + 6].copy_from_slice(&wide(body + 2, 0x80));
            doc[body + 6..body + 8].copy_from_slice(&[0x80, 3]);
            doc.truncate(body + 8);
            cx.note(|| format!("{} of {said} bytes in a document of {}", if tag == 0x4f { "string" } else { "data" }, doc.len()));
            cx.nontrivial(mix(said as u64, u64::from(tag)));
            let r = Value::from_bytes(&doc);
            cx.class(if bad { "giant: string or data over its end" } else { "giant: string or data of 256 MiB and more" });
            if bad {
                // The bytes of the collection's header may be within its reach, the reference is not.
                if said_end > body + 2 {
                    ensure!(r.is_err(), "accepted although {said} bytes do not fit before the reference");
                }
                return Ok(());
            }
            let v = r.map_err(|e| format!("refused: {e:?}"))?;
            let a = v.as_array().ok_or("the root is not an array")?;
            let x = a.get(0).ok_or("no element")?;
            ensure_eq!(x.to_data().len(), len, "length");
            ensure_eq!(x.to_data().as_ptr() as usize, doc.as_ptr() as usize + head.len(), "start");
            Ok(())
        }
        _ => {
            // An array of very many small integers, with a count of four bytes; the last are marked.
            let n = (1usize << 21) - 2 + s.usize(4) + if s.bool() { s.usize(1 << 22) } else { 0 };
            let wide_slots = s.bool();
            let w = if wide_slots { 4 } else { 2 };
            let said = if bad { n + 3 + s.usize(3) } else { n };
            let mut head = vec![if wide_slots { 0x6f } else { 0x67 }, 0xff];
            head.extend(crate::refenc::varint(said as u64));
            if head.len() % 2 != 0 {
                head.push(0);
            }
            let body = head.len() + n * w;
            let mut doc = vec![0u8; body + 6];
            doc[..head.len()].copy_from_slice(&head);
            doc[body - w + 1] = 77;
            doc[body..body + 4].copy_from_slice(&wide(body, 0x80));
            doc[body + 4..body + 6].copy_from_slice(&[0x80, 2]);
            cx.note(|| format!("array of {said} elements of {w} bytes in {} bytes", doc.len()));
            cx.nontrivial(mix(said as u64, w as u64));
            let r = Value::from_bytes(&doc);
            cx.class(if bad { "giant: count over the end" } else { "giant: array of 2^21 elements and more" });
            if bad {
                ensure!(r.is_err(), "accepted although {said} elements do not fit");
                return Ok(());
            }
            let v = r.map_err(|e| format!("refused: {e:?}"))?;
            let a = v.as_array().ok_or("the root is not an array")?;
            ensure_eq!(a.len(), n, "length");
            ensure_eq!(a.get(n - 1).ok_or("no last element")?.to_int(), 77, "last element");
            ensure_eq!(a.get(n - 2).ok_or("no element")?.to_int(), 0, "element before the last");
            ensure!(a.get(n).is_none(), "an element past the end");
            ensure_eq!(a.iter().count(), n, "elements iterated");
            Ok(())
        }
    }
}
