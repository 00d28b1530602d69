"""C24: generated fleece! literals, compiled against /repo and compared with explicit encoder calls."""
import json, hashlib, os, random, shutil, subprocess

# A scalar is Rust source: one token tree (which is all the macro takes), valid as an argument of
# write_value too. Every program has these names in scope; some are the names the macro uses itself.
PRELUDE = """
    #[allow(unused)] let (encoder, val, key, x1, flag) = (7i32, "outer val", "outer key", 300u64, true);
    #[allow(unused)] let (insert, push, text) = (1.5f64, -3i16, String::from("owned text"));
    #[allow(unused)] let blob: Vec<u8> = vec![1, 2, 3, 250];
    #[allow(unused)] let none: Option<u8> = None;
    #[allow(unused)] let tick = { let n = std::cell::Cell::new(0u32); move || { n.set(n.get() + 1); n.get() } };
"""
IDENTS = ["encoder", "val", "key", "x1", "flag", "insert", "push", "none", "(&text[..])", "(text.as_str())", "(&blob[..])", "(blob.as_slice())",
          "(tick())", "(tick() + 10)", "(x1 + 1)", "(-push)", "(if flag { 1 } else { 2 })", "(encoder * 2)", "(Some(val))", "(None::<&str>)",
          "(fleece::encoder::NullValue)", "(fleece::encoder::UndefinedValue)", "((5))", "(!flag)", "(push as i64)", "(&&7u8)", "(Some(&3i64))"]
INTS = [0, 1, 2, 13, 127, 128, 255, 256, 2047, 2048, 32767, 32768, 65535, 70000, 2147483647]
TYPES = {"i8": (-128, 127), "u8": (0, 255), "i16": (-32768, 32767), "u16": (0, 65535), "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1),
         "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1), "isize": (-2**63, 2**63 - 1), "usize": (0, 2**64 - 1)}
KEYS = ["a", "b", "name", "", "key-1", "a b", "é", "中文", "exactly16bytes__", "this key is longer than sixteen", "0", "insert", "push", "encoder", "k:v", "{", "[", ",", "#", "\"q\"", "back\\slash", "\n"]


def rust_str(s, r):
    if r.random() < 0.15 and "\"#" not in s and "\r" not in s:
        return 'r##"' + s + '"##'
    out = '"'
    for c in s:
        if c in '"\\':
            out += "\\" + c
        elif c == "\n":
            out += "\\n"
        elif ord(c) < 32 or (ord(c) > 126 and r.random() < 0.5):
            out += "\\u{%x}" % ord(c)
        else:
            out += c
    return out + '"'


def text(r):
    n = r.choice([0, 1, 2, 3, 5, 13, 14, 15, 16, 17, 40, 130])
    return "".join(r.choice("abcXYZ 09_-é中😀\"\\{}[],:\n$") for _ in range(n))


def scalar(r):
    k = r.randrange(8)
    if k == 0:
        return str(r.choice(INTS))
    if k == 1:
        t = r.choice(list(TYPES))
        lo, hi = TYPES[t]
        v = r.choice([lo, hi, 0, 1, r.randint(lo, hi), r.randint(0, hi)])
        if v < 0:
            return f"({v}{t})" if v != lo else f"({t}::MIN)"
        return r.choice([f"{v}{t}", f"0x{v:x}_{t}", f"({v}{t})"])
    if k == 2:
        return r.choice(["1.5", "0.0", "166.5", "1e300", "2.5f32", "(-0.25)", "(f64::MAX)", "(f32::MIN)", "(f64::NAN)", "(-0.0)", "1_000.125", "(0.1 + 0.2)", "(f64::INFINITY)"])
    if k == 3:
        return r.choice(["true", "false"])
    if k == 4:
        return rust_str(text(r), r)
    if k == 5:
        b = ", ".join(f"{r.randrange(256)}u8" for _ in range(r.choice([0, 1, 2, 5, 20])))
        return f"(&[{b}] as &[u8])" if b else "(&[] as &[u8])"
    return r.choice(IDENTS)


def node(r, depth, budget):
    budget[0] -= 1
    if depth <= 0 or budget[0] <= 0 or r.random() < 0.5:
        return scalar(r)
    return coll(r, depth, budget)


def coll(r, depth, budget, kind=None):
    kind = kind or r.choice("ad")
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 6, 12] if depth < 8 else [1, 2, 1])
    if r.random() < 0.01:
        n = 60
    trail = n > 0 and r.random() < 0.4
    if kind == "a":
        return dict(a=[node(r, depth - 1, budget) for _ in range(n)], t=trail)
    keys = []
    while len(keys) < n:
        k = r.choice(KEYS) if r.random() < 0.6 else text(r)
        while k in [x for x, _ in keys]:
            k += "x"
        keys.append((k, rust_str(k, r)))
    return dict(d=[[k, src, node(r, depth - 1, budget)] for k, src in keys], t=trail)


def literal(r):
    depth = r.choice([1, 1, 2, 2, 3, 4, 6, 20])
    budget = [r.choice([3, 10, 30, 60])]
    t = coll(r, depth, budget)
    if "a" in t and not t["a"]:
        # `fleece![]` spells the same tokens as `fleece!{}`: an empty dictionary.
        t = dict(a=[scalar(r)], t=False)
    return dict(tree=t, delim=r.choice("([{") if r.random() < 0.2 else "", path=r.random() < 0.3)


def body(t):
    if "a" in t:
        return ", ".join(src(x) for x in t["a"]) + ("," if t["t"] and (t.get("a") or t.get("d")) else "")
    return ", ".join(f"{k}: {src(v)}" for _, k, v in t["d"]) + ("," if t["t"] and (t.get("a") or t.get("d")) else "")


def src(t):
    if isinstance(t, str):
        return t
    return "[" + body(t) + "]" if "a" in t else "{" + body(t) + "}"


def macro_src(c):
    o = c["delim"] or ("[" if "a" in c["tree"] else "{")
    return ("fleece::fleece!" if c["path"] else "fleece!") + o + body(c["tree"]) + {"(": ")", "[": "]", "{": "}"}[o]


def calls(t, out):
    if isinstance(t, str):
        out.append(f"e.write_value({t}).unwrap();")
    elif "a" in t:
        out.append(f"e.begin_array({len(t['a'])}).unwrap();")
        for x in t["a"]:
            calls(x, out)
        out.append("e.end_array().unwrap();")
    else:
        out.append("e.begin_dict().unwrap();")
        for _, k, v in t["d"]:
            out.append(f"e.write_key({k}).unwrap();")
            calls(v, out)
        out.append("e.end_dict().unwrap();")


MAIN = """
#![recursion_limit = "1024"]
#![allow(unused_parens, clippy::all)]
use fleece::{Value, ValueType};
use std::fmt::Write;

pub fn dump_array(a: &fleece::Array, out: &mut String) {
    out.push('[');
    let mut n = 0;
    for x in a { dump(x, out); out.push(','); n += 1; }
    assert_eq!(n, a.len());
    out.push(']');
}
pub fn dump_dict(d: &fleece::Dict, out: &mut String) {
    let mut p: Vec<(String, String)> = d.iter().map(|(k, x)| { let mut s = String::new(); dump(x, &mut s); (k.to_string(), s) }).collect();
    assert_eq!(p.len(), d.len());
    p.sort();
    write!(out, "{p:?}").unwrap();
}
pub fn dump(v: &Value, out: &mut String) {
    if let Some(a) = v.as_array() {
        dump_array(a, out);
    } else if let Some(d) = v.as_dict() {
        dump_dict(d, out);
    } else {
        let t = v.value_type();
        match t {
            ValueType::Float | ValueType::Double32 | ValueType::Double64 => write!(out, "{t:?} {:x}", v.to_double().to_bits()),
            _ => write!(out, "{t:?} {} {} {:?}", v.to_int(), v.to_unsigned_int(), v.to_data()),
        }.unwrap();
    }
}

fn main() {
    let mut bad = 0;
    for (i, (m, e)) in cases::CASES {
        println!("START {i}");
        let (m, e) = (m(), e());
        if m != e { println!("FAIL {i} the macro built {m} and the encoder {e}"); bad += 1; }
    }
    println!("DONE");
    std::process::exit((bad > 0) as i32);
}
mod cases;
"""


def program(cases, macro_side=True):
    out = ["#![allow(unused)]", "use fleece::fleece;", "use crate::*;", "use fleece::alloced::{AllocedArray, AllocedDict};"]
    for i, c in cases:
        ty = "AllocedArray" if "a" in c["tree"] else "AllocedDict"
        dump = "dump_array" if "a" in c["tree"] else "dump_dict"
        cl = []
        calls(c["tree"], cl)
        out.append(f"fn m{i}() -> String {{ {PRELUDE}\n let v: {ty} = {macro_src(c)};\n let mut s = String::new(); {dump}(v.value(), &mut s); s }}" if macro_side else f"fn m{i}() -> String {{ String::new() }}")
        out.append(f"fn e{i}() -> String {{ {PRELUDE}\n let mut e = fleece::Encoder::new();\n" + "\n".join(cl) +
                   "\n let b = e.finish(); let mut s = String::new(); dump(fleece::Value::from_bytes(&b).unwrap(), &mut s); s }")
    out.append("pub static CASES: &[(u32, (fn() -> String, fn() -> String))] = &[" + ", ".join(f"({i}, (m{i}, e{i}))" for i, _ in cases) + "];")
    return "\n".join(out)


class Driver:
    def __init__(self, run, wdir):
        self.run = run
        self.dir = os.path.join(wdir, "prog")
        os.makedirs(os.path.join(self.dir, "src"), exist_ok=True)
        self.target = os.path.join(run.TARGET, "macro")
        stamp, want = run.forget_stale(self.target)
        with open(stamp, "w") as f:
            f.write(want)
        with open(os.path.join(self.dir, "Cargo.toml"), "w") as f:
            f.write(f'[package]\nname = "prog"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nfleece = {{ path = "{run.REPO}" }}\n[workspace]\n'
                    '[profile.dev]\ndebug = false\nincremental = false\n')
        lock = os.path.join(run.HARNESS, "macro.lock")
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(self.dir, "Cargo.lock"))
        with open(os.path.join(self.dir, "src/main.rs"), "w") as f:
            f.write(MAIN)

    def build(self, cases, release=False, check=False, macro_side=True):
        """None, or the compiler's complaint."""
        with open(os.path.join(self.dir, "src/cases.rs"), "w") as f:
            f.write(program(cases, macro_side))
        cmd = ["cargo", "check" if check else "build", "--offline", "--quiet", "--target-dir", self.target] + (["--release"] if release else [])
        env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
        env.pop("CARGO_TARGET_DIR", None)
        r = subprocess.run(cmd, cwd=self.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return None
        if "could not compile `prog`" not in r.stdout:
            raise self.run.Inconclusive("the macro programs cannot be built: " + r.stdout[-3000:])
        return r.stdout

    def fails(self, cases, release=False):
        """(case index, message) of the first failing case, or None."""
        msg = self.build(cases, release)
        if msg is not None:
            while len(cases) > 1:
                half = cases[: len(cases) // 2]
                cases = half if self.build(half, check=True) else cases[len(cases) // 2:]
            if self.build(cases, check=True, macro_side=False) is not None:
                raise self.run.Inconclusive("the explicit encoder calls do not compile: " + macro_src(cases[0][1]))
            msg = self.build(cases, check=True)
            if msg is None:
                return None
            return cases[0][0], "it does not compile: " + next((l for l in msg.splitlines() if l.startswith("error")), msg[:300])
        exe = os.path.join(self.target, "release" if release else "debug", "prog")
        try:
            r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=120,
                               preexec_fn=self.run.limits("chk", 60))
        except subprocess.TimeoutExpired:
            raise self.run.Inconclusive("the macro program did not end")
        lines = r.stdout.splitlines()
        for l in lines:
            if l.startswith("FAIL "):
                _, i, m = l.split(" ", 2)
                return int(i), m[:600]
        if r.returncode != 0 or "DONE" not in lines:
            started = [l for l in lines if l.startswith("START ")]
            if not started:
                raise self.run.Inconclusive("the macro program did not start: " + r.stderr[-500:])
            return int(started[-1].split()[1]), f"the program died ({self.run.describe(r.returncode)}): {r.stderr[-300:].strip()}"
        return None


def smaller(t):
    """Simpler trees of the same root kind."""
    if isinstance(t, str):
        if t != "1":
            yield "1"
        return
    key = "a" if "a" in t else "d"
    xs = t[key]
    for i in range(len(xs)):
        yield {**t, key: xs[:i] + xs[i + 1:]}
    if t["t"]:
        yield {**t, "t": False}
    for i, x in enumerate(xs):
        v = x if key == "a" else x[2]
        for w in smaller(v):
            yield {**t, key: xs[:i] + [w if key == "a" else [x[0], x[1], w]] + xs[i + 1:]}
        if not isinstance(v, str):
            yield {**t, key: xs[:i] + ["1" if key == "a" else [x[0], x[1], "1"]] + xs[i + 1:]}
    if key == "d":
        for i, x in enumerate(xs):
            k = f"k{i}"
            if x[0] != k:
                yield {**t, key: xs[:i] + [[k, f'"{k}"', x[2]]] + xs[i + 1:]}


def shrink(drv, c, release, log):
    tries = 60
    progress = True
    while progress and tries > 0:
        progress = False
        for t in smaller(c["tree"]):
            if tries == 0:
                break
            if "a" in t and not t["a"]:
                continue
            tries -= 1
            d = {**c, "tree": t}
            if drv.fails([(0, d)], release):
                c, progress = d, True
                break
    return c


def depth(t):
    if isinstance(t, str):
        return 0
    return 1 + max([0] + [depth(x) for x in (t["a"] if "a" in t else [v for _, _, v in t["d"]])])


def hook(run, pid, tier, seed, total, per_config, wdir):
    import time
    drv = Driver(run, wdir)
    batches, size = (10, 220) if tier == "quick" else (120, 300)
    n = 0
    for b in range(batches):
        for release in ((False, True) if b == 0 or tier != "quick" else (False,)):
            t0 = time.time()
            r = random.Random(f"{seed}/{b}/{release}")
            cases = [(i, literal(r)) for i in range(size)]
            f = drv.fails(cases, release)
            name = "macro-" + ("release" if release else "debug")
            pc = per_config.setdefault(name, dict(evaluations=0, wall_s=0.0))
            pc["evaluations"] += size
            pc["wall_s"] = round(pc["wall_s"] + time.time() - t0, 2)
            total["evaluations"] += size
            for _, c in cases:
                s = macro_src(c)
                d = depth(c["tree"])
                if d >= 2 or len(body(c["tree"])) > 20:
                    total["nontrivial"] += 1
                    total["distinct"].add(int(hashlib.sha256(s.encode()).hexdigest()[:16], 16))
                    if len(total["samples"]) < 10 and len(s) < 400:
                        total["samples"].append(s)
                for cl, on in (("array directly in an array", '"a": [{"a"' in json.dumps(c["tree"])), ("depth >= 3", d >= 3), ("array root", "a" in c["tree"]),
                               ("not imported by name", c["path"])):
                    if on:
                        total["classes"][cl] = total["classes"].get(cl, 0) + 1
            run.log(f"C24 {name}: {size} literals, {pc['wall_s']} s")
            if f:
                i, msg = f
                c = dict(cases)[i]
                c = shrink(drv, c, release, run.log)
                again = drv.fails([(0, c)], release)
                if again:
                    msg = again[1]
                rep = dict(property=pid, config="macro", seed=seed, case=i, message=f"{macro_src(c)}: {msg}", notes=[], reproduced=bool(again),
                           choices=None, literal=c, release=release)
                os.makedirs(os.path.join(run.HERE, "replays"), exist_ok=True)
                path = os.path.join(run.HERE, "replays", f"{pid}-{hashlib.sha256(json.dumps(c).encode()).hexdigest()[:12]}.json")
                json.dump(rep, open(path, "w"), indent=1)
                return path, rep
    return None


def warm(run):
    wdir = os.path.join(run.WORK, "warm-macro")
    os.makedirs(wdir, exist_ok=True)
    for release in (False, True):
        Driver(run, wdir).build([], release)


def replay(run, rep):
    wdir = os.path.join(run.WORK, "replay-macro")
    os.makedirs(wdir, exist_ok=True)
    f = Driver(run, wdir).fails([(0, rep["literal"])], rep["release"])
    print(macro_src(rep["literal"]))
    print(f"C24: {'failed ' + f[1] if f else 'held'}")
    return 1 if f else 0
