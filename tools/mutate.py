#!/usr/bin/env python3
"""Mutation testing of the checks (a development tool; no check uses it).

  mutate.py list [FILE...]            the mutants of /repo/src
  mutate.py run DIR [-j N] [--frac F] [--only SUBSTR] [--shuffle]   try them in scratch copies under DIR; results in DIR/results.jsonl
                                      (mutants already there are skipped)

A mutant is one small edit of one line. It is killed if the harness does not build, or some
property's check fails on a fraction F of its quick cases. What survives is then looked at by hand.
"""
import json, os, random, re, shutil, subprocess, sys, threading, time
V = "/verif"
SRC = "/repo/src"
FIRST = "C01 C25 C07 C03 C09 C16 C04 C05 C06 C12 C18 C19 C21 C25 C10 C28 C02 C17 C15 C08 C20 C22 C23 C14 C11 C26 C27 C13".split()

def strip(line):
    """Offsets of the line that are code (not comment, string or attribute)."""
    ok = [True] * len(line)
    t = line.strip()
    if t.startswith("//") or t.startswith("#[") or t.startswith("#!["):
        return [False] * len(line)
    i, ins = 0, False
    while i < len(line):
        c = line[i]
        if ins:
            ok[i] = False
            if c == "\\":
                if i + 1 < len(line): ok[i + 1] = False
                i += 2; continue
            if c == '"': ins = False
        elif c == '"':
            ins = True; ok[i] = False
        elif line.startswith("//", i):
            for j in range(i, len(line)): ok[j] = False
            break
        i += 1
    return ok

SUBS = [
    (r" <= ", [" < "]), (r" >= ", [" > "]), (r" < ", [" <= "]), (r" > ", [" >= "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]),
    (r" & ", [" | "]), (r" \| ", [" & "]), (r" \^ ", [" | "]), (r" << ", [" >> "]), (r" >> ", [" << "]),
    (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r" \|= ", [" &= "]), (r" &= ", [" |= "]),
    (r"(?<=[( ])!(?=[a-zA-Z(])", [""]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\bif (?!let)(?=.*\{\s*$)", ["if true || ", "if false && "]),
    (r"\bsaturating_sub\b", ["wrapping_sub"]), (r"\bsaturating_mul\b", ["wrapping_mul"]), (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]),
    (r"\.is_empty\(\)", [".len() == 1"]), (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]),
    (r"\bOk\(\(\)\)", []), (r"\.\.=", [".."]), (r"\bSome\(([a-z_]+)\)$", ["None"]),
    (r"\b(to|from)_le_bytes\b", [r"\1_be_bytes"]), (r"\b(to|from)_be_bytes\b", [r"\1_le_bytes"]),
    (r"\bu8\b(?=\))", ["i8"]), (r"\bi64\b(?= as)", ["i32"]), (r" as u16\b", [" as u8 as u16"]), (r" as u32\b", [" as u16 as u32"]), (r" as usize\b", [" as u16 as usize"]), (r" as i64\b", [" as i32 as i64"]), (r" as u64\b", [" as u32 as u64"]), (r" as f32\b", [" as i32 as f32"]), (r" as f64\b", [" as f32 as f64"]),
]
NUM = re.compile(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)((?:u|i)(?:8|16|32|64|128|size))?(?![\w.])")

def mutants(files=None):
    out = []
    for root, _, fs in os.walk(SRC):
        for f in sorted(fs):
            p = os.path.join(root, f); rel = os.path.relpath(p, "/repo")
            if not f.endswith(".rs") or f == "tests.rs" or (files and rel not in files): continue
            lines = open(p).read().split("\n")
            intest = False
            for n, line in enumerate(lines):
                if line.startswith("mod tests") or line.startswith("#[cfg(test)]"): intest = True
                if intest: 
                    if line == "}": intest = False
                    continue
                ok = strip(line)
                if re.match(r"\s*(pub )?(use|mod|extern)\b", line): continue
                def add(a, b, new, kind):
                    if all(ok[a:b]):
                        m = line[:a] + new + line[b:]
                        if m != line: out.append(dict(file=rel, line=n + 1, old=line, new=m, kind=kind))
                for pat, news in SUBS:
                    for m in re.finditer(pat, line):
                        for x in news: add(m.start(), m.end(), m.expand(x) if "\\" in x else x, pat)
                for m in NUM.finditer(line):
                    v = int(m[1].replace("_", ""), 0); suf = m[2] or ""
                    h = m[1].startswith("0x")
                    for w in {v + 1, v - 1} | ({0} if v > 1 else set()):
                        if w >= 0: add(m.start(), m.end(), (hex(w) if h else str(w)) + suf, "num")
                # statement deletion
                if re.match(r"^\s+[\w.:*&]+.*;\s*$", line) and not re.match(r"^\s*(let|use|return|type|const|static|pub|fn|break|continue)\b", line) and "=>" not in line:
                    if all(ok[i] for i, c in enumerate(line) if c == ";"): out.append(dict(file=rel, line=n + 1, old=line, new=re.match(r"\s*", line)[0], kind="del"))
                if re.match(r"^\s*return\b.*;\s*$", line): out.append(dict(file=rel, line=n + 1, old=line, new=re.match(r"\s*", line)[0], kind="delret"))
    for m in out: m["id"] = f"{m['file']}:{m['line']}:{m['new'].strip()}"
    seen = set(); res = []
    for m in out:
        if m["id"] not in seen: seen.add(m["id"]); res.append(m)
    return res

ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0", CARGO_BUILD_JOBS="2", CARGO_INCREMENTAL="1")
def worker(k, base, todo, lock, res, frac, rep):
    d = f"{base}/w{k}"
    if not os.path.isdir(d):
        os.makedirs(d)
        subprocess.run(["git", "clone", "-q", "/repo", f"{d}/repo"], check=True)
        for f in ("Cargo.lock",):
            if os.path.exists(f"/repo/{f}"): shutil.copy(f"/repo/{f}", f"{d}/repo/{f}")
    subprocess.run(["rm", "-rf", f"{d}/harness"], check=True)
    shutil.copytree(f"{V}/harness", f"{d}/harness", ignore=shutil.ignore_patterns("target"))
    c = open(f"{d}/harness/Cargo.toml").read().replace('path = "/repo"', f'path = "{d}/repo"'); open(f"{d}/harness/Cargo.toml", "w").write(c)
    env = dict(ENV, CARGO_TARGET_DIR=f"{d}/target")
    def build(): return subprocess.run(["nice", "cargo", "build", "--offline", "--quiet"], cwd=f"{d}/harness", env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    r = build(); assert r.returncode == 0, r.stderr[-2000:]
    binary = f"{d}/target/debug/fv"
    quick = {p["id"]: p["quick"] for p in json.loads(subprocess.run([binary, "list"], capture_output=True, text=True).stdout)}
    order = [p for p in FIRST if p in quick] + [p for p in quick if p not in FIRST]
    while True:
        with lock:
            if not todo: return
            m = todo.pop(0)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=f"{d}/repo", check=True)
        p = f"{d}/repo/{m['file']}"
        L = open(p).read().split("\n"); assert L[m["line"] - 1] == m["old"]
        L[m["line"] - 1] = m["new"]; open(p, "w").write("\n".join(L))
        t = time.time(); b = build()
        if b.returncode: m["result"] = "nobuild"
        else:
            m["result"] = "SURVIVED"; m["bt"] = round(time.time() - t, 1)
            for seed in range(1, rep + 1):
                for pid in order:
                    cases = max(200, int(quick[pid] * frac))
                    try:
                        r = subprocess.run(["nice", binary, "run", "--prop", pid, "--seed", str(seed), "--cases", str(cases), "--out", f"{d}/out"], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240,
                            preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (6 << 30, 6 << 30)))
                        if r.returncode: m["result"] = f"killed {pid} rc={r.returncode}"; break
                    except subprocess.TimeoutExpired: m["result"] = f"killed {pid} timeout"; break
                if m["result"] != "SURVIVED": break
        m["secs"] = round(time.time() - t, 1)
        with lock:
            res.write(json.dumps(m) + "\n"); res.flush()

def main():
    a = sys.argv[1:]
    if a[0] == "list":
        ms = mutants(set(a[1:]) or None)
        for m in ms: print(m["id"], "   <-", m["old"].strip())
        print(len(ms)); return
    base = a[1]; opt = lambda n, d: a[a.index(n) + 1] if n in a else d
    os.makedirs(base, exist_ok=True)
    rf = f"{base}/results.jsonl"
    done = {json.loads(l)["id"] for l in open(rf)} if os.path.exists(rf) else set()
    todo = [m for m in mutants() if m["id"] not in done and opt("--only", "") in m["id"]]
    if "--from" in a:
        ids = {json.loads(l)["id"] for l in open(opt("--from", "")) if json.loads(l)["result"] == "SURVIVED"}
        todo = [m for m in todo if m["id"] in ids]
    if "--shuffle" in a: random.Random(1).shuffle(todo)
    print(len(todo), "to do", flush=True)
    lock = threading.Lock()
    with open(rf, "a") as res:
        ts = [threading.Thread(target=worker, args=(k, base, todo, lock, res, float(opt("--frac", "0.1")), int(opt("--rep", "1")))) for k in range(int(opt("-j", "4")))]
        [t.start() for t in ts]; [t.join() for t in ts]
main()
