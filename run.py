#!/usr/bin/env python3
"""Build and run the property checks of /verif/harness against /repo.

  run.py setup                     build every configuration
  run.py check ID [--tier T] [--cases N] [--seed N] [--configs a,b]
  run.py replay FILE               run a replay file again (exit 1: the violation is still there)
"""
import argparse, fcntl, hashlib, json, os, resource, shutil, signal, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FV_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
WORK = os.path.join(HERE, "work")
SHARDS = 8
GB = 1 << 30

ASAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=0:abort_on_error=1:handle_abort=1:symbolize=1:detect_stack_use_after_return=0:malloc_context_size=5:quarantine_size_mb=64",
}

CONFIGS = {
    # optimised, debug assertions and overflow checks on
    "chk": dict(cargo=["cargo", "build"], env={}, out="chk/debug/fv", as_limit=6 * GB),
    # what release users get (unchecked finish_value, no overflow checks)
    "rel": dict(cargo=["cargo", "build", "--release"], env={}, out="rel/release/fv", as_limit=6 * GB),
    # AddressSanitizer
    "asan": dict(
        cargo=["cargo", "+nightly", "build", "--profile", "asan", "--features", "bigstack", "--target", "x86_64-unknown-linux-gnu"],
        env={"RUSTFLAGS": "-Zsanitizer=address"}, out="asan/x86_64-unknown-linux-gnu/asan/fv", as_limit=None),
    # coverage-guided search over the same cases (edge counters and comparison operands of the code under test)
    "cov": dict(cargo=["cargo", "build", "--features", "cov,bigstack", "--target", "x86_64-unknown-linux-gnu"],
                env={"RUSTC_WRAPPER": os.path.join(HARNESS, "cov", "rustc.sh")}, out="cov/x86_64-unknown-linux-gnu/debug/fv", as_limit=6 * GB, guided=True, callbacks="cov.c"),
    # counts the work that is done (edges taken, bytes moved)
    "work": dict(cargo=["cargo", "build", "--release", "--features", "work,bigstack", "--target", "x86_64-unknown-linux-gnu"],
                 env={"RUSTC_WRAPPER": os.path.join(HARNESS, "cov", "rustc.sh"), "FV_COV": "work"},
                 out="work/x86_64-unknown-linux-gnu/release/fv", as_limit=6 * GB, callbacks="work.c"),
    # documents of gigabytes (the binary of chk): few processes at a time, more memory for each
    "giant": dict(like="chk", as_limit=24 * GB, shards=3),
}
# Share of the case count a configuration runs.
SHARE = {"chk": 1.0, "rel": 0.5, "asan": 0.12, "giant": 1.0, "work": 1.0}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Inconclusive(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "node_modules"))
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith((".rs", ".toml", ".lock")) or "/src/" in p:
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def forget_stale(tdir):
    """Cargo compares modification times; a changed file may carry an old one."""
    os.makedirs(tdir, exist_ok=True)
    stamp = os.path.join(tdir, ".tree")
    want = tree_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have != want:
        for root, dirs, _ in os.walk(tdir):
            if os.path.basename(root) == ".fingerprint":
                for d in dirs:
                    if d.startswith(("fleece-", "fv-", "prog-")):
                        shutil.rmtree(os.path.join(root, d), ignore_errors=True)
                dirs[:] = []
        if os.path.exists(stamp):
            os.unlink(stamp)
    return stamp, want


def build(config):
    """Build one configuration from /repo's working tree; returns the binary."""
    c = CONFIGS[config]
    if "like" in c:
        return build(c["like"])
    tdir = os.path.join(TARGET, config)
    os.makedirs(tdir, exist_ok=True)
    with open(os.path.join(tdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp, want = forget_stale(tdir)
        env = dict(os.environ, CARGO_NET_OFFLINE="true", **c["env"])
        env.pop("CARGO_TARGET_DIR", None)
        if c.get("callbacks"):
            obj = os.path.join(tdir, "callbacks.o")
            r = subprocess.run(["cc", "-O2", "-fno-builtin", "-c", os.path.join(HARNESS, "cov", c["callbacks"]), "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise Inconclusive(f"the coverage callbacks do not compile: {r.stdout[-2000:]}")
            env["RUSTFLAGS"] = "-Clink-arg=" + obj
        cmd = c["cargo"] + ["--offline", "--quiet", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--target-dir", tdir]
        t0 = time.time()
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise Inconclusive(f"the harness does not build against {REPO} ({config}):\n{r.stdout[-6000:]}")
        with open(stamp, "w") as f:
            f.write(want)
        log(f"built {config} in {time.time() - t0:.1f} s")
    return os.path.join(TARGET, c["out"])


def limits(config, cpu=None):
    lim = CONFIGS[config]["as_limit"]

    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if lim:
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    return f


def run_env(config):
    env = dict(os.environ)
    if config == "asan":
        env.update(ASAN_ENV)
    env["RUST_BACKTRACE"] = "0"
    return env


def meta(binary):
    return {p["id"]: p for p in json.loads(subprocess.run([binary, "list"], stdout=subprocess.PIPE, check=True).stdout)}


def tail(path, n=3000):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            f.seek(max(0, f.tell() - n))
            return f.read().decode("utf-8", "replace")
    except OSError:
        return ""


def ended_by_guard(pids):
    """Was one of these processes ended because memory ran out?"""
    try:
        text = open("/root/.vp/ended.log").read()
    except OSError:
        return False
    return any(str(p) in text for p in pids)


STALL = 90   # seconds without a finished case before a hang is suspected
HANG_CPU = 60  # CPU seconds one case may take when tried alone


def run_shards(pid, config, binary, seed, cases, wdir, secs=0):
    """Run all shards; returns (merged statistics, failure or None)."""
    procs = []
    shards = CONFIGS[config].get("shards", SHARDS)
    for k in range(shards):
        out = os.path.join(wdir, f"{config}.{k}.json")
        hb = os.path.join(wdir, f"{config}.{k}.hb")
        err = os.path.join(wdir, f"{config}.{k}.err")
        for f in (out, hb, err):
            if os.path.exists(f):
                os.unlink(f)
        cmd = [binary, "run"]
        cand = None
        if CONFIGS[config].get("guided"):
            cand = os.path.join(wdir, f"{config}.{k}.cand")
            cmd = [binary, "fuzz", "--secs", str(secs), "--cand", cand]
        p = subprocess.Popen(cmd + ["--prop", pid, "--seed", str(seed), "--shard", str(k), "--shards", str(shards),
                              "--cases", str(cases), "--out", out, "--hb", hb],
                             stdout=subprocess.DEVNULL, stderr=open(err, "wb"), env=run_env(config), preexec_fn=limits(config))
        procs.append(dict(p=p, out=out, hb=hb, err=err, beat=None, at=time.time(), k=k, hung=False, cand=cand))

    def beat(s):
        try:
            b = open(s["hb"], "rb").read(8)
            return struct.unpack("<Q", b)[0] if len(b) == 8 else None
        except OSError:
            return None

    failed = None
    t0 = time.time()
    while any(s["p"].poll() is None for s in procs):
        time.sleep(0.02)
        now = time.time()
        for s in procs:
            if s["p"].poll() is None:
                b = beat(s)
                if b != s["beat"]:
                    s["beat"], s["at"] = b, now
                if CONFIGS[config].get("guided"):
                    # Edited cases may be long: those which take too long don't count.
                    if now - t0 > secs + 20:
                        s["stopped"] = True
                        s["p"].kill()
                        s["p"].wait()
                elif now - s["at"] > STALL:
                    s["hung"] = True
                    s["p"].kill()
                    s["p"].wait()
            elif s["p"].returncode != 0 and failed is None:
                failed = s
                # The others need not finish.
                for o in procs:
                    if o["p"].poll() is None:
                        o["p"].send_signal(signal.SIGKILL)
                        o["stopped"] = True
    for s in procs:
        s["p"].wait()

    stats = dict(evaluations=0, sub=0, nontrivial=0, distinct=set(), classes={}, samples=[])
    fails = []
    for s in procs:
        if os.path.exists(s["out"]):
            try:
                j = json.load(open(s["out"]))
            except ValueError:
                j = None
            if j:
                for key in ("evaluations", "sub", "nontrivial"):
                    stats[key] += j[key]
                stats["distinct"].update(j["distinct"])
                for n, v in j["classes"].items():
                    stats["classes"][n] = stats["classes"].get(n, 0) + v
                stats["samples"] += j["samples"]
                if j["fail"]:
                    fails.append(dict(case=j["fail"]["case"], message=j["fail"]["message"], choices=j["fail"]["choices"], config=config))
                continue
        if s.get("stopped"):
            continue
        if s["cand"] and (s["p"].returncode == -9 or "memory allocation of" in first_error(s["err"])):
            log(f"guided shard {s['k']} ran out of memory")
            continue
        if s["hung"]:
            fails.append(dict(case=beat(s), message=f"no answer after {STALL} s", choices=None, config=config, hang=True, cand=s["cand"]))
            continue
        rc = s["p"].returncode
        if rc == -9:
            raise Inconclusive(f"shard {s['k']} was killed (out of memory?)")
        c = beat(s)
        if rc in (2, 101) or c is None:
            raise Inconclusive(f"shard {s['k']} ended with {rc}: {tail(s['err'])}")
        fails.append(dict(case=None if c == (1 << 64) - 1 else c, message=f"the process died ({describe(rc)}): {first_error(s['err'])}", choices=None, config=config, crash=True, cand=s["cand"]))
    # A failure with choices first: it needs no search.
    fails.sort(key=lambda f: (f["choices"] is None, f["case"] if f["case"] is not None else 1 << 62))
    return stats, (fails[0] if fails else None)


def describe(rc):
    if rc is not None and rc < 0:
        try:
            return signal.Signals(-rc).name
        except ValueError:
            return f"signal {-rc}"
    return f"exit {rc}"


def first_error(path):
    t = tail(path, 20000)
    for line in t.splitlines():
        if "ERROR: AddressSanitizer" in line or "overflowed its stack" in line or "memory allocation" in line or "panicked" in line:
            return line.strip()[:300]
    return t.strip()[-300:]


def exec_case(pid, config, binary, wdir, choices_file=None, seed=None, case=None, cpu=HANG_CPU, journal=None, mutant=None):
    cmd = [binary, "exec", "--prop", pid]
    if choices_file:
        cmd += ["--choices", choices_file]
    elif mutant:
        cmd += ["--mutant", mutant]
    else:
        cmd += ["--seed", str(seed), "--case", str(case)]
    if journal:
        cmd += ["--journal", journal]
    notes = os.path.join(wdir, "notes.txt")
    msg = os.path.join(wdir, "msg.txt")
    err = os.path.join(wdir, "exec.err")
    for f in (notes, msg):
        if os.path.exists(f):
            os.unlink(f)
    cmd += ["--notes", notes, "--msg", msg, "--quiet"]
    with open(err, "wb") as e:
        r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=e, env=run_env(config), preexec_fn=limits(config, cpu))
    rc = r.returncode
    text = open(msg).read() if os.path.exists(msg) else ""
    if rc == 0:
        return "held", "", tail(notes)
    if rc in (-signal.SIGXCPU, -9):
        return "hang", f"no answer within {cpu} s of CPU time", tail(notes)
    if rc in (2, 101):
        raise Inconclusive(f"harness error: {tail(err)}")
    if not text:
        text = f"the process died ({describe(rc)}): {first_error(err)}"
    return "failed", text, tail(notes)


def minimise(pid, fail, binary, seed, wdir, repeat):
    """Shrink the failing case and write the replay file."""
    config = fail["config"]
    choices = fail["choices"]
    cf = os.path.join(wdir, "fail.json")
    reproduced = False
    if choices is None and fail["case"] is not None:
        j = os.path.join(wdir, "journal.bin")
        st = "held"
        for _ in range(repeat):
            st, msg, _ = exec_case(pid, config, binary, wdir, seed=seed, case=fail["case"], journal=j, mutant=fail.get("cand"))
            if st != "held":
                break
        b = open(j, "rb").read()
        choices = list(struct.unpack(f"<{len(b) // 8}Q", b[: len(b) // 8 * 8]))
        if st == "held" and fail.get("hang"):
            return None  # slow machine, not a hang
        if st != "held":
            fail["message"] = msg if not fail.get("crash") or "AddressSan" in msg or "overflowed" in msg else fail["message"]
    if choices is not None:
        json.dump(choices, open(cf, "w"))
        for _ in range(repeat):
            st, msg, notes = exec_case(pid, config, binary, wdir, choices_file=cf)
            if st != "held":
                reproduced = True
                break
        if reproduced and st == "failed":
            subprocess.run([binary, "shrink", "--prop", pid, "--choices", cf, "--dir", wdir, "--budget", "3000", "--secs", "20"],
                           env=run_env(config), stderr=subprocess.DEVNULL, preexec_fn=limits(config))
            sf = os.path.join(wdir, "shrunk.json")
            if os.path.exists(sf):
                for _ in range(repeat):
                    st2, msg2, notes2 = exec_case(pid, config, binary, wdir, choices_file=sf)
                    if st2 != "held":
                        choices, msg, notes = json.load(open(sf)), msg2, notes2
                        break
        if reproduced:
            fail["message"] = msg
            fail["notes"] = notes.splitlines()
    rep = dict(property=pid, config=config, seed=seed, case=fail["case"], message=fail["message"], notes=fail.get("notes", []),
               reproduced=reproduced, choices=choices)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    name = f"{pid}-{hashlib.sha256(json.dumps([choices, config, fail['case']]).encode()).hexdigest()[:12]}.json"
    path = os.path.join(HERE, "replays", name)
    json.dump(rep, open(path, "w"), indent=1)
    return path, rep


def findings(pid):
    """Known findings of this property: (probe, text)."""
    out = []
    f = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(f):
        for line in open(f):
            if line.startswith("finding: "):
                parts = line[len("finding: "):].strip().split(" ", 2)
                kv = dict(p.split("=", 1) for p in parts[:2])
                if kv["property"] == pid:
                    out.append((kv["probe"], parts[2]))
    return out


def check(args):
    pid = args.id
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    wdir = os.path.join(WORK, pid)
    shutil.rmtree(wdir, ignore_errors=True)
    os.makedirs(wdir)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev_path = os.path.join(HERE, "evidence", f"{pid}.json")
    if os.path.exists(ev_path):
        os.unlink(ev_path)

    binary = build("chk")
    m = meta(binary)[pid]
    configs = args.configs.split(",") if args.configs else (m["configs"] if tier == "quick" or m["configs"] == ["work"] else ["chk", "rel", "asan"])
    total = dict(evaluations=0, sub=0, nontrivial=0, distinct=set(), classes={}, samples=[])
    per_config = {}
    violation = None
    for config in configs:
        if config == "cov":
            continue
        binary = build(config)
        cases = args.cases or int(m["quick" if tier == "quick" else "thorough"] * SHARE[config])
        cseed = seed * 1000 + list(CONFIGS).index(config)
        t1 = time.time()
        stats, fail = run_shards(pid, config, binary, cseed, cases, wdir)
        per_config[config] = dict(evaluations=stats["evaluations"], wall_s=round(time.time() - t1, 2))
        for key in ("evaluations", "sub", "nontrivial"):
            total[key] += stats[key]
        total["distinct"] |= stats["distinct"]
        for n, v in stats["classes"].items():
            total["classes"][n] = total["classes"].get(n, 0) + v
        total["samples"] += stats["samples"]
        log(f"{pid} {config}: {stats['evaluations']} cases, {len(stats['distinct'])} distinct non-trivial, {per_config[config]['wall_s']} s")
        if fail:
            r = minimise(pid, fail, binary, cseed, wdir, repeat=20 if pid == "C13" else 1)
            if r is None:
                raise Inconclusive("a case took very long but finished when run alone")
            violation = r
            break

    if violation is None and pid not in NOT_GUIDED and not args.cases and (not args.configs or "cov" in configs):
        violation = guided(pid, tier, seed, total, per_config, wdir)

    if violation is None:
        hook = EXTRA.get(pid)
        if hook:
            violation = hook(pid, tier, seed, total, per_config, wdir)

    known = []
    if violation is None:
        for probe, text in findings(pid):
            config = "asan" if probe.endswith("@asan") else "chk"
            b = build(config)
            try:
                r = subprocess.run([b, "probe", probe.split("@")[0]], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                   env=run_env(config), preexec_fn=limits(config, 120), timeout=300)
                if r.returncode not in (0, 2):
                    known.append(text)
                    print(f"KNOWN-FINDING: property={pid} {text}")
                else:
                    log(f"known finding no longer fails: {text}")
            except subprocess.TimeoutExpired:
                log(f"probe {probe} timed out")

    samples = total["samples"][:10]
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=total["evaluations"], distinct_nontrivial=len(total["distinct"]), rule=m["rule"],
                            samples=samples or ["(no sample was recorded)"], nontrivial_cases=total["nontrivial"],
                            inner_checks=total["sub"], classes=total["classes"], configurations=per_config, known_findings=known),
              assumptions=["the reference model, the independent codec and the generators in /verif/harness/src",
                           "cases are pseudo-random from the seed: a clean run is evidence over the cases counted, not a proof"],
              wall_s=round(time.time() - t0, 2), violations=int(violation is not None))
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    if violation:
        path, rep = violation
        print(f"{pid} is violated: {rep['message']}")
        for n in rep.get("notes", [])[:20]:
            print(f"  {n}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"{pid} held: {total['evaluations']} cases, {len(total['distinct'])} distinct non-trivial, {ev['wall_s']} s")
    return 0


def replay(args):
    rep = json.load(open(args.file))
    pid, config = rep["property"], rep["config"]
    if config == "macro":
        import macro
        return macro.replay(sys.modules[__name__], rep)
    if config == "miri":
        import sched
        return sched.replay(sys.modules[__name__], rep)
    if config == "giant":
        pid += "G"
    binary = build(config)
    wdir = os.path.join(WORK, "replay")
    os.makedirs(wdir, exist_ok=True)
    kw = dict(choices_file=args.file) if rep["choices"] is not None else dict(seed=rep["seed"], case=rep["case"])
    for _ in range(20 if pid == "C13" else 1):
        st, msg, notes = exec_case(pid, config, binary, wdir, **kw)
        if st != "held":
            break
    print(notes)
    print(f"{pid}: {st} {msg}")
    return 0 if st == "held" else 1


def macro_hook(*args):
    import macro
    return macro.hook(sys.modules[__name__], *args)


def sched_hook(*args):
    import sched
    return sched.hook(sys.modules[__name__], *args)


def giant_hook(pid, tier, seed, total, per_config, wdir):
    """The same property with documents of gigabytes: cases of their own, not with the other shards."""
    binary = build("giant")
    m = meta(binary)[pid + "G"]
    cseed = seed * 1000 + list(CONFIGS).index("giant")
    t0 = time.time()
    stats, fail = run_shards(pid + "G", "giant", binary, cseed, m["quick" if tier == "quick" else "thorough"], wdir)
    per_config["giant"] = dict(evaluations=stats["evaluations"], wall_s=round(time.time() - t0, 2))
    for key in ("evaluations", "sub", "nontrivial"):
        total[key] += stats[key]
    total["distinct"] |= stats["distinct"]
    for n, v in stats["classes"].items():
        total["classes"][n] = total["classes"].get(n, 0) + v
    total["samples"] = stats["samples"][:2] + total["samples"]
    log(f"{pid} giant: {stats['evaluations']} cases, {per_config['giant']['wall_s']} s")
    if not fail:
        return None
    r = minimise(pid + "G", fail, binary, cseed, wdir, repeat=1)
    if r is None:
        raise Inconclusive("a case took very long but finished when run alone")
    path, rep = r
    rep["property"] = pid
    json.dump(rep, open(path, "w"), indent=1)
    return path, rep


# Coverage-guided search: not for threads (C13: no two runs of a case are alike) and not for the macro's programs, nor where work is counted.
NOT_GUIDED = {"C13", "C24", "C30"}
GUIDED_SECS = {"quick": 12, "thorough": 900}


def guided(pid, tier, seed, total, per_config, wdir):
    binary = build("cov")
    cseed = seed * 1000 + list(CONFIGS).index("cov")
    t0 = time.time()
    secs = int(os.environ.get("FV_GUIDED_SECS") or GUIDED_SECS[tier])
    stats, fail = run_shards(pid, "cov", binary, cseed, 1 << 40, wdir, secs)
    per_config["cov"] = dict(evaluations=stats["evaluations"], wall_s=round(time.time() - t0, 2))
    merge(total, stats)
    log(f"{pid} cov: {stats['evaluations']} cases, {per_config['cov']['wall_s']} s, "
        f"{stats['classes'].get('(guided) kept for further edits', 0)} kept")
    if not fail:
        return None
    r = minimise(pid, fail, binary, cseed, wdir, repeat=1)
    if r is None or not r[1]["reproduced"] or "no answer within" in r[1]["message"] or "memory allocation of" in r[1]["message"]:
        log(f"a guided case failed but not when run again: {fail['message']}")
        return None
    return r


def merge(total, stats):
    for key in ("evaluations", "sub", "nontrivial"):
        total[key] += stats[key]
    total["distinct"] |= stats["distinct"]
    for n, v in stats["classes"].items():
        total["classes"][n] = total["classes"].get(n, 0) + v
    total["samples"] = total["samples"][:8] + stats["samples"][:2]


# Work that the harness binary cannot do: called with the merged statistics, returns None or (replay path, report).
EXTRA = {"C24": macro_hook, "C13": sched_hook, "C05": giant_hook, "C06": giant_hook, "C08": giant_hook, "C23": giant_hook}


def setup(_):
    for c in CONFIGS:
        build(c)
    import macro
    macro.warm(sys.modules[__name__])
    import sched
    sched.warm(sys.modules[__name__])
    return 0


def main():
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest="cmd", required=True)
    sp.add_parser("setup")
    c = sp.add_parser("check")
    c.add_argument("id")
    c.add_argument("--tier")
    c.add_argument("--cases", type=int)
    c.add_argument("--seed", type=int)
    c.add_argument("--configs")
    r = sp.add_parser("replay")
    r.add_argument("file")
    a = ap.parse_args()
    try:
        return dict(setup=setup, check=check, replay=replay)[a.cmd](a)
    except Inconclusive as e:
        print(f"inconclusive: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
