"""C13 under Miri: generated concurrent programs, run under many generated thread schedules.

Miri executes one thread at a time and switches between them at random points, which a seed decides;
rare switches (low rates) let one thread run far while another stands in the middle of something. It
also reports data races, deadlocks and uses of freed memory. Programs are text (see sched/main.rs).
"""
import hashlib, json, os, random, re, shutil, subprocess, time

RATES = (0.001, 0.004, 0.015)
# No aliasing model and no validity checks: the crate and its hash map make references wider than what
# they were derived from (and use only the part that is there). Addresses are reused eagerly, also
# across threads.
FLAGS = "-Zmiri-disable-stacked-borrows -Zmiri-permissive-provenance -Zmiri-ignore-leaks -Zmiri-disable-validation -Zmiri-address-reuse-rate=0.8 -Zmiri-address-reuse-cross-thread-rate=0.8"


def phase(r):
    """(kinds, [[op, ...] of each thread])"""
    if r.random() < 0.1:
        # Several scopes over the same data.
        threads = [[r.choice(("S0", "S0+"))], [r.choice(("L0", "L0+", "S0", "V0")) for _ in range(r.choice((1, 2)))]]
        r.shuffle(threads)
        return r.choice("ak"), threads
    if r.random() < 0.5:
        # Two short threads that both change the registry, or one that changes what the other one uses.
        k = r.choice("ak")
        a = r.choice(([f"R0"], ["D0"], ["R0", "D0"], ["D0", "N" + k], ["D0", "N" + k], ["N" + k, "P", "N" + k], ["R0", "D0", "N" + k], ["D0", "N" + k, "Q"]))
        b = r.choice((["L0"], ["L0", "W0"], ["L0", "L0"], ["V0"], ["N" + k], ["N" + k, "G"], ["N" + k, "P"], ["N" + k, "Q"], ["L1"], ["L1", "V1"]))
        kinds = k + (r.choice("ak") if "1" in "".join(b) else "")
        if b[0][0] == "L":
            # (Lookups cost little, beside the scopes they need.)
            b = b[:1] * r.choice((0, 1, 3)) + b
        threads = [a, list(b)]
        if r.random() < 0.2:
            threads.append(["N" + r.choice("ak")])
        r.shuffle(threads)
        return kinds, threads
    n = r.choice((1, 1, 2, 2, 3))
    kinds = "".join(r.choice("akk") for _ in range(n))
    nt = r.choice((2, 2, 2, 3))
    threads = [[] for _ in range(nt)]
    for i in range(n):
        if r.random() < 0.65:
            t = threads[r.randrange(nt)]
            k = r.random()
            ops = [f"R{i}"] if k < 0.5 else [f"D{i}"] if k < 0.8 else [f"R{i}", f"D{i}"]
            at = sorted(r.randrange(len(t) + 1) for _ in ops)
            for a, o in reversed(list(zip(at, ops))):
                t.insert(a, o)
    for t in threads:
        # Few operations: two that meet are what matters.
        for _ in range(r.choice((1, 1, 2, 3)) if not t else r.choice((0, 0, 1, 2))):
            o = r.choice("LLLLVVWNNPQGS")
            if o in "LVWS":
                o += str(r.randrange(n)) + "+" * r.randrange(4)
            elif o == "N":
                o += r.choice("ak")
            at = r.randrange(len(t) + 1)
            t.insert(at, o)
            if o[0] == "N" and r.random() < 0.6:
                t.insert(at + 1, r.choice("PQG"))
    return kinds, threads


def text(phases):
    return "/".join(k + "|" + "|".join(" ".join(t) for t in ts) for k, ts in phases)


def nontrivial(p):
    """Two threads at work, one of them changing the registry and another one using it."""
    k, ts = p
    busy = [t for t in ts if t]
    change = [any(o[0] in "RDNPQS" for o in t) for t in busy]
    return len(busy) >= 2 and any(change) and any(any(o[0] in "LWVNRDPQS" for o in t) for i, t in enumerate(busy) if not (change[i] and sum(change) == 1))


class Sched:
    def __init__(self, run, wdir):
        self.run, self.dir = run, os.path.join(wdir, "sched")
        self.target = os.path.join(run.TARGET, "miri")
        os.makedirs(os.path.join(self.dir, "src"), exist_ok=True)
        shutil.copy(os.path.join(run.HERE, "sched", "main.rs"), os.path.join(self.dir, "src/main.rs"))
        with open(os.path.join(self.dir, "Cargo.toml"), "w") as f:
            f.write(f'[package]\nname = "prog-sched"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nfleece = {{ path = "{run.REPO}" }}\n[workspace]\n'
                    '[profile.dev]\ndebug = 1\nincremental = false\n')
        lock = os.path.join(run.HARNESS, "macro.lock")
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(self.dir, "Cargo.lock"))
        stamp, want = run.forget_stale(self.target)
        with open(stamp, "w") as f:
            f.write(want)

    def go(self, prog, seeds, rate, timeout=240):
        """None (held), a message (failed); raises Inconclusive when Miri cannot run it."""
        env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings",
                   MIRIFLAGS=f"{FLAGS} -Zmiri-preemption-rate={rate} -Zmiri-many-seeds={seeds[0]}..{seeds[1]}")
        env.pop("CARGO_TARGET_DIR", None)
        env["RUST_BACKTRACE"] = "0"
        try:
            r = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--target-dir", self.target, "--", prog],
                               cwd=self.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise self.run.Inconclusive("Miri did not finish in time")
        if r.returncode == 0 and r.stdout.count("SCHED-OK") == seeds[1] - seeds[0]:
            return None
        both = r.stderr + r.stdout
        m = re.search(r"panicked at [^\n]*\n([^\n]*)", both)
        self.failed_phase = int(f.group(1)) if (f := re.search(r"SCHED-FAIL phase=(\d+)", r.stdout)) else None
        if self.failed_phase is not None and m:
            return m.group(1)[:400]
        m = re.search(r"error: (Undefined Behavior: [^\n]*|the evaluated program deadlocked[^\n]*|the program aborted[^\n]*)", both)
        if m:
            w = re.search(r"--> ([^\n]*)", both[m.start():])
            if w and "/folklore-" in w.group(1) and "incorrect layout" in m.group(1):
                raise self.run.Inconclusive("a defect of the hash map this crate depends on: " + m.group(1))
            return (m.group(1) + (" at " + w.group(1) if w else ""))[:400]
        if m := re.search(r"panicked at [^\n]*\n([^\n]*)", both):
            return m.group(1)[:400]
        raise self.run.Inconclusive("Miri cannot run the program: " + both[-1500:])


def rewrite(phases, drv, rate, at):
    """A smaller program that fails under some schedule: one phase, fewest operations."""
    end = time.time() + 120

    def fails(p):
        if time.time() > end:
            return None
        try:
            # Often enough that a schedule which needs luck is met again.
            return drv.go(text([p] * 4), (0, 40), rate)
        except drv.run.Inconclusive:
            return None
    best = None
    for i in ([at] if at is not None else range(len(phases))):
        m = fails(phases[i])
        if m:
            best = (phases[i], m)
            break
    progress = best is not None
    while progress:
        progress = False
        k, ts = best[0]
        cands = [(k, [t for j, t in enumerate(ts) if j != i]) for i in range(len(ts)) if len(ts) > 1]
        cands += [(k, [t[:x] + t[x + 1:] if j == i else t for j, t in enumerate(ts)]) for i in range(len(ts)) for x in range(len(ts[i]))]
        for c in cands:
            m = fails(c)
            if m:
                best, progress = (c, m), True
                break
    return best


def hook(run, pid, tier, seed, total, per_config, wdir):
    drv = Sched(run, wdir)
    programs, per = (16, 24) if tier == "quick" else (150, 64)
    pc = per_config.setdefault("miri", dict(evaluations=0, wall_s=0.0))
    t0 = time.time()
    for b in range(programs):
        r = random.Random(f"sched {seed}/{b}")
        ph = [phase(r) for _ in range(8)]
        rate = RATES[b % len(RATES)]
        s0 = r.randrange(1 << 20)
        try:
            msg = drv.go(text(ph), (s0, s0 + per), rate)
        except run.Inconclusive as e:
            # Nothing was observed about the property.
            pc["note"] = str(e)[:300]
            run.log(f"C13 miri: {str(e)[:300]}")
            if b == 0:
                break
            continue
        pc["evaluations"] += per * len(ph)
        total["evaluations"] += per * len(ph)
        for p in ph:
            if nontrivial(p):
                total["nontrivial"] += per
                for s in range(per):
                    total["distinct"].add(int(hashlib.sha256(f"{p}{s0 + s}{rate}".encode()).hexdigest()[:16], 16))
        total["classes"]["schedule decided by Miri"] = total["classes"].get("schedule decided by Miri", 0) + per * len(ph)
        if b == 0:
            total["samples"].insert(0, f"miri, preemption rate {rate}, {per} schedules: {text(ph)}")
        if msg:
            small = rewrite(ph, drv, rate, drv.failed_phase)
            rep = dict(property=pid, config="miri", seed=seed, case=b, message=msg, notes=[], reproduced=True, choices=None,
                       program=text(ph), rate=rate, seeds=[s0, s0 + per])
            if small:
                rep.update(program=text([small[0]] * 4), message=small[1], seeds=[0, 40])
            rep["notes"] = [f"program {rep['program']} (see sched/main.rs), preemption rate {rep['rate']}, schedules {rep['seeds']}"]
            os.makedirs(os.path.join(run.HERE, "replays"), exist_ok=True)
            path = os.path.join(run.HERE, "replays", f"{pid}-{hashlib.sha256(rep['program'].encode()).hexdigest()[:12]}.json")
            json.dump(rep, open(path, "w"), indent=1)
            return path, rep
    pc["wall_s"] = round(time.time() - t0, 2)
    run.log(f"C13 miri: {pc['evaluations']} phases under generated schedules, {pc['wall_s']} s")
    return None


def warm(run):
    wdir = os.path.join(run.WORK, "warm-sched")
    os.makedirs(wdir, exist_ok=True)
    try:
        Sched(run, wdir).go("a|L0|V0", (0, 1), 0.01)
    except run.Inconclusive as e:
        run.log(f"Miri is not usable here: {e}")


def replay(run, rep):
    wdir = os.path.join(run.WORK, "replay-sched")
    os.makedirs(wdir, exist_ok=True)
    m = Sched(run, wdir).go(rep["program"], rep["seeds"], rep["rate"])
    print(rep["notes"][0])
    print(f"C13: {'failed ' + m if m else 'held'}")
    return 1 if m else 0
