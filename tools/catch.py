#!/usr/bin/env python3
"""Runs the quick check of each planted bug's property (or of the properties given) against it.

  catch.py [-p C01,C02] [BUG...]     prints what each check said; /repo is restored after each bug.
"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]; props = None
# The tree that is patched has to be the one the harness builds.
assert f'path = "{os.environ.get("FV_REPO", "/repo")}"' in open(f"{V}/harness/Cargo.toml").read(), "FV_REPO is not what the harness builds"
if args[:1] == ["-p"]: props = args[1].split(","); args = args[2:]
bugs = args or sorted(os.listdir(f"{V}/seeded"))
assert not subprocess.run(["git", "-C", os.environ.get("FV_REPO", "/repo"), "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout.strip()
for b in bugs:
    d = f"{V}/seeded/{b}"; meta = json.load(open(f"{d}/meta.json"))
    subprocess.run(["git", "-C", os.environ.get("FV_REPO", "/repo"), "apply", f"{d}/patch.diff"], check=True)
    try:
        for p in props or [meta["property"]]:
            t = time.time()
            r = subprocess.run(["python3", "run.py", "check", p, "--tier", "quick"], cwd=V, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"), capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"{b} {p} rc={r.returncode} {time.time()-t:.0f}s {'CAUGHT' if r.returncode == 1 and any('property='+p+' ' in l for l in v) else 'MISSED'} {v[:1]}", flush=True)
    finally:
        subprocess.run(["git", "-C", os.environ.get("FV_REPO", "/repo"), "checkout", "-q", "--", "."], check=True)
