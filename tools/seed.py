#!/usr/bin/env python3
"""Makes and confirms planted bugs.

  seed.py SPEC.py [ID...]    SPEC.py defines BUGS: a list of dicts with
      id, property, needs, breaks, edits=[(file, old, new)], demo (Rust source of main.rs),
      and optionally profile ("dev", "release" or "both") and serde (True by default).

For each bug: a scratch copy of /repo gets the edits, must build and pass the stable tests, and the
demonstration must pass on /repo and fail on the copy. Only then seeded/<id>/ is written.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Run with cwd = the repository, after it has been built. Exit 0: the property holds; 1: it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_TARGET
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/demo.rs" "$dir/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
fleece = { path = "$repo", features = ["serde"] }
serde = { version = "1", features = ["derive"] }
END
cd "$dir" || exit 2
for profile in @PROFILES@; do
    CARGO_TARGET_DIR="$dir/target" timeout 250 cargo run --offline --quiet $profile 2> "$dir/log"
    rc=$?
    grep -v '^warning' "$dir/log" | grep -A5 -E '^error|panicked|demo:' | head -20
    [ $rc = 0 ] || exit 1
done
exit 0
'''
def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], CARGO_NET_OFFLINE="true")
BASE = [t for t in json.load(open("/opt/vp/BASELINE.json")).get("stable", [])] if os.path.exists("/opt/vp/BASELINE.json") else []
def main():
    spec = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(sys.argv[2:])
    scratch = "/tmp/seedscratch"
    if not os.path.isdir(scratch):
        subprocess.run(["cp", "-a", os.environ.get("FV_REPO", "/repo"), scratch], check=True)
    for b in spec:
        if only and b["id"] not in only: continue
        print("==", b["id"], b["property"], flush=True)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=scratch, check=True)
        subprocess.run(["git", "fetch", "-q", os.environ.get("FV_REPO", "/repo"), "HEAD"], cwd=scratch, check=True)
        subprocess.run(["git", "reset", "-q", "--hard", "FETCH_HEAD"], cwd=scratch, check=True)
        ok = True
        for f, old, new in b["edits"]:
            p = f"{scratch}/{f}"; s = open(p).read()
            if s.count(old) != 1:
                print("   EDIT does not match exactly once:", f, s.count(old), repr(old[:60])); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok: continue
        # original lines only
        rc, diff = sh(["git", "diff"], cwd=scratch)
        removed = 0
        for f in {e[0] for e in b["edits"]}:
            rc, u = sh(["git", "diff", "-U0", "--", f], cwd=scratch)
            import re
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", u, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                if n == 0: continue
                rc, bl = sh(["git", "blame", "-s", "-L", f"{a},{a+n-1}", "HEAD", "--", f], cwd=scratch)
                removed += sum(1 for l in bl.splitlines() if l.startswith("^") or l.startswith("c4b4049"))
        if not removed: print("   WARNING: changes no original line")
        rc, out = sh(["bash", "-c", "cargo test --workspace --all-features --all-targets --no-run --offline && cargo build --offline"], cwd=scratch, env=ENV)
        if rc: print("   does not build\n", out[-3000:]); continue
        rc, out = sh(["cargo", "test", "--workspace", "--all-features", "--lib", "--bins", "--tests", "--offline", "--no-fail-fast"], cwd=scratch, env=ENV)
        if rc:
            print("   existing tests fail:", [l for l in out.splitlines() if "FAILED" in l or "panicked" in l][:10]); continue
        d = tempfile.mkdtemp(prefix="seeddemo")
        prof = {"dev": '""', "release": '"--release"', "both": '"" "--release"'}[b.get("profile", "dev")]
        open(f"{d}/demo.sh", "w").write(DEMO.replace("@PROFILES@", prof)); os.chmod(f"{d}/demo.sh", 0o755)
        open(f"{d}/demo.rs", "w").write(b["demo"].lstrip("\n"))
        rc0, o0 = sh(["bash", f"{d}/demo.sh"], cwd=os.environ.get("FV_REPO", "/repo"), env=ENV)
        rc1, o1 = sh(["bash", f"{d}/demo.sh"], cwd=scratch, env=ENV)
        if rc0 != 0 or rc1 == 0:
            print(f"   demo: unpatched rc={rc0}, patched rc={rc1}\n", o0[-1500:], "\n   ----\n", o1[-1500:]); shutil.rmtree(d); continue
        t = f"{VERIF}/seeded/{b['id']}"
        os.makedirs(t, exist_ok=True)
        for f in ("demo.sh", "demo.rs"): shutil.copy(f"{d}/{f}", t)
        open(f"{t}/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{t}/meta.json", "w"), indent=1)
        shutil.rmtree(d)
        print("   OK   ", o1.strip().splitlines()[-1:] )
main()
