#!/usr/bin/env python3
"""Write MANIFEST.json: one check per property in properties.jsonl that the harness implements."""
import json, os, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
binary = os.path.join(HERE, "target/chk/debug/fv")
have = {p["id"] for p in json.loads(subprocess.run([binary, "list"], stdout=subprocess.PIPE, check=True).stdout)}
TECH = json.load(open(os.path.join(HERE, "tools", "technique.json")))
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in have:
        t = TECH[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 run.py check {i}",
            "thorough_cmd": f"python3 run.py check {i} --tier thorough",
            "technique": t[0],
            "level": "exploration",
            "level_note": t[1],
        })
    else:
        na.append({"property": i, "reason": "the check for this property is not built yet"})
json.dump({
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "One engine (harness/src/engine.rs): seeded choice-sequence generation, shrinking in separate processes, replay files in replays/. Known findings and repaired defects: KNOWN_FINDINGS.txt.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
