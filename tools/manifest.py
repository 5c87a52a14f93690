#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the checker's own list."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
have = set(subprocess.check_output([f"{V}/.build/target/debug/mc", "list"]).decode().split())
TECH = json.load(open(f"{V}/tools/technique.json"))
NA = json.load(open(f"{V}/tools/not_applicable.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i not in NA:
        t = TECH.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": t.get("technique", "bounded exhaustive exploration of the real code (explicit-state, every history up to the bound) against a reference model"),
            "level": "model_checking",
            "level_note": t.get("note", "exhaustive within the stated bounds on the compiled implementation itself; the reference model decides every step"),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 prep.py && ./build.sh",
    "hooks": {"guard": "none", "enable": "no hooks: the checker drives the public API and interposes the C library's functions in its own process", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks are one binary built from /verif/harness against /repo's working tree; see DESIGN.md.",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
