#!/usr/bin/env python3
"""Rewrites MANIFEST.json: checks for the properties the harness implements."""
import json, subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl") if l.strip()]
have = set(subprocess.check_output([f"{here}/harness/target/release/ticv", "list"], text=True).split())
notes = json.load(open(f"{here}/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t, n = notes[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh check {i} quick",
            "thorough_cmd": f"./run.sh check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": t, "level": "exploration", "level_note": n,
        })
    else:
        na.append({"property": i, "reason": "check not built yet (work in progress); the technique applies"})
m = {"version": 1, "setup_cmd": "./run.sh setup",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use the public interface of the crates and binaries only", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "one Rust harness (harness/) generates cases, runs the real crates and binaries, and shrinks failures to replay files: ./run.sh replay FILE. Fixed defects are listed in known_findings.txt."}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
