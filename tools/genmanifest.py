#!/usr/bin/env python3
"""Regenerates MANIFEST.json from bounds.json (the claimed properties and their bounds)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bounds = json.load(open(os.path.join(root, "bounds.json")))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
na = json.load(open(os.path.join(root, "tools", "not_applicable.json")))
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "No hooks in /repo: harnesses are added to the package through a build overlay.", "source_commits": []},
    "checks": [],
    "not_applicable": na,
}
for p in props:
    i = p["id"]
    if i not in bounds:
        continue
    m["checks"].append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "symbolic execution of the package's Go SSA with an SMT solver (QF_BV) deciding every branch and assertion; counterexamples replayed in the compiled package",
        "level": "model_checking",
        "level_note": bounds[i],
    })
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
