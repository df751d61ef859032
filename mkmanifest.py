#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present."""
import json, os, glob
os.chdir(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if glob.glob("harness/zz_verif_%s*.go" % i.lower()):
        checks.append({
            "property": i,
            "quick_cmd": "bash check.sh %s quick" % i,
            "thorough_cmd": "bash check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the Go SSA of /repo and of a harness with a reference oracle; assertions decided by z3, counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Holds for every input within the bounds stated per harness in the evidence (string lengths and alphabets, tree families, number of calls). Trusts the SSA interpreter and its models of regexp, maps, reflect and sync.Pool (cross-checked against native runs on sampled paths in every run), z3, and the reference oracle in the harness.",
        })
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
m = {
    "version": 1,
    "setup_cmd": "bash check.sh --build",
    "checks": checks,
    "not_applicable": na,
    "notes": "See DESIGN.md. check.sh ID quick|thorough decides a property; check.sh ID replay FILE replays a reported counterexample against the real code.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
print(len(checks), "claimed", len(na), "not")
