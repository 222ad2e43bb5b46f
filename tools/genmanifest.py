#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and properties.jsonl."""
import json, subprocess, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
ids = subprocess.check_output(["bin/gosym", "list"], text=True).split()
props = [json.loads(l) for l in open("properties.jsonl")]
na = json.load(open("tools/not_applicable.json"))
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
note = ("Bounded: holds for every value of the symbolic inputs within the bounds in DESIGN.md and the evidence file, as decided by "
        "z3 (cvc5 cross-checks) over the SSA form of the current source; counterexamples and samples are replayed on the real build. "
        "Trusts the engine's models of files, mmap, sync, fmt and flag parsing.")
for p in props:
    if p["id"] in ids:
        m["checks"].append({"property": p["id"], "quick_cmd": "bash check.sh %s" % p["id"], "thorough_cmd": "bash check.sh %s -thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"], "technique": "symbolic execution of the Go SSA with SMT (z3/cvc5), bounded; native replay of counterexamples",
            "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": na.get(p["id"], "check under construction")})
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
