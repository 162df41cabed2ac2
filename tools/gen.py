#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (tools/table.py).
A property is claimed when props/<ID>/spec.py exists."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(V, "tools", "table.py")).read(), ns)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in ns["P"]:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks, na = [], []
for p in ns["P"]:
    if os.path.exists(os.path.join(V, "props", p["id"], "spec.py")):
        s = {}
        exec(open(os.path.join(V, "props", p["id"], "spec.py")).read(), s)
        eng = {o.get("engine", "cbmc") for o in s["OBLIGATIONS"]}
        tech = []
        if "symx" in eng:
            tech.append("symbolic execution of the LLVM IR (symx: bit-blasting + SAT, Z3)")
        if "cbmc" in eng:
            tech.append("CBMC bounded model checking of the C sources (SAT)")
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 /verif/check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "; ".join(tech) + "; counterexamples replayed natively",
            "level": "other",
            "level_note": s.get("SUMMARY") or p["title"]})
    else:
        na.append({"property": p["id"], "reason": p.get("na", "No check built yet.")})
m = {"version": 1, "setup_cmd": "bash /verif/symx/build.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
