#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json, os, runpy
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
T = runpy.run_path(here + "/table.py"); notes = runpy.run_path(here + "/notes.py")["N"]
kf = json.load(open(root + "/known_findings.json"))["findings"]
try: seeded = json.load(open(here + "/seeded_results.json"))
except FileNotFoundError: seeded = {}
man = json.load(open(root + "/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in man.get("not_applicable", [])}
out = [open(here + "/design_head.md").read(), "## 3. Properties\n"]
for p in T["P"]:
    out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n")
    f = f"{root}/props/{p['id']}/spec.py"
    if not os.path.exists(f):
        out.append("**Not claimed**: " + na.get(p["id"], "no check yet") + "\n"); continue
    m = runpy.run_path(f); how, outside = notes.get(p["id"], ("", ""))
    out.append(m.get("SUMMARY", "") + (" " + how if how else "") + "\n")
    for o in m["OBLIGATIONS"]:
        t = f"- `{o['name']}`: {o.get('bounds', '')}"
        th = o.get("thorough") or {}
        d = [x for x in th.get("defs", []) if "=" in x]
        if d or "preempt" in th:
            t += "; thorough: " + ", ".join(d + ([f"preemptions={th['preempt']}"] if "preempt" in th else []))
        if o.get("engine") != "symx": t += " (CBMC)"
        out.append(t)
    out.append("")
    if m.get("ASSUMPTIONS"): out.append("Assumed: " + "; ".join(m["ASSUMPTIONS"]) + ".\n")
    if outside: out.append("Outside: " + outside + "\n")
    for k in kf:
        if k["property"] == p["id"]:
            out.append(f"- {'KNOWN FINDING' if k['status'] == 'known' else 'fixed in ' + k.get('commit', '')}: {k['what']}")
    s = sorted(i for i, r in seeded.items() if r["property"] == p["id"])
    if s: out.append("- planted: " + ", ".join(f"`{i}` {'caught' if seeded[i]['rc'] == 1 else 'MISSED'}" for i in s))
    out.append("")
out.append(open(here + "/design_tail.md").read())
out.append("## 5. Planted bugs\n\n| bug | property | needs | caught |\n|---|---|---|---|")
for i, r in sorted(seeded.items()):
    try: n = json.load(open(f"{root}/seeded/{i}/meta.json"))["needs"]
    except FileNotFoundError: continue
    out.append(f"| {i} | {r['property']} | {n} | {'yes: ' + ', '.join(r['by']) if r['rc'] == 1 else 'no'} |")
open(root + "/DESIGN.md", "w").write("\n".join(out) + "\n")
