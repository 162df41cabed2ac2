#!/usr/bin/env python3
"""Collects the results of running the checks against the planted bugs (lines of the form 'ID [PROPERTY] ... CHECK PROPERTY rc=N ... replay=PATH') into seeded_results.json."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__)); f = here + "/seeded_results.json"
r = json.load(open(f)) if os.path.exists(f) else {}
for log in sys.argv[1:]:
    for l in open(log, errors="replace"):
        m = re.match(r"(\S+) \[(C\d+)\]", l)
        if not m or not os.path.isdir(f"{here}/../seeded/{m[1]}"): continue
        for p, rc, rest in re.findall(r"CHECK (C\d+) rc=(\d+)([^\]]*)", l):
            by = re.findall(r"replays/C\d+_(\w+)\.txt", rest)
            if p == m[2]: r[m[1]] = {"property": p, "rc": int(rc), "by": by}
r = {k: v for k, v in r.items() if os.path.isdir(f"{here}/../seeded/{k}")}
json.dump(r, open(f, "w"), indent=1, sort_keys=True)
print(len(r), "recorded;", "missing:", sorted(set(os.listdir(here + "/../seeded")) - set(r)), "not caught:", [k for k, v in r.items() if v["rc"] != 1])
