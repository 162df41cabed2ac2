#!/usr/bin/env python3
"""kf.py fixed C05 <commit> <what>   append an entry to known_findings.json (never run by a check)"""
import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
kind, prop, commit, what = sys.argv[1:5]
d["findings"].append({"id": "%s-%s" % (prop, commit), "property": prop, "status": "fixed", "commit": commit,
    "what": what, "line": "fixed: property=%s %s %s" % (prop, commit, what)})
json.dump(d, open(p, "w"), indent=1)
