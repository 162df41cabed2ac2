SUMMARY = "Real properties.c on every small list of property names and every request (array, string, existing, none), with failing allocations; all lookups checked against a model in the harness."
ASSUMPTIONS = ["The names of a data set are distinct up to case, non-empty and contain no separator", "The C locale"]
def O(name, bounds, **kw):
    return dict(name=name, engine="symx", harness="properties.c", leak=True, jobs=5, base_defs=[], bounds=bounds, **kw)
OBLIGATIONS = [
 O("array", "0..2 names of 1..2 bytes, 0..2 requests of 0..2 bytes", defs=["ARRAY", "NP=2", "NR=2", "LEN=2"], thorough=dict(defs=["ARRAY", "NP=3", "NR=3", "LEN=2"], timeout=7200)),
 O("string", "0..2 names of 1..2 bytes, requests of 0..3 bytes", defs=["TEXT", "NP=2", "LEN=2", "REQ=3"], thorough=dict(defs=["TEXT", "NP=2", "LEN=2", "REQ=5"], timeout=7200)),
 O("all", "0..3 names of one byte, all requested", defs=["ALL", "NP=3", "LEN=1"], thorough=dict(defs=["ALL", "NP=3", "LEN=2"], timeout=7200)),
 O("existing", "0..2 names of 1..2 bytes, 0..2 existing of 1..2 bytes, one without a name", defs=["EXISTING", "NP=2", "NR=2", "LEN=2"], thorough=dict(defs=["EXISTING", "NP=3", "NR=2", "LEN=2"], timeout=7200)),
 O("lookup", "0..3 names of one byte, lookups of any 0..2 bytes and any index", defs=["ALL", "LOOKUP", "NP=3", "LEN=1"], thorough=dict(defs=["ALL", "LOOKUP", "NP=3", "LEN=2"], timeout=7200)),
 O("faults", "2 names, 1..2 requests, any allocation failing", defs=["ARRAY", "FAULTS", "NP=2", "NR=2", "LEN=1"]),
 O("setheader", "0..2 names of 8..10 characters differing from SetHeader in any one", defs=["SETHEADER", "NP=1"]),
]
