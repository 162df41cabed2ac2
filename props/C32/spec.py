SUMMARY = "Real list.c on every sequence of adds, releases, frees and inits within capacity, with failing allocation; each release counted per item."
ASSUMPTIONS = ["A list is not added to beyond its capacity (the caller's contract) and every item has a collection"]
def O(name, bounds, **kw):
    return dict(name=name, engine="symx", harness="list.c", leak=True, jobs=4, bounds=bounds, **kw)
OBLIGATIONS = [
 O("histories", "capacity 0..3, 5 operations", defs=["CAP=3", "STEPS=5"], thorough=dict(defs=["CAP=3", "STEPS=9"], timeout=3600)),
 O("faults", "capacity 0..2, 4 operations, one failing allocation, assertions of the code off", defs=["CAP=2", "STEPS=4", "FAULTS"], base_defs=[]),
]
