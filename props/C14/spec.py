SUMMARY = "Real headers.c on symbolic names, compared with the list the names define; every lookup of a symbolic name or id; every allocation failing."
ASSUMPTIONS = ["Names contain letters A and B of either case and separators; ids are distinct and positive"]
def O(name, bounds, **kw):
    return dict(name=name, engine="symx", harness="headers.c", leak=True, jobs=4, base_defs=[], bounds=bounds, **kw)
OBLIGATIONS = [
 O("lookup", "0..1 names of 0..4 characters, lookups of any name of 0..4 bytes and any id", defs=["NAMES=1", "LEN=4"], witness_optional=True, thorough=dict(defs=["NAMES=2", "LEN=3"], timeout=7200)),
 O("names", "0..2 names of 0..4 characters, up to one failing allocation", defs=["NAMES=2", "LEN=4", "FAULTS"], thorough=dict(defs=["NAMES=2", "LEN=5", "FAULTS"], timeout=7200)),
]
