SUMMARY = "Real overrides.c: every sequence of additions with failing allocations, evidence fields and property names of any characters, profile id texts; read back against a model in the harness."
ASSUMPTIONS = ["Property names are letters, digits and underscores", "The C locale"]
def O(name, bounds, **kw):
    return dict(name=name, engine="symx", harness="overrides.c", leak=True, jobs=4, base_defs=[], bounds=bounds, **kw)
OBLIGATIONS = [
 O("add", "arrays of 0..2 values, 3 additions for properties -1..2 of values of 0..2 bytes, one failing allocation, reset at any point", defs=["ADD", "CAP=2", "STEPS=3", "LEN=2"], thorough=dict(defs=["ADD", "CAP=3", "STEPS=5", "LEN=2"], timeout=7200)),
 O("long", "values of 0, 1, 32765..32769 and 65536 bytes", defs=["LONG"], max_steps=400000000, witness_optional=True),
 O("extract", "2 available properties of 1..2 characters, fields with 51D_ and 0..2 characters or any 3 characters, 2 pairs, all prefixes", defs=["EXTRACT", "LEN=2"], thorough=dict(defs=["EXTRACT", "LEN=3"], timeout=7200)),
 O("overriding", "2..3 property names of 1..3 characters", defs=["OVERRIDING", "LEN=3"], thorough=dict(defs=["OVERRIDING", "LEN=5"], timeout=3600)),
 O("profiles", "any text of 0..4 bytes", defs=["PROFILES", "LEN=4"], thorough=dict(defs=["PROFILES", "LEN=6"], timeout=3600)),
 O("digits", "1..2 ids: each of 8 starts (none, around 2^31, 2^32, 2^64, 2^65, leading zeros) followed by any three digits, any separator", defs=["DIGITS"]),
 O("pieces", "2 pieces of evidence of two ids each, all prefixes, names that are and are not those of profile ids", defs=["PROFILES", "PAIRS=2"], thorough=dict(defs=["PROFILES", "PAIRS=3"], timeout=3600)),
]
