SUMMARY = "Real string.c on every pair of byte strings of the stated lengths in exactly sized memory, against the C-library meaning written in the harness."
ASSUMPTIONS = ["The C locale: only ASCII letters have a case"]
def O(name, bounds, **kw):
    return dict(name=name, engine="symx", harness="string.c", jobs=3, base_defs=[], bounds=bounds, **kw)
OBLIGATIONS = [
 O("compare", "all pairs of strings of 0..6 bytes", defs=["COMPARE", "LEN=6"], thorough=dict(defs=["COMPARE", "LEN=9"])),
 O("length", "all pairs of strings of 0..5 bytes, limits 0..7 and beyond the end", defs=["LENGTH", "LEN=5"], thorough=dict(defs=["LENGTH", "LEN=8"])),
 O("substring", "all strings of 0..5 bytes, substrings of 1..4 bytes", defs=["SUB", "LEN=5"], thorough=dict(defs=["SUB", "LEN=7"], timeout=3600)),
]
