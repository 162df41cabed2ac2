SUMMARY = "Real float.c for all 2^32 bit patterns of both representations (CBMC, IEEE float theory); exact models of powf and frexp."
ASSUMPTIONS = ["powf of 2 or -1 to an integer power and frexp are exact, as the C library's are",
               "An infinity is written with all bits of the mantissa set, as the tests of the repository fix it",
               "Little endian IEEE-754 machine"]
def O(name, bounds, **kw):
    return dict(dict(name=name, harness="float.c", base_defs=[], sources=["float.c"], bounds=bounds, stubs=["powf", "frexp"], unwind=5), **kw)
OBLIGATIONS = [
 O("tofile", "all native floats", defs=["TOFILE"]),
 O("tonative", "all patterns in the file", defs=["TONATIVE"]),
 O("roundtrip", "all native floats but NaN", defs=["ROUNDTRIP"], timeout=600),
 O("equal", "all pairs of patterns", defs=["EQUAL"]),
 O("coordinate", "all bytes of an item", defs=["COORDINATE"], sources=["float.c", "coordinate.c", "exceptionsc.c", "status.c", "memory.c", "tree.c", "threading.c"]),
]
