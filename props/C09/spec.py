SUMMARY = "Real collection.c readers over a model file with every content, truncated or not, one file or allocation fault, in file and cached: the size an item claims is decided by the solver."
ASSUMPTIONS = ["File system calls behave as the model in lib/vfs.c", "Allocations of more than 128 bytes fail (no item fits the file then)"]
def O(name, kind, size, twice, offs, bounds, **kw):
    return dict(name=name, engine="symx", harness="corrupt.c", vfs=True, jobs=3, leak=True, base_defs=[], defs=["KIND=%d" % kind, "SIZE=%d" % size, "TWICE=%d" % twice, "OFFS=%d" % offs], bounds=bounds,
      thorough=dict(defs=["KIND=%d" % kind, "SIZE=%d" % (size + 6), "TWICE=%d" % twice, "OFFS=%d" % (offs + 2)], jobs=8, timeout=7200), **kw)
OBLIGATIONS = [
 O("any", 0, 9, 0, 2, "any item size (32 bits), 9 byte file, one fault"),
 O("anytwice", 0, 8, 1, 1, "items of 0 to 8 bytes, 8 byte file, two reads with the memory of the first reused"),
 O("string", 1, 9, 0, 2, "strings in a 9 byte file with any content, one fault"),
 O("stringtwice", 1, 8, 1, 1, "strings in a 8 byte file with any content, two reads with the memory of the first reused"),
 O("component", 2, 34, 0, 5, "components in a 34 byte file with any content"),
 O("profile", 3, 26, 0, 3, "profiles in a 26 byte file with any content"),
]
