SUMMARY = "Real file.c copy, write, load, size and delete over an in-memory file system: every content and every call failing."
ASSUMPTIONS = ["The C library reports a failed read through ferror and a failed close by its result", "An empty file may fail to load"]
def O(name, func, bounds, faults=1, size=4, defs=(), **kw):
    return dict(name=name, engine="symx", harness="copy.c", func=func, vfs=True, leak=True, jobs=3, bounds=bounds, base_defs=[],
        defs=["SIZE=%d" % size, "FAULTS=%d" % faults, "VFS_CAP=%d" % max(64, size + 8)] + list(defs), **kw)
L = ["LARGE=8192"]
OBLIGATIONS = [
 O("copy", "harness_copy", "files of 0..4 bytes, up to 2 calls failing", 2),
 O("copy large", "harness_copy", "files of 8191..8193 bytes, one call failing", 1, 8194, L, max_steps=20000000),
 O("copy plain", "harness_copy", "files of 0..8 bytes", 0, 8),
 O("write", "harness_write", "0..4 bytes, up to 2 calls failing", 2),
 O("load", "harness_load", "files of 0..4 bytes, up to 2 calls and an allocation failing", 2),
 O("other", "harness_other", "files of 0..2 bytes, one call failing", 1, 2),
]
