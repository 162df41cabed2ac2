SUMMARY = "Real collection.c, cache.c, pool.c, tree.c, data.c and file.c over a model file system whose calls may fail: all configurations (in file, cached, partly loaded, chained), contents and bounded access histories, against the file's bytes."
ASSUMPTIONS = ["File system calls behave as the model in lib/vfs.c", "Items held at once fit in the cache", "The collection in the file is well formed (see C09 for corrupt items)"]
def O(name, func, fixed, n, ops, cap, bounds, **kw):
    return dict(name=name, engine="symx", harness="coll.c", func=func, vfs=True, jobs=8, leak=True,
                defs=["FIXED=%d" % fixed, "N=%d" % n, "OPS=%d" % ops, "CAPACITY=%d" % cap], bounds=bounds, **kw)
JOBS = 2
OBLIGATIONS = [
 O("fixed", "harness", 1, 3, 3, 2, "3 elements of 2 bytes, 0..4 loaded, cache of 0..2, every history of 3 gets and releases", weight=3,
   thorough=dict(defs=["FIXED=1", "N=4", "OPS=4", "CAPACITY=3"], timeout=7200)),
 O("variable", "harness", 0, 2, 3, 2, "2 items of 1..3 bytes, 0..3 loaded, cache of 0..2, every history of 3 gets and releases", weight=3,
   thorough=dict(defs=["FIXED=0", "N=3", "OPS=4", "CAPACITY=2"], timeout=7200)),
 O("faultfixed", "harness_fault", 1, 3, 0, 1, "one fault at any file operation or allocation, or no free handle", base_defs=[], thorough=dict(defs=["FIXED=1", "N=4", "OPS=0", "CAPACITY=2"], timeout=7200)),
 O("faultvariable", "harness_fault", 0, 2, 0, 1, "one fault at any file operation or allocation, or no free handle", base_defs=[], thorough=dict(defs=["FIXED=0", "N=3", "OPS=0", "CAPACITY=2"], timeout=7200)),
 O("reusefixed", "harness_reuse", 1, 2, 3, 1, "one item used in turn with collections in file, cached and partly loaded, 3 gets"),
 O("reusevariable", "harness_reuse", 0, 2, 2, 1, "one item used in turn with collections in file, cached and partly loaded, 2 gets", thorough=dict(defs=["FIXED=0", "N=2", "OPS=3", "CAPACITY=1"])),
]
