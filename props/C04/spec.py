SUMMARY = "Real cache.c and tree.c against an exact LRU model for every bounded history of gets and releases on one shard with symbolic keys. Shards are independent, so one shard decides the policy; the mapping of keys to shards is decided by another property. Trusted: the symbolic executor and SAT solver."
ASSUMPTIONS = ["One thread (the shard lock serialises access)"]
OBLIGATIONS = [
 dict(name="lru2", engine="symx", harness="lru.c", leak=True, jobs=4, defs=["CAP=2", "K=3", "OPS=6"],
      bounds="capacity 2, 3 distinct keys of any value, every history of 6 operations",
      thorough=dict(defs=["CAP=2", "K=4", "OPS=9"], jobs=8, timeout=7200)),
 dict(name="lru3", engine="symx", harness="lru.c", leak=True, jobs=4, defs=["CAP=3", "K=4", "OPS=5"],
      bounds="capacity 3, 4 distinct keys of any value, every history of 5 operations",
      thorough=dict(defs=["CAP=3", "K=5", "OPS=8"], jobs=8, timeout=7200)),
 dict(name="lrufail", engine="symx", harness="lru.c", leak=True, jobs=4, defs=["CAP=2", "K=3", "OPS=6", "FAIL=1"],
      bounds="capacity 2, 3 distinct keys of any value, every history of 6 operations with any of the loads failing",
      thorough=dict(defs=["CAP=2", "K=4", "OPS=8", "FAIL=1"], jobs=8, timeout=7200)),
]
OBLIGATIONS += [
 dict(name="no-threading", engine="symx", harness="lru.c", leak=True, jobs=4, defs=["CAP=2", "K=3", "OPS=6"], repo_defs=["FIFTYONE_DEGREES_NO_THREADING"],
      bounds="a library built without threading: capacity 2, 3 distinct keys, every history of 6 operations",
      thorough=dict(defs=["CAP=2", "K=3", "OPS=7"], jobs=8, timeout=7200)),
]
