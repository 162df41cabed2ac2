SUMMARY = "Real cache.c, tree.c, data.c executed symbolically: all 32-bit and 64-bit keys, all capacity/concurrency pairs up to the bound, a bounded number of gets and releases. Trusted: the symbolic executor and SAT solver; counterexamples and witnesses are replayed natively."
ASSUMPTIONS = ["The loader is a harness stub that tags data with the key", "At most `concurrency` entries are in use at once (the documented contract)"]
OBLIGATIONS = [
 dict(name="shards32", engine="symx", harness="keys.c", leak=True, jobs=2,
      defs=["CMIN=0", "CONC=5", "CAPMAX=30", "SPARE=4", "GETS=1"], bounds="concurrency 0..5, capacity up to concurrency^2+4, any 32-bit key"),
 dict(name="shards64", engine="symx", harness="keys.c", leak=True, jobs=2,
      defs=["CMIN=0", "CONC=5", "CAPMAX=30", "SPARE=4", "GETS=1", "KEY64=1"], bounds="concurrency 0..5, capacity up to concurrency^2+4, any 64-bit key"),
 dict(name="keys32", engine="symx", harness="keys.c", leak=True, jobs=4,
      defs=["CMIN=1", "CONC=2", "CAPMAX=7", "SPARE=1", "GETS=3"], bounds="concurrency 1..2, capacity up to concurrency^2+1, 3 gets of any 32-bit key",
      thorough=dict(defs=["CMIN=1", "CONC=2", "CAPMAX=7", "SPARE=3", "GETS=4"], jobs=8, timeout=7200)),
 dict(name="keys64", engine="symx", harness="keys.c", leak=True, jobs=4,
      defs=["CMIN=1", "CONC=2", "CAPMAX=7", "SPARE=1", "GETS=3", "KEY64=1"], bounds="concurrency 1..2, capacity up to concurrency^2+1, 3 gets of any 64-bit key",
      thorough=dict(defs=["CMIN=1", "CONC=2", "CAPMAX=7", "SPARE=3", "GETS=4", "KEY64=1"], jobs=8, timeout=7200)),
 dict(name="near32", engine="symx", harness="keys.c", leak=True, jobs=4,
      defs=["CMIN=3", "CONC=3", "CAPMAX=10", "SPARE=0", "GETS=2", "NEAR=1"], bounds="concurrency 3, capacity 9, 2 gets of keys within 127 of 0 and both ends of the 32-bit range",
      thorough=dict(defs=["CMIN=3", "CONC=4", "CAPMAX=17", "SPARE=1", "GETS=3", "NEAR=1"], jobs=8, timeout=7200)),
]
