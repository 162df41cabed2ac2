SUMMARY = "Real cache.c and tree.c: every bounded history of gets, releases and loader failures on one shard, and every schedule of two threads within the preemption bound, with a scheduling point at every access to shared memory (sequential consistency). Trusted: the symbolic executor and SAT solver, the model of mutexes."
ASSUMPTIONS = ["Sequentially consistent memory", "The loader is a harness stub"]
OBLIGATIONS = [
 dict(name="hold", engine="symx", harness="hold.c", leak=True, jobs=4, defs=["CAP=2", "K=3", "OPS=4"],
      bounds="capacity 2, 3+2 distinct keys of any value, every history of 4 gets/releases with any loads failing",
      thorough=dict(defs=["CAP=3", "K=4", "OPS=6"], jobs=8, timeout=7200)),
]
OBLIGATIONS += [
 dict(name="threads", engine="symx", threads=True, preempt=2, harness="threads.c", jobs=2, defs=["CAP=4", "CONC=2", "ROUNDS=1"],
      bounds="two threads, same or different keys of one shard, one get/check/release each, every schedule with up to 2 preemptions at any access to shared memory",
      thorough=dict(defs=["CAP=4", "CONC=2", "ROUNDS=2"], preempt=3, jobs=8, timeout=7200)),
]
OBLIGATIONS += [
 dict(name="full", engine="symx", threads=True, preempt=2, harness="threads.c", func="harness_full", jobs=4, defs=["CAP=2", "CONC=1", "ROUNDS=1"],
      bounds="all entries in use: one thread asks for a new key while the other gives the entries back and asks for the same key or another, every schedule with up to 2 preemptions",
      thorough=dict(preempt=3, jobs=8, timeout=7200)),
]
OBLIGATIONS += [
 dict(name="no-threading", engine="symx", harness="hold.c", leak=True, jobs=4, defs=["CAP=2", "K=3", "OPS=3"], repo_defs=["FIFTYONE_DEGREES_NO_THREADING"],
      bounds="a library built without threading: capacity 2, 3+2 distinct keys, every history of 3 gets/releases with any loads failing",
      thorough=dict(defs=["CAP=2", "K=3", "OPS=5"], jobs=8, timeout=7200)),
]
