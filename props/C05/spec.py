SUMMARY = "Real pool.c: all bounded histories on one thread with creation failing anywhere, the largest pools, and every schedule of two threads within the preemption bound with a scheduling point at every access to shared memory and every atomic. Trusted: the symbolic executor and SAT solver."
ASSUMPTIONS = ["Sequentially consistent memory", "Fewer than 65536 operations overtake one operation (the ABA counter is 16 bits wide)"]
OBLIGATIONS = [
 dict(name="seq", engine="symx", harness="seq.c", jobs=4, defs=["MAXC=3", "OPS=7"], leak=True,
      bounds="concurrency 0..3, creation failing at any resource, every history of 7 gets/releases",
      thorough=dict(defs=["MAXC=4", "OPS=9"], jobs=8, timeout=7200)),
 dict(name="big", engine="symx", harness="seq.c", func="harness_big", defs=["MAXC=3", "OPS=1", "BIG=1"], leak=True, max_steps=20000000,
      bounds="concurrency 65534 and 65535"),
 dict(name="threads", engine="symx", threads=True, preempt=3, harness="threads.c", jobs=4, defs=["RES=2", "ROUNDS=1"],
      bounds="2 threads, 2 resources, one get and release each, every schedule with up to 3 preemptions",
      thorough=dict(defs=["RES=2", "ROUNDS=2"], preempt=4, jobs=8, timeout=7200)),
 dict(name="aba", engine="symx", threads=True, preempt=2, harness="threads.c", func="harness_aba", jobs=4, defs=["RES=3", "ROUNDS=1"],
      bounds="2 threads, 3 resources, one thread holding two at once, every schedule with up to 2 preemptions",
      thorough=dict(preempt=3, defs=["RES=3", "ROUNDS=2"], jobs=8, timeout=7200)),
 dict(name="history", engine="symx", threads=True, preempt=2, harness="threads.c", func="harness_history", jobs=4, defs=["RES=4", "ROUNDS=1", "JOPS=5"],
      bounds="2 threads, 4 resources, one get and release against every history of 5 takes and returns of up to 3 at once in any order, every schedule with up to 2 preemptions",
      thorough=dict(preempt=3, defs=["RES=4", "ROUNDS=1", "JOPS=6"], jobs=8, timeout=7200)),
]
OBLIGATIONS += [
 dict(name="no-threading", engine="symx", harness="seq.c", jobs=4, defs=["MAXC=3", "OPS=7"], leak=True, repo_defs=["FIFTYONE_DEGREES_NO_THREADING"],
      bounds="a library built without threading: concurrency 0..3, creation failing at any resource, every history of 7 gets/releases",
      thorough=dict(defs=["MAXC=4", "OPS=9"], jobs=8, timeout=7200)),
]
