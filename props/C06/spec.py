SUMMARY = "Real resource.c: all bounded single-thread histories against an exact model, and every schedule of users, replacements and freeing within the preemption bound with a scheduling point at every access to shared memory and every atomic."
ASSUMPTIONS = ["Sequentially consistent memory", "The 'window' obligations use the real allocator; the others keep the memory of freed handles (not of resources) unrecycled, which is what the counter protocol relies on"]
def T(func, preempt, rounds=1, defs=(), **kw):
    return dict(name=func, engine="symx", threads=True, preempt=preempt, harness="threads.c", func="harness_" + func, jobs=4,
                defs=["ROUNDS=%d" % rounds] + list(defs), **kw)
OBLIGATIONS = [
 dict(name="seq", engine="symx", threads=True, preempt=0, harness="seq.c", jobs=4, defs=["OPS=7", "MAXR=3"], leak=True,
      bounds="every history of 7 acquires, releases, replacements and freeing the manager",
      thorough=dict(defs=["OPS=9", "MAXR=4"], jobs=8, timeout=7200)),
 T("one", 3, 2, ["ORDERED"], bounds="one user (2 rounds) and one replacement, up to 3 preemptions", thorough=dict(preempt=6, timeout=7200, jobs=8)),
 T("two", 3, 1, ["ORDERED"], bounds="two users and one replacement, up to 3 preemptions", thorough=dict(preempt=4, timeout=7200, jobs=8)),
 T("replace", 3, bounds="two concurrent replacements, up to 3 preemptions", thorough=dict(preempt=6, timeout=7200, jobs=8)),
 T("mixed", 2, bounds="two concurrent replacements and a user, up to 2 preemptions", thorough=dict(preempt=3, timeout=7200, jobs=8)),
 T("free", 3, bounds="two releases while the manager is freed, up to 3 preemptions", thorough=dict(preempt=4, timeout=7200, jobs=8)),
 dict(name="window", engine="symx", threads=True, preempt=2, harness="threads.c", func="harness_one", jobs=4, defs=["ROUNDS=1", "RECYCLE"],
      all_failures=True, bounds="one user and one replacement, handle memory really freed, up to 2 preemptions"),
]
OBLIGATIONS += [
 dict(name="no-threading", engine="symx", harness="seq.c", jobs=4, defs=["OPS=7", "MAXR=3"], leak=True, repo_defs=["FIFTYONE_DEGREES_NO_THREADING"],
      bounds="a library built without threading: every history of 7 acquires, releases, replacements and freeing the manager",
      thorough=dict(defs=["OPS=9", "MAXR=4"], jobs=8, timeout=7200)),
]
