SUMMARY = "Real memory.c tracking over every sequence of allocations and frees and every interleaving of two threads within the preemption bound, against the sum of live sizes."
ASSUMPTIONS = ["Tracking is reset only when nothing tracked is live", "An aligned request counts as the multiple of the alignment allocated for it", "Recording an allocation does not itself run out of memory"]
def O(name, bounds, **kw):
    return dict(name=name, engine="symx", harness="memory.c", bounds=bounds, **kw)
OBLIGATIONS = [
 O("histories", "5 operations over 3 blocks, sizes 32 and 37, aligned or not", defs=["HISTORY", "STEPS=5"], jobs=4, base_defs=[], thorough=dict(defs=["HISTORY", "STEPS=7"], timeout=7200)),
 O("aligned", "alignments 8, 16, 32, 64 and 128, sizes 0..70", defs=["ALIGNED"], jobs=3, base_defs=[]),
 O("threads", "2 threads, each allocating and freeing 2 blocks of any size, preemption bound 2", defs=["THREADS"], threads=True, preempt=2, jobs=4, thorough=dict(preempt=3, timeout=7200)),
 O("peak", "2 threads, one allocating and the other freeing and allocating, every schedule with up to 2 preemptions at any access to shared memory", defs=["PEAK"], threads=True, globals=True, preempt=2, jobs=4, thorough=dict(preempt=3, timeout=7200)),
 O("built-in", "a library built with FIFTYONE_DEGREES_MEMORY_TRACK_ENABLED; sizes 1..40, aligned or not", defs=["BUILT_IN"], repo_defs=["FIFTYONE_DEGREES_MEMORY_TRACK_ENABLED"], base_defs=[]),
]
OBLIGATIONS += [
 O("no-threading", "a library built without threading: 5 operations over 3 blocks, sizes 32 and 37, aligned or not", defs=["HISTORY", "STEPS=5"], jobs=4, base_defs=[], repo_defs=["FIFTYONE_DEGREES_NO_THREADING"], thorough=dict(defs=["HISTORY", "STEPS=6"], timeout=7200)),
]
