SUMMARY = "Real dataset.c, resource.c, file.c, pool.c, headers.c and properties.c under a small engine that follows the documented contract of initialisers, over an in-memory file system whose calls may fail."
ASSUMPTIONS = ["One reload at a time", "A file initialiser that fails has freed the data set, one from memory has freed all but the data set itself (the documented contract)", "Freeing the manager does not itself run out of memory"]
def O(name, bounds, func="harness", **kw):
    return dict(name=name, engine="symx", harness="reload.c", func=func, vfs=True, leak=True, threads=True, jobs=4, max_steps=20000000, bounds=bounds, **dict(dict(preempt=0), **kw))
OBLIGATIONS = [
 O("file", "2 reloads from 3 files (one missing), all temporary file and memory configurations, a user holding any of the data sets", defs=["RELOADS=2"], thorough=dict(defs=["RELOADS=3"], timeout=7200)),
 O("faults", "as file, one reload, one call to the file system or allocation failing", defs=["FAULTS=1"], thorough=dict(defs=["FAULTS=2"], timeout=7200)),
 O("memory", "reload from memory, one allocation failing", func="harness_memory", defs=["FAULTS=1"]),
 O("users", "one user and one reload, up to 2 preemptions", func="harness_users", defs=["USERS", "VISITORS=1", "ROUNDS=1", "MEMORY"], preempt=2, thorough=dict(defs=["USERS", "VISITORS=1", "ROUNDS=2"], preempt=3, timeout=7200)),
 O("two_users", "two users and one reload, up to 1 preemption", func="harness_users", defs=["USERS", "VISITORS=2", "ROUNDS=1", "MEMORY"], preempt=1, thorough=dict(defs=["USERS", "VISITORS=2", "ROUNDS=1"], preempt=2, timeout=7200)),
 O("two_reloads", "one user and two reloads one after the other, up to 1 preemption", func="harness_users", defs=["USERS", "VISITORS=1", "ROUNDS=1", "RELOADS=2", "MEMORY"], preempt=1, thorough=dict(defs=["USERS", "VISITORS=1", "ROUNDS=1", "RELOADS=2"], preempt=3, timeout=7200)),
 O("name", "file names around the longest, and around 65536 characters and as many more", func="harness_name"),
 O("reset", "memory filled with any byte before", func="harness_reset"),
 O("properties", "3 properties in any order, the name or the evidence of one that can not be read, one allocation failing", func="harness_properties", base_defs=[]),
]
