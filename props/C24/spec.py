SUMMARY = "Real status.c and exceptionsc.c: every status code and others around them, file names within bounds, allocations failing, with exact blocks."
ASSUMPTIONS = ["Messages that name the file are those of the codes that concern it: corrupt data, version, not found, failure, too many files, required property, collection failure, copy, write, permission, path length, encoding, seek and read"]
def O(name, func, bounds, faults=0, jobs=2, **kw):
    return dict(name=name, engine="symx", harness="status.c", func=func, leak=True, jobs=jobs, bounds=bounds, base_defs=[],         repo_defs=["exit=stub_exit", "fputs=stub_fputs"], defs=["FAULTS=%d" % faults] + list(kw.pop("more", [])), max_steps=50000000, **kw)
OBLIGATIONS = [
 O("status", "harness_status", "every status and 7 others, no file name or any of 0..3 bytes"),
 O("status faults", "harness_status", "every status and 7 others, up to 2 allocations failing", 2, more=["NAME=1"]),
 O("long", "harness_long", "every status that names the file, names of 120, 156, 250, 286, 4090, 4126, 32760, 32796, 65500 and 65536 bytes", jobs=6),
 O("distinct", "harness_distinct", "every pair of statuses"),
 O("exception", "harness_exception", "every status, with and without file and function, lines of any length"),
 O("exception faults", "harness_exception", "every status, up to 2 allocations failing", 2),
 O("exit", "harness_exit", "every status"),
]
