SUMMARY = "Real file.c path helpers over every path text and destination length within bounds, with exact blocks and an in-memory file system."
ASSUMPTIONS = ["The process id has one digit in the model", "The clock can be read"]
def O(name, func, bounds, **kw):
    return dict(name=name, engine="symx", harness="paths.c", func=func, vfs=True, leak=True, jobs=3, bounds=bounds, **kw)
OBLIGATIONS = [
 O("name", "harness_name", "any path of 0..9 bytes", defs=["PATH=9"], thorough=dict(defs=["PATH=14"], timeout=7200)),
 O("temp", "harness_temp", "any master path of 0..4 bytes, destinations around the length needed", defs=["PATH=4"], thorough=dict(defs=["PATH=6"], timeout=7200)),
 O("fresh", "harness_fresh", "two names that may be taken, any order of the names generated"),
 O("get", "harness_get", "four working directories, the file in any of their folders, destinations of 0..20 bytes"),
]
