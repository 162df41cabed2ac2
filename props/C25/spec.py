SUMMARY = "Real textfile.c over an in-memory file system: every content, buffer length and limit within bounds, with the buffer an exact heap block."
ASSUMPTIONS = ["Empty lines are not delivered", "Every line and one line end character fit the buffer (otherwise only memory safety is required)", "File content has no NUL bytes", "Buffer length is at least 1"]
def O(name, bounds, func="harness", **kw):
    return dict(name=name, engine="symx", harness="text.c", func=func, vfs=True, leak=True, jobs=4, bounds=bounds, **kw)
OBLIGATIONS = [
 O("lines", "files of 0..6 bytes of any non-NUL content, buffers of 1..7 bytes, limits -1..3", defs=["SIZE=6", "BUFFER=7"], thorough=dict(defs=["SIZE=9", "BUFFER=10"], timeout=14400)),
 O("unlimited", "files of 0..5 bytes, buffers of 1..6 bytes, no limit", defs=["SIZE=5", "BUFFER=6", "WITHOUT"], thorough=dict(defs=["SIZE=8", "BUFFER=9", "WITHOUT"], timeout=14400)),
 O("long", "files of 0..5 bytes with lines longer than the buffer", defs=["SIZE=5", "BUFFER=3", "LONG"], thorough=dict(defs=["SIZE=8", "BUFFER=6", "LONG"], timeout=14400)),
 O("faults", "files of 0..4 bytes, one open, read or close failing", defs=["SIZE=4", "BUFFER=5", "FAULT"], thorough=dict(defs=["SIZE=7", "BUFFER=8", "FAULT"], timeout=14400)),
 O("missing", "a file which isn't there", func="harness_missing"),
]
