SUMMARY = "Real yamlfile.c over an in-memory file system: any content for memory safety and limits, every well formed file within bounds for exact contents."
ASSUMPTIONS = ["Keys don't start with - or .", "A key or value longer than its space is cut to it", "Quoted values fit their space with the last quote", "The collection has at least one pair with space for one byte"]
def O(name, bounds, func="harness", **kw):
    return dict(name=name, engine="symx", harness="yaml.c", func=func, vfs=True, leak=True, jobs=4, bounds=bounds, **kw)
OBLIGATIONS = [
 O("any", "any file of 0..4 bytes, buffers of 1..2 bytes, 1..2 pairs of 1..2 bytes, limits -1..2", defs=["SIZE=4", "BUFFER=2"], thorough=dict(defs=["SIZE=6", "BUFFER=3"], timeout=14400)),
 O("header", "as any, with a document start first", defs=["SIZE=8", "BUFFER=2", "HEADER"], thorough=dict(defs=["SIZE=10", "BUFFER=3", "HEADER"], timeout=14400)),
 O("faults", "any file of 0..3 bytes, one open, read or close failing", defs=["SIZE=3", "BUFFER=2", "FAULT"], thorough=dict(defs=["SIZE=5", "BUFFER=3", "FAULT"], timeout=14400)),
 O("documents", "0..2 documents of 0..1 pairs with keys and values of up to 2 bytes, quoted or not, either line end", func="harness_form", defs=["DOCS=2", "PAIRS=1", "PART=2", "LENGTH=5"], thorough=dict(defs=["DOCS=2", "PAIRS=2", "PART=1", "LENGTH=5"], timeout=14400)),
 O("pairs", "a document of 0..2 pairs with keys and values of up to 2 bytes, quoted or not, cut or not", func="harness_form", defs=["DOCS=1", "FROM=1", "PAIRS=2", "PART=1", "SPACES", "LENGTH=3"], thorough=dict(defs=["DOCS=1", "FROM=1", "PAIRS=2", "PART=2", "SPACES", "BUFFER=3"], timeout=14400)),
 O("quotes", "a document of 0..2 pairs with keys of one byte and values of up to 2 bytes, quoted or not", func="harness_form", defs=["DOCS=1", "FROM=1", "PAIRS=2", "PART=2", "KEYPART=1", "SPACE=5", "LENGTH=4"], thorough=dict(defs=["DOCS=1", "FROM=1", "PAIRS=2", "PART=3", "KEYPART=1", "SPACE=6"], timeout=14400)),
 O("missing", "a file which isn't there", func="harness_missing"),
]
