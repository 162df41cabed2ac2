SUMMARY = "Real data.c and memory.c readers: every sequence of buffer requests with failing allocations, every advance of a reader."
ASSUMPTIONS = ["The memory of a buffer is the heap's answer to the size requested"]
def O(name, bounds, **kw):
    return dict(name=name, engine="symx", harness="data.c", leak=True, jobs=3, base_defs=[], bounds=bounds, **kw)
OBLIGATIONS = [
 O("buffer", "5 requests of 0..4 or more bytes with one failing allocation", defs=["BUFFER", "STEPS=5"], thorough=dict(defs=["BUFFER", "STEPS=7"], timeout=3600)),
 O("sizes", "2 requests of any 64 bit size, memory stubbed", defs=["SIZES"]),
 O("reader", "blocks of 0..40 bytes, 3 advances by any 64 bit amount", defs=["READER"]),
]
for o in OBLIGATIONS:
    if o["name"] != "buffer": o["leak"] = False
