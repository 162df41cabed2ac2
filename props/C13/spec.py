SUMMARY = "Real evidence.c: every add and iterate history within bounds with symbolic prefixes, mask and stop, and every key text."
ASSUMPTIONS = ["A pair's prefix is one of the declared prefixes"]
def O(name, func, bounds, **kw):
    return dict(name=name, engine="symx", harness="evidence.c", func=func, leak=True, jobs=3, bounds=bounds, **kw)
OBLIGATIONS = [
 O("history", "harness", "capacity 0..2 and one add more, 0..2 pseudo evidence pairs, any 8-bit mask, stop after any call", defs=["MAX=2"], thorough=dict(defs=["MAX=4"], timeout=7200)),
 O("key", "harness_key", "any key of up to 9 bytes", defs=["KEY=9"], thorough=dict(defs=["KEY=16"], timeout=7200)),
 O("prefix", "harness_prefix", "any 32-bit prefix value"),
]
