SUMMARY = "Real ip.c on text blocks of exactly the text's size: any bytes, too many segments, and every well formed address with symbolic digits; addresses are in blocks of exactly the size requested, so a byte outside is a memory error."
ASSUMPTIONS = []
def O(name, func, bounds, **kw):
    return dict(name=name, engine="symx", harness="parse.c", func=func, leak=True, jobs=4, bounds=bounds, **kw)
OBLIGATIONS = [
 O("any", "harness", "any text of up to 4 bytes", defs=["LEN=4"], thorough=dict(defs=["LEN=6"], timeout=7200)),
 O("parts", "harness_parts", "5, 9 and 12 segments of 0..2 digits, one of which and its separator may differ", defs=["PARTS=12"], thorough=dict(defs=["PARTS=24"], timeout=7200)),
 O("v4", "harness_v4", "every dotted IPv4 address without leading zeros"),
 O("v6", "harness_v6", "every IPv6 address: any digits, any abbreviated run, all groups of one length (one may differ when nothing is abbreviated), optional dotted end"),
]
