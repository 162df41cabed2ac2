SUMMARY = "Real ip.c: comparison decided for all pairs of addresses, lists for every mix of addresses, symbolic digits and separators, any short text and an allocation failure."
ASSUMPTIONS = []
def O(name, func, bounds, **kw):
    return dict(name=name, engine="symx", harness="list.c", func=func, leak=True, jobs=3, bounds=bounds, **kw)
OBLIGATIONS = [
 O("compare", "harness_compare", "all pairs of 4 and 16 byte addresses, all types and one unknown one"),
 O("list", "harness_list", "0..2 addresses (IPv4 or abbreviated IPv6, symbolic digits) with 0..2 separators before, between and after", defs=["ADDRS=2"], thorough=dict(defs=["ADDRS=3"], timeout=7200)),
 O("any", "harness_any", "any text of up to 4 bytes, one of the first two allocations failing", defs=["LEN=4"], thorough=dict(defs=["LEN=5"], timeout=7200)),
]
