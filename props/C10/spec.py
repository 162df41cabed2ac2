SUMMARY = "Real CollectionBinarySearch against a sorted sequence (any position of the equal elements, or none) over any 32-bit index range of up to the stated length, with an error from any access or comparison."
ASSUMPTIONS = ["The collection's get and release and the comparer are harness stubs with the documented contract"]
OBLIGATIONS = [
 dict(name="search", engine="symx", passes="function(mem2reg)", jobs=8, harness="search.c", defs=["LEN=20"],
      bounds="ranges of 0..20 elements anywhere in the 32-bit index space",
      thorough=dict(defs=["LEN=60"], timeout=7200)),
 dict(name="failing", engine="symx", passes="function(mem2reg)", jobs=8, harness="search.c", defs=["LEN=10", "FAIL"],
      bounds="ranges of 1..10 elements anywhere in the 32-bit index space, a failing get or comparison at any element",
      thorough=dict(defs=["LEN=24", "FAIL"], timeout=7200)),
]
