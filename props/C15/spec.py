SUMMARY = "Real pseudoheader.c, headers.c and evidence.c: every choice of evidence (fields, prefixes, symbolic values of every length), number of entries and buffer size, against the join computed in the harness."
ASSUMPTIONS = ["Two pseudo headers of two and three parts"]
OBLIGATIONS = [
 dict(name="join", engine="symx", harness="pseudo.c", leak=True, jobs=6, defs=["EVID=3", "VAL=1"], bounds="0..3 pairs of evidence for 5 fields and 3 prefixes, values of 0..1 bytes, 1..2 entries, buffers of 2..4 bytes",
      thorough=dict(defs=["EVID=4", "VAL=2"], jobs=8, timeout=7200)),
 dict(name="similar", engine="symx", harness="pseudo.c", leak=True, jobs=4, defs=["EVID=2", "VAL=1"], bounds="as join, for 0..2 pairs with a field which is the start of the name of a part or starts with it"),
 dict(name="null", engine="symx", harness="pseudo.c", func="harness_null", leak=True, jobs=1, bounds="no evidence, headers or pseudo evidence"),
]
