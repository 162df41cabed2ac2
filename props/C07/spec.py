SUMMARY = "Real collection.c and memory.c over buffers of exactly the stated size with every content: a read outside the buffer, a wrong element or a missing refusal is a failed assertion or memory check."
ASSUMPTIONS = ["The integer at the start of the buffer is aligned as the platform requires"]
OBLIGATIONS = [
 dict(name="buffer", engine="symx", harness="memory_coll.c", jobs=8, defs=["SIZE=12", "ES=4"], leak=True, weight=3,
      bounds="every buffer of 0..12 bytes, element size 0, 1, 2, 4 (thorough also 5), count or size header (all 32-bit values), up to two collections, any 32-bit request",
      thorough=dict(defs=["SIZE=24"], timeout=7200)),
 dict(name="header", engine="symx", harness="memory_coll.c", func="harness_header", jobs=4, defs=["SIZE=8"], leak=True, witness_optional=True,
      bounds="any start and length, count 0..5, reader at 0..4 of 8 bytes, any allocation failing",
      thorough=dict(defs=["SIZE=16"], timeout=7200)),
 dict(name="null", engine="symx", harness="memory_coll.c", func="harness_null", jobs=2, defs=["SIZE=8"],
      bounds="no exception structure, any 32-bit request"),
]
OBLIGATIONS += [
 dict(name="memory-only", engine="symx", harness="memory_coll.c", jobs=4, defs=["SIZE=8", "ES=4"], leak=True, repo_defs=["FIFTYONE_DEGREES_MEMORY_ONLY"],
      bounds="a library built for memory only: every buffer of 0..8 bytes, element size 0, 1, 2, 4, count or size header, up to two collections, any 32-bit request",
      thorough=dict(defs=["SIZE=16"], timeout=7200)),
]
