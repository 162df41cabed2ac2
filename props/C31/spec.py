SUMMARY = "The real C++ sources over the real C sources, with the headers of the C++ library."
ASSUMPTIONS = ["The parts of the C++ library that are not in its headers (search trees, streams, texts of exceptions) are modelled in lib/symx_cxx.cpp and lib/cxx; replays use the real library"]
def O(name, bounds, harness, func, more, **kw):
    return dict(name=name, engine="symx", harness=harness, func=func, more_sources=more, leak=True, jobs=4, max_steps=20000000, bounds=bounds, **kw)
OBLIGATIONS = [
 O("ip_bytes", "all addresses, types and sizes of copies", "ip.cpp", "harness_bytes", ["IpAddress.cpp"]),
 O("ip_text", "all texts of up to 3 characters, the allocation failing or not", "ip.cpp", "harness_text", ["IpAddress.cpp"], defs=["LEN=3"], thorough=dict(defs=["LEN=5"], timeout=7200)),
 O("required_names", "up to 2 names of up to 2 characters, 2 calls", "required.cpp", "harness_names", ["RequiredPropertiesConfig.cpp"], defs=["CALLS=2"], thorough=dict(defs=["CALLS=3"], timeout=7200)),
 O("required_list", "all lists of up to 3 characters, 2 calls", "required.cpp", "harness_list", ["RequiredPropertiesConfig.cpp"], defs=["CALLS=2", "LEN=3"], thorough=dict(defs=["CALLS=2", "LEN=5"], timeout=7200)),
 O("required_none", "no names", "required.cpp", "harness_none", ["RequiredPropertiesConfig.cpp"], defs=["CALLS=2"]),
 O("config", "2 lists of up to 2 directories of up to 2 characters", "config.cpp", "harness_config", ["ConfigBase.cpp", "CollectionConfig.cpp", "Date.cpp"], defs=["SETS=2"], thorough=dict(defs=["SETS=3"], timeout=7200)),
 O("small", "all collection configurations and dates", "config.cpp", "harness_small", ["ConfigBase.cpp", "CollectionConfig.cpp", "Date.cpp"], defs=["SETS=1"]),
 O("evidence", "2 items of all prefixes, names and values of up to 1 character", "evidence.cpp", "harness_evidence", ["EvidenceBase.cpp"], defs=["LEN=1"], thorough=dict(defs=["LEN=2"], timeout=7200)),
]
