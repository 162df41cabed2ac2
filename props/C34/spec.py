SUMMARY = "The real C++ sources over the real C sources, with the headers of the C++ library."
ASSUMPTIONS = ["The parts of the C++ library that are not in its headers (search trees, streams, texts of exceptions) are modelled in lib/symx_cxx.cpp and lib/cxx; replays use the real library"]
META = ["ComponentMetaData.cpp", "ProfileMetaData.cpp", "PropertyMetaData.cpp", "ValueMetaData.cpp"]
ENGINE = ["EngineBase.cpp", "MetaData.cpp", "ConfigBase.cpp", "Exceptions.cpp", "Date.cpp"]
def O(name, bounds, harness, func, more, **kw):
    return dict(name=name, engine="symx", harness=harness, func=func, more_sources=more, leak=True, jobs=4, max_steps=20000000, bounds=bounds, **kw)
OBLIGATIONS = [
 O("value", "whole numbers and texts of up to 3 characters, all reasons and messages of up to 2 characters", "value.cpp", "harness_value", ["Exceptions.cpp"]),
 O("exceptions", "all status codes, names of up to 2 characters", "value.cpp", "harness_exceptions", ["Exceptions.cpp"]),
 O("order", "3 keys of names of up to 1 character", "meta.cpp", "harness_order", META, defs=["LEN=1"], thorough=dict(defs=["LEN=2"], timeout=7200)),
 O("meta", "components, profiles and values, all numbers, names of up to 2 characters", "meta.cpp", "harness_small", META, defs=["LEN=2"]),
 O("property", "all properties of names of up to 1 character", "meta.cpp", "harness_property", META, defs=["LEN=1"], thorough=dict(defs=["LEN=4"], timeout=7200)),
 O("results", "up to 2 values of up to 2 characters asked for as all types but double, in all ways", "results.cpp", "harness_results", ["ResultsBase.cpp", "Exceptions.cpp"], defs=["LEN=2"], thorough=dict(defs=["LEN=3"], timeout=7200)),
 O("keys", "2 headers of up to 2 characters, 2 overrides of up to 1", "engine.cpp", "harness_keys", ENGINE, threads=True, preempt=0),
 O("engine", "all addresses and licences of up to 2 characters", "engine.cpp", "harness_url", ENGINE, threads=True, preempt=0),
 O("string", "texts of up to 3 characters, read or not", "engine.cpp", "harness_string", ENGINE, threads=True, preempt=0),
]
