SUMMARY = "Real profile.c, value.c and property.c over small data sets of symbolic content and bounded collections, one of whose accesses may fail; each answer compared with a scan in the harness, and every item counted back."
ASSUMPTIONS = ["Profile offsets ascend by id, the values of a profile ascend, the values of a property ascend by name (the file format)",
  "Collections behave as C07 and C08 show: nothing is returned without an exception set",
  "A string ends within its size and a profile's values within its memory (file reads check this, C09)"]
def O(name, bounds, **kw):
    return dict(name=name, engine="symx", harness="profile.c", leak=True, jobs=4, base_defs=[], bounds=bounds, **kw)
OBLIGATIONS = [
 O("find", "0..4 profiles of any ids, any id, one failure", defs=["FIND", "N=4"], thorough=dict(defs=["FIND", "N=8"], timeout=3600)),
 O("iterate", "profiles with 0..4 values of any index, any range of values of the property, 3 values in the data set at any place, one failure, stopping anywhere", defs=["ITERATE", "N=4"], thorough=dict(defs=["ITERATE", "N=6"], timeout=3600)),
 O("malformed", "as iterate with values in any order", defs=["ITERATE", "MALFORMED", "N=3"], thorough=dict(defs=["ITERATE", "MALFORMED", "N=5"], timeout=3600)),
 O("value", "0..3 values with names of 0..2 characters in a property anywhere, or none, any name looked up, one failure", defs=["VALUE", "N=3"], thorough=dict(defs=["VALUE", "N=5"], timeout=3600)),
 O("coordinate", "values holding any two coordinates from a table, one cut short, lookups as text", defs=["COORD"], witness_optional=True),
 O("address", "values holding any address of 4 or 16 bytes or of another length, lookups as text", defs=["ADDRESS"]),
 O("property", "0..3 properties with names of 0..2 characters, any name looked up, one failure", defs=["PROPERTY", "N=3"], thorough=dict(defs=["PROPERTY", "N=5"], timeout=3600)),
 O("profiles", "2 properties with 2 values, 0..2 profiles with any of them, any names looked up, one failure", defs=["PROFILES", "N=2"], thorough=dict(defs=["PROFILES", "N=3"], timeout=3600)),
]
