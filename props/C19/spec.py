SUMMARY = "Real component.c on components of any content with every index, the default profile and the list of components over collections that may fail; component reads from corrupt files are decided under C09."
ASSUMPTIONS = ["Collections behave as C07 and C08 show: nothing is returned without an exception set"]
def O(name, bounds, **kw):
    return dict(name=name, engine="symx", harness="component.c", leak=True, jobs=3, bounds=bounds, **kw)
OBLIGATIONS = [
 O("pairs", "components with 0..3 pairs of any content, every 16 bit index, with and without an exception", defs=["PAIRS"]),
 O("size", "a component with any of the 65536 numbers of pairs followed by another, every 16 bit index", defs=["SIZE"]),
 O("profile", "any default profile and name offset, 3 profiles, 2 names of any two characters, one failure, with and without an exception", defs=["PROFILE"]),
 O("list", "0..3 components with 0..2 pairs, any count asked for up to one more, one failing get or allocation", defs=["LIST", "N=3"], base_defs=[], thorough=dict(defs=["LIST", "N=4"])),
 O("file", "1..2 components with 0..2 pairs read from a file, one fault", defs=["READFILE"], vfs=True, base_defs=[]),
]
