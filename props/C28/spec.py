SUMMARY = "Real file.c temporary file search, creation and clean-up over an in-memory file system with directories, uses by processes and faults."
ASSUMPTIONS = ["A copy is a file whose name starts with the master's base name, differs from the master's name and whose size and compared bytes are equal",
 "The clock can be read", "Nothing else changes the directories meanwhile", "Linux: files in use are those linked to under /proc"]
def O(name, func, bounds, defs, **kw):
    return dict(name=name, engine="symx", harness="temp.c", func=func, vfs=True, leak=True, jobs=4, bounds=bounds,
        defs=([] if any("VFS_NODES" in d for d in defs) else ["VFS_NODES=16"]) + defs, **kw)
OBLIGATIONS = [
 O("existing", "harness_existing", "1 file of any name and content of 0..1 bytes in 3 directories, 0..2 paths, any number of bytes compared", ["FILES=1", "SIZE=1", "PATHS=2", "FORMS=4", "DIRS=3"], thorough=dict(defs=["VFS_NODES=16", "FILES=1", "PATHS=2", "FORMS=6", "DIRS=3"], timeout=7200)),
 O("existing two", "harness_existing", "2 files of 0..1 bytes in 2 directories, 0..2 paths", ["FILES=2", "SIZE=1", "PATHS=2", "FORMS=2", "DIRS=2", "MASTERS=1"], thorough=dict(defs=["VFS_NODES=16", "FILES=2", "SIZE=1", "PATHS=2", "FORMS=3", "DIRS=3"], timeout=7200)),
 O("existing large", "harness_existing", "a file of 1030 bytes with its first two and last byte any", ["FILES=1", "PATHS=1", "FORMS=1", "DIRS=1", "LARGE=1030", "SIZE=2"], max_steps=20000000),
 O("existing faults", "harness_existing", "1 file, 1 path, one call failing", ["FILES=1", "SIZE=1", "PATHS=1", "FORMS=2", "DIRS=2", "FAULTS=1"]),
 O("delete", "harness_delete", "1 file of any name and content in 3 directories, in use or not, 0..1 paths in any form", ["FILES=1", "SIZE=1", "PATHS=1", "FORMS=6", "DIRS=3", "IN_USE"], thorough=dict(defs=["VFS_NODES=16", "FILES=1", "SIZE=1", "PATHS=2", "FORMS=6", "DIRS=3", "IN_USE"], timeout=7200)),
 O("delete two", "harness_delete", "2 files of 0..1 bytes in 2 directories, 0..2 paths", ["FILES=2", "SIZE=1", "PATHS=2", "FORMS=2", "DIRS=2", "MASTERS=1"], thorough=dict(defs=["VFS_NODES=16", "FILES=2", "SIZE=1", "PATHS=2", "FORMS=3", "DIRS=3"], timeout=7200)),
 O("delete faults", "harness_delete", "1 file, 1 path, one call failing", ["FILES=1", "SIZE=1", "PATHS=1", "FORMS=2", "DIRS=2", "FAULTS=1", "IN_USE"]),
 O("delete many", "harness_many", "300 copies", ["FILES=1", "PATHS=1", "FORMS=1", "DIRS=1", "MANY=300", "VFS_NODES=310"], max_steps=200000000),
 O("new", "harness_new", "0..2 paths in any form, names taken, directories that can't be written to, any space around that needed", ["PATHS=2", "FORMS=6", "DIRS=3", "SIZE=1", "SPACES=1"]),
 O("new space", "harness_new", "0..1 paths, any space around that needed", ["PATHS=1", "FORMS=3", "DIRS=3", "SIZE=1", "SPACES=10"]),
 O("new faults", "harness_new", "0..2 paths, one call failing", ["PATHS=2", "FORMS=2", "DIRS=2", "SIZE=1", "SPACES=0", "FAULTS=1"]),
 O("deprecated", "harness_new", "0..2 paths with the deprecated function", ["PATHS=2", "FORMS=3", "DIRS=2", "SIZE=1", "SPACES=0", "LEGACY"]),
]
