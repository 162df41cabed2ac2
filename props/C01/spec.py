SUMMARY = "Real tree.c. The rules (ordered, correctly linked, no red node with a red child, equal black heights, black first node) hold for the empty tree and every insert and delete keeps them, for every tree of up to the stated number of nodes and all 64-bit keys, so they hold after histories of any length over that many nodes; short histories from the empty tree are decided as well."
ASSUMPTIONS = ["A node is inserted only when its key is not in the tree and deleted only when it is in the tree", "Trees larger than the bound are outside"]
OBLIGATIONS = [
 dict(name="ops", engine="symx", harness="tree.c", func="harness_ops", defs=["N=3","OPS=5"], jobs=4,
      bounds="every history of 5 inserts and deletes of 3 nodes, any keys", thorough=dict(defs=["N=4","OPS=6"], timeout=7200, jobs=8)),
 dict(name="step", engine="symx", harness="tree.c", func="harness_step", defs=["N=7","BLACKS=3"], jobs=8, weight=3,
      bounds="one insert or delete in every valid tree of up to 7 nodes, any keys", thorough=dict(defs=["N=10","BLACKS=3"], timeout=7200)),
 dict(name="shapes", engine="symx", harness="tree.c", func="harness_step", defs=["N=9","BLACKS=3","RANKS"], jobs=8, weight=3,
      bounds="one insert or delete anywhere in every valid tree of up to 10 nodes (keys are only compared, so their ranks stand for all)", thorough=dict(defs=["N=14","BLACKS=4","RANKS"], timeout=7200)),
]
