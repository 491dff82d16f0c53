"""C16: trees (spec/Tree.tla)."""
from vp import *

ORDER = {"release": "i", "drop": "i"}
ORDER.update({o: "i n" for o in ("bextract", "extract", "before", "after", "first", "last", "move")})


def main():
    return machine_check("C16", "Tree", "tree", ["tree"], ORDER,
        "every call in every reachable state of the builder and two trees (4 nodes), simulated sequences of 40 calls on 8 nodes and 3 trees; "
        "after each call every tree is read forwards and backwards; non-trivial: more than one call",
        [("TreeGenAllT" if THOROUGH else "TreeGenAll", {}), ("TreeGen", dict(simulate=5000 if THOROUGH else 200, depth=45))],
        assumptions=["nothing is put in front of a tree's own root, a node's children are started once (the callers' discipline)"])
