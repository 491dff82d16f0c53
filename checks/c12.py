"""C12: dependency lists (spec/Deps.tla, spec/Qbk.tla)."""
from vp import *
import qbk
ORDER = dict(create="p", delete="p", dep="p", glob="p", match="p", write="f")
PROFILE = dict(include=6, imp=3, files=4, wild=0.6, tinc=0.9, incs=0.5, vers=[106, 107, 107], docinc=0.5, err=0.05)
WHAT = ("every sequence of 3 (thorough: 4) creations, removals, tests, searches and matches over paths that need escaping or sort differently as paths "
        "and as text, each followed by all four ways of writing the list, and simulated sequences of 30 over 36 odd paths; both lists of every "
        "pair of files of up to 3 items and of random trees of files with wildcards, search paths, self-inclusion, errors and includes in templates; "
        "non-trivial: different outputs")


def main():
    gens = [("DepsGenAllT" if THOROUGH else "DepsGenAll", {}), ("DepsGen", dict(simulate=10000 if THOROUGH else 1000, depth=40))]
    def lists(c):
        return machine_check("C12", "DepsMC", "deps", ["dependency_tracker", "path", "utils"], ORDER, WHAT, gens, check=c)
    return qbk.check("C12", "none", [("includes", 3, "107", 2, 0, "105,106,107"), ("chain", 2, "107", 4, 0, "104,107")],
                     PROFILE, WHAT, nquick=1500, nthorough=15000, deps=True, before=lists)
