"""C25: cleanup scopes (spec/Cleanup.tla)."""
from vp import *


def main():
    return machine_check("C25", "Cleanup", "cleanup", [], {"add": "s k t", "close": "s"},
        "every sequence of 4 (thorough: 5) registrations and endings with two scopes and objects of five kinds (plain, using older ones, owning a scope, "
        "registering while being destroyed, ending another scope), simulated sequences of 30 calls on three scopes; all scopes are ended at last; "
        "each destruction is recorded with what is left of its scope; non-trivial: more than one call",
        [("CleanupGenAllT" if THOROUGH else "CleanupGenAll", {}), ("CleanupGen", dict(simulate=20000 if THOROUGH else 1500, depth=35))],
        assumptions=["a scope is not used after its end"])
