"""C27: output collectors (spec/Collector.tla)."""
from vp import *

ORDER = {"write": "c k", "ext": "k", "push": "c", "pop": "c", "clear": "c", "read": "c", "swap": "c i", "append": "c i"}


def main():
    return machine_check("C27", "Collector", "collector", ["collector"], ORDER,
        "every sequence of 4 (thorough: 5) calls on a collector, then a look at every level, and simulated sequences of 40 calls on two collectors "
        "(one on somebody else's text); looking is a call of its own, so unflushed text cannot hide; non-trivial: more than one call",
        [("CollectorGenAllT" if THOROUGH else "CollectorGenAll", {}), ("CollectorGen", dict(simulate=20000 if THOROUGH else 2000, depth=45))],
        assumptions=["pops are matched by pushes (the class's own assertion)"])
