"""C11: loading source files (spec/Load.tla)."""
from vp import *


def main():
    return machine_check("C11", "Load", "load", ["files"], {"put": "n t", "del": "n", "load": "n v"},
        "every content of up to 5 (thorough: 7) bytes out of CR, LF, a letter and a non-ASCII byte, every one of up to 3 behind each byte order mark and "
        "each beginning of one; simulated histories of 20 writes, removals and loads of three files; every load's text, version and all positions "
        "are compared; non-trivial: at least one line end or mark",
        [("LoadGenAllT" if THOROUGH else "LoadGenAll", {}), ("LoadGen", dict(simulate=10000 if THOROUGH else 1000, depth=25))],
        nontrivial=lambda o: any(x["o"]["op"] == "put" and (set(x["o"]["t"]) & {10, 13, 239, 255, 254, 0}) for x in o["ops"]))
