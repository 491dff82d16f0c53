"""C10: where positions in derived text come from (spec/Files.tla)."""
from vp import *

ORDER = {"start": "b f", "add": "b i j", "unindent": "b i j", "part": "b i j", "gen": "b i t", "release": "b"}


def main():
    return machine_check("C10", "Files", "files", ["files"], ORDER,
        "every text of up to 5 (thorough: 6) characters out of space, tab, newline and a letter, unindented as a whole and between other text; simulated "
        "histories of 25 calls on two builders over a random text of up to 16 characters and the files derived from it; the position of every "
        "offset of every derived file is compared; non-trivial: at least two calls that add text",
        [("FilesGenAllT" if THOROUGH else "FilesGenAll", {}), ("FilesGen", dict(simulate=30000 if THOROUGH else 3000, depth=40))],
        render=lambda c: bytes(c["t"]).hex() or "-",
        nontrivial=lambda o: sum(x["o"]["op"] in ("add", "unindent", "part", "gen") for x in o["ops"]) > 1)
