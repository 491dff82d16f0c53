"""C24: source modes (spec/Qbk.tla)."""
from qbk import check
import vp

# weights for random documents, on top of qbk.DEFAULT
PROFILE = dict(mode=5, bmode=5, nmode=4, bnmode=4, icode=5, code=4, probe=3, include=3, imp=1, tpl=3, call=2, bcall=2, cond=1, fmt=2, adm=2)
ALL = "101,102,103,104,105,106,107"


def main():
    return check("C24", "modes", [('modes', 3, '105,106,107', 1, 1, '101,102,103,104,105,106,107'), ('includes', 2, '101,105,106,107', 2, 1, '105,106,107')],
                 PROFILE, 'highlighting of every code probe in every document of up to 3 mode switches, probes, sections, templates; random documents with includes, imports, nested elements')
