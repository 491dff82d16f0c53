"""C07: conditionals (spec/Qbk.tla)."""
from qbk import check
import vp

# weights for random documents, on top of qbk.DEFAULT
PROFILE = dict(cond=6, bcond=6, defn=4, idef=3, macro=3, include=2, tpl=2, call=2, icode=1, foot=1, code=1)
ALL = "101,102,103,104,105,106,107"


def main():
    return check("C07", "all", [('conditionals', 3, '103,105,106,107', 1, 1, '101,102,103,104,105,106,107')],
                 PROFILE, 'complete output of every document of up to 3 conditionals, definitions, modes, templates; random documents with nested conditionals around blocks, includes, templates', deps=True)
