"""C04: macros (spec/Qbk.tla)."""
from qbk import check
import vp

# weights for random documents, on top of qbk.DEFAULT
PROFILE = dict(macro=8, defn=5, idef=2, include=3, imp=2, cond=2, bcond=2, call=2, tpl=2)
ALL = "101,102,103,104,105,106,107"


def main():
    return check("C04", "words", [('macros', 3, '103,105,106,107', 1, 1, '101,102,103,104,105,106,107'), ('includes', 3, '107', 2, 1, '105,106,107')],
                 PROFILE, 'text of every document of up to 3 macro definitions and uses; random documents with templates, includes, imports, conditionals')
