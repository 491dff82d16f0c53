"""C06: includes and imports (spec/Qbk.tla)."""
from qbk import check
import vp

# weights for random documents, on top of qbk.DEFAULT
PROFILE = dict(include=6, imp=3, macro=4, defn=3, tpl=3, call=3, mode=2, bmode=2, icode=2, code=1, sec=2, wild=0.35, incs=0.5, files=4, docinc=0.5, cver=0.4, self=0.02)
ALL = "101,102,103,104,105,106,107"


def main():
    return check("C06", "content", [('includes', 3, '101,105,107', 2, 0, '105,106,107'), ('chain', 2, '105,107', 4, 0, '101,104,105,106,107')],
                 PROFILE, 'content and dependency list of every pair of files of up to 3 items; random trees of files with wildcards, search paths, versions, self-inclusion', deps=True)
