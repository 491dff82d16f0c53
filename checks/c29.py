"""C29: blocks (spec/Qbk.tla)."""
from qbk import check
import vp

# weights for random documents, on top of qbk.DEFAULT
PROFILE = dict(adm=5, table=5, vlist=5, list=4, line=5, foot=3, depth=4, sec=1, head=1)
ALL = "101,102,103,104,105,106,107"


def main():
    return check("C29", "blocks", [('blocks', 3, '105,106,107', 1, 1, '101,102,103,104,105,106,107')],
                 PROFILE, 'block structure and words of every document of up to 3 tables, lists, quotes, variable lists, paragraphs; random nested ones')
