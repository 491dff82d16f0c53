"""C19: list nesting (spec/Qbk.tla)."""
from qbk import check
import vp

# weights for random documents, on top of qbk.DEFAULT
PROFILE = dict(item=14, list=2, line=2, code=2, probe=2, adm=1, depth=4, table=0.3, tpl=0.7, bcall=0.5)
ALL = "101,102,103,104,105,106,107"


def main():
    return check("C19", "lists", [('lists', 3, '101,105,106,107', 1, 0, '101,102,103,104,105,106,107'), ('lists', 4, '107', 1, 1, '107')],
                 PROFILE, 'list structure of every document of up to 3 items and indented lines; random documents with deeper lists, code, templates and blocks inside items')
