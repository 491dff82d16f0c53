"""C02: ids (spec/Qbk.tla)."""
from qbk import check
import vp

# weights for random documents, on top of qbk.DEFAULT
PROFILE = dict(head=4, sec=5, table=2, banchor=2, anchor=2, link=2, longid=0.25, include=1.5, foot=0.5, list=0.5)
ALL = "101,102,103,104,105,106,107"


def main():
    return check("C02", "ids", [('ids', 3, '103,105,106,107', 1, 1, '102,103,105,106,107'), ('includes', 3, '107', 2, 1, '105,106,107')],
                 PROFILE, 'ids and link targets of every document of up to 3 headings, sections, anchors, tables; random documents with long ids, includes and templates')
