"""C03: sections (spec/Qbk.tla)."""
from qbk import check
import vp

# weights for random documents, on top of qbk.DEFAULT
PROFILE = dict(sec=8, head=2, tpl=3, call=2, bcall=3, include=2, table=0.5, list=0.5, vlist=0.4, adm=3, badend=0.12, unclosed=0.2, strict=0.4, nsec=0.7)
ALL = "101,102,103,104,105,106,107"


def main():
    return check("C03", "sections", [('sections', 3, '101,104,106,107', 1, 1, '101,102,103,104,105,106,107'), ('tsections', 3, '104,106,107', 1, 1, '101,104,105,107'), ('nsections', 2, '107', 1, 1, '107')],
                 PROFILE, 'section, title and heading structure of every document of up to 3 section markers, templates, headings; random documents with includes, imports, templates and mismatched ends')
