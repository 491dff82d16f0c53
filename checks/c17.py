"""C17: parts, pages, contents lists and navigation of HTML (spec/Html.tla)."""
from vp import *
import pages


def main():
    c = Check("C17", "model_checking")
    c.cov["rule"] = ("all documents of up to %d parts (articles and sections in every arrangement, as several pages and as one), with links, footnotes and anchors, "
                     "and simulated larger ones with parts of every kind, missing and clashing ids, document information and options; "
                     "non-trivial: documents with more than one page" % (5 if THOROUGH else 4))
    c.model(model_check("HtmlMC", "HtmlMCT" if THOROUGH else "HtmlMC", timeout=850), "HtmlMC")
    drv = pages.driver()
    docs = pages.cases_of(c, [("HtmlGenAllT_parts" if THOROUGH else "HtmlGenAll_parts", {}), ("HtmlGen_parts", dict(simulate=60 if THOROUGH else 8, depth=81))])
    recs = []
    for at in range(0, len(docs), 10000):
        recs += pages.check_docs(c, drv, docs[at:at + 10000], lambda i, at=at: "document " + docs[at + i][1])
    c.cov["distinct_nontrivial"] = sum(len(r["pages"]) > 1 for r in recs)
    c.cov["samples"] = [docs[i][1][:700] for i in (7, len(docs) // 2, len(docs) - 1)]
    pages.probe(c, drv, "content after a part", "<article id='a'><title>T</title><para>one</para><section id='s'><title>S</title><para>two</para></section><para>three</para></article>",
                lambda t: t.find("two") < t.find("three"), "content that follows a section in its part is written before the section in HTML")
    c.assumptions += ["content of a part comes before its parts (known finding otherwise)"]
    return c.finish()
