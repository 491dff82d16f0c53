"""C28: HTML for every element of BoostBook (spec/Html.tla)."""
from vp import *
import pages
import qbk


def main():
    c = Check("C28", "model_checking")
    c.cov["rule"] = ("every element in every other and in titles, with text before, between and after, in one page and in several; simulated documents with nested "
                     "elements, tables, lists, images, links and document information; the BoostBook the program makes of the repository's own documents and of "
                     "random ones; non-trivial: different sequences of tags in the pages")
    c.model(model_check("HtmlMC", "HtmlMC", timeout=850), "HtmlMC")
    drv = pages.driver()
    exe = build()
    docs = pages.cases_of(c, [("HtmlGenAll_content", {}), ("HtmlGen_content", dict(simulate=60 if THOROUGH else 8, depth=81))])
    keys = ["document " + d[1] for d in docs]
    texts = pages.examples(exe)
    ws = qbk.worlds(c.rng, 5000 if THOROUGH else 500, strict=0, err=0, badend=0, unclosed=0)
    texts += [(qbk.key(w), o["text"]) for w, o in zip(ws, qbk.run_worlds(exe, ws)) if "text" in o]
    more, names = pages.real_docs(texts)
    c.cov["from_the_program"] = len(more)
    docs += more
    keys += names
    seen = set()
    for at in range(0, len(docs), 10000):
        for r in pages.check_docs(c, drv, docs[at:at + 10000], lambda i, at=at: keys[at + i]):
            seen.add(hash(json.dumps([[e["t"] for e in p["out"]] for p in r["pages"]])))
    c.cov["distinct_nontrivial"] = len(seen)
    c.cov["samples"] = [docs[i][1][:700] for i in (77, 5000, len(docs) - 1)]
    A = "<article id='a'><title>T</title>%s</article>"
    pages.probe(c, drv, "text of an image", A % "<para><inlinemediaobject><imageobject><imagedata fileref='x.png'/></imageobject><textobject><phrase>what</phrase></textobject></inlinemediaobject></para>",
                lambda t: "what" in t, "the alternative text of images is always [] in HTML")
    pages.probe(c, drv, "title of a variable list", A % "<variablelist><title>what</title><varlistentry><term>a</term><listitem><para>b</para></listitem></varlistentry></variablelist>",
                lambda t: "what" in t, "the titles of variable lists are lost in HTML")
    c.assumptions += ["all titles are third level headings, as in the repository's expected output"]
    return c.finish()
