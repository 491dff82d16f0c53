"""C22: callouts (spec/Callouts.tla) and footnotes in HTML (spec/Html.tla)."""
from vp import *
import callouts
import pages


def main():
    c = Check("C22", "model_checking")
    c.cov["rule"] = ("documents of up to %d items (code with callouts, templates and snippets with callouts that call each other, also from callouts and from code, in "
                     "lists, tables, titles, conditionals) in versions 1.6 and 1.7, and simulated ones; marks, lists and entries in order; documents with footnotes "
                     "and callouts as HTML pages; non-trivial: documents with two lists" % (3 if THOROUGH else 2))
    c.model(model_check("CalloutsMC", "CalloutsMCT" if THOROUGH else "CalloutsMC", timeout=850), "CalloutsMC")
    exe = build()
    cases = []
    for cfg, kw in [("CalloutsGenAllT" if THOROUGH else "CalloutsGenAll", {}), ("CalloutsGen", dict(simulate=100 if THOROUGH else 12, depth=102))]:
        g = generate("CalloutsGen", cfg, workers=1, timeout=850, **kw)
        c.model(g, cfg)
        items = g.items if kw else c.rng.sample(g.items, min(len(g.items), 20000 if THOROUGH else 1500))
        cases += list({json.dumps(x): x for x in items}.values())
    n = 0
    for at in range(0, len(cases), 10000):
        recs = callouts.judge(c, exe, cases[at:at + 10000])
        n += sum(sum(o["k"] == "list" for o in r["out"]) > 1 for r in recs)
    c.cov["samples"] = [json.dumps(callouts.files(cases[i])) for i in (5, len(cases) - 3)]
    drv = pages.driver()
    docs = pages.cases_of(c, [("HtmlGen_notes", dict(simulate=60 if THOROUGH else 8, depth=81))])
    recs = pages.check_docs(c, drv, docs, lambda i: "document " + docs[i][1])
    c.cov["distinct_nontrivial"] = n
    return c.finish()
