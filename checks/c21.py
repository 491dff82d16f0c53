"""C21: colours of code (spec/Highlight.tla)."""
from vp import *
import coloured


def main():
    c = Check("C21", "model_checking")
    c.cov["rule"] = ("code of every %d of 27 pieces (words, quotes, comment and callout marks, escapes, macros, line breaks) in C++, Python and plain mode, and simulated "
                     "lines of code, as blocks and inline, in versions 1.5 to 1.7; every item of the code element and its colour, and the callout list; "
                     "non-trivial: code with three kinds of items" % (3 if THOROUGH else 2))
    c.model(model_check("HighlightMC", "HighlightMCT" if THOROUGH else "HighlightMC", timeout=850), "HighlightMC")
    exe = build()
    n = 0
    for cfg, kw in [("HighlightGenAllT" if THOROUGH else "HighlightGenAll", {}), ("HighlightGen", dict(simulate=200 if THOROUGH else 25, depth=202))]:
        g = generate("HighlightGen", cfg, workers=1, timeout=850, **kw)
        c.model(g, cfg)
        cases = list({json.dumps(x): x for x in g.items}.values())
        for at in range(0, len(cases), 20000):
            recs = coloured.judge(c, exe, cases[at:at + 20000])
            n += sum(len({x["k"] for x in r["its"]}) > 2 for r in recs)
        c.cov["samples"] += [repr(cases[i]["t"]) for i in (len(cases) // 2, len(cases) - 3)]
    c.cov["distinct_nontrivial"] = n
    return c.finish()
