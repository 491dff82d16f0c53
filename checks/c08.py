"""C08: the characters of texts in all places (spec/Inline.tla)."""
from vp import *
import inline


def judge(c, exe, cases):
    recs = inline.run(exe, cases)
    r, bad = validate("InlineTrace", "InlineTrace", recs, expect_states=2 * len(recs))
    if bad:
        if len(bad) > 300: bad = bad[::len(bad) // 300]
        again = inline.run(exe, [cases[b] for b, _ in bad])
        r2, bad2 = validate("InlineTrace", "InlineTrace", again)
        for j, msg in bad2:
            x = cases[bad[j][0]]
            c.violation(inline.key(x), "%s in quickbook 1.%d: %r\n  observed: %s\n  specification: %s" % (x["place"], x["v"] - 100, x["t"], json.dumps({k: again[j][k] for k in ("bad", "x", "html", "h")})[:900], msg[:900]),
                        {"case": x, "document": inline.HEAD % (x["v"] - 100) + inline.source(0, x), "observed": again[j], "specification": msg})
    c.model(r, "InlineTrace")
    c.cov["traces_validated_against_impl"] += len(recs)
    c.cov["evaluations"] += len(recs)
    return recs


def main():
    c = Check("C08", "model_checking")
    c.cov["rule"] = ("every sequence of %d of 35 pieces (marks, brackets, quotes, escapes, &<>\", macros, comments) in paragraphs of two versions, a sample of them in 18 other places "
                     "(titles, cells, items, macros, templates, code, attributes) in four versions, and random texts of up to 14 pieces; what is written for them and the text of the HTML page; "
                     "non-trivial: texts with an escape or an encoded character" % (3 if THOROUGH else 2))
    c.model(model_check("InlineMC", "InlineMCT" if THOROUGH else "InlineMC", timeout=850), "InlineMC")
    exe = build()
    n = 0
    for cfg, kw in [("InlineGenAllT" if THOROUGH else "InlineGenAll", {}), ("InlineGen", dict(simulate=150 if THOROUGH else 12, depth=102))]:
        g = generate("InlineGen", cfg, workers=1, timeout=850, **kw)
        c.model(g, cfg)
        cases = list({json.dumps(x): x for x in g.items}.values())
        for at in range(0, len(cases), 20000):
            recs = judge(c, exe, cases[at:at + 20000])
            n += sum(not r["bad"] and ("\\" in r["t"] or "&" in r["x"] or "'''" in r["t"]) for r in recs)
        c.cov["samples"] += [inline.source(0, cases[i]) for i in (len(cases) // 2, len(cases) - 3)]
    c.cov["distinct_nontrivial"] = n
    return c.finish()
