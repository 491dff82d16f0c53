"""C01: accepted documents give well-formed output (spec/Markup.tla)."""
from vp import *
import wellformed


def judge(c, exe, cases):
    recs = wellformed.run(exe, cases)
    r, bad = validate("MarkupTrace", "MarkupTrace", [{"tokens": x["tokens"]} for x in recs], expect_states=2 * len(recs))
    if bad:
        # once more, from the start
        ns = sorted({recs[b]["case"] for b, _ in bad})[:200]
        again = wellformed.run(exe, [cases[n] for n in ns])
        r2, bad2 = validate("MarkupTrace", "MarkupTrace", [{"tokens": x["tokens"]} for x in again])
        for j, msg in bad2:
            x = cases[ns[again[j]["case"]]]
            if isinstance(x, str): x = os.path.relpath(x, REPO)
            name = again[j]["name"]
            c.violation(name + " " + json.dumps(x), "%s: %s\n  document: %s" % (name, msg, json.dumps(x)[:900]), {"document": x, "file": name, "specification": msg, "definitions": wellformed.DEFS, "snippets": wellformed.SNIPPETS})
    c.model(r, "MarkupTrace")
    c.cov["traces_validated_against_impl"] += len(recs)
    c.cov["evaluations"] += len(recs)
    return recs


def main():
    c = Check("C01", "model_checking")
    c.cov["rule"] = ("%s combination of 44 kinds of blocks, 20 kinds of phrases and 16 kinds of nested places with 90 phrases, in language versions 1.3, 1.5, 1.6, 1.7; included texts, comments of snippets and "
                     "document information; random nestings of them; the repository's own documents; BoostBook with and without pretty printing and one of the HTML formats; non-trivial: accepted documents" % ("every" if THOROUGH else "a random fifth of every"))
    c.model(model_check("MarkupMC", "MarkupMCT" if THOROUGH else "MarkupMC", timeout=850), "MarkupMC")
    exe = build()
    n = 0
    for cfg, kw in [("MarkupGenAllT" if THOROUGH else "MarkupGenAll", {}), ("MarkupGen", dict(simulate=300 if THOROUGH else 30, depth=102)), ("", {})]:
        if cfg:
            g = generate("MarkupGen", cfg, workers=1, timeout=850, **kw)
            c.model(g, cfg)
            cases = list({json.dumps(x): x for x in g.items}.values())
        else: cases = wellformed.own()
        for at in range(0, len(cases), 10000):
            some = cases[at:at + 10000]
            n += len({r["case"] for r in judge(c, exe, some)})
        if cfg: c.cov["samples"] += [cases[len(cases) // 2], cases[-3]]
    c.cov["distinct_nontrivial"] = n
    return c.finish()
