"""C20: code snippets (spec/Snippet.tla)."""
from vp import *

OPEN = re.compile(r"\n\n\[(?:c\+\+|python)\]```\n")


def parts(body, py):
    """The code and the texts of a snippet, in order."""
    open_ = "\n\n[python]```\n" if py else "\n\n[c++]```\n"
    out, at = [], 0
    def text(x):
        if not x: return
        if out and out[-1]["k"] == "text": out[-1]["x"] += x
        else: out.append({"k": "text", "x": x})
    while True:
        i = body.find(open_, at)
        text(body[at:] if i < 0 else body[at:i])
        if i < 0: return out
        j = body.find("\n```\n\n", i + len(open_) - 1)
        if j < 0: return out + [{"k": "unclosed", "x": body[i:]}]
        code = body[i + len(open_):j]
        if code.strip(" \t\n\r\f"): out.append({"k": "code", "x": code})
        at = j + len("\n```\n\n")


def main():
    c = Check("C20", "model_checking")
    c.cov["rule"] = ("sources of every %d of 20 marks and pieces of code, outside of snippets, in one, in two, and after one, for C++ and Python, and simulated "
                     "sources of up to 15 lines; the name and content of every snippet and the number of errors; non-trivial: sources with a snippet with code and text" % (3 if THOROUGH else 2))
    c.model(model_check("SnippetMC", "SnippetMCT" if THOROUGH else "SnippetMC", timeout=850), "SnippetMC")
    exe = build(driver="snippet", need=["code_snippet", "files", "values", "template_stack", "stream", "native_text", "path", "utils"], flags=["-fsanitize=address", "-fno-omit-frame-pointer"])
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99"
    cases = []
    for cfg, kw in [("SnippetGenAllT" if THOROUGH else "SnippetGenAll", {}), ("SnippetGen", dict(simulate=200 if THOROUGH else 20, depth=202))]:
        g = generate("SnippetGen", cfg, workers=1, timeout=850, **kw)
        c.model(g, cfg)
        cases += g.items
    cases = list({json.dumps(x): x for x in cases}.values())
    line = lambda x: "%s %d %s" % ("py" if x["py"] else "cpp", x["v"], hx(x["t"]))

    def recorded(x, o):
        un = lambda b: b.encode("latin1").decode("utf8", "replace")
        return dict(x, bad=o["bad"], snips=[{"id": un(s["id"]), "parts": parts(un(s["body"]), x["py"])} for s in o["snips"]])
    n = 0
    for at in range(0, len(cases), 20000):
        outs = scenario_check(c, exe, cases[at:at + 20000], line, "SnippetTrace", "SnippetTrace", record=recorded,
                              keyfn=lambda x: "%s %d %r" % ("py" if x["py"] else "c++", x["v"], x["t"]), describe=lambda x: "snippets of %r" % x["t"])
        n += sum(any({"code", "text"} <= {p["k"] for p in parts(s["body"], x["py"])} for s in o.get("snips", ())) for x, o in zip(cases[at:at + 20000], outs))
    c.cov["distinct_nontrivial"] = n
    c.cov["samples"] = [repr(cases[i]["t"]) for i in (10, len(cases) // 2, len(cases) - 3)]
    return c.finish()
