"""C14: relative paths and URLs (spec/Paths.tla)."""
import html
from vp import *


def show(x):
    return "%s %r %r %s" % (x["op"], bytes(x["a"]), bytes(x["b"]), x["f"])


def text(x):
    return bytes(x).decode()


def world(exe, w):
    """Write the documents of a world, process them, and record the URLs."""
    d = os.path.realpath(tempfile.mkdtemp(prefix="vp-paths-"))
    try:
        cwd = d + "/a/cw"
        for f in ["s/t", "o/p q", "s/\u00e9", "a#b"]: os.makedirs(os.path.join(cwd, f))
        docs = [dict(dir=text(x["dir"]), base=text(x["base"])) for x in w["docs"]]
        if w["ver"] < 106: docs = docs[:1]
        esc = lambda t: t.replace(" ", "\\u0020") if w["ver"] >= 107 else t
        for i, x in enumerate(docs):
            if not os.path.isdir(os.path.join(cwd, x["dir"], x["base"])): x["base"] = ""
            inner = ("[include %s/d%d.qbk]" % (esc(os.path.relpath(os.path.join(cwd, docs[i + 1]["dir"]), os.path.join(cwd, x["dir"]))), i + 1)
                     if i + 1 < len(docs) else "[xinclude %s]" % esc(text(w["p"])))
            with open(os.path.join(cwd, x["dir"], "d%d.qbk" % i), "w") as f:
                f.write("[article A%d\n[quickbook 1.%d]\n%s]\n\n%s\n" % (i, w["ver"] % 100, "[xmlbase %s]\n" % x["base"] if x["base"] else "", inner))
        out = text(w["out"])
        cmd = [exe, "--no-pretty-print", "--output-file", out + "/out.xml", docs[0]["dir"] + "/d0.qbk"]
        if w["xb"]: cmd += ["--xinclude-base", text(w["xb"])]
        p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=60, errors="replace")
        b = lambda t: list(t.encode("utf-8", "surrogateescape"))
        try: xml = open(os.path.join(cwd, out, "out.xml"), errors="surrogateescape").read()
        except FileNotFoundError: xml = ""
        arts = re.findall(r"<article([^>]*)>", xml)
        hrefs = re.findall(r'<xi:include href="([^"]*)"', xml)
        ok = p.returncode == 0 and len(hrefs) == 1 and len(arts) == len(docs)
        un = lambda m: html.unescape(m.group(1)) if m else ""
        urls = [un(re.search(r'xml:base="([^"]*)"', a)) for a in arts] if ok else [""] * len(docs)
        return {"op": "xi", "cwd": b(cwd), "a": w["p"], "b": b(text(w["xb"]) or out), "f": ok, "r": b(html.unescape(hrefs[0])) if ok else [],
                "docs": [{"dir": b(x["dir"]), "base": b(x["base"]), "url": b(u)} for x, u in zip(docs, urls)], "err": "" if ok else p.stderr[-300:]}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def worlds(c):
    exe = build()
    g = generate("PathsGen", "PathsWorlds", workers=1, simulate=20 if THOROUGH else 3, depth=300)
    c.model(g, "PathsWorlds")
    ws = list({json.dumps(x): x for x in g.items}.values())
    obs = pmap(lambda w: world(exe, w), ws)
    r, bad = validate("PathsTrace", "PathsTrace", obs, expect_states=2 * len(obs))
    c.model(r, "PathsTrace (documents)")
    for i, msg in bad[:20]:
        o = world(exe, ws[i])
        if validate("PathsTrace", "PathsTrace", [o])[1]:
            c.violation("xinclude " + json.dumps(ws[i], sort_keys=True), "documents %s, output in %r, [xinclude %s]: href %r, bases %r %s\n  should lead to: %s" % (
                [(text(x["dir"]), text(x["base"])) for x in o["docs"]], text(o["b"]), text(o["a"]), text(o["r"]), [text(x["url"]) for x in o["docs"]], o["err"], msg),
                {"world": ws[i], "observed": o})
    c.cov["traces_validated_against_impl"] += len(obs)
    c.cov["evaluations"] += len(obs)


def main():
    c = Check("C14", "model_checking")
    c.cov["rule"] = ("every pair of paths of up to %d components, every name of up to 2 of 29 components, every URL text of up to %d characters, "
                     "simulated longer ones and command line parameters; non-trivial: relative paths of more than one component"
                     % ((3, 3) if THOROUGH else (2, 2)))
    c.model(model_check("Paths", "PathsT" if THOROUGH else "Paths"), "Paths")
    exe = build(driver="paths", need=["path", "utils", "native_text"], flags=["-fsanitize=address", "-fno-omit-frame-pointer"])
    cases = []
    for cfg, kw in [("PathsGenAllT" if THOROUGH else "PathsGenAll", {}), ("PathsGen", dict(simulate=500 if THOROUGH else 50, depth=300))]:
        g = generate("PathsGen", cfg, workers=1, timeout=850, **kw)
        c.model(g, cfg)
        cases += g.items
    cases = list({json.dumps(x): x for x in cases}.values())
    good = set()
    for at in range(0, len(cases), 20000):
        outs = scenario_check(c, exe, cases[at:at + 20000], lambda x: "%s %s %s %d" % (x["op"], hx(x["a"]), hx(x["b"]), x["f"]),
                              "PathsTrace", "PathsTrace", keyfn=show, describe=show)
        good |= {json.dumps(o) for o in outs if o.get("op") == "diff" and 47 in o["r"]}
    worlds(c)
    c.cov["distinct_nontrivial"] = len(good)
    c.cov["samples"] = [show(cases[i]) for i in (10, len(cases) // 2, len(cases) - 3)]
    return c.finish()
