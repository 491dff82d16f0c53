"""C18: errors and the exit status (spec/Run.tla)."""
from vp import *

PRELUDE = """[template two[x y] [x] and [y]]
[template lp[] x [lp]]
[template nul[] z]
[template blk[]

Block.

]
[template em[]

[endsect]

]
[template os[]

[section o]

]
"""
FILES = {
    "sub/ok.qbk": "[article In\n[quickbook 1.%d]\n]\n\nIncluded.\n",
    "end.cpp": "int a;\n//]\nint b;\n",
    "open.cpp": "int a;\n//[ sn_open\nint b;\n",
    "dup.cpp": "//[ sn_dup\nint a;\n//]\n//[ sn_dup\nint b;\n//]\n",
    "call.cpp": "//[ sn_call\nint a; /*< Mark [two] here. >*/\n//]\n",
}
PHRASE = {"word": "word", "boldword": "[*bold]", "escaped": "\\*x", "anchor": "[#anc]", "undeftpl": "[undefd x]", "link": "[@http://x/ y]",
          "footnote": "[footnote fn]", "tplargs": "[two]", "loop": "[lp]", "escargs": "[`nul a]", "attrtpl": "[@[blk] x]", "badid": "[#a/b]",
          "imgpath": "[$a\\\\b.png]"}
BLOCK = {"para": "A paragraph.", "list": "* a\n* b\n\nAfter.", "table": "[table T\n[[a][b]]\n[[c][d]]\n]", "code": "    code", "heading": "[heading H]",
         "section": "[section:sx S]\n\ntext\n\n[endsect]", "opensection": "[section:so S]\n\ntext", "endsect": "[endsect]",
         "endsectid": "[section:sa S]\n\ntext\n\n[endsect:sb]", "badtable": "[table T\n[[a][b]\n", "liststyle": "* a\n# b\n\nAfter.", "listpara": "* a\n\n  para\n\nAfter.",
         "incmissing": "[include nofile.qbk]", "impmissing": "[import nofile.cpp]", "incdir": "[include adir]", "incpath": "[include sub\\\\ok.qbk]",
         "xiglob": "[xinclude *.x]", "incempty": "[include ]", "impend": "[import end.cpp]", "impopen": "[import open.cpp]", "impredef": "[import dup.cpp]",
         "callout": "[import call.cpp]\n\n[sn_call]", "tplmismatch": "[em]", "tplopen": "[os]"}
BEGIN, END = "BEGINMARK", "ENDMARK"


def head(v, extra=""):
    return "[article T\n[quickbook 1.%d]\n%s]\n\n" % (v % 100, extra)


def render(d):
    """The files of a document with the pieces in their context."""
    v, x, files = d["ver"], d["ctx"], {}
    blocks, ps = [], []
    for p in d["pieces"]:
        if p in PHRASE: ps.append(PHRASE[p])
        else: blocks.append(BLOCK[p])
    t = " ".join(ps)
    para = t + "\n" if t else ""
    b = "\n\n".join([para] * bool(t) + blocks)
    pre = "\n"
    body = b
    if x == "bold": body = "text [*in %s bold]\n" % t
    elif x == "item": body = "* one\n* two %s end\n* three\n" % t
    elif x == "cell": body = "[table T\n[[a][b]]\n[[%s][d]]\n]\n" % (t if not blocks else "\n\n" + b + "\n\n")
    elif x == "vlist": body = "[variablelist V\n[[a][%s]]\n[[c][d]]\n]\n" % t
    elif x == "title": body = "[section:st In %s title]\n\ntext\n\n[endsect]\n" % t
    elif x == "sect": body = "[section:s1 One]\n\n[section:s2 Two]\n\n%s\n\n[endsect]\n\n[endsect]\n" % b
    elif x == "adm": body = "[note %s]\n" % (t if not blocks else "\n\n" + b + "\n\n")
    elif x == "tpl": pre, body = "[template cx[] in %s tpl]\n" % t, "Call [cx] here.\n"
    elif x == "blocktpl": pre, body = "[template cx[]\n\n%s\n\n]\n" % b, "[cx]\n"
    elif x == "arg": body = "Call [two %s .. second] here.\n" % t
    elif x == "foot": body = "Note[footnote Here %s it is].\n" % t
    elif x == "cond": body = "[? __DEF__ %s]\n" % (t if not blocks else "\n\n" + b + "\n\n")
    elif x == "condfalse": body = "[? __UNDEF__ %s]\n" % (t if not blocks else "\n\n" + b + "\n\n")
    elif x == "uncalled": body = "[template cx[]\n\n%s\n\n]\n\nNot called.\n" % b
    elif x == "inc": files["in.qbk"], body = head(v) + b + "\n", "[include in.qbk]\n"
    elif x == "incinc":
        files["in.qbk"], files["in2.qbk"], body = head(v) + "[include in2.qbk]\n", head(v) + b + "\n", "[include in.qbk]\n"
    elif x == "snip":
        files["sn.cpp"] = "int x;\n//[ sn_a\nint a;\n/*`\n%s\n*/\nint b;\n//]\n" % b.replace("*/", "")
        body = "[import sn.cpp]\n\n[sn_a]\n"
    for f, s in FILES.items(): files[f] = s % (v % 100) if "%d" in s else s
    files["doc.qbk"] = head(v) + PRELUDE + pre + "\n" + BEGIN + "\n\n" + body + "\n\n" + END + "\n"
    return files


DOCS = {"ok": head(107) + BEGIN + "\n\n[section:a A]\n\ntext\n\n[endsect]\n\n" + END + "\n",
        "error": head(107) + BEGIN + "\n\n[endsect]\n\n" + END + "\n",
        "version": head(199) + BEGIN + "\n\n" + END + "\n",
        "info": head(107, "[copyright 2010-2001 Someone]\n") + BEGIN + "\n\n" + END + "\n",
        "unbalanced": head(107) + BEGIN + "\n\n'''<!--quickbook-escape-postfix--></x></x></x></x>'''\n\n" + END + "\n"}


def run_once(exe, x):
    c = x["c"]
    d = os.path.realpath(tempfile.mkdtemp(prefix="vp-run-"))
    try:
        files = render(x["d"]) if c["doc"] == "text" else {"doc.qbk": DOCS[c["doc"]]} if c["doc"] in DOCS else {}
        os.makedirs(d + "/adir"); os.makedirs(d + "/o"); open(d + "/afile", "w").close()
        if c["doc"] == "folder": os.makedirs(d + "/doc.qbk")
        for f, s in files.items():
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            with open(os.path.join(d, f), "w") as fh: fh.write(s)
        html, chunked = c["fmt"] in ("html", "onehtml"), c["fmt"] == "html"
        ext = ".html" if html else ".xml"
        cmd = [exe, "--debug", "doc.qbk", "-D__DEF__"]
        if c["fmt"] != "none": cmd += ["--output-format", c["fmt"]]
        o = c["out"]
        main = None
        if o in ("file", "both"): cmd += ["--output-file", "o/out" + ext]; main = "o/out" + ext
        if o in ("dir", "both"): cmd += ["--output-dir", "o/html"]; main = "o/html/index.html" if chunked else main
        if o == "nofolder": cmd += ["--output-file", "none/out" + ext]; main = "none/out" + ext
        if o == "nodirfolder": cmd += ["--output-dir", "none/html"]; main = "none/html/index.html"
        if o == "full": cmd += ["--output-file", "/dev/full"]; main = "o/none"
        if o == "isfolder": cmd += ["--output-file", "adir"]; main = "adir"
        if o == "isfile": cmd += ["--output-dir", "afile"]; main = "afile/index.html"
        if o == "default": main = "html/index.html" if chunked else "doc" + ext
        if c["noout"]: cmd.append("--no-output")
        for k, opt in (("deps", "--output-deps"), ("loc", "--output-checked-locations")):
            if c[k] != "none": cmd += [opt, {"ok": k + ".txt", "full": "/dev/full", "nofolder": "none/" + k + ".txt"}[c[k]]]
        if c["depsfmt"] == "throw": cmd += ["--indent", "x"]
        elif c["depsfmt"] != "none": cmd += ["--output-deps-format", c["depsfmt"]]
        if c["define"] != "none": cmd.append("-D__M__=x" if c["define"] == "ok" else "-D__M x")
        if c["xbase"] != "none": cmd += ["--xinclude-base", "adir" if c["xbase"] == "ok" else "none"]
        if c["expect"]: cmd.append("--expect-errors")
        if c["strict"]: cmd.append("--strict")
        if not c["pretty"]: cmd.append("--no-pretty-print")
        before = {os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs}
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            status, err = p.returncode, (p.stdout + p.stderr).decode(errors="replace")
        except subprocess.TimeoutExpired:
            status, err = -999, "timeout"
        new = {}
        for a, _, fs in os.walk(d):
            for f in fs:
                q = os.path.join(a, f)
                if q not in before: new[os.path.relpath(q, d)] = open(q, errors="replace").read()
        doc = "no"
        docs = {f: t for f, t in new.items() if f not in ("deps.txt", "loc.txt")}
        if docs:
            t = new.get(main, "")
            ok = t.count(BEGIN) == 1 and t.count(END) == 1 and t.index(BEGIN) < t.index(END) and t.rstrip().endswith("</html>" if html else "</article>")
            doc = "yes" if ok else "files %s" % sorted(docs)
        dep = lambda f, w: "no" if f not in new else "yes" if new[f] else "yes" if c["define"] == "bad" else "empty"
        return {"c": c, "d": x["d"], "status": status, "errs": bool(re.search(r"(?i)\berrors?\b", err.replace("--expect-errors", ""))) or status < 0 or "is invalid" in err,
                "doc": doc, "deps": dep("deps.txt", "deps"), "loc": dep("loc.txt", "loc"), "new": new, "err": err.replace(d, ""), "cmd": cmd[1:]}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def observe(exe, x):
    a = run_once(exe, x)
    b = run_once(exe, x)
    same = lambda o: (o["status"], o["err"], {f: t for f, t in o["new"].items() if f not in ("deps.txt", "loc.txt")})
    a["same"] = same(a) == same(b)
    a["log"] = a.pop("err")[:600]; a.pop("new")
    return a


def main():
    c = Check("C18", "model_checking")
    c.cov["rule"] = ("every command line of the products in RunGen (formats, outputs, dependency files, definitions, options), each of 39 kinds of text in "
                     "each of 20 positions in 5 language versions, and simulated command lines and texts of up to 4 pieces; each run twice; "
                     "non-trivial: different (command line, text, result)")
    c.model(model_check("Run", "Run"), "Run")
    exe = build()
    cases = []
    for cfg, kw in [("RunGenAll", {}), ("RunGen", dict(simulate=50 if THOROUGH else 5, depth=300))]:
        g = generate("RunGen", cfg, workers=1, timeout=850, **kw)
        c.model(g, cfg)
        cases += g.items
    cases = list({json.dumps(x, sort_keys=True): x for x in cases}.values())
    from concurrent.futures import ProcessPoolExecutor
    import multiprocessing
    from functools import partial
    with ProcessPoolExecutor(NPROC, mp_context=multiprocessing.get_context("fork")) as ex:
        obs = list(ex.map(partial(observe, exe), cases, chunksize=20))
    r, bad = validate("RunTrace", "RunTrace", obs, expect_states=2 * len(obs))
    c.model(r, "RunTrace")
    if bad:
        again = [observe(exe, cases[i]) for i, _ in bad[:200]]
        _, bad2 = validate("RunTrace", "RunTrace", again)
        for j, msg in bad2:
            o = again[j]
            c.violation("run " + json.dumps(cases[bad[j][0]], sort_keys=True),
                        "quickbook %s\n  document: %s\n  observed: status %s, error reported %s, document %s, dependencies %s, locations %s, same again %s\n  specification: %s\n  log: %s" % (
                            " ".join(o["cmd"]), json.dumps(o["d"]) if o["c"]["doc"] == "text" else o["c"]["doc"], o["status"], o["errs"], o["doc"], o["deps"], o["loc"], o["same"], msg, o["log"]),
                        {"case": cases[bad[j][0]], "observed": o, "files": render(o["d"]) if o["c"]["doc"] == "text" else {}})
    c.cov["traces_validated_against_impl"] += len(obs)
    c.cov["evaluations"] += len(obs)
    c.cov["distinct_nontrivial"] = len({json.dumps([o["c"], o["d"], o["status"], o["doc"]], sort_keys=True) for o in obs})
    c.cov["samples"] = [json.dumps(cases[i]) for i in (10, len(cases) // 2, len(cases) - 3)]
    return c.finish()
