"""Documents with callouts (spec/Callouts.tla)."""
from vp import *
import xml.etree.ElementTree as ET


def inline(items): return " ".join(i["x"] if i["k"] == "w" else "[%s]" % i["x"] for i in items)


def code(body):
    out = []
    for n, i in enumerate(body):
        if i["k"] == "w": out.append(i["x"] + ";")
        elif i["k"] == "call": out.append("``[%s]``" % i["x"])
        else:
            text = (i["x"] + " " + inline(i["body"])).strip()
            out.append(("/*<< %s >>*/" if n % 2 else "/*< %s >*/") % text)
    return "x " + " ".join(out) + " y"


BOX = {"list": "* %s", "note": "[note %s]", "table": "[table [[%s]]]", "yes": "[?__FILENAME__ %s]", "no": "[?nope %s]", "foot": "z[footnote %s]", "head": "[heading %s]",
       "quote": "[:%s]", "bold": "[*%s]", "section": "[section %s]\n\n[endsect]", "varlist": "[variablelist [[z][%s]]]"}


def blocks(items):
    out = []
    for i in items:
        if i["k"] == "w": out.append(i["x"])
        elif i["k"] == "code": out.append("```\n%s\n```" % code(i["body"]))
        elif i["k"] == "call": out.append("[%s]" % i["x"])
        else: out.append(BOX[i["x"]] % inline(i["body"]))
    return "\n\n".join(out)


def snippet(d):
    out = ["//[" + d["x"]]
    for i in d["body"]:
        if i["k"] == "code": out.append(code(i["body"]))
        else: out.append("//` " + inline([i]))
    return "\n".join(out + ["//]", ""])


def files(x):
    head = "[article t [quickbook 1.%d]]\n[import x.cpp]\n" % (x["v"] - 100)
    tmpl = "".join("[template %s[]\n\n%s\n\n]\n" % (d["x"], blocks(d["body"])) for d in x["defs"] if not d["snip"])
    return {"x.cpp": "".join(snippet(d) for d in x["defs"] if d["snip"]), "a.qbk": head + tmpl + "\nstart\n\n" + blocks(x["doc"]) + "\n"}


def recorded(x, text):
    rec = dict(x, failed=text is None, out=[], ids=[])
    if text is None: return rec
    try: root = ET.fromstring(text)
    except ET.ParseError: return dict(rec, failed=True)
    marks = {}

    def words(s):
        for w in re.findall(r"\b[wm]\d+\b", s or ""): rec["out"].append({"k": "word", "n": 0, "x": w})

    def walk(e):
        k = e.tag
        if "id" in e.attrib: rec["ids"].append(e.get("id"))
        if k == "co":
            n = len(marks) + 1
            marks[e.get("id")] = (n, e.get("linkends"))
            rec["out"].append({"k": "mark", "n": n, "x": ""})
        elif k == "calloutlist": rec["out"].append({"k": "list", "n": 0, "x": ""})
        elif k == "callout":
            n, back = marks.get(e.get("arearefs"), (0, None))
            rec["out"].append({"k": "entry", "n": n if back == e.get("id") else 0, "x": ""})
        words(e.text)
        for c in e:
            walk(c)
            words(c.tail)
        if k == "calloutlist": rec["out"].append({"k": "end", "n": 0, "x": ""})
    walk(root)
    return rec


def run(exe, cases):
    work = tempfile.mkdtemp(prefix="vp-call-")

    def one(job):
        n, x = job
        d = os.path.join(work, str(n))
        os.mkdir(d)
        for name, text in files(x).items():
            with open(os.path.join(d, name), "w") as f: f.write(text)
        try: p = subprocess.run([exe, "--no-pretty-print", "--output-file", "a.xml", "a.qbk"], cwd=d, capture_output=True, timeout=60)
        except subprocess.TimeoutExpired: p = None
        out = os.path.join(d, "a.xml")
        r = recorded(x, open(out, encoding="utf8", errors="replace").read() if p and p.returncode == 0 and os.path.exists(out) else None)
        shutil.rmtree(d)
        return r
    try: return pmap(one, list(enumerate(cases)))
    finally: shutil.rmtree(work, ignore_errors=True)


def judge(check, exe, cases):
    recs = run(exe, cases)
    r, bad = validate("CalloutsTrace", "CalloutsTrace", recs, expect_states=2 * len(recs))
    if bad:
        again = run(exe, [cases[b] for b, _ in bad])
        r2, bad2 = validate("CalloutsTrace", "CalloutsTrace", again)
        for j, msg in bad2:
            x = cases[bad[j][0]]
            check.violation("callouts " + json.dumps(x, sort_keys=True), "callouts of the document\n%s\n  observed: %s\n  specification: %s" % (
                "\n".join("--- %s\n%s" % f for f in files(x).items())[:1500], "failed" if again[j]["failed"] else json.dumps(again[j]["out"])[:900], msg[:900]), {"files": files(x), "observed": again[j], "specification": msg})
    check.model(r, "CalloutsTrace")
    check.cov["traces_validated_against_impl"] += len(recs)
    check.cov["evaluations"] += len(recs)
    return recs
