"""C23: document information (spec/DocInfo.tla)."""
from vp import *
import xml.etree.ElementTree as ET


def attr(a):
    k, v = a["k"], a["v"]
    if k == "escaped": return "'''%s'''" % v["q"]
    if k in ("quickbook", "compatibility-mode"): t = "%d.%d" % (v // 100, v % 100)
    elif k == "source-mode": t = v
    elif k == "authors": t = ", ".join("[%s, %s]" % (x["surname"]["q"], x["first"]["q"]) for x in v)
    elif k == "copyright": t = ", ".join(", ".join(str(y["from"]) + ("-%d" % y["to"] if y["to"] else "") for y in h["years"]) + " " + h["holder"]["q"] for h in v)
    elif k == "biblioid": t = v["class"] + " " + v["value"]["q"]
    else: t = v["q"]
    return "[%s %s]" % (k, t)


def document(x):
    before = [a for a in x["attrs"] if x["before"] and a["k"] == "quickbook"]
    rest = [a for a in x["attrs"] if a not in before]
    return "".join(attr(a) + "\n" for a in before) + "[%s %s\n%s]\n\nword\n" % (x["type"], x["title"]["q"], "".join(attr(a) + "\n" for a in rest))


NONE = dict(type="", title="", id=[], lang=[], name=[], dirname=[], revision=[], authors=[], copyrights=[], license=[], purpose=[], categories=[], biblioids=[], escaped=[])


def text(e): return " ".join("".join(e.itertext()).split())


def header(e):
    h = dict(NONE, type=e.tag)
    info = e.find(e.tag + "info")
    info = [] if info is None else list(info)
    every = list(e) + info
    titles = [text(t) for t in every if t.tag == "title"]
    h["title"] = titles[0] if len(titles) == 1 else repr(titles)
    for a, f in (("id", "id"), ("lang", "lang"), ("name", "name"), ("dirname", "dirname"), ("last-revision", "revision")):
        if a in e.attrib: h[f] = [" ".join(e.get(a).split())]
    if h["revision"] and re.match(r"\$Date: \d{4}/\d\d/\d\d [\d:]+ \$$", h["revision"][0]): h["revision"] = []
    h.update(authors=[], copyrights=[], license=[], purpose=[], categories=[], biblioids=[], escaped=[])
    for i in info:
        if i.tag == "authorgroup":
            for a in i: h["authors"].append({"first": text(a.find("firstname")), "surname": text(a.find("surname"))})
        elif i.tag == "copyright":
            h["copyrights"].append({"years": [int(y.text) for y in i.findall("year")], "holder": " / ".join(text(y) for y in i.findall("holder"))})
        elif i.tag == "legalnotice": h["license"].append(text(i))
        elif i.tag == e.tag + "purpose": h["purpose"].append(text(i))
        elif i.tag == e.tag + "category": h["categories"].append(re.sub(r"^category:", "", " ".join(i.get("name", "").split())))
        elif i.tag == "biblioid": h["biblioids"].append({"class": i.get("class", ""), "value": text(i)})
        elif i.tag != "title": h["escaped"].append(text(i))
    return h


def run(exe, cases):
    work = tempfile.mkdtemp(prefix="vp-info-")

    def one(job):
        n, x = job
        d = os.path.join(work, str(n))
        os.mkdir(d)
        with open(d + "/a.qbk", "w") as f: f.write(document(x))
        if x["outer"]:
            with open(d + "/b.qbk", "w") as f: f.write("[book Main [quickbook 1.%d]]\n\nwords\n\n[include a.qbk]\n" % (x["outer"] - 100))
        try: p = subprocess.run([exe, "--no-pretty-print", "-D", "mm=MM", "--output-file", "o.xml", "b.qbk" if x["outer"] else "a.qbk"], cwd=d, capture_output=True, timeout=60)
        except subprocess.TimeoutExpired: p = None
        r = dict(x, bad=p is None or p.returncode != 0, headers=0, header=NONE)
        if not r["bad"]:
            try:
                root = ET.parse(d + "/o.xml").getroot()
                es = [root] if not x["outer"] else [e for e in root if e.tag == x["type"]]
                r["headers"] = len(es)
                if es: r["header"] = header(es[0])
            except (ET.ParseError, OSError) as e: r["headers"] = -1
        shutil.rmtree(d)
        return r
    try: return pmap(one, list(enumerate(cases)))
    finally: shutil.rmtree(work, ignore_errors=True)


def judge(c, exe, cases):
    recs = run(exe, cases)
    r, bad = validate("DocInfoTrace", "DocInfoTrace", recs, expect_states=2 * len(recs))
    if bad:
        again = run(exe, [cases[b] for b, _ in bad])
        r2, bad2 = validate("DocInfoTrace", "DocInfoTrace", again)
        for j, msg in bad2:
            x = cases[bad[j][0]]
            c.violation("info " + json.dumps(x, sort_keys=True), "the document%s\n%s\n  observed: %s\n  specification: %s" % (
                " included from version %d" % x["outer"] if x["outer"] else "", document(x), json.dumps({k: again[j][k] for k in ("bad", "headers", "header")})[:1200], msg[:900]),
                {"document": document(x), "outer": x["outer"], "observed": again[j], "specification": msg})
    c.model(r, "DocInfoTrace")
    c.cov["traces_validated_against_impl"] += len(recs)
    c.cov["evaluations"] += len(recs)
    return recs


def main():
    c = Check("C23", "model_checking")
    c.cov["rule"] = ("documents with every sequence of %d of 22 attributes, in an article, a library and an included article, and simulated ones with up to 9 attributes, in "
                     "every document type and version, with characters that need escapes, macros and markup; every field of the header; non-trivial: headers with three fields" % (3 if THOROUGH else 2))
    c.model(model_check("DocInfoMC", "DocInfoMCT" if THOROUGH else "DocInfoMC", timeout=850), "DocInfoMC")
    exe = build()
    n = 0
    for cfg, kw in [("DocInfoGenAllT" if THOROUGH else "DocInfoGenAll", {}), ("DocInfoGen", dict(simulate=150 if THOROUGH else 15, depth=202))]:
        g = generate("DocInfoGen", cfg, workers=1, timeout=850, **kw)
        c.model(g, cfg)
        cases = list({json.dumps(x): x for x in g.items}.values())
        for at in range(0, len(cases), 10000):
            recs = judge(c, exe, cases[at:at + 10000])
            n += sum(sum(bool(v) for v in r["header"].values()) > 4 for r in recs)
        c.cov["samples"] += [document(cases[i]) for i in (len(cases) // 2, len(cases) - 3)]
    c.cov["distinct_nontrivial"] = n
    return c.finish()
