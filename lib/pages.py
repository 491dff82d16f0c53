"""Conversion to HTML: BoostBook documents from spec/HtmlGen.tla or from the
real program, converted by the real code, the pages read back and judged by
spec/HtmlTrace.tla."""
import posixpath
import random

from vp import *
from urllib.parse import urljoin, unquote
import markup

DIR = "/B/d"
PLACES = ["http://a.b/c?d=e&f#g", "mailto:x@y.z", "/B/d/out/x/y.txt", "/B/d/out/x/", "/B/d/up.txt", "/B/d/out/z.html#frag", "/B/d/img/a%20b.png", "/B/d/out/", "/B/d/out/p/", "/B/d/out/p/q1.html"]


def esc(s): return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
def qesc(s): return esc(s).replace('"', "&quot;")


# ------------------------------------------------ from a case to a document

def decorate(case):
    """Fill in texts, ids and links.  Returns the document for the judge."""
    rnd = random.Random(json.dumps(case, sort_keys=True))
    cnt = {"w": 0, "id": 0}
    used, ids, links = set(), [], []
    WORDS = ["", " ", " & ", " <x> ", "\u00e9", " \"q\" ", "\n", "  ", "'"]

    def fresh(base):
        i = base
        k = 1
        while i in used:
            k += 1
            i = "%s%d" % (base, k)
        used.add(i)
        return i

    def mkid(kind, t):
        if kind == "": return ""
        cnt["id"] += 1
        if kind == "y" and rnd.random() < .1: kind = "page"
        base = {"y": "i%d" % cnt["id"], "dot": "p.q%d" % cnt["id"], "foot": "footnote-%d" % rnd.randint(1, 3), "index": "index",
                "page": "page-%d" % rnd.choice([1, 3, 5]), "co": "co%d" % cnt["id"]}[kind]
        return fresh(base)

    def walk(n, callouts, shown=True):
        n = dict(n)
        if n["t"] == "#":
            if n["x"] == "w":
                cnt["w"] += 1
                n["x"] = "w%d%s" % (cnt["w"], rnd.choice(WORDS))
            return n
        if n["t"] == "callout" and n["id"] == "C":
            n["id"] = fresh("cl%d" % (len(used) + 1))
            callouts.append(n["id"])
        elif n["t"] not in INFOISH: n["id"] = mkid(n["id"], n["t"])
        if n["id"] and shown and n["t"] not in UNSHOWN and not (n["t"] == "inlinemediaobject" and not n["u"]) and not (n["t"] == "variablelist" and not n["k"]): ids.append(n["id"])
        mine = callouts if n["t"] != "phrase" else []
        kids = [walk(k, mine, shown and not n["t"].endswith("info")) for k in n["k"]]
        if mine:
            # the marks that belong to these callouts: those of the listing beside the list
            lst = next((k for k in n["k"] if k["t"] == "calloutlist"), None)
            if lst is not None:
                own = [k["id"] for k in kids[-1]["k"] if k["t"] == "callout"]
                marks = [k for k in kids[0]["k"] if k["t"] == "co"]
                for m, c in zip(marks, own): m["u"] = c
        n["k"] = kids
        if n["t"] in ("ulink", "inlinemediaobject") and n["u"] == "U": n["u"] = rnd.choice(PLACES) if n["r"] != "boost" else rnd.choice(["libs/x/y.html", "", "a b"])
        if n["t"] == "link" and n["u"] == "L": links.append(n)
        return n

    root = walk(case["root"], [])
    for n in links: n["u"] = rnd.choice(ids) if ids else "lost"
    return root


UNSHOWN = {"co", "callout", "functionname", "foo"}   # their ids are not in the pages
INFOISH = {"firstname", "surname", "honorific", "personname", "year", "holder"}


def paths(n):
    """Names of pages of parts."""
    if n["t"] in CHUNKS: n["x"] = n["id"].replace(".", "/")
    for k in n["k"]: paths(k)


CHUNKS = {"book", "article", "library", "chapter", "part", "appendix", "preface", "qandadiv", "qandaset", "reference", "set", "section"}


def written(place):
    """A place as a URL relative to the pages' folder."""
    if place.startswith("/B/d/"):
        p, _, f = place.partition("#")
        r = posixpath.relpath(p, "/B/d/out")
        if p.endswith("/"): r += "/"
        if r == "./": r = "./"
        return r + ("#" + f if f else "")
    return place


def xml(n):
    if n["t"] == "#": return esc(n["x"])
    a = ' id="%s"' % qesc(n["id"]) if n["id"] else ""
    t, body = n["t"], "".join(xml(k) for k in n["k"])
    if t == "ulink": a += ' url="%s"' % qesc(("boost:" if n["r"] == "boost" else "") + written(n["u"]))
    elif t == "inlinemediaobject":
        img = '<imageobject><imagedata fileref="%s"/></imageobject>' % qesc(("boost:" if n["r"] == "boost" else "") + written(n["u"])) if n["u"] else ""
        return "<inlinemediaobject%s>%s<textobject><phrase>alt</phrase></textobject></inlinemediaobject>" % (a, img)
    elif t == "link": a += ' linkend="%s"' % n["u"] if n["u"] else ""
    elif t == "co": a += ' linkends="%s"' % n["u"] if n["u"] else ""
    elif t == "bridgehead": a += ' renderas="%s"' % n["u"] if n["u"] else ""
    elif t in ("corpcredit", "othercredit"): a += ' class="%s"' % n["r"] if n["r"] else ""
    elif n["r"]: a += ' role="%s"' % n["r"]
    return "<%s%s>%s</%s>" % (t, a, body, t) if body else "<%s%s/>" % (t, a)


# --------------------------------------------- from BoostBook to a document

def document(evs):
    """The judge's document for BoostBook the real program wrote."""
    def node(x):
        if isinstance(x, str): return dict(t="#", x=x, id="", r="ws" if not x.strip("\t\n ") else "", u="", k=[])
        t, a, k = x
        n = dict(t=t, x="", id=a.get("id", ""), r=a.get("role", ""), u="", k=[])
        if t == "inlinemediaobject":
            f = [j[1]["fileref"] for i in k if not isinstance(i, str) and i[0] == "imageobject" for j in i[2] if not isinstance(j, str) and j[0] == "imagedata" and "fileref" in j[1]]
            n["u"] = f[-1] if f else ""
            n["r"] = ""
        else:
            n["k"] = [node(y) for y in k]
        if t == "ulink": n["u"], n["r"] = a.get("url", ""), ""
        if t in ("ulink", "inlinemediaobject") and n["u"]:
            if n["u"].startswith("boost:"): n["u"], n["r"] = n["u"][6:].lstrip("/") if n["u"].startswith("boost:/") else n["u"][6:], "boost"
            else: n["u"] = absolute(n["u"], "")
        if t == "link": n["u"] = a.get("linkend", "")
        if t == "co": n["u"] = a.get("linkends", "")
        if t == "bridgehead": n["u"] = a.get("renderas", "")
        if t in ("corpcredit", "othercredit"): n["r"] = a.get("class", "")
        return n
    def merge(x):
        out = []
        for k in x[2]:
            if isinstance(k, str) and out and isinstance(out[-1], str): out[-1] += k
            else: out.append(k if isinstance(k, str) else merge(k))
        return [x[0], x[1], out]
    return node(merge(markup.tree(evs)))


# ------------------------------------------------------------ reading pages

def absolute(url, page):
    """The place a URL in a page leads to."""
    if url.startswith("#") and page == "": return url
    if re.match(r"[A-Za-z0-9+.\-]+:", url) and not url.startswith("file:"): return url
    r = urljoin("file:///B/d/out/" + page, url)
    return r[len("file://"):] if r.startswith("file://") else r


def observe(d, pages):
    """The pages in folder d: (page, events, ids, links), or an error."""
    names = {p: p[:-5] for p in pages}
    out = []
    for p in sorted(pages):
        with open(os.path.join(d, "out", p), errors="surrogateescape", newline="") as f: t = f.read()
        evs, ids, links = [], [], []
        for k, name, a, s in markup.events(t, True):
            e = dict(e=k, t=name, id=a.get("id", ""), c=a.get("class", a.get("rel", a.get("accesskey", ""))), u="", x=s)
            u = a.get("href", a.get("src"))
            if u is not None:
                place = absolute(u, p) if not u.startswith("#") else "/B/d/out/" + p + u
                path, _, frag = place.partition("#")
                path2 = unquote(path)
                if path2.startswith("/B/d/out/") and path2[9:] in names:
                    place = "@" + names[path2[9:]] + ("#" + frag if frag else "")
                    links.append(place)
                e["u"] = place
            if e["id"]: ids.append(e["id"])
            if k == "text" and evs and evs[-1]["e"] == "text": evs[-1]["x"] += s
            elif k != "text" or s: evs.append(e)
        out.append({"page": names[p], "out": evs, "ids": ids, "links": links})
    return out


OPTIONS = {"css": {"none": ("", ""), "path": ("{d}/c s/a#b.css", "/B/d/c%20s/a%23b.css"), "url": ("http://x/y.css", "http://x/y.css")},
           "graphics": {"none": ("", ""), "path": ("{d}/gr ph", "/B/d/gr%20ph"), "url": (("http://x/g", "http://x/g/"), "http://x/g")},
           "boost": {"none": ("", "http://www.boost.org/doc/libs/release/"), "path": ("{d}/bo", "/B/d/bo/"), "url": (("http://b/o", "http://b/o/"), "http://b/o/")}}


def convert(drv, docs):
    """docs: [(document for the judge, BoostBook text, options)] -> records."""
    base = os.path.realpath(tempfile.mkdtemp(prefix="vp-html-"))
    recs = []
    try:
        lines = []
        for i, (doc, text, o) in enumerate(docs):
            d = "%s/%d" % (base, i)
            os.makedirs(d + "/out")
            def op(k):
                v = OPTIONS[k][o[k]][0]
                return hx((v if isinstance(v, str) else v[i % 2]).format(d=d).encode()) or "-"
            lines.append(" ".join([hx(d.encode()), "s" if o["single"] else "c", op("css"), op("graphics"), op("boost"), hx(text.encode("utf-8", "surrogateescape")) or "-"]))
        outs = run_driver(drv, lines, timeout=600)
        for i, ((doc, text, o), r) in enumerate(zip(docs, outs)):
            d = "%s/%d" % (base, i)
            rec = {"d": doc, "o": {"single": o["single"], "home": "index", **{k: OPTIONS[k][o[k]][1] for k in OPTIONS}}, "status": r.get("status", -99), "pages": [], "bad": ""}
            files = sorted(os.path.relpath(os.path.join(a, f), d + "/out") for a, _, fs in os.walk(d + "/out") for f in fs)
            try: rec["pages"] = observe(d, files)
            except markup.Bad as e: rec["status"], rec["bad"] = -98, str(e)
            recs.append(rec)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return recs


def check_docs(c, drv, docs, key):
    """Convert and judge; a rejection counts if it comes again."""
    recs = convert(drv, docs)
    strip = lambda r: {k: v for k, v in r.items() if k != "bad"}
    r, bad = validate("HtmlTrace", "HtmlTrace", [strip(x) for x in recs], expect_states=2 * len(recs), timeout=850)
    c.model(r, "HtmlTrace")
    if bad:
        idx = [i for i, _ in bad][:200]
        again = convert(drv, [docs[i] for i in idx])
        _, bad2 = validate("HtmlTrace", "HtmlTrace", [strip(x) for x in again], timeout=850)
        for j, msg in bad2:
            doc, text, o = docs[idx[j]]
            c.violation(key(idx[j]), "HTML of %s\n  options %s\n  %s %s" % (text[:1500], json.dumps(o), msg[:800], again[j]["bad"]),
                        {"boostbook": text, "options": o, "pages": again[j]["pages"], "specification": msg})
    c.cov["traces_validated_against_impl"] += len(recs)
    c.cov["evaluations"] += len(recs)
    return recs


def cases_of(c, gens):
    cases = []
    for cfg, kw in gens:
        g = generate("HtmlGen", cfg, workers=1, timeout=850, **kw)
        c.model(g, cfg)
        cases += g.items
    cases = list({json.dumps(x, sort_keys=True): x for x in cases}.values())
    docs = []
    for x in cases:
        root = decorate(x)
        paths(root)
        docs.append((root, '<?xml version="1.0" encoding="UTF-8"?>\n' + xml(root), x["o"]))
    return docs


def driver(): return build(driver="htmlgen", need=["bb2html", "boostbook_chunker", "html_printer", "xml_parse", "utils", "path", "files", "post_process", "native_text", "stream"])


# ------------------------------------------------- BoostBook of the program

ALL_OPTIONS = [dict(single=False, css="none", graphics="none", boost="none"), dict(single=True, css="path", graphics="none", boost="url"),
               dict(single=False, css="path", graphics="path", boost="path"), dict(single=False, css="url", graphics="url", boost="none")]


def real_docs(texts):
    """[(name, BoostBook)] -> [(document for the judge, BoostBook, options)]; what
    isn't XML is left out, as are documents with parts the judge doesn't know."""
    out, names = [], []
    for i, (name, t) in enumerate(texts):
        try: doc = document(markup.events(t, False))
        except markup.Bad: continue
        if not known_names(doc): continue
        paths(doc)
        out.append((doc, t, ALL_OPTIONS[i % 4]))
        names.append(name)
    return out, names


def known_names(doc):
    # pages whose names come from ids that aren't file names, and raw BoostBook
    # in the place of parts
    return doc["t"] in CHUNKS


def examples(exe):
    """BoostBook the program makes of the repository's quickbook files."""
    base = os.path.realpath(tempfile.mkdtemp(prefix="vp-ex-"))
    try:
        shutil.copytree(os.path.join(REPO, "test"), base + "/test")
        files = sorted(os.path.join(a, f) for a, _, fs in os.walk(base + "/test") for f in fs if f.endswith((".quickbook", ".qbk")))
        def one(f):
            o = f + ".out.xml"
            try: p = subprocess.run([exe, "--debug", "--output-file", o, os.path.basename(f)], cwd=os.path.dirname(f), capture_output=True, timeout=60)
            except subprocess.TimeoutExpired: return None
            if p.returncode or not os.path.exists(o): return None
            with open(o, errors="surrogateescape", newline="") as fh: return os.path.relpath(f, base), fh.read()
        return [x for x in pmap(one, files) if x]
    finally:
        shutil.rmtree(base, ignore_errors=True)


def probe(c, drv, key, text, ok, what):
    """One document for which the property is known not to hold: a violation
    under this key, which known_findings.jsonl lists."""
    d = os.path.realpath(tempfile.mkdtemp(prefix="vp-html-"))
    try:
        os.makedirs(d + "/out")
        r = run_driver(drv, [" ".join([hx(d.encode()), "s", "-", "-", "-", hx(text.encode())])], timeout=60)[0]
        out = "".join(open(os.path.join(d, "out", f)).read() for f in os.listdir(d + "/out"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if r.get("status") != 0 or not ok(out):
        c.violation(key, "%s\n%s\n%s" % (what, text, out[:1500]), {"boostbook": text, "pages": out})
