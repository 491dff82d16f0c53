"""Code in documents (spec/Highlight.tla): documents with many pieces of code,
and what came out of them."""
from vp import *
import xml.etree.ElementTree as ET

HEAD = "[article t [quickbook 1.%d]]\n[def mac *M*]\n[def ~~ tilde]\n[def ~~~ three]\n[def auto A]\n\nstart\n\n"
# characters that the generator writes for others
OUT = {"@": "\u00e9", "$": "\u20ac"}


def outside(x):
    for a, b in OUT.items(): x = x.replace(a, b)
    return x


def inside(x):
    for a, b in OUT.items(): x = x.replace(b, a)
    return x


def source(i, x):
    t = outside(x["t"])
    if x["form"] == "inline": body = "[%s] word\n\ninline `%s` end\n\n" % (x["mode"], t)
    else: body = "[%s]\n\n```\n%s\n```\n\n" % (x["mode"], t)
    return "mark%dmark\n\n%s" % (i, body)


def items(e, out):
    def text(s):
        if not s: return
        if out and out[-1]["k"] == "": out[-1]["x"] += inside(s)
        else: out.append({"k": "", "x": inside(s), "y": ""})
    text(e.text)
    for c in e:
        if c.tag == "phrase" and c.get("role") == "comment":
            out.append({"k": "open", "x": "comment", "y": ""})
            items(c, out)
            out.append({"k": "close", "x": "", "y": ""})
        elif c.tag == "co": out.append({"k": "co", "x": c.get("id", ""), "y": c.get("linkends", "")})
        else: out.append({"k": "bold" if c.tag == "emphasis" else c.get("role", c.tag), "x": inside("".join(c.itertext())), "y": ""})
        text(c.tail)
    return out


def run(exe, cases):
    """Documents with many cases each (those with an error alone); the records."""
    docs = []
    by = {}
    for i, x in enumerate(cases): by.setdefault((x["v"], x["bad"]), []).append(i)
    for (v, bad), ids in by.items():
        size = 1 if bad else 60
        docs += [(v, ids[k:k + size]) for k in range(0, len(ids), size)]
    work = tempfile.mkdtemp(prefix="vp-code-")
    recs = [None] * len(cases)

    def one(job):
        n, (v, ids) = job
        src, out = os.path.join(work, "%d.qbk" % n), os.path.join(work, "%d.xml" % n)
        with open(src, "w", encoding="utf8") as f:
            f.write(HEAD % (v - 100) + "".join(source(i, cases[i]) for i in ids))
        try: p = subprocess.run([exe, "--no-pretty-print", "--output-file", out, src], capture_output=True, timeout=60)
        except subprocess.TimeoutExpired: p = None
        empty = dict(its=[], list=[], n=0, lists=0, inline=False)
        if p is None or p.returncode != 0 or not os.path.exists(out):
            if len(ids) > 1:
                for k, i in enumerate(ids): one(("%s_%d" % (n, k), (v, [i])))
            else:
                r = dict(cases[ids[0]], **empty)
                r["bad"] = True
                if p is None or p.returncode not in (0, 1): r["n"] = -1
                recs[ids[0]] = r
            return
        try: root = ET.parse(out).getroot()
        except ET.ParseError as e:
            for i in ids: recs[i] = dict(cases[i], **dict(empty, bad=False, xml=str(e)))
            return
        cur = None
        got = {i: dict(cases[i], bad=False, its=[], list=[], n=0, lists=0, inline=False) for i in ids}
        for e in root.iter():
            m = re.match(r"\s*mark(\d+)mark\s*$", e.text or "") if e.tag == "para" else None
            if m: cur = got.get(int(m.group(1)))
            elif cur is None: continue
            elif e.tag in ("programlisting", "code"):
                cur["n"] += 1
                cur["inline"] = e.tag == "code"
                cur["its"] = items(e, [])
            elif e.tag == "calloutlist":
                cur["lists"] += 1
                cur["list"] += [{"refs": c.get("arearefs", ""), "id": c.get("id", ""), "words": " ".join("".join(c.itertext()).split())} for c in e]
        for i in ids: recs[i] = got[i]
    try: pmap(one, list(enumerate(docs)))
    finally: shutil.rmtree(work, ignore_errors=True)
    return recs


def judge(check, exe, cases, module="HighlightTrace"):
    recs = run(exe, cases)
    r, bad = validate(module, module, recs, expect_states=2 * len(recs))
    if bad:
        again = run(exe, [cases[b] for b, _ in bad])
        r2, bad2 = validate(module, module, again)
        for j, msg in bad2:
            x = cases[bad[j][0]]
            check.violation("%s %s %d %r" % (x["mode"], x["form"], x["v"], x["t"]), "%s code (%s, quickbook 1.%d) %r\n  observed: %s\n  specification: %s" % (
                x["mode"], x["form"], x["v"] - 100, x["t"], json.dumps(again[j])[:900], msg[:900]), {"case": x, "document": HEAD % (x["v"] - 100) + source(0, x), "observed": again[j], "specification": msg})
    check.model(r, module)
    check.cov["traces_validated_against_impl"] += len(recs)
    check.cov["evaluations"] += len(recs)
    return recs
