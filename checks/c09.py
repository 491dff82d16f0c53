"""C09: pretty printing (spec/Pretty.tla)."""
import random, re
from vp import *

HTML = {"para": "p", "section": "div", "listitem": "li", "orderedlist": "ol", "entry": "td", "table": "table", "note": "blockquote",
        "bookinfo": "tbody", "simpara": "p", "xi:include": "hr", "row": "tr"}
PRE, POST = "<!--quickbook-escape-prefix-->", "<!--quickbook-escape-postfix-->"


def tagname(x, html):
    n = x.split(" ")[0]
    return (HTML.get(n, n) if html else n) + x[len(n):]


def items_for(items, html):
    """The items with the names the output kind uses; end tags get their name."""
    out, stack = [], []
    for i in items:
        i = dict(i)
        if i["t"] in ("b+", "f+", "b", "f"): i["x"] = tagname(i["x"], html)
        if i["t"] in ("b+", "f+"): stack.append(i["x"].split(" ")[0])
        if i["t"] == "-": i["x"] = stack.pop() if stack else "para"
        if i["t"] == "e": i["x"] = i["x"].replace("\\n", "\n")
        if i["t"] == "w": i["x"] = i["x"].replace("\\u00e9", "\u00e9")
        out.append(i)
    return out


def render(items, html, rnd):
    """One layout of the items: white space is free next to block tags."""
    ws = lambda: rnd.choice([" ", "\n", "  ", "\n   \n  ", " \t "]) if rnd else " "
    blockish = lambda i: i["t"] in ("b+", "b", "p") or (i["t"] == "-" and i.get("blk"))
    stack = []
    for i in items:
        if i["t"] in ("b+", "f+"): stack.append(i["t"] == "b+")
        elif i["t"] == "-": i["blk"] = stack.pop() if stack else False
    out = ""
    for n, i in enumerate(items):
        t, x = i["t"], i.get("x")
        prev = items[n - 1] if n else None
        if t == "s":
            if prev and prev["t"] == "s" and out.endswith(" ") and fixed: out += " "; continue
            fixed = bool(prev and prev["t"] in ("e", "c") or (n + 1 < len(items) and items[n + 1]["t"] in ("c", "s")))
            out += " " if fixed else ws()
            continue
        if rnd and prev and (blockish(prev) or blockish(i)) and prev["t"] not in ("e", "c", "s") and t not in ("e", "c") and rnd.random() < .4: out += ws()
        if x and t in ("b+", "f+", "b", "f") and rnd and rnd.random() < .2: x = re.sub(r' (?=[a-z]+=")', lambda m: rnd.choice(["  ", "\n", " \n "]), x)
        if t == "w": out += x
        elif t in ("b+", "f+"): out += "<%s>" % x
        elif t in ("b", "f"): out += "<%s/>" % x
        elif t == "-": out += "</%s>" % x
        elif t == "c": out += "<!--%s-->" % x
        elif t == "e": out += PRE + x + POST
        elif t == "p":
            c = bytes(i["y"]).decode("latin-1")
            out += "<pre>%s</pre>" % c if html else "<programlisting>%s</programlisting>" % c
    return out.encode()


def read(text, html, kinds):
    """The items of a printed document (its own small reader)."""
    code = "pre" if html else "programlisting"
    out = []
    for m in re.finditer(r"(?P<p><%s>(?P<y>.*?)</%s>)|(?P<e>\{\{.*?\}\})|(?P<c><!--(?P<cx>.*?)-->)|(?P<g><[^>]*>)|(?P<s>\s+)|(?P<w>(?:(?!\{\{)[^<\s])+)|(?P<bad><)" % (code, code), text, re.S):
        if m["p"]: out.append({"t": "p", "y": list(m["y"].encode("utf-8"))})
        elif m["e"]: out.append({"t": "e", "x": m["e"]})
        elif m["c"]: out.append({"t": "c", "x": " ".join(m["cx"].split())})
        elif m["s"]: out.append({"t": "s"})
        elif m["w"]: out.append({"t": "w", "x": m["w"]})
        elif m["g"]:
            g = m["g"][1:-1]
            if g.startswith("/"): out.append({"t": "-", "x": g[1:].strip()})
            else:
                empty = g.endswith("/")
                g = g.rstrip("/")
                name = re.match(r"\S+", g)
                x = (name[0] if name else "") + "".join(" " + a for a in re.findall(r'[\w:]+="[^"]*"', g))
                # nothing else may be inside a tag
                if re.sub(r'\s+', "", re.sub(r'[\w:]+="[^"]*"', "", g)) != (name[0] if name else ""): x += " ?"
                out.append({"t": kinds.get(name[0] if name else "", "f") + ("" if empty else "+"), "x": x})
        else: out.append({"t": "c", "x": "unreadable"})
    return out


def record(exe, js):
    # each layout is printed with the chosen width, and with one that breaks no line
    lines = [" ".join([t.hex() or "-", str(ind), str(w), "1" if html else "0"]) for _, html, ind, w0, ts in js for w in (w0, 1000000) for t in ts]
    outs = run_driver(exe, lines)
    recs = []
    for n, (its, html, ind, w, ts) in enumerate(js):
        os_ = outs[6 * n:6 * n + 6]
        if any("crash" in o for o in os_): recs.append(("crash", [o for o in os_ if "crash" in o][0])); continue
        if any("skipped" in o for o in os_): recs.append(None); continue
        kinds = {i["x"].split(" ")[0]: i["t"][0] for i in its if i["t"] in ("b+", "f+", "b", "f")}
        rec = {"items": [{k: v for k, v in i.items() if k != "blk"} for i in its],
               "outs": [{"refused": 0, "items": read(bytes(o["t"]).decode("utf-8", "replace"), html, kinds)} if o["ok"] else {"refused": 1, "items": []} for o in os_],
               "same": int(all(o == os_[3] for o in os_[3:]))}
        recs.append((rec, os_))
    return recs


def main():
    c = Check("C09", "model_checking")
    c.cov["rule"] = ("every document of up to 4 (thorough: 5) items (white space, word, block and flow tags, empty tags, comment, listing, escaped passage), "
                     "simulated documents of 60 items with attributes, long words and several listings; as BoostBook and as HTML, in three layouts each, "
                     "with several line widths and indents; non-trivial: contains white space and a tag")
    c.model(model_check("PrettyMC", "PrettyMC"), "PrettyMC")
    exe = build(driver="post_process", need=["post_process"], flags=["-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"])
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99"
    cases = []
    for cfg, kw in (("PrettyGenAllT" if THOROUGH else "PrettyGenAll", {}), ("PrettyGen", dict(simulate=10000 if THOROUGH else 700, depth=200))):
        g = generate("PrettyGen", cfg, workers=1, timeout=850, **kw)
        c.model(g, cfg)
        cases += g.items
    jobs = []
    for n, items in enumerate(cases):
        rnd = random.Random(n * 7919 + SEED)
        html = rnd.random() < .4
        its = items_for(items, html)
        width = rnd.choice([0, 8, 20, 40, -1]) if len(its) > 6 else rnd.choice([0, 3, 8, -1])
        ind = rnd.choice([0, 1, 2, 4, -1])
        jobs.append((its, html, ind, width, [render(its, html, random.Random(n * 31 + l) if l else None) for l in range(3)]))
    def show(job, os_):
        return "input (indent %d, width %d%s): %r\n  printed: %s" % (job[2], job[3], ", html" if job[1] else "", [t.decode() for t in job[4]],
            [bytes(o["t"]).decode("utf-8", "replace") if o["ok"] else "refused" for o in os_] if isinstance(os_, list) else os_)
    for at in range(0, len(jobs), 12000):
        js = jobs[at:at + 12000]
        recs = record(exe, js)
        good = [(j, r) for j, r in zip(js, recs) if r and r[0] != "crash"]
        for j, r in zip(js, recs):
            if r and r[0] == "crash": c.violation("crash:" + j[4][0].decode(), "the code crashed\n" + show(j, r[1]["stderr"][-600:]), {"input": j[4][0].decode()})
        r, bad = validate("PrettyTrace", "PrettyTrace", [x[1][0] for x in good], expect_states=sum(len(x[1][0]["items"]) + 2 for x in good))
        c.model(r, "PrettyTrace")
        c.cov["traces_validated_against_impl"] += 6 * len(good)
        c.cov["evaluations"] += 6 * len(good)
        if bad:
            again = record(exe, [good[b][0] for b, _ in bad])
            r2, bad2 = validate("PrettyTrace", "PrettyTrace", [a[0] for a in again])
            for b, msg in bad2:
                c.violation("%r" % (again[b][0]["items"],), show(good[bad[b][0]][0], again[b][1]) + "\n  specification: " + msg[:1500],
                            {"input": good[bad[b][0]][0][4][0].decode(), "record": again[b][0], "specification": msg})
    c.cov["distinct_nontrivial"] = len({j[4][0] for j in jobs if {i["t"] for i in j[0]} & {"s"} and {i["t"] for i in j[0]} & {"b+", "f+", "b", "f"}})
    c.cov["samples"] = [jobs[i][4][1].decode()[:400] for i in (0, len(jobs) // 2, len(jobs) - 1)]
    c.assumptions = ["attribute values hold no '>' and text no raw double quotes (the generators escape them); start tags that are never closed are not judged"]
    return c.finish()
