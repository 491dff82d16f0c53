"""Documents of MarkupGen, the files written for them, and their tokens."""
from vp import *
import unicodedata

VOID = {"br", "hr", "img", "link", "meta", "input"}
NAME = r"[A-Za-z_:][-A-Za-z0-9_:.]*"
OPEN = re.compile("<(%s)" % NAME)
CLOSE = re.compile(r"</(%s)\s*>" % NAME)
ATTR = re.compile(r'\s+(%s)\s*=\s*(?:"([^"<]*)"|\'([^\'<]*)\')' % NAME)
END = re.compile(r"\s*(/?)>")
ENT = re.compile(r"&(?:([A-Za-z][A-Za-z0-9]*)|#([0-9]+)|#x([0-9A-Fa-f]+));")


def allowed(c): return c in (9, 10, 13) or 0x20 <= c <= 0xd7ff or 0xe000 <= c <= 0xfffd or 0x10000 <= c <= 0x10ffff


def odd(s, is_html):
    for m in ENT.finditer(s):
        if m.group(1) and not is_html and m.group(1) not in ("amp", "lt", "gt", "quot", "apos"): return "entity " + m.group(0)
        if not m.group(1) and not allowed(int(m.group(2)) if m.group(2) else int(m.group(3), 16)): return "character " + m.group(0)
    if "&" in ENT.sub("", s): return "& in " + repr(s[:60])
    if not is_html and "]]>" in s: return "]]> in text"
    return ""


def tokens(t, is_html=False):
    """Every text is a sequence of tokens; what isn't markup is "!..."."""
    t = t.replace("<!--quickbook-escape-prefix-->", "").replace("<!--quickbook-escape-postfix-->", "")
    out, i = [], 0
    if any(not allowed(ord(c)) for c in t): out.append("!a character that isn't allowed")
    while i < len(t):
        if t[i] != "<":
            j = t.find("<", i)
            if j < 0: j = len(t)
            s = t[i:j]
            o = odd(s, is_html)
            if o: out.append("!" + o)
            elif s.strip() and (not out or out[-1] != "t"): out.append("t")
            i = j
        elif t.startswith("<!--", i) or t.startswith("<?", i) or (t.startswith("<![CDATA[", i) and not is_html):
            end = {"!-": "-->", "![": "]]>"}.get(t[i + 1:i + 3], "?>")
            j = t.find(end, i + 2)
            if j < 0: return out + ["!not closed " + repr(t[i:i + 40])]
            i = j + len(end)
        elif t.startswith("<!DOCTYPE", i):
            j = t.find(">", i)
            if any(x[0] != "t" for x in out) or j < 0: out.append("!misplaced declaration")
            i = j + 1 or len(t)
        elif t.startswith("</", i):
            m = CLOSE.match(t, i)
            out.append(")" + m.group(1) if m else "!bad tag " + repr(t[i:i + 40]))
            i = m.end() if m else i + 2
        else:
            m = OPEN.match(t, i)
            if not m:
                out.append("!bad tag " + repr(t[i:i + 40]))
                i += 1
                continue
            seen, p = set(), m.end()
            while True:
                a = ATTR.match(t, p)
                if not a: break
                if a.group(1) in seen: out.append("!attribute %s twice in %r" % (a.group(1), t[i:i + 60]))
                seen.add(a.group(1))
                o = odd(a.group(2) or a.group(3) or "", True)
                if o: out.append("!" + o)
                p = a.end()
            e = END.match(t, p)
            if not e:
                out.append("!bad attribute " + repr(t[i:p + 40]))
                i = p
                continue
            out.append(("." if e.group(1) or (is_html and m.group(1) in VOID) else "(") + m.group(1))
            i = e.end()
    # empty elements and texts inside of others say nothing more
    return out


SNIPPETS = "//[sn\n/*` p @ */\nint a = 1; /*< @ >*/\n//]\n//[su\nint <b> & \"c\"; //< @\n//]\n"
DEFS = "[def mm M<&\"]\n[def mb *M*]\n[def mraw '''<x/>''']\n[template tp[] a<b]\n[template tb[]\nblock <p>\n\n* item\n]\n[template ta[x y] [x]-[y]]\n\nstart\n\n"


def write(d, x):
    with open(d + "/a.qbk", "w") as f: f.write(x["head"] + DEFS + x["main"])
    with open(d + "/b.qbk", "w") as f: f.write(x["b"])
    with open(d + "/c.cpp", "w") as f: f.write(SNIPPETS.replace("@", x["c"]))
    with open(d + "/x.xml", "w") as f: f.write("<section><title>t</title></section>")
    with open(d + "/s.svg", "w") as f: f.write('<?xml version="1.0"?>\n<svg width="10%" stroke-width="3" height="4em"><g/></svg>')
    with open(d + "/t.svg", "w") as f: f.write('<svg width="1')


def outputs(exe, d, src, n, extra=()):
    """The files written for a document: [(name, text)], None if it isn't accepted."""
    res = []
    for args in (["--no-pretty-print", "--output-file", "o.xml"], ["--output-file", "p.xml"],
                 ["--output-format", "html", "--output-dir", "h"] if n % 2 else ["--output-format", "onehtml", "--output-file", "o.html"]):
        more = ["--css-path", 'a"<&b', "--graphics-path", 'g"&<', "--boost-root-path", 'r"<&'] if n % 5 == 0 and "html" in args[1] else ["--no-self-linked-headers"] if n % 5 == 1 else []
        try: p = subprocess.run([exe, "-Dmd=d<\"&[*d]"] + list(extra) + more + args + [src], cwd=d, capture_output=True, timeout=120)
        except subprocess.TimeoutExpired: return [("timeout", "<")]
        if p.returncode < 0: res.append(("crash of " + " ".join(args), "<"))
        elif p.returncode: return res or None
        else:
            if args[0] == "--output-format" and n % 2: names = [os.path.join(r, f) for r, _, fs in os.walk(d + "/h") for f in fs if f.endswith(".html")]
            else: names = [d + "/" + args[-1]]
            for f in sorted(names):
                with open(f, "rb") as g: res.append((os.path.relpath(f, d), g.read().decode("utf8", "surrogateescape")))
    return res


def own():
    """The repository's own documents, but not those with markup in escapes that
    isn't balanced, or isn't XML without the entities of DocBook."""
    docs = [os.path.join(r, f) for sub in ("doc", "test") for r, _, fs in os.walk(REPO + "/" + sub) for f in fs if f.endswith((".qbk", ".quickbook"))]
    return sorted(d for d in docs if not re.search(r"test/(templates-1|elements-1_5|post_process-fail)", d))


def run(exe, cases):
    """[{case, name, tokens}] for what's written for cases: documents of MarkupGen, or paths."""
    work = tempfile.mkdtemp(prefix="vp-markup-")

    def one(job):
        n, x = job
        d = os.path.join(work, str(n))
        os.mkdir(d)
        if isinstance(x, str): res = outputs(exe, d, x, n, ["--debug"])
        else:
            write(d, x)
            res = outputs(exe, d, "a.qbk", n)
        shutil.rmtree(d)
        if res is None: return []
        return [{"case": n, "name": a, "tokens": tokens(t, a.endswith(".html"))} for a, t in res]
    try: return [r for rs in pmap(one, list(enumerate(cases))) for r in rs]
    finally: shutil.rmtree(work, ignore_errors=True)
