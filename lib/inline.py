"""Texts in all places of documents (spec/Inline.tla), and what came out."""
from vp import *
import html

HEAD = "[article t [quickbook 1.%d][source-mode teletype]]\n[def mm *M*&]\n\nstart\n\n"
PLACES = {
    "para": "x %s\n\n", "heading": "[h2 %s]\n\n", "section": "[section %s]\n[endsect]\n\n", "note": "[note %s]\n\n", "footnote": "word[footnote %s]\n\n",
    "cell": "[table n\n[[ %s]]]\n\n", "item": "* %s\n\n", "macro": "[def M%d_ %s]\n\nM%d_\n\n", "template": "[template t%d[] %s]\n\n[t%d]\n\n", "argument": "[template t%d[tt] [tt]]\n\n[t%d %s]\n\n",
    "code": "`%s`\n\n", "block": "    %s\n\n", "listing": "```\n%s\n```\n\n", "url": "[@%s w]\n\n", "func": "[funcref %s w]\n\n", "link": "[link %s w]\n\n", "role": "[role %s w]\n\n",
    "alt": "[$x.png [alt %s]]\n\n", "file": "[$a%s.png]\n\n"}
P = r"(?:<para>|<simpara>)?\s*(.*?)\s*(?:</para>|</simpara>)?\s*"
FOUND = {
    "para": r"<para>\s*(x .*)</para>", "heading": r"<bridgehead[^>]*>(?:<phrase id=\"[^\"]*\"/>)?(?:<link linkend=\"[^\"]*\">)?(.*?)(?:</link>)?</bridgehead>",
    "section": r"<section[^>]*>\s*<title>(?:<link linkend=\"[^\"]*\">)?(.*?)(?:</link>)?</title>\s*</section>", "note": "<note>\\s*" + P + "</note>",
    "footnote": "<para>\\s*word<footnote[^>]*>" + P + "</footnote>\\s*</para>", "cell": "<table[^>]*>.*<entry>" + P + "</entry>.*</table>", "item": "<itemizedlist>\\s*<listitem>" + P + "</listitem>\\s*</itemizedlist>",
    "macro": r"(?:<para>\s*(.*)</para>)?", "template": r"(?:<para>\s*(.*)</para>)?", "argument": r"(?:<para>\s*(.*)</para>)?", "code": r"<para>\s*<code>(.*)</code>\s*</para>", "block": r"<programlisting>(.*)</programlisting>",
    "listing": r"(?:<para>\s*)?<programlisting>(.*)</programlisting>(?:\s*</para>)?", "url": r"<para>\s*<ulink url=\"([^\"]*)\">w</ulink>\s*</para>", "func": r"<para>\s*<functionname alt=\"([^\"]*)\">w</functionname>\s*</para>",
    "link": r"<para>\s*<link linkend=\"([^\"]*)\">w</link>\s*</para>", "role": r"<para>\s*<phrase role=\"([^\"]*)\">w</phrase>\s*</para>",
    "alt": r".*<textobject>\s*<phrase>(.*)</phrase>\s*</textobject>.*", "file": r".*<imagedata fileref=\"([^\"]*)\"(?:/>|></imagedata>).*"}
ATTRIBUTES = {"url", "func", "link", "role", "alt", "file"}
HTML = {"para", "heading", "note", "cell", "item", "macro", "template", "argument", "code", "block", "listing"}


def source(i, r):
    t = r["t"].replace("Q", "\u00e9")
    p = PLACES[r["place"]]
    args = tuple(t if a == "%s" else i for a in re.findall("%[sd]", p))
    return "start%dmark\n\n%send%dmark\n\n" % (i, p % args, i)


def letters(x): return x.replace("\u00e9", "Q")


def number(m):
    c = chr(int(m.group(1)[1:], 16) if m.group(1)[0] == "x" else int(m.group(1)))
    return {"<": "&lt;", "&": "&amp;"}.get(c, c)


def canonical(x, attribute):
    x = re.sub("<!--quickbook-escape-(pre|post)fix-->", "", x)
    # which way a character is encoded doesn't matter
    x = re.sub(r"&#(x[0-9a-fA-F]+|[0-9]+);", number, x)
    if not attribute: x = x.replace("&quot;", '"').replace("&gt;", ">")
    else: x = html.escape(html.unescape(x)).replace("&#x27;", "'") if not re.search('[<>"]', x) else "not encoded: " + x
    return letters(x)


def between(text, i):
    m = re.search(r"<para>\s*start%dmark\s*</para>(.*?)<para>\s*end%dmark\s*</para>" % (i, i), text, re.S)
    return m.group(1) if m else None


def words(text, i):
    m = re.search(r"<p>\s*start%dmark\s*</p>(.*?)<p>\s*end%dmark\s*</p>" % (i, i), text, re.S)
    if not m: return None
    return letters(html.unescape(re.sub(r"<[^>]*>", "", re.sub(r"<br\s*/?>", " ", m.group(1)))))


def run(exe, cases, pages=True):
    docs, by = [], {}
    for i, x in enumerate(cases): by.setdefault((x["v"], x["bad"]), []).append(i)
    for (v, bad), ids in by.items():
        size = 1 if bad else 60
        docs += [(v, ids[k:k + size], bad) for k in range(0, len(ids), size)]
    work = tempfile.mkdtemp(prefix="vp-inline-")
    recs = [None] * len(cases)

    def one(job):
        n, (v, ids, bad) = job
        base = os.path.join(work, str(n))
        with open(base + ".qbk", "w", encoding="utf8") as f: f.write(HEAD % (v - 100) + "".join(source(i, cases[i]) for i in ids))

        def out(kind, name):
            try: p = subprocess.run([exe, "--no-pretty-print", "--output-format", kind, "--output-file", name, base + ".qbk"], capture_output=True, timeout=120)
            except subprocess.TimeoutExpired: return None
            if p.returncode != 0 or not os.path.exists(name): return None
            with open(name, encoding="utf8", errors="surrogateescape") as f: return f.read()
        x = out("boostbook", base + ".xml")
        if x is None and len(ids) > 1:
            for k, i in enumerate(ids): one((n * 1000 + k + 100000, (v, [i], bad)))
            return
        h = out("onehtml", base + ".html") if pages and x is not None else None
        for i in ids:
            c = cases[i]
            r = dict(c, bad=x is None, x="", html=False, h="")
            if x is not None:
                b = between(x, i)
                m = b is not None and re.fullmatch(r"\s*(?:" + FOUND[c["place"]] + r")\s*", b, re.S)
                r["x"] = canonical(m.group(1) or "", c["place"] in ATTRIBUTES) if m else "in the wrong place: " + letters(str(b))
                if h is not None and c["place"] in HTML and "'''" not in c["t"]:
                    w = words(h, i)
                    r.update(html=True, h="missing" if w is None else w.strip()[1:] if c["place"] == "cell" else w)
            recs[i] = r
    try: pmap(one, list(enumerate(docs)))
    finally: shutil.rmtree(work, ignore_errors=True)
    return recs


def key(r): return "%(place)s %(v)d %(t)s" % r
