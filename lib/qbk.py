"""Worlds of quickbook files for the Qbk specification: random generation,
rendering to source text, running the real program, reading its output back
as the tokens the specification uses."""
import fnmatch, hashlib, json, os, random, re, shutil, subprocess, tempfile
import vp
from vp import pmap, Infra, validate, generate

FMT = {"bold": "*", "ital": "'", "under": "_", "strike": "-", "tele": "^", "quote": '"', "repl": "~"}


# ------------------------------------------------------------------ rendering

def inl(items):
    return "".join(inl1(x) for x in items)


def inl1(x):
    k = x["k"]
    if k == "w": return x["s"]
    if k == "s": return " "
    if k == "fmt": return "[" + FMT[x["f"]] + inl(x["in"]) + "]"
    if k == "foot": return "[footnote " + inl(x["in"]) + "]"
    if k == "link": return "[link " + x["dst"] + (" " + inl(x["in"]) if x["in"] else "") + "]"
    if k == "anchor": return "[#" + x["id"] + "]"
    if k == "icode": return "`int def`"
    if k == "mode": return "[" + x["md"] + "]"
    if k == "nmode": return "[!" + x["md"] + "]"
    if k == "cond": return "[?" + ("!" if x["neg"] else "") + x["name"] + " " + inl(x["in"]) + "]"
    if k == "call": return call(x)
    return el(x)


def call(x):
    out = "[" + x["name"]
    for i, a in enumerate(x["args"]):
        out += (" " if i == 0 else "..")
        if a["k"] == "block": out += "\n" + blocks(a["body"])
        else: out += inl(a["body"])
    return out + "]"


def cells(cs):
    return "".join("[" + cell(c) + "]" for c in cs)


def cell(bs):
    # a cell holding one plain line is written on one line
    if len(bs) == 1 and bs[0]["k"] == "line" and not bs[0]["mark"] and bs[0]["ind"] == 0:
        return inl(bs[0]["in"])
    return "\n" + blocks(bs)


def el(x):
    k = x["k"]
    idp = ":" + x["id"] if x.get("id") else ""
    if k == "def": return "[def " + x["name"] + (" " + inl(x["in"]) if x["in"] else "") + "]"
    if k == "tpl":
        ps = "[" + " ".join(x["params"]) + "]"
        if x["kind"] == "block": return "[template " + x["name"] + ps + "\n" + blocks(x["body"]) + "]"
        return "[template " + x["name"] + ps + " " + inl(x["body"]) + "]"
    if k == "sec": return "[section" + idp + (" " + inl(x["in"]) if x["in"] else "") + "]"
    if k == "endsec": return "[endsect" + idp + "]"
    if k == "head":
        return "[" + ("heading" if x["level"] == 0 else "h%d" % x["level"]) + idp + " " + inl(x["in"]) + "]"
    if k == "adm": return "[" + (":" if x["t"] == "blockquote" else x["t"]) + "\n" + blocks(x["body"]) + "]"
    if k == "list": return "[" + ("ordered_list" if x["mark"] == "#" else "itemized_list") + "\n" + "\n".join(cells([c]) for c in x["cells"]) + "\n]"
    if k == "table":
        return "[table" + idp + (" " + inl(x["in"]) if x["in"] else "") + "\n" + "\n".join("[" + cells(r) + "]" for r in x["rows"]) + "\n]"
    if k == "vlist":
        return "[variablelist" + (" " + inl(x["in"]) if x["in"] else "") + "\n" + \
            "\n".join("[[" + inl(e["term"]) + "]" + cells(e["cells"]) + "]" for e in x["entries"]) + "\n]"
    if k == "include": return "[include" + idp + " " + x["path"] + "]"
    if k == "import": return "[import " + x["path"] + "]"
    return inl1(x)


def blocks(bs):
    out = ""
    for i, b in enumerate(bs):
        nxt = bs[i + 1] if i + 1 < len(bs) else None
        pre = " " * b["ind"]
        if b["k"] == "line":
            out += pre + (b["mark"] + " " if b["mark"] else "") + inl(b["in"]) + "\n"
            # the lines of a list may follow each other directly
            if not (nxt and nxt["k"] == "line" and nxt["mark"] and b["mark"] and b.get("tight")): out += "\n"
        elif b["k"] == "probe":
            out += pre + "int def\n\n"
        else:
            out += pre + el(b["el"]) + "\n\n"
    return out


def source(f):
    out = ""
    ver = "[quickbook %d.%d]\n" % (f["ver"] // 100, f["ver"] % 100) if f["ver"] else ""
    if f["ver"] and (f["verpos"] == "before" or not f["doc"]): out += ver
    mode = "[source-mode %s]\n" % f["mode"] if f["mode"] else ""
    if mode and (f["modepos"] == "before" or not f["doc"]): out += mode
    if f["doc"]:
        out += "[article" + (" " + f["title"] if f["title"] else "") + "\n"
        if f["ver"] and f["verpos"] == "inside": out += ver
        if f["cver"]: out += "[compatibility-mode %d.%d]\n" % (f["cver"] // 100, f["cver"] % 100)
        if f["id"]: out += "[id " + f["id"] + "]\n"
        if mode and f["modepos"] == "inside": out += mode
        out += "]\n\n"
    elif out: out += "\n"
    return out + blocks(f["body"])


# ------------------------------------------------------------------- running

TOKEN = re.compile(r"<!--.*?-->|<\?.*?\?>|<!DOCTYPE[^>]*>|<(/?)([A-Za-z_:][\w:.-]*)((?:\s+[\w:.-]+\s*=\s*(?:\"[^\"]*\"|'[^']*'))*)\s*(/?)>|[^<\s]+|\s+|<", re.S)
ATTR = re.compile(r"([\w:.-]+)\s*=\s*(\"[^\"]*\"|'[^']*')")


def tokens(text):
    out = []
    for m in TOKEN.finditer(text):
        t = m.group(0)
        if t.isspace() or t.startswith(("<!--", "<?", "<!")): continue
        if m.group(2):
            if m.group(1): out.append("</%s>" % m.group(2)); continue
            out.append("<%s>" % m.group(2))
            for a, v in ATTR.findall(m.group(3)): out.append("@%s=\"%s\"" % (a, v[1:-1]))
            if m.group(4): out.append("</%s>" % m.group(2))
        else: out.append(t)
    return out


def run_world(exe, w, keep=None, timeout=20, extra=()):
    d = tempfile.mkdtemp(prefix="vp-qbk-")
    try:
        for p, f in w["files"].items():
            path = os.path.join(d, p)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as fh: fh.write(source(f))
        o = w["opts"]
        cmd = [exe, "--debug", "--no-pretty-print", "--output-file", "out.xml", "--output-checked-locations", "deps.txt",
               "--output-deps", "plain.txt", "main.qbk"]
        if not o["selflink"]: cmd.append("--no-self-linked-headers")
        if o["strict"]: cmd.append("--strict")
        for i in o["inc"]: cmd += ["-I", i]
        for n, v in sorted(o["def"].items()): cmd.append("-D%s=%s" % (n, v))
        cmd += extra
        try:
            p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            return {"out": ["timeout"], "deps": [], "plain": [], "stderr": ""}
        res = {"stderr": p.stderr[-2000:] + p.stdout[-2000:]}
        xml = os.path.join(d, "out.xml")
        m = re.search(r"Error count: (\d+)", p.stderr + p.stdout)
        if p.returncode == 0 and os.path.exists(xml) and not m:
            res["text"] = open(xml, errors="surrogateescape").read()
            res["out"] = tokens(res["text"])
        elif p.returncode == 1 and m and not os.path.exists(xml):
            res["out"] = ["errors", m.group(1)]
        else:
            res["out"] = ["exit", str(p.returncode), "errors", m.group(1) if m else "none", "output" if os.path.exists(xml) else "no output"]
        deps = []
        try:
            base = os.path.realpath(d) + "/"
            for l in open(os.path.join(d, "deps.txt")):
                l = l.rstrip("\n")
                s, path = l[0], l[2:]
                path = path.replace("\\", "")
                path = os.path.normpath(os.path.join(d, path))
                path = os.path.relpath(path, base)
                deps.append(["g " + path if s == "g" else path, s in "+g"])
        except FileNotFoundError:
            deps = [["no dependency file", False]]
        res["deps"] = deps
        try: res["plain"] = [os.path.relpath(os.path.normpath(os.path.join(d, l.rstrip("\n"))), base) for l in open(os.path.join(d, "plain.txt"))]
        except FileNotFoundError: res["plain"] = ["no dependency file"]
        return res
    finally:
        if not keep: shutil.rmtree(d, ignore_errors=True)
        else: os.path.exists(keep) and shutil.rmtree(keep); shutil.move(d, keep) if keep else None


def run_worlds(exe, ws, **kw):
    """Run all worlds, in several processes."""
    if len(ws) < 200: return pmap(lambda w: run_world(exe, w, **kw), ws)
    from concurrent.futures import ProcessPoolExecutor
    import multiprocessing
    from functools import partial
    with ProcessPoolExecutor(vp.NPROC, mp_context=multiprocessing.get_context("fork")) as ex:
        return list(ex.map(partial(run_world, exe, **kw), ws, chunksize=20))


def strip(x):
    """The world as the specification sees it (renderer's notes removed)."""
    return x


# ---------------------------------------------------------------- generation

WORDS = ["alpha", "beta", "gamma", "delta", "kappa", "Omega", "x1", "two2"]
MACROS = ["MAC", "mac_b", "NAME2"]
TPLS = ["tpa", "tpb", "tpc"]
PARAMS = ["pa", "pb", "tpa"]
IDS = ["ida", "idb", "id_c", "x"]
MODES = ["c++", "python", "teletype"]

DEFAULT = dict(
    w=30, macro=6, fmt=6, foot=1, link=2, anchor=2, icode=2, mode=1, nmode=1, cond=3, call=5, idef=1,
    line=20, item=4, code=1, probe=3, head=4, sec=4, adm=1, list=1, table=1, vlist=1, defn=4, tpl=4, bcall=3,
    include=1, imp=1, bcond=2, banchor=1, bmode=1, bnmode=1,
    blocks=8, depth=3, badend=0.03, unclosed=0.03, files=3, vers=[101, 102, 103, 104, 105, 106, 107],
    longid=0.0, wild=0.2, self=0.004, incs=0.25, err=0.02, cver=0.15, docinc=0.3, strict=0.1, selflink=0.7, chain=0.15, argcall=0.25, tinc=0.0, svg=0, nsec=0.0)


class Gen:
    def __init__(this, rng, /, **kw):
        self = this
        self.r = rng
        self.c = dict(DEFAULT); self.c.update(kw)
        self.tpls = {}         # name -> nparams, as a guess
        self.nest = 0

    def p(self, x): return self.r.random() < x
    def pick(self, names):
        ws = [self.c[n] for n in names]
        return self.r.choices(names, ws)[0] if sum(ws) else names[0]

    def word(self): return {"k": "w", "s": self.r.choice(WORDS)}

    def phrase(self, depth, n=None, plain=False, ctx="phrase"):
        """A non-empty run of inline items separated by explicit spaces."""
        n = n or self.r.choice([1, 1, 2, 3, 4])
        out = []
        for i in range(n):
            it = self.inline(depth, plain, ctx)
            if out: out.append({"k": "s"})
            out.append(it)
            if self.p(0.1) and it["k"] != "w" and not plain: out.append(self.word())
        return out

    def inline(self, depth, plain=False, ctx="phrase"):
        r = self.r
        kinds = ["w", "macro"]
        if not plain and depth > 0:
            kinds += ["fmt", "foot", "link", "anchor", "icode", "mode", "cond", "call"]
            if self.ver >= 107: kinds.append("nmode")
            if ctx == "cond": kinds += ["idef"]
        k = self.pick(kinds)
        if k == "w": return self.word()
        if k == "macro":
            m = r.choice(MACROS)
            return {"k": "w", "s": r.choice([m, m, m, "a." + m, m + "x", m + "9", m + "-b", "__FILENAME__"])}
        if k == "fmt": return {"k": "fmt", "f": r.choice(list(FMT)), "in": self.phrase(depth - 1)}
        if k == "foot": return {"k": "foot", "in": self.phrase(depth - 1)}
        if k == "link": return {"k": "link", "dst": r.choice(IDS), "in": self.phrase(depth - 1) if self.p(0.7) else []}
        if k == "anchor": return {"k": "anchor", "id": r.choice(IDS) + r.choice(["", "1", "2", "3"])}
        if k == "icode": return {"k": "icode"}
        if k == "mode": return {"k": "mode", "md": r.choice(MODES)}
        if k == "nmode": return {"k": "nmode", "md": r.choice(MODES)}
        if k == "cond":
            return {"k": "cond", "name": r.choice(MACROS), "neg": self.ver >= 107 and self.p(0.3),
                    "in": self.phrase(depth - 1, ctx="cond")}
        if k == "call": return self.call(depth - 1)
        if k == "idef": return self.defn(depth - 1)

    def call(self, depth):
        known = sorted(self.tpls)
        name = self.r.choice(known) if known and self.p(1 - self.c["err"]) else self.r.choice(TPLS)
        if not known and not self.p(self.c["err"]): return self.word()
        n = self.tpls.get(name, 0)
        if self.p(self.c["err"]): n = self.r.choice([0, 1, 2, 3])
        args = []
        for i in range(n):
            if name not in self.tpls:
                # nested markup in a call that is not a call is not judged
                args.append({"k": "phrase", "body": self.plainwords()})
            elif i and self.p(0.3) and depth > 0:
                old = self.c["tpl"]
                if self.ver < 107: self.c["tpl"] = 0
                args.append({"k": "block", "body": self.body(depth - 1, 2, sec=self.nsec())})
                self.c["tpl"] = old
            elif known and self.p(self.c["argcall"]):
                # a name that means different things in different scopes
                zero = [x for x in known if self.tpls[x] == 0]
                args.append({"k": "phrase", "body": [{"k": "call", "name": self.r.choice(zero), "args": []}] if zero else [self.word()]})
            else:
                args.append({"k": "phrase", "body": self.phrase(depth)})
        return {"k": "call", "name": name, "args": args}

    def defn(self, depth):
        return {"k": "def", "name": self.r.choice(MACROS), "in": self.phrase(depth, self.r.choice([1, 1, 2])) if self.p(0.85) else []}

    def tpl(self, depth):
        r = self.r
        name = r.choice(TPLS)
        params = r.sample(PARAMS, r.choice([0, 0, 1, 1, 2]))
        kind = r.choice(["phrase", "phrase", "block"])
        old = dict(self.tpls)
        self.tpls.update({p: 0 for p in params})
        if kind == "block":
            body = self.body(depth - 1, 2, sec=self.p(0.3))
        else:
            body = self.phrase(depth - 1)
            for p in params:
                if self.p(0.8): body += [{"k": "s"}, {"k": "call", "name": p, "args": []}]
        if kind == "block":
            for p in params:
                if self.p(0.8): body.append({"k": "blk", "ind": 0, "el": {"k": "call", "name": p, "args": []}})
        self.tpls = old
        self.tpls[name] = len(params)
        return {"k": "tpl", "name": name, "params": params, "kind": kind, "body": body}

    def title(self, depth):
        plain = self.p(0.6)
        return self.phrase(depth - 1, self.r.choice([1, 1, 2]), plain=plain)

    def ident(self, p):
        if not self.p(p): return ""
        if self.p(self.c["longid"]):
            return "".join(self.r.choice("ab_12") for _ in range(self.r.randint(26, 40)))
        return self.r.choice(IDS)

    def blk(self, e, ind=0): return {"k": "blk", "ind": ind, "el": e}

    def wordblk(self, e):
        return {"k": "line", "ind": 0, "mark": "", "in": [e]} if e["k"] == "w" else self.blk(e)

    def body(self, depth, n, sec=True, top=False):
        """A sequence of block items."""
        r = self.r
        out = []
        open_secs = []
        for _ in range(r.randint(1, n)):
            kinds = ["line", "item", "code", "probe", "head", "defn", "tpl", "bcall", "bcond", "banchor", "bmode"]
            if self.ver >= 107: kinds.append("bnmode")
            if depth > 0: kinds += ["adm", "table", "vlist"] + (["list"] if self.ver >= 106 else [])
            if sec and depth > 0: kinds += ["sec", "sec"]
            if top and self.todo_files: kinds += ["include", "imp"]
            k = self.pick(kinds)
            if k == "line": out.append({"k": "line", "ind": 0, "mark": "", "in": self.para(depth)})
            elif k == "item":
                mark = r.choice("*#")
                ind = 0
                inds = []
                for _ in range(r.choice([1, 2, 3, 4, 6])):
                    z = self.pick_item()
                    inds.append(ind)
                    if z == "para": out.append({"k": "line", "ind": ind + 2, "mark": "", "in": self.para(depth - 1)})
                    elif z == "back": out.append({"k": "line", "ind": r.choice(inds) + r.choice([0, 2, 2]), "mark": "", "in": self.para(depth - 1)})
                    elif z == "probe": out.append({"k": "probe", "ind": ind + r.choice([2, 3, 5])})
                    else:
                        if z == "deeper" and out and out[-1]["k"] == "line" and out[-1]["mark"]: ind += r.choice([1, 2, 2, 3]); mark = r.choice("*#")
                        if z == "shallower": ind = max(0, r.choice([ind - 1, ind - 2, ind - 4, r.choice(inds)])); mark = self.markat(out, ind, mark)
                        out.append({"k": "line", "ind": ind, "mark": mark, "in": self.para(depth - 1), "tight": self.p(0.6)})
            elif k == "code": out.append({"k": "line", "ind": r.choice([1, 2, 4]), "mark": "", "in": self.plainwords()})
            elif k == "probe": out.append({"k": "probe", "ind": r.choice([1, 2, 4])})
            elif k == "head": out.append(self.blk(self.head(depth)))
            elif k == "defn": out.append(self.blk(self.defn(depth)))
            elif k == "tpl": out.append(self.blk(self.tpl(depth)))
            elif k == "bcall": out.append(self.wordblk(self.call(depth)))
            elif k == "bcond":
                out.append({"k": "line", "ind": 0, "mark": "", "in": [
                    {"k": "cond", "name": r.choice(MACROS), "neg": self.ver >= 107 and self.p(0.3), "in": [self.condel(depth)]}]})
            elif k == "banchor": out.append(self.blk({"k": "anchor", "id": r.choice(IDS) + r.choice(["", "1", "2", "3"])}))
            elif k == "bmode": out.append(self.blk({"k": "mode", "md": r.choice(MODES)}))
            elif k == "bnmode": out.append(self.blk({"k": "nmode", "md": r.choice(MODES)}))
            elif k == "adm": out.append(self.blk({"k": "adm", "t": r.choice(["note", "tip", "blurb", "blockquote", "warning"]), "body": self.body(depth - 1, 2, sec=self.nsec())}))
            elif k == "list": out.append(self.blk({"k": "list", "mark": r.choice("*#"), "cells": self.cells(depth, 0, 3)}))
            elif k == "table":
                nc = r.randint(1, 2)
                t = self.p(0.6)
                ti = [] if not t else self.title(depth) if self.ver >= 106 else self.plainwords()
                out.append(self.blk({"k": "table", "id": self.ident(0.3) if self.ver >= 105 else "", "in": ti, "src": inl(ti),
                                     "rows": [self.cells(depth, *([nc, nc] if self.p(0.7) else [1, 3])) for _ in range(r.randint(1, 3))]}))
            elif k == "vlist":
                ti = [] if self.p(0.4) else self.title(depth) if self.ver >= 106 else self.plainwords()
                if '"' in inl(ti): ti = self.plainwords()
                out.append(self.blk({"k": "vlist", "in": ti, "src": inl(ti),
                                     "entries": [{"term": self.notick([{"k": "line", "in": self.phrase(depth - 1, 1)}])[0]["in"], "cells": self.cells(depth, 1, 2)} for _ in range(r.randint(1, 2))]}))
            elif k == "sec":
                if open_secs and self.p(0.5):
                    i = open_secs.pop()
                    eid = i if i and self.ver >= 107 and self.p(0.5) else ""
                    if self.p(self.c["badend"]): eid = r.choice(IDS)
                    out.append(self.blk({"k": "endsec", "id": eid}))
                else:
                    t = self.title(depth)
                    i = self.ident(0.4)
                    open_secs.append(i)
                    out.append(self.blk({"k": "sec", "id": i, "in": t, "src": inl(t)}))
                    if self.p(0.5): out.append({"k": "line", "ind": 0, "mark": "", "in": self.para(depth)})
            elif k in ("include", "imp"):
                out.append(self.blk(self.inc(k)))
            if self.p(self.c["badend"] * 0.3) and sec: out.append(self.blk({"k": "endsec", "id": ""}))
        for i in reversed(open_secs):
            if self.p(self.c["unclosed"]): break
            out.append(self.blk({"k": "endsec", "id": ""}))
        return out

    def nsec(self):
        """Sections in nested blocks, where they are markup"""
        return self.ver >= 107 and self.p(self.c["nsec"])

    def pick_item(self):
        late = self.ver >= 107
        return self.r.choices(["same", "deeper", "shallower", "para", "back", "probe"], [4, 4, 3, 2 if late else 0.3, 2 if late else 0.1, 1])[0]

    def markat(self, out, ind, mark):
        if self.p(0.05): return self.r.choice("*#")
        for b in reversed(out):
            if b["k"] == "line" and b["mark"] and b["ind"] <= ind: return b["mark"]
        return mark

    def plainwords(self):
        out = []
        for _ in range(self.r.randint(1, 3)):
            if out: out.append({"k": "s"})
            out.append(self.word())
        return out

    def para(self, depth): return self.phrase(max(depth, 1), self.r.choice([1, 2, 3, 4]))

    def head(self, depth):
        t = self.title(depth)
        return {"k": "head", "level": self.r.choice([0, 1, 2, 3, 4]), "id": self.ident(0.3) if self.ver >= 106 else "", "in": t, "src": inl(t)}

    def condel(self, depth):
        k = self.r.choice(["def", "tpl", "head", "call", "w"] + (["inc"] if self.todo_files and depth > 1 else []))
        if k == "def": return self.defn(depth)
        if k == "tpl": return self.tpl(depth)
        if k == "head": return self.head(depth)
        if k == "call": return self.call(depth)
        if k == "inc": return self.inc(self.r.choice(["include", "imp"]))
        return self.word()

    def cells(self, depth, lo, hi):
        return [self.notick(self.body(depth - 1, 2, sec=False)) if self.p(0.3) else self.notick([{"k": "line", "ind": 0, "mark": "", "in": self.para(depth - 1)}])
                for _ in range(self.r.randint(lo, hi))]

    def notick(self, bs):
        # "[`" is something else inside templates
        if bs[0]["k"] == "line" and bs[0]["in"][0]["k"] == "icode": bs[0]["in"][0] = self.word()
        return bs

    def inc(self, k):
        r = self.r
        if self.p(self.c["err"]): path = "missing.qbk"
        elif self.p(self.c["self"]): path = self.cur
        else: path = r.choice(self.todo_files)
        # the paths are written relative to the including file's directory
        here = os.path.dirname(self.cur)
        rel = os.path.relpath(path, here or ".")
        for i in self.incdirs:
            if path.startswith(i + "/") and self.p(0.7): rel = path[len(i) + 1:]
        if self.ver >= 107 and self.p(self.c["wild"]):
            # a pattern that selects only files that come later
            comps = rel.split("/")
            j = r.randrange(len(comps))
            if comps[j] != "..":
                comps[j] = r.choice(["*", "?*", "*.qbk", "?.qbk", comps[j][0] + "*", "*" + comps[j][1:]])
                pat = "/".join(comps)
                if "**" not in pat:
                    hits = {f for d in [here] + self.incdirs for f in self.names
                            if len(f.split("/")) == len(os.path.normpath(os.path.join(d, pat)).split("/"))
                            and all(fnmatch.fnmatchcase(x, y) for x, y in zip(f.split("/"), os.path.normpath(os.path.join(d, pat)).split("/")))}
                    if hits <= set(self.todo_files): rel = pat
        if self.p(0.2): rel = "./" + rel
        return {"k": "include" if k == "include" else "import", "path": rel, "id": self.ident(0.3) if k == "include" else ""}

    def world(self):
        r, c = self.r, self.c
        nf = r.choice([0, 0, 1, 2, 3][:c["files"] + 2]) if c["include"] or c["imp"] else 0
        names = ["main.qbk"] + r.choice([["a.qbk", "sub/b.qbk", "sub/c.qbk"], ["sub/b.qbk", "inc/a.qbk", "inc/d.qbk"], ["a.qbk", "b.qbk", "inc/a.qbk"]])[:nf]
        self.names = names
        self.incdirs = [i for i in ("inc", "sub") if any(x.startswith(i + "/") for x in names) and self.p(c["incs"] * 2)]
        files = {}
        mainver = r.choice(c["vers"])
        docs = [i == 0 or self.p(c["docinc"]) for i in range(len(names))]
        vers = [mainver if i == 0 else r.choice([0, mainver, r.choice(c["vers"])]) for i in range(len(names))]
        eff = []
        for i in range(len(names)): eff.append(vers[i] or (101 if docs[i] else min(eff)))
        tincs, lead = [], {}
        # files are generated last first, so that what they define can be guessed
        for i in range(len(names) - 1, -1, -1):
            self.cur = names[i]
            self.todo_files = names[i + 1:]
            doc, ver = docs[i], vers[i]
            self.ver = eff[i]
            mode = r.choice(MODES) if self.p(0.15) else ""
            f = {"doc": doc, "ver": ver, "verpos": r.choice(["before", "inside"]) if doc else "before",
                 "cver": r.choice(c["vers"]) if doc and self.p(c["cver"]) else 0,
                 "id": r.choice(IDS) if doc and self.p(0.3) else "",
                 "title": r.choice(["Doc", "Title9", "alpha"]) if doc else "",
                 "mode": mode, "modepos": r.choice(["before", "inside"]) if doc else "before", "body": []}
            f["body"] = self.body(c["depth"], c["blocks"], top=True)
            if i + 1 < len(names) and self.p(c["chain"]):
                # every file includes the next one
                self.todo_files = [names[i + 1]]
                f["body"].insert(r.choice([0, len(f["body"])]), self.blk(self.inc(r.choice(["include", "include", "import"]))))
            # a template that includes a file, called from files elsewhere
            for n in tincs:
                if self.p(0.7): f["body"].insert(r.choice([len(f["body"]) // 2, len(f["body"])]), self.blk({"k": "call", "name": n, "args": []}))
            if 0 < i < len(names) - 1 and self.p(c["tinc"]):
                self.todo_files = names[i + 1:]
                n = "tinc%d" % i
                f["body"].insert(0, self.blk({"k": "tpl", "name": n, "params": [], "kind": "block", "body": [self.blk(self.inc(r.choice(["include", "include", "import"])))]}))
                tincs.append(n)
                for j in range(i):
                    if self.p(0.6): lead.setdefault(j, []).append(i)
            for j in lead.get(i, []):
                rel = os.path.relpath(names[j], os.path.dirname(names[i]) or ".")
                f["body"].insert(0, self.blk({"k": "import", "path": rel, "id": ""}))
            files[names[i]] = f
        return {"files": files,
                "opts": {"selflink": self.p(c["selflink"]), "strict": self.p(c["strict"]), "inc": self.incdirs,
                         "def": {m: r.choice(WORDS) for m in MACROS if self.p(0.12)}}}


def worlds(rng, n, /, **kw):
    return [Gen(rng, **kw).world() for _ in range(n)]


def judge(exe, ws, timeout=800, deps=True, proj="all", obs=None):
    """Run every world and let TLC judge it.  Returns (result, [(i, msg, obs)], obs)."""
    if obs is None: obs = run_worlds(exe, ws)
    recs = [{"w": w, "p": proj, "obs": {"out": o["out"], **({"deps": o["deps"], "plain": o["plain"]} if deps else {})}} for w, o in zip(ws, obs)]
    r, bad = validate("QbkTrace", "QbkTrace", recs, timeout=timeout)
    r.skipped = len([l for l in r.lines if l.startswith('<<"@SKIP"')])
    return r, [(i, m, obs[i]) for i, m in bad], obs


def show(w):
    return "\n".join("--- %s\n%s" % (p, source(f)) for p, f in sorted(w["files"].items())) + "--- options " + json.dumps(w["opts"])


def key(w):
    return hashlib.sha256(show(w).encode()).hexdigest()[:16]


CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Alphabet = "%s"
MaxItems = %d
Versions = {%s}
NFiles = %d
INVARIANTS Shape Settled WellFormed UniqueIds SecsMirror DeadIsGone MacroLatest ListDepth
"""


def alphabet_cfg(alphabet, n, vers, nfiles):
    return CFG % (alphabet, n, vers, nfiles)


def check(pid, proj, alphabets, profile, what, nquick=1500, nthorough=12000, deps=False, extra=(), level="model_checking", known=None, before=None):
    """A check on whole documents: TLC explores all small documents over the
    given alphabets (model invariants), each of them and random larger ones
    are run through the program and judged by the specification."""
    c = vp.Check(pid, level)
    c.cov["rule"] = what
    if before: before(c)
    exe = vp.build()
    ws = [w for w in extra]
    for al in alphabets:
        name, n, vers, nfiles = al[:4] if not vp.THOROUGH else (al[0], al[1] + al[4], al[5], al[3])
        g = vp.generate("QbkGen", alphabet_cfg(name, n, vers, nfiles), timeout=850)
        c.model(g, "QbkGen/%s, documents of up to %d items, versions %s" % (name, n, vers))
        for w in g.items:
            if not w["opts"]["def"]: w["opts"]["def"] = {}
        ws += g.items
    ngen = len(ws)
    ws += worlds(c.rng, nthorough if vp.THOROUGH else nquick, **profile)
    skipped = 0
    seen = set()
    for at in range(0, len(ws), 8000):
        part = ws[at:at + 8000]
        r, bad, obs = judge(exe, part, deps=deps, proj=proj)
        skipped += r.skipped
        c.model(r, "QbkTrace")
        if bad:
            # a rejection counts only when a fresh run gives it again
            again = [part[i] for i, _, _ in bad][:200]
            r2, bad2, obs2 = judge(exe, again, deps=deps, proj=proj)
            for i, msg, o in sorted(bad2, key=lambda b: len(show(again[b[0]]))):
                w = again[i]
                c.violation(key(w), "the program's output is not what the specification gives\n%s\nspecification: %s\noutput: %s\n%s" % (
                    show(w), msg[:1200], " ".join(o["out"])[:1500], o["stderr"][-500:]), {"world": w, "files": {p: source(f) for p, f in w["files"].items()}, "observed": o["out"], "specification": msg})
        seen |= {tuple(x for x in o["out"]) for o in obs}
    c.cov["evaluations"] += len(ws)
    c.cov["traces_validated_against_impl"] += len(ws) - skipped
    c.cov["distinct_nontrivial"] += len(seen)
    c.cov["not_judged"] = skipped
    c.cov["generated_by_tlc"] = ngen
    c.cov["samples"] += [show(ws[i])[:700] for i in (0, ngen // 2, len(ws) - 1)]
    c.assumptions += ["markup outside the specification's alphabet is not written; documents that reach behaviour the specification leaves open are not judged (%d of %d)" % (skipped, len(ws))]
    return c.finish()
