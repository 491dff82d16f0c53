"""A strict reader of the markup the program writes (XML and HTML).

events(text) gives the tags and texts, or raises Bad where the text is not
well formed: tags closed in the right order, attributes quoted and given once,
no raw '<' or '&' in texts and values."""
import html
import re

VOID = {"br", "hr", "img", "link", "meta", "input"}
NAME = r"[A-Za-z_:][-A-Za-z0-9_:.]*"
TAG = re.compile(r"<(%s)((?:\s+[^<>]*?)?)\s*(/?)>" % NAME)
ATTR = re.compile(r'\s+(%s)\s*=\s*("[^"<]*"|\'[^\'<]*\')' % NAME)
ENT = re.compile(r"&(?:[A-Za-z][A-Za-z0-9]*|#[0-9]+|#[xX][0-9A-Fa-f]+);")


class Bad(Exception):
    pass


def _text(s, where):
    if "&" in ENT.sub("", s): raise Bad("bare & in %s: %r" % (where, s[:80]))
    return html.unescape(s)


def events(t, is_html=False):
    """[(kind, name, attributes, text)], kind one of open, close, text."""
    out, stack, i, n = [], [], 0, len(t)
    roots = 0
    while i < n:
        if t[i] != "<":
            j = t.find("<", i)
            if j < 0: j = n
            s = t[i:j]
            if not stack and s.strip(): raise Bad("text outside of the document: %r" % s[:80])
            if stack: out.append(("text", "", {}, _text(s, "text")))
            i = j
            continue
        if t.startswith("<!--", i):
            j = t.find("-->", i + 4)
            if j < 0: raise Bad("comment is not closed")
            i = j + 3
            continue
        if t.startswith("<?", i):
            j = t.find("?>", i)
            if j < 0: raise Bad("instruction is not closed")
            i = j + 2
            continue
        if t.startswith("<![CDATA[", i) and not is_html:
            j = t.find("]]>", i)
            if j < 0: raise Bad("CDATA is not closed")
            out.append(("text", "", {}, t[i + 9:j]))
            i = j + 3
            continue
        if t.startswith("<!", i):
            j = t.find(">", i)
            if j < 0 or stack: raise Bad("misplaced declaration")
            i = j + 1
            continue
        if t.startswith("</", i):
            m = re.compile(r"</(%s)\s*>" % NAME).match(t, i)
            if not m: raise Bad("bad closing tag: %r" % t[i:i + 60])
            if not stack or stack[-1] != m.group(1):
                raise Bad("</%s> closes <%s> before %r" % (m.group(1), stack[-1] if stack else "", t[i:i + 60]))
            stack.pop()
            out.append(("close", m.group(1), {}, ""))
            i = m.end()
            continue
        # an opening tag: attribute values can contain '>'
        m = re.compile("<(%s)" % NAME).match(t, i)
        if not m: raise Bad("bad tag: %r" % t[i:i + 60])
        name, at, p = m.group(1), {}, m.end()
        while True:
            a = ATTR.match(t, p)
            if not a: break
            if a.group(1) in at: raise Bad("attribute %s twice: %r" % (a.group(1), t[i:i + 80]))
            at[a.group(1)] = _text(a.group(2)[1:-1], "attribute")
            p = a.end()
        e = re.compile(r"\s*(/?)>").match(t, p)
        if not e: raise Bad("bad attribute: %r" % t[i:p + 40])
        if not stack:
            roots += 1
            if roots > 1: raise Bad("two roots")
        out.append(("open", name, at, ""))
        if e.group(1) or (is_html and name in VOID): out.append(("close", name, {}, ""))
        else: stack.append(name)
        i = e.end()
        # the closing tag of a void element that has one
        if is_html and name in VOID and not e.group(1):
            pass
    if stack: raise Bad("<%s> is not closed" % stack[-1])
    if not roots: raise Bad("no element")
    return out


def tree(evs):
    """The tree of the events: [name, attributes, children], texts are str."""
    root = ["", {}, []]
    st = [root]
    for k, name, at, s in evs:
        if k == "text": st[-1][2].append(s)
        elif k == "open":
            x = [name, at, []]
            st[-1][2].append(x)
            st.append(x)
        else: st.pop()
    return root[2][0]
