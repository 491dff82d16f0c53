"""C26: reading XML (spec/Xml.tla)."""
from vp import *


def main():
    c = Check("C26", "model_checking")
    c.cov["rule"] = ("every text of %d of 23 pieces of XML (tags, quotes, comments, instructions, CDATA, references), and simulated texts of about 12 of 70 "
                     "pieces with mostly matching tags; the tree, or the position of the error, and the text decoded and encoded; "
                     "non-trivial: accepted texts with an element" % (4 if THOROUGH else 3))
    c.model(model_check("Xml", "Xml"), "Xml")
    exe = build(driver="xml", need=["xml_parse", "utils", "stream", "native_text", "path", "files"],
                flags=["-fsanitize=address", "-fno-omit-frame-pointer"])
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99"
    cases = []
    for cfg, kw in [("XmlGenAllT" if THOROUGH else "XmlGenAll", {}), ("XmlGen", dict(simulate=60000 if THOROUGH else 6000, depth=60))]:
        g = generate("XmlGen", cfg, workers=1, timeout=850, **kw)
        c.model(g, cfg)
        cases += [bytes(x).hex() for x in g.items]
    cases = sorted(set(cases))
    good = set()
    for at in range(0, len(cases), 20000):
        outs = scenario_check(c, exe, cases[at:at + 20000], lambda x: x or "-", "XmlTrace", "XmlTrace",
                              keyfn=lambda x: "xml " + repr(bytes.fromhex(x)), describe=lambda x: "reading %r" % bytes.fromhex(x))
        good |= {json.dumps(o["evs"]) for o in outs if o.get("err") == -1 and any(e["k"] == "open" for e in o["evs"])}
    c.cov["distinct_nontrivial"] = len(good)
    c.cov["samples"] = [repr(bytes.fromhex(cases[i])) for i in (10, len(cases) // 2, len(cases) - 3)]
    return c.finish()
