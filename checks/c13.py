"""C13: wildcard patterns (spec/Glob.tla)."""
import itertools
from vp import *

ALPHA = b"ab*?[]^-\\/"


def main():
    c = Check("C13", "model_checking")
    c.cov["rule"] = ("every pattern up to length %d over %r against every name up to length 3 over 'ab-]^' "
                     "(bounded-exhaustive), plus random longer patterns; non-trivial: accepted patterns with a wildcard"
                     % (5 if THOROUGH else 4, ALPHA.decode()))
    r = model_check("Glob", "Glob")
    c.model(r, "Glob")
    exe = build(driver="glob", need=["glob"])
    names = [bytes(x) for n in range(0, 4) for x in itertools.product(b"ab-]^"[:3 if n == 3 else 5], repeat=n)]
    cases = []
    for n in range(0, 6 if THOROUGH else 5):
        for p in itertools.product(ALPHA, repeat=n):
            cases.append({"pat": bytes(p).hex(), "names": [x.hex() for x in names]} if n < 5 else
                         {"pat": bytes(p).hex(), "names": [x.hex() for x in c.rng.sample(names, 12)]})
    # random: longer, more sections, close-miss names derived from the pattern
    rng = c.rng
    for _ in range(20000 if THOROUGH else 4000):
        p = b""
        name_parts = []
        for _ in range(rng.randint(1, 6)):
            k = rng.random()
            if k < .35:
                t = bytes(rng.choice(b"abz0-^ ") for _ in range(rng.randint(1, 3))); p += t; name_parts.append(t)
            elif k < .6:
                if not p.endswith(b"*"): p += b"*"
                name_parts.append(bytes(rng.choice(b"abz0") for _ in range(rng.randint(0, 4))))
            elif k < .7: p += b"?"; name_parts.append(bytes([rng.choice(b"ab.^")]))
            elif k < .78:
                e = bytes([rng.choice(b"*?[]^-aA\\/" + bytes([0xc3]))]); p += b"\\" + e; name_parts.append(e)
            elif k < .95:
                body = b""
                for _ in range(rng.randint(1, 3)):
                    q = rng.random()
                    one = lambda: (b"\\" + bytes([rng.choice(b"]^-[a")]) if rng.random() < .2 else bytes([rng.choice(b"abcmz09-^.")]))
                    body += one() + b"-" + one() if q < .5 else one()
                if rng.random() < .2: body += b"-"
                p += b"[" + (b"^" if rng.random() < .3 else b"") + body + b"]"
                name_parts.append(bytes([rng.choice(b"abcdmnz0159-^].")]))
            else: p += bytes([rng.choice(b"[]\\/*?" + bytes([0xc3, 0xa9, 1, 31, 127]))])
        names2 = []
        base = b"".join(name_parts).replace(b"/", b"")
        for _ in range(8):
            b = bytearray(base)
            for _ in range(rng.randint(0, 2)):
                op = rng.random(); i = rng.randint(0, max(0, len(b)))
                if op < .4 and b: b[i % len(b)] = rng.choice(b"abcz0-]^.")
                elif op < .7: b.insert(i, rng.choice(b"abz0"))
                elif b: del b[i % len(b)]
            names2.append(bytes(b).hex())
        # repeated text makes the leftmost match differ from later ones
        names2.append((base + base).hex()); names2.append((base[:1] + base).hex())
        cases.append({"pat": p.hex(), "names": names2})
    render = lambda x: " ".join([x["pat"] or "-"] + [n or "-" for n in x["names"]])
    outs = scenario_check(c, exe, cases, render, "GlobTrace", "GlobTrace",
                          keyfn=lambda x: "pattern " + repr(bytes.fromhex(x["pat"])),
                          describe=lambda x: "pattern %r with names %r" % (bytes.fromhex(x["pat"]), [bytes.fromhex(n) for n in x["names"]][:12]))
    c.cov["distinct_nontrivial"] = len({x["pat"] for x, o in zip(cases, outs) if o.get("kind") == "glob"})
    c.cov["samples"] = [repr(bytes.fromhex(cases[i]["pat"])) for i in (77, 5000, -3, -2, -1)]
    return c.finish()
