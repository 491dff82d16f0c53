"""C15: value lists (spec/Values.tla)."""
import itertools
from vp import *

ORDER = {"make": "i k tag n", "insert": "i", "extend": "i", "start": "tag", "release": "i", "assign": "i j",
         "elem": "i j", "last": "i j", "eq": "i j", "open": "c i", "check": "c", "finishc": "c", "checkt": "c tag",
         "consume": "c i", "opt": "c i", "consumet": "c tag i", "optt": "c tag i"}


def line(ops):
    return " ".join(" ".join([o["op"]] + [str(o[f]) for f in ORDER.get(o["op"], "").split()]) for o in ops)


def main():
    c = Check("C15", "model_checking")
    c.cov["rule"] = ("operation sequences generated by TLC from Values.tla (all of depth 3 or 4 over a small alphabet, simulated "
                     "ones of depth 40), plus every tag sequence up to length %d sorted, appended to and consumed; "
                     "non-trivial: the sequence builds a list with at least two elements" % (8 if THOROUGH else 6))
    c.model(model_check("Values", "Values"), "Values")
    exe = build(driver="values", need=["values", "files"], flags=["-fsanitize=address", "-fno-omit-frame-pointer"])
    g = generate("ValuesGen", "ValuesGen", simulate=6000 if THOROUGH else 300, depth=44, workers=1)
    c.model(g, "ValuesGen (simulation)")
    g2 = generate("ValuesGen", "ValuesGenAll4" if THOROUGH else "ValuesGenAll")
    c.model(g2, "ValuesGenAll")
    cases = g.items + g2.items
    # every short sequence of tags, sorted; longer random ones
    seqs = [t for n in range(0, 9 if THOROUGH else 7) for t in itertools.product((1, 2, 3), repeat=n)]
    seqs += [tuple(c.rng.randint(1, c.rng.choice((2, 5, 20))) for _ in range(c.rng.randint(5, 30))) for _ in range(600)]
    for t in seqs:
        ops = []
        for i, x in enumerate(t):
            ops += [dict(op="make", i=1, k=("int", "enc", "qbk", "nil", "encqbk")[i % 5 if len(t) > 4 else i % 2], tag=x, n=(i // 2) % 2), dict(op="insert", i=1)]
        ops += [dict(op="sort"), dict(op="make", i=1, k="int", tag=1, n=1), dict(op="insert", i=1), dict(op="release", i=2),
                dict(op="open", c=1, i=2), dict(op="optt", c=1, tag=1, i=3), dict(op="consumet", c=1, tag=2, i=3),
                dict(op="extend", i=2), dict(op="sort"), dict(op="release", i=4), dict(op="eq", i=2, j=4), dict(op="finishc", c=1)]
        cases.append(ops)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99")
    os.environ.update(env)
    outs = scenario_check(c, exe, cases, line, "ValuesTrace", "ValuesTrace", states=lambda o: len(o["ops"]) + 2,
                          keyfn=line, describe=lambda x: "operations: " + line(x))
    c.cov["distinct_nontrivial"] = len({line(x) for x, o in zip(cases, outs)
                                        if any(len(r[3]) > 1 for e in o.get("ops", []) for r in e["regs"])})
    c.cov["samples"] = [line(cases[0]), line(cases[-1])]
    c.assumptions = ["AddressSanitizer reports use of freed values; the driver's allocation count reports leaks"]
    return c.finish()
