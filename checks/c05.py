"""C05: templates (spec/Qbk.tla)."""
from qbk import check
import vp

# weights for random documents, on top of qbk.DEFAULT
PROFILE = dict(tpl=7, call=7, bcall=5, macro=3, defn=2, err=0.06, include=1, imp=1.5, mode=1, sec=0.7)
ALL = "101,102,103,104,105,106,107"


def recursion():
    """Templates that call each other without end, straight and branching,
    and long chains of calls that do end."""
    W = lambda s: {"k": "w", "s": s}
    call = lambda n, *a: {"k": "call", "name": n, "args": [{"k": "phrase", "body": x} for x in a]}
    blk = lambda e: {"k": "blk", "ind": 0, "el": e}
    line = lambda *x: {"k": "line", "ind": 0, "mark": "", "in": list(x)}
    tpl = lambda n, ps, *b: blk({"k": "tpl", "name": n, "params": ps, "kind": "phrase", "body": list(b)})
    sp = {"k": "s"}
    bodies = []
    bodies.append([tpl("tpa", [], W("alpha"), sp, call("tpa")), line(call("tpa")), line(W("gamma"))])
    bodies.append([tpl("tpa", [], call("tpa"), sp, call("tpa")), line(call("tpa")), line(W("gamma"))])
    bodies.append([tpl("tpa", [], W("alpha"), sp, call("tpb")), tpl("tpb", [], call("tpa")), line(call("tpb"), W("x1"))])
    bodies.append([tpl("tpa", ["pa"], call("pa"), sp, call("tpa", [call("pa")])), line(call("tpa", [W("beta")]))])
    bodies.append([tpl("tpa", ["pa"], call("pa")), line(call("tpa", [call("tpa", [call("tpa", [W("beta")])])]))])
    names = ["tpa", "tpb", "pa", "pb", "tpc", "tpd"]
    bodies.append([tpl(names[0], [], W("alpha"))] + [tpl(names[i], [], call(names[i - 1]), sp, call(names[i - 1])) for i in range(1, 6)] + [line(call("tpd"))])
    out = []
    for v in (101, 103, 104, 105, 106, 107):
        for b in bodies:
            out.append({"files": {"main.qbk": {"doc": True, "ver": v, "verpos": "before", "cver": 0, "id": "", "title": "Doc", "mode": "", "modepos": "before", "body": b}},
                        "opts": {"selflink": True, "strict": False, "inc": [], "def": {}}})
    return out



def main():
    return check("C05", "content", [('templates', 3, '103,105,107', 1, 1, '101,102,103,104,105,106,107'), ('scopes', 4, '103,107', 1, 0, '101,104,105,106,107')],
                 PROFILE, 'content of every document of up to 3 template definitions and calls (nested, shadowed, recursive); random documents', extra=recursion())
