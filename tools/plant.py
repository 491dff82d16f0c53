#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a description (JSON on stdin or a python
dict file): id, property, needs, what_it_breaks, edits [[file, old, new]],
demo (shell text run after the executable $QBK and scratch directory $T exist;
helper: qbk FILE... ), extra {name: text}."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
R = "/tmp/plantrepo"
def fresh():
    "a scratch copy of the committed /repo"
    if os.path.isdir(R): shutil.rmtree(R)
    subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
PRE = r'''#!/bin/bash
# exit 0: the property holds here; anything else: it does not
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
CXX="g++ -O0 -g0 -std=c++11 -w -ftemplate-depth=300 -DBOOST_FILESYSTEM_NO_DEPRECATED -I$here/shim -include boost/core/invoke_swap.hpp"
LIBS="-lboost_program_options -lboost_filesystem -lboost_system"
mkdir -p "$T/o" "$T/w"
%s
cd "$T/w"
'''
EXE = r'''ls "$repo"/src/*.cpp | xargs -P 8 -I{} sh -c "$CXX -c {} -o $T/o/\$(basename {}).o" || { echo "does not compile"; exit 3; }
g++ -o "$T/quickbook" "$T"/o/*.o $LIBS || exit 3
QBK="$T/quickbook"'''
def main(d):
    out = os.path.join(V, "seeded", d["id"])
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    shutil.copytree(os.path.join(V, "shim"), os.path.join(out, "shim"))
    for n, t in d.get("extra", {}).items(): open(os.path.join(out, n), "w").write(t)
    build = d.get("build", EXE)
    open(os.path.join(out, "demo.sh"), "w").write(PRE % build + d["demo"].lstrip("\n"))
    json.dump({k: d[k] for k in ("property", "needs", "what_it_breaks")}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    for f, a, b in d["edits"]:
        p = os.path.join(R, f); s = open(p).read()
        if s.count(a) != 1:
            subprocess.run(["git", "-C", R, "checkout", "--", "."]); raise SystemExit("%s: %d matches of %r" % (d["id"], s.count(a), a))
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", R, "checkout", "--", "."], check=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    print("wrote", out)
if __name__ == "__main__":
    fresh()
    only = os.environ.get("ONLY", "").split()
    for p in sys.argv[1:]:
        ns = {}
        exec(open(p).read(), ns)
        for d in ns["BUGS"]:
            if not only or d["id"] in only: main(d)
    shutil.rmtree(R)
