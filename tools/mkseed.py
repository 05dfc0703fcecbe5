"""Write planted bugs: mk(id, property, edits, demo source, libraries, needs, breaks)."""
import json, os, subprocess, tempfile
R = "/repo"
SEEDS = "/verif/seeded"
DEMO = """#!/bin/bash
# Builds and runs demo.cpp against /repo (after its build): 0 if the property holds for it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap '/bin/rm -rf "$tmp"' EXIT
export HOME=$tmp
g++ -std=gnu++14 -O1 -w %s $(printf -- '-I%%s ' /repo/*/include) -I/usr/include/eigen3 "$here/demo.cpp" -o "$tmp/demo" -L/repo/_build %s -Wl,-rpath,/repo/_build -pthread
cd "$tmp"
timeout 120 ./demo
"""
def mk(id, prop, edits, demo, libs="", needs="", breaks="", flags=""):
    d = os.path.join(SEEDS, id)
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        w = t + "/w"
        subprocess.check_call(["git", "clone", "-q", "--shared", R, w])
        for f, a, b in edits:
            s = open(w + "/" + f).read()
            assert s.count(a) == 1, (id, f, a, s.count(a))
            open(w + "/" + f, "w").write(s.replace(a, b))
        diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(demo.strip() + "\n")
    open(d + "/demo.sh", "w").write(DEMO % (flags, libs))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/meta.json", "a").write("\n")
