#!/usr/bin/env python3
"""mkseed.py ID PROP NEEDS BREAKS file<<edits: stdin is a python literal {"edits":[(file,old,new)], "demo": "c++ source"}"""
import ast, json, os, subprocess, sys
ID, PROP, NEEDS, BREAKS = sys.argv[1:5]
src = sys.stdin.read()
demo = src.split("=====DEMO\n", 1)[1]
edits = []
for blk in src.split("=====DEMO\n", 1)[0].split("=====EDIT ")[1:]:
    fn, rest = blk.split("\n", 1)
    old, new = rest.split("=====TO\n", 1)
    edits.append((fn.strip(), old, new))
D = "/verif/seeded/" + ID
os.makedirs(D, exist_ok=True)
out = ""
import tempfile, shutil
t = tempfile.mkdtemp()
for fn in sorted({e[0] for e in edits}):
    s = o = open("/repo/" + fn, newline="").read()
    crlf = "\r\n" in s
    for f, old, new in edits:
        if f == fn:
            if crlf:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if old.endswith("\n") and old not in s: old, new = old[:-1], new[:-1]
            assert s.count(old) == 1, (fn, s.count(old), old)
            s = s.replace(old, new)
    for side, c in (("a", o), ("b", s)):
        p = os.path.join(t, side, fn); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w", newline="").write(c)
out = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, stdout=subprocess.PIPE).stdout
open(D + "/patch.diff", "wb").write(out)
shutil.rmtree(t)
open(D + "/demo.cpp", "w").write(demo)
open(D + "/demo.sh", "w").write('''#!/bin/bash
# compiles demo.cpp against the freshly built library; its exit status is the verdict
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
INC=$(find /repo/core/lib /repo/ext/lib -type d -printf '-I%p ')
g++ -std=c++11 -w -O0 $INC -I/repo/_build/generated "$D/demo.cpp" -o "$W/demo" -L/repo/_build -lgpstk -Wl,-rpath,/repo/_build || exit 3
cd "$W" && ./demo
''')
json.dump({"property": PROP, "needs": NEEDS, "what_it_breaks": BREAKS}, open(D + "/meta.json", "w"), indent=1)
r = subprocess.run(["git", "-C", "/repo", "apply", "--check", D + "/patch.diff"])
print("patch", "ok" if r.returncode == 0 else "BAD")
