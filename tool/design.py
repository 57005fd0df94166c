#!/usr/bin/env python3
"""fills DESIGN.in.md's tables from the registry: python3 tool/design.py"""
import json, os, sys
os.chdir(os.path.join(os.path.dirname(__file__), ".."))
sys.path.insert(0, ".")
from vp import props, proplist
from vp.propbase import P
METHOD = json.load(open("tool/methods.json"))
out, na = "## Properties\n\n", "## Not applicable\n\n"
for p in P:
    if p.get("na"):
        na += "* **%s %s** — %s\n" % (p["id"], p["title"], p["na"])
        continue
    m = METHOD.get(p["id"], {})
    out += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    out += "* *Decided by*: %s\n* *Analysed*: %s\n* *Oracle*: %s\n* *Bounds*: %s\n* *Rules*: %s\n\n" % (
        p["technique"], p["qtext"], m.get("oracle", ""), p["note"].split(" Trusts clang")[0], m.get("rules", "see the docstring and ctx.rule texts of vp/rules/%s.py" % p["id"].lower()))
seeds = "| planted bug | property | needs |\n|---|---|---|\n"
for s in sorted(os.listdir("seeded")):
    d = json.load(open("seeded/%s/meta.json" % s))
    seeds += "| %s | %s | %s |\n" % (s, d["property"], d["needs"])
t = open("tool/DESIGN.in.md").read()
open("DESIGN.md", "w").write(t.replace("@@PROPS@@", out).replace("@@NA@@", na).replace("@@SEEDS@@", seeds))
