"""Source of truth for properties.jsonl and MANIFEST.json:  python3 -m vp.props"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from .propbase import P
from . import proplist  # noqa: F401


def main():
    ids = [p["id"] for p in P]
    assert len(ids) == len(set(ids))
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}}
            if p["observe"]:
                d["anchors"]["observe_at"] = p["observe"]
            fh.write(json.dumps(d) + "\n")
    m = {"version": 1, "setup_cmd": "./setup", "checks": [], "not_applicable": []}
    for p in P:
        if p["na"]:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        else:
            m["checks"].append({"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "./check " + p["id"],
                                "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["note"]})
    m["notes"] = "Static analysis only; see DESIGN.md. No hooks in /repo."
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
