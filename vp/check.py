"""Shared driver of the property checks: obligations, known findings, evidence,
exit status.

exit 0  every decided obligation holds
exit 1  an obligation is definitely violated (VIOLATION line, report file)
exit 2  the analysis cannot answer (anchor vanished, too few instances, parse error)
"""
import json
import os
import sys
import time
import traceback
from .prog import AnalysisBroken, VERIF, REPO

EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.obs = []          # (rule, ok, where, msg, key)
        self.unres = []
        self.counts = {}
        self.floors = []
        self.rules = {}
        self.progs = []

    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, ok, where, msg, key=None):
        """one obligation; key identifies it in the known-findings file"""
        self.obs.append((rule, bool(ok), where, msg, key or "%s|%s" % (rule, msg)))
        return ok

    def unresolved(self, rule, where, msg):
        self.unres.append((rule, where, msg))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, what, got, want):
        """instances confirmed by hand: fewer means the analysis lost its anchor"""
        self.floors.append((what, got, want))

    def need(self, cond, what):
        if not cond:
            raise AnalysisBroken("anchor vanished: " + what)
        return cond

    def program(self, tus, extra=None):
        from . import prog
        p = prog.extract(tus, extra)
        self.progs.append(p)
        return p


def where(fn, line=None):
    return "%s:%s (%s)" % (fn["file"], line if line is not None else fn["line"], fn["qual"])


def known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.rstrip("\n")
            if ln.startswith("known: property=%s key=" % prop):
                rest = ln[len("known: property=%s key=" % prop):]
                key, _, text = rest.partition(" :: ")
                out[key.strip()] = text
    return out


def main(prop, fn, level="other"):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVID, exist_ok=True)
    ctx = Ctx(prop, tier)
    status, broken = 0, None
    sys.setrecursionlimit(20000)
    try:
        fn(ctx)
    except AnalysisBroken as e:
        broken = str(e)
    except RecursionError as e:
        broken = "recursion limit: " + traceback.format_exc()[-400:]
    except Exception as e:
        broken = "internal error: " + traceback.format_exc()[-2500:]
    kn = known(prop)
    viol = [o for o in ctx.obs if not o[1] and o[4] not in kn]
    hits = {}
    for o in ctx.obs:
        if not o[1] and o[4] in kn:
            hits[o[4]] = o
    if broken is None:
        for what, got, want in ctx.floors:
            if got < want and not viol:
                broken = "only %d instances of %s (at least %d expected)" % (got, what, want)
                break
    report = os.path.join(EVID, prop + ".violation.json")
    if os.path.exists(report):
        os.remove(report)
    for k in sorted(hits):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, kn[k]))
    if viol:
        json.dump({"property": prop, "violations": [{"rule": r, "rule_text": ctx.rules.get(r, ""), "where": w, "what": m, "key": k} for r, _, w, m, k in viol]},
                  open(report, "w"), indent=1)
        for r, _, w, m, k in viol[:int(os.environ.get("VP_SHOW", "40"))]:
            print("  %s: [%s] %s   {key: %s}" % (w, r, m, k))
        print("VIOLATION property=%s replay=%s" % (prop, report))
        status = 1
        if broken:
            print("note: analysis incomplete: " + broken)
    elif broken is not None:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, broken))
        status = 2
    if os.environ.get("VP_UNRES"):
        for r, w, m in ctx.unres:
            print("unresolved %s [%s] %s" % (w, r, m))
    seen, samples = set(), []
    for r, ok, w, m, k in ctx.obs:
        if r not in seen or len(samples) < 12:
            seen.add(r)
            samples.append("%s [%s] %s: %s" % ("holds" if ok else "fails", r, w, m))
    byrule = {}
    for r, ok, w, m, k in ctx.obs:
        byrule.setdefault(r, [0, 0])[0 if ok else 1] += 1
    cov = {
        "explanation": "static analysis of the current source: rules " + "; ".join("%s = %s" % kv for kv in sorted(ctx.rules.items())),
        "units_parsed": sum(p.info["units"] for p in ctx.progs),
        "functions_loaded": sum(p.info["functions"] for p in ctx.progs),
        "obligations": len(ctx.obs),
        "discharged": sum(1 for o in ctx.obs if o[1]),
        "obligations_by_rule": {r: {"hold": a, "fail": b} for r, (a, b) in sorted(byrule.items())},
        "unresolved": len(ctx.unres),
        "unresolved_samples": ["%s [%s] %s" % (w, r, m) for r, w, m in ctx.unres[:25]],
        "counts": ctx.counts,
        "floors": ["%s: %d (floor %d)" % f for f in ctx.floors],
        "samples": samples[:40],
        "known_findings_hit": sorted(hits),
    }
    if broken:
        cov["analysis_broken"] = broken
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov,
          "assumptions": ["clang 18 parses /repo with the build's -std=c++11 and include directories",
                          "library models in vp/interp.py describe std:: behaviour"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %d obligations, %d hold, %d violated, %d known, %d unresolved; %.1fs" % (
        prop, len(ctx.obs), cov["discharged"], len(viol), len(hits), len(ctx.unres), time.time() - t0))
    return status
