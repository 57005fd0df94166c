"""C03 instants of different time systems are never compared or differenced silently."""
from ..interp import Interp, State
from ..terms import *
from ..prog import lib_sources
from ..check import where

OPS = ["==", "!=", "<", ">", "<=", ">=", "-"]


def systemfield(p, c):
    return [f["n"] for f in p.fields(c) if f["t"].replace("const ", "") == "gpstk::TimeSystem"]


def check(ctx):
    ctx.rule("mismatch", "for two different systems, neither the wildcard, == cannot return true, != cannot return false and every ordering or difference operator has no normal exit: it throws InvalidRequest")
    ctx.rule("match", "for equal systems, or when one is the wildcard, the operator has a normal exit and no InvalidRequest exit")
    p = ctx.program([s for s in lib_sources() if "/TimeHandling/" in s or "/RefTime/TimeSystem" in s])
    en = p.enum("gpstk::TimeSystem")
    ctx.need(en, "enum gpstk::TimeSystem")
    ts = {n: v for n, v, _ in en["vals"]}
    ANY = ts.get("Any")
    ctx.need(ANY is not None, "TimeSystem::Any")
    classes = ["gpstk::CommonTime"] + sorted(p.subclasses("gpstk::TimeTag"))
    ctx.floor("time classes", len(classes), 17)
    nops = 0
    for c in classes:
        fields = systemfield(p, c)
        ctx.need(fields, "time system member of " + c)
        for op in OPS:
            for fid in p.byqual.get(c + "::operator" + op, []):
                f = p.func(fid)
                if len(f["params"]) != 1 or f["params"][0]["t"].replace("const ", "").rstrip(" &") != c:
                    continue
                nops += 1
                W = where(f)
                for a in ts:
                    for b in ts:
                        if "Last" in (a, b):
                            continue
                        st = State()
                        rhs = sym("rhs")
                        for fl in fields:
                            st.write(("this",), (fl,), num(ts[a]))
                            rhs = upd(rhs, fl, num(ts[b]))
                        r = Interp(p).run(f, args=[rhs], state=st)
                        ctx.count("operator contexts analysed")
                        ret = r["ret"] if r["state"] is not None else None
                        thr = [t[1] for t in r["throws"]]
                        K = "%s::operator%s" % (c.replace("gpstk::", ""), op)
                        if a == b or ANY in (ts[a], ts[b]):
                            ctx.ob("match", ret is not None and not any("InvalidRequest" in (t or "") for t in thr), W, "%s on %s/%s returns %s" % (K, a, b, "normally" if ret is not None else "never"), key="match|%s|%s" % (K, a == b))
                        elif op == "==":
                            ctx.ob("mismatch", ret is None or ret is FALSE, W, "%s on %s/%s is %s" % (K, a, b, "never true" if ret is None or ret is FALSE else show(ret)), key="mismatch|" + K)
                        elif op == "!=":
                            ctx.ob("mismatch", ret is None or ret is TRUE, W, "%s on %s/%s is %s" % (K, a, b, "never false" if ret is None or ret is TRUE else show(ret)), key="mismatch|" + K)
                        else:
                            ctx.ob("mismatch", ret is None and thr and all("InvalidRequest" in (t or "") for t in thr), W, "%s on %s/%s %s" % (K, a, b, "throws InvalidRequest" if ret is None else "returns " + show(ret)), key="mismatch|" + K)
    ctx.floor("comparison and difference operators", nops, 75)
