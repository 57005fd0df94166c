"""C01 time-system corrections form a consistent offset algebra."""
from ..interp import Interp, Stop
from ..terms import *
from ..check import where

NAMES = ["GPS", "GLO", "GAL", "BDT", "IRN", "UTC", "TAI", "TT", "TDB"]
# TAI - X for the atomic scales (IS-GPS-200, BDS-SIS-ICD, Galileo OS SIS ICD,
# NavIC ICD, IAU); leap-second scales carry TAI-UTC instead
FIXED = {"GPS": "19", "GAL": "19", "IRN": "19", "QZS": "19", "BDT": "33", "TAI": "0", "TT": "-32.184"}
LEAP = {"UTC", "GLO"}


def check(ctx):
    ctx.rule("identity", "the correction from a system to itself is zero")
    ctx.rule("antisymmetry", "correction(a,b) and correction(b,a), as affine value-numbering terms, sum to zero")
    ctx.rule("cocycle", "correction(a,b)+correction(b,c) equals correction(a,c) as terms")
    ctx.rule("offset", "the constant part agrees with the published TAI offsets and UTC-like systems use the leap-second count with coefficient one")
    ctx.rule("reject", "an unknown system has no normal return: every exit throws")
    ctx.rule("date", "the leap-second count and the TDB argument are taken at the caller's year, month and day")
    p = ctx.program(["core/lib/RefTime/TimeSystem.cpp"])
    f = p.one("gpstk::getTimeSystemCorrection", 5)
    leap = p.one("gpstk::getLeapSeconds", 3)
    enum = p.enum("gpstk::TimeSystem")
    ctx.need(enum, "enum gpstk::TimeSystem")
    ts = {n: v for n, v, _ in enum["vals"]}
    ctx.need(all(n in ts for n in NAMES + ["Unknown"]), "TimeSystem enumerators")
    Y, M, D = (sym("P", x) for x in ("year", "month", "day"))
    L = sym("leapseconds")

    def lsmodel(I, e, st):
        args = [I.sval(a, st) for a in e["a"]]
        okdate = args == [Y, M, D]
        ctx.ob("date", okdate, where(f, e["l"]), "leap seconds looked up at (%s)" % ", ".join(map(show, args)))
        return L
    tab = {}
    for a in ts:
        for b in ts:
            I = Interp(p, inline=lambda i, g: g["id"] != leap["id"] and "convertCalendarToJD" not in i, models={leap["qual"]: lsmodel})
            r = I.run(f, args=[num(ts[a]), num(ts[b]), Y, M, D])
            tab[a, b] = r
            ctx.count("enumerator pairs analysed")
    val_ = {k: r["ret"] if r["state"] is not None else None for k, r in tab.items()}
    W = where(f)
    supported = [n for n in ts if n not in ("Unknown", "Any", "Last") and val_[n, "TAI"] is not None and val_["TAI", n] is not None]
    for n in NAMES:
        ctx.ob("offset", n in supported, W, "%s converts to and from TAI" % n)
    for a in ts:
        v = val_[a, a]
        ctx.ob("identity", v is not None and v is num(0), W, "%s -> %s is %s" % (a, a, show(v)))
    for a in ts:
        for b in ts:
            if a == b:
                continue
            if a not in supported or b not in supported:
                if a in ("Unknown",) or b in ("Unknown",):
                    ctx.ob("reject", val_[a, b] is None and tab[a, b]["throws"], W, "%s -> %s is rejected" % (a, b))
                else:
                    ctx.ob("reject", val_[a, b] is None, W, "%s -> %s (unsupported) does not yield a correction" % (a, b))
                continue
            v, w = val_[a, b], val_[b, a]
            if v is None or w is None:
                ctx.ob("antisymmetry", False, W, "%s -> %s yields a correction" % (a, b))
                continue
            ctx.ob("antisymmetry", add(v, w) is num(0), W, "%s -> %s plus %s -> %s is %s" % (a, b, b, a, show(add(v, w))))
            for c in supported:
                if c in (a, b) or val_[b, c] is None or val_[a, c] is None:
                    continue
                s = add(v, val_[b, c])
                ctx.ob("cocycle", s is val_[a, c], W, "%s->%s->%s equals %s->%s" % (a, b, c, a, c) if s is val_[a, c] else "%s->%s->%s is %s, %s->%s is %s" % (a, b, c, show(s), a, c, show(val_[a, c])))
    for n in supported:
        v = val_[n, "TAI"]
        if v is None:
            continue
        if n in FIXED:
            ctx.ob("offset", v is num(FIXED[n]), W, "%s -> TAI is %s (published %s)" % (n, show(v), FIXED[n]))
        elif n in LEAP:
            ctx.ob("offset", v is L, W, "%s -> TAI is %s (TAI-UTC at the epoch)" % (n, show(v)))
        elif n == "TDB":
            d = add(v, num("32.184"))
            # periodic part only: no constant, amplitudes below 2 ms, argument uses the date
            c = d.args[0] if d.op == "sum" else (val(d) if isnum(d) else 0)
            ctx.ob("offset", c == 0 and not isnum(d), W, "TDB -> TAI is -32.184 plus a periodic term: %s" % show(d))
            lv = subterms(d)
            ctx.ob("date", D in lv and Y in lv and M in lv, W, "the TDB term depends on year, month and day")
            sins = {x for x in lv if x.op == "call" and x.args[0] == "sin"}
            ctx.ob("offset", len(sins) == 2, W, "TDB-TT has its two periodic terms")
            if d.op == "sum":
                for x, k in d.args[1]:
                    if x in sins:
                        if abs(k) > Fraction("0.0001"):
                            ctx.ob("offset", -k == Fraction("0.001657"), W, "TDB-TT main amplitude is %s s (0.001657)" % float(-k), key="tdb-main-amplitude=%s" % float(-k))
                        else:
                            ctx.ob("offset", -k == Fraction("0.000022"), W, "TDB-TT second amplitude is %s s (0.000022)" % float(-k), key="tdb-second-amplitude=%s" % float(-k))
    ctx.floor("supported systems", len(supported), 9)
    ctx.floor("cocycle obligations", sum(1 for o in ctx.obs if o[0] == "cocycle"), 400)
