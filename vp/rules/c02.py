"""C02 UTC leap-second lookup agrees with the published history for every date."""
from fractions import Fraction
from ..interp import Interp, Stop, slen
from ..terms import *
from ..check import where

# IERS Bulletin C / tai-utc.dat: date from which TAI-UTC is n seconds
LEAPS = [(1972, 1, 10), (1972, 7, 11), (1973, 1, 12), (1974, 1, 13), (1975, 1, 14), (1976, 1, 15), (1977, 1, 16), (1978, 1, 17),
         (1979, 1, 18), (1980, 1, 19), (1981, 7, 20), (1982, 7, 21), (1983, 7, 22), (1985, 7, 23), (1988, 1, 24), (1990, 1, 25),
         (1991, 1, 26), (1992, 7, 27), (1993, 7, 28), (1994, 7, 29), (1996, 1, 30), (1997, 7, 31), (1999, 1, 32), (2006, 1, 33),
         (2009, 1, 34), (2012, 7, 35), (2015, 7, 36), (2017, 1, 37)]
# tai-utc.dat before 1972: from (y,m): TAI-UTC = c + (MJD - ref) * rate; ref given as a date
PRE = [(1960, 1, "1.4178180", "0.0012960", (1961, 1)), (1961, 1, "1.4228180", "0.0012960", (1961, 1)), (1961, 8, "1.3728180", "0.0012960", (1961, 1)),
       (1962, 1, "1.8458580", "0.0011232", (1962, 1)), (1963, 11, "1.9458580", "0.0011232", (1962, 1)), (1964, 1, "3.2401300", "0.0012960", (1965, 1)),
       (1964, 4, "3.3401300", "0.0012960", (1965, 1)), (1964, 9, "3.4401300", "0.0012960", (1965, 1)), (1965, 1, "3.5401300", "0.0012960", (1965, 1)),
       (1965, 3, "3.6401300", "0.0012960", (1965, 1)), (1965, 7, "3.7401300", "0.0012960", (1965, 1)), (1965, 9, "3.8401300", "0.0012960", (1965, 1)),
       (1966, 1, "4.3131700", "0.0025920", (1966, 1)), (1968, 2, "4.2131700", "0.0025920", (1966, 1))]


def tabval(y, m):
    r = None
    for a, b, n in LEAPS:
        if (a, b) <= (y, m):
            r = n
    return r


def check(ctx):
    ctx.rule("step", "resolving the gates of the lookup's value-numbering term at every ordering of (year, month) against the constants it compares with yields the published count")
    ctx.rule("outside", "no count before 1960 or for a month outside 1..12")
    ctx.rule("drift", "1960-1971 the value is c + rate * (days since the published reference date)")
    ctx.rule("daydep", "from 1972 the count does not depend on the day of the month; callers' date reaches the lookup unchanged")
    p = ctx.program(["core/lib/RefTime/TimeSystem.cpp"])
    f = p.one("gpstk::getLeapSeconds", 3)
    W = where(f)
    Y, M, D = (sym("P", x) for x in ("year", "month", "day"))
    I = Interp(p, inline=lambda i, g: "convertCalendarToJD" not in i)
    r = I.run(f, args=[Y, M, D])
    t = r["ret"]
    ctx.need(t is not None and r["state"] is not None, "getLeapSeconds returns a value")
    ys, ms = constants_against(t, Y), constants_against(t, M)
    ctx.floor("year constants the lookup compares with", len(ys), 20)
    years = set()
    for c in ys | {Fraction(a) for a, _, _ in LEAPS} | {Fraction(a[0]) for a in PRE}:
        years |= {c - 1, c, c + 1}
    years |= {Fraction(1900), Fraction(2016), Fraction(2050), Fraction(2400)}
    months = {Fraction(m) for m in range(1, 13)}
    out = {Fraction(x) for x in (-1, 0, 13, 14)}
    bad = {}
    for y in sorted(years):
        for m in sorted(months | out):
            env = {Y: y, M: m}
            try:
                v = sel(t, env)
            except Unknown as e:
                ctx.unresolved("step", W, "gate %s" % e)
                continue
            ctx.count("orderings resolved")
            im, iy = int(m), int(y)
            if m in out or y < 1960:
                ctx.ob("outside", v is num(0), W, "%d-%02d gives %s" % (iy, im, show(v)))
            elif y >= 1972:
                want = tabval(iy, im)
                ctx.ob("step", v is num(want), W, "%d-%02d gives %s, published %d" % (iy, im, show(v), want))
            else:
                drift(ctx, W, v, iy, im, D, Y, M)
    ctx.floor("orderings resolved", ctx.counts.get("orderings resolved", 0), 700)


def drift(ctx, W, v, y, m, D, Y, M):
    e = [x for x in PRE if (x[0], x[1]) <= (y, m)][-1]
    c0, rate = Fraction(e[2]), Fraction(e[3])
    jds = [x for x in subterms(v) if x.op == "call" and x.args[0] == "gpstk::convertCalendarToJD"]
    if v.op != "sum":
        if isnum(v):
            ctx.ob("drift", False, W, "%d-%02d is the constant %s, published %s + %s*days" % (y, m, show(v), float(c0), float(rate)))
        else:
            ctx.unresolved("drift", W, "%d-%02d is %s, not c + rate*days" % (y, m, show(v)))
        return
    coef = dict(v.args[1])
    refs = [x for x in coef if x in jds and all(isnum(a) for a in x.args[1:])]
    cur = [x for x in coef if x in jds and x not in refs]
    # entry constant and rate
    okc = v.args[0] == c0 or abs(v.args[0] - c0) == rate  # the iday==0 case shifts whole days
    ctx.ob("drift", okc, W, "%d-%02d constant %s, published %s" % (y, m, float(v.args[0]), float(c0)))
    gated = [x for x in coef if x.op == "ite"]
    rates = {abs(coef[x]) for x in refs + cur + gated}
    ctx.ob("drift", rates == {rate}, W, "%d-%02d rate %s, published %s" % (y, m, sorted(map(float, rates)), float(rate)))
    if len(refs) == 1:
        a = tuple(int(val(x)) for x in refs[0].args[1:3])
        ctx.ob("drift", a == e[4], W, "%d-%02d counts days from %d-%02d, published reference %d-%02d" % (y, m, a[0], a[1], e[4][0], e[4][1]),
               key="drift-ref entry %d-%02d from %d-%02d" % (e[0], e[1], a[0], a[1]))
    else:
        ctx.unresolved("drift", W, "reference epoch of %d-%02d not isolated: %s" % (y, m, show(v)))
