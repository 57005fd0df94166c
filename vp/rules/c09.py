"""C09 SEM and Yuma almanacs: what is written is read back, the week falls in the right epoch."""
from ..codec import *
from ..check import where

SEMTU = ["ext/lib/FileHandling/SEM/SEMData.cpp", "ext/lib/FileHandling/SEM/SEMHeader.cpp", "core/lib/Utilities/FormattedDouble.cpp"]
YUMTU = ["ext/lib/FileHandling/Yuma/YumaData.cpp"]
S, SH, Y = "gpstk::SEMData", "gpstk::SEMHeader", "gpstk::YumaData"
PI = Fraction(3.1415926535898)
I54 = Fraction(54) * PI / 180
# SEM format: lines of a record, angles in semicircles
SEML = [[], [("PRN", 0)], [("SVNnum", 0)], [("URAnum", 0)], [("ecc", 0), ("i_offset", 1), ("OMEGAdot", 1)], [("Ahalf", 0), ("OMEGA0", 1), ("w", 1)],
        [("M0", 1), ("AF0", 0), ("AF1", 0)], [("SV_health", 0)], [("satConfig", 0)]]
# Yuma format (ICD-GPS-240): label, quantity, notation, digits after the point
YUML = [("ID:", "PRN", None), ("Health:", "SV_health", None), ("Eccentricity:", "ecc", ("scientific", 10)), ("Time of Applicability(s):", "Toa", None),
        ("Orbital Inclination(rad):", "i_total", ("scientific", 10)), ("Rate of Right Ascen(r/s):", "OMEGAdot", ("scientific", 10)), ("SQRT(A)  (m 1/2):", "Ahalf", ("fixed", 6)),
        ("Right Ascen at Week(rad):", "OMEGA0", ("scientific", 10)), ("Argument of Perigee(rad):", "w", ("fixed", 9)), ("Mean Anom(rad):", "M0", ("scientific", 10)),
        ("Af0(s):", "AF0", ("scientific", 10)), ("Af1(s/s):", "AF1", ("scientific", 10)), ("week:", "week", None)]
NEAR = [1, 2, 300, 511, 512, 513, 1023, 1024, 1025, 1300, 1535, 1536, 1537, 2047, 2048, 2049, 2200, 2559, 2560, 2561, 3071, 3072, 3500]


def check(ctx):
    ctx.rule("layout", "each line of the record carries the quantity the format puts there, in its unit")
    ctx.rule("precision", "a real quantity is printed in the notation and with the digits the format gives it")
    ctx.rule("readback", "the reader, applied to the text the writer produces, leaves every quantity with the value it had, and derives the two inclinations from each other")
    ctx.rule("week", "with a week of interest set, the week read keeps its value modulo 1024 and lies within half an epoch of it; otherwise it is kept as it stands")
    ctx.rule("sequence", "records are read one after the other, each starting where the one before ended")
    n = sem(ctx) + semheader(ctx) + yuma(ctx)
    ctx.floor("almanac quantities", n, 30)


def put(ctx, p, cls, obj=None, strm=None):
    f = p.one(cls + "::reallyPutRecord")
    try:
        L, I, r, f = write(p, cls, obj, strm)
    except text.Layout as e:
        ctx.unresolved("layout", where(f), str(e)[:150])
        return None, f
    if L is None:
        ctx.ob("layout", False, where(f), "the writer refuses the record", "layout|%s|refused" % cls)
    return L, f


def path(exp, m):
    return (m, "val") if (m, "val") in exp else (m,)


def near(v, want, ratio):
    """v is want * ratio up to rounding of the constants"""
    if v is want and ratio == 1:
        return None
    k = 7
    leaf = {x for x in subterms(v) if x.op == "sym"}
    if leaf != {want}:
        return "unresolved" if not definite(v) else "is " + show(v)[:100]
    try:
        for k in (1, 7, -3):
            if abs(evaln(v, {want: Fraction(k)}) - k * ratio) > Fraction(1, 10**9):
                return "is " + show(v)[:100]
        return None
    except (Unknown, ZeroDivisionError, TypeError):
        return "unresolved"


def ob(ctx, rule, d, f, msg, key, ok="holds"):
    if d == "unresolved":
        ctx.unresolved(rule, where(f), msg)
        return False
    return ctx.ob(rule, d is None, where(f), "%s %s" % (msg, d or ok), key)


def sem(ctx):
    p = ctx.program(SEMTU)
    exp = {q: O(*q) for q, t in flatmembers(p, S)}
    L, f = put(ctx, p, S)
    g = p.one(S + "::reallyGetRecord")
    if not L:
        return 0
    if not ctx.ob("layout", len(L) == len(SEML), where(f), "a SEM record is %d lines" % len(L), "layout|SEM|lines"):
        return 0
    n = 0
    for k, row in enumerate(SEML):
        rest = L[k]
        for j, (m, ang) in enumerate(row):
            q = path(exp, m)
            ctx.need(q in exp, S + "::" + m)
            t, rest = (text.token(rest) or (None, rest)) if len(row) > 1 else (rest, sstr(""))
            v = text.decode("dbl" if len(row) > 1 else "int", t) if t is not None else None
            d = "unresolved" if v is None else near(v, exp[q], 1 / PI if ang else 1)
            ob(ctx, "layout", d, f, "SEM line %d field %d is %s%s:" % (k + 1, j + 1, m, " in semicircles" if ang else ""), "layout|SEM|" + m)
    for twice in (0, 1):
        J, q, _ = read(p, S, L + (L if twice else []), None, {("header", "week"): O("hweek"), ("header", "Toa"): O("hToa")})
        end = q["state"]
        if end is None:
            ctx.ob("readback", False, where(g), "SEM: the reader rejects the record", "readback|SEM|rejected")
            return n
        if twice:
            used = J.callseq("formattedGetLine", end)
            ctx.ob("sequence", used == len(L), where(g), "SEM: the reader takes %s of the %d lines" % (used, len(L)), "sequence|SEM")
            continue
        for m in [m for row in SEML for m, _ in row]:
            d = samenum(end.read(("this",), path(exp, m)), exp[path(exp, m)])
            n += 1
            ob(ctx, "readback", d, g, "SEM: " + m, "readback|SEM|" + m, "is read back unchanged")
        for m in ("week", "Toa"):
            v = end.read(("this",), (m,))
            d = samenum(v, O("h" + m))
            n += 1
            ob(ctx, "readback", d, g, "SEM: %s" % m, "readback|SEM|" + m, "is the header's")
        incl(ctx, g, "SEM", end.read(("this",), ("i_total",)), exp[path(exp, "i_offset")], I54)
        n += 1
    return n


def incl(ctx, g, tag, v, leaf, off):
    name = "i_total" if off > 0 else "i_offset"
    try:
        bad = [k for k in (0, 1, -2) if abs(evaln(v, {leaf: Fraction(k)}) - k - off) > Fraction(1, 10**6)]
    except (Unknown, ZeroDivisionError, TypeError):
        ctx.unresolved("readback", where(g), "%s: %s = %s" % (tag, name, show(v)[:120]))
        return
    ctx.ob("readback", not bad, where(g), "%s: %s is %s %s 54 degrees in radians%s" % (tag, name, show(leaf), "plus" if off > 0 else "less", ": is " + show(v)[:80] if bad else ""), "readback|%s|%s" % (tag, name))


def semheader(ctx):
    p = ctx.program(SEMTU)
    exp = {q: O(*q) for q, t in flatmembers(p, SH)}
    g = p.one(SH + "::reallyGetRecord")
    n = 0
    for nrec, week, toa, title in ((1, 0, 0, "CURRENT.AL3"), (31, 9, 61440, "CURRENT.ALM"), (32, 1023, 589824, "ABCDEFGHIJKLMNOPQRSTUVWX"), (9, 512, 405504, "1234 a_b.c-d+e")):
        obj = {("numRecords",): num(nrec), ("week",): num(week), ("Toa",): num(toa), ("Title",): sstr(title)}
        L, f = put(ctx, p, SH, obj)
        if not L:
            return n
        J, q, _ = read(p, SH, L, None, None, {SH + "::nearFullWeek": num(0)})
        end = q["state"]
        if end is None:
            ctx.ob("readback", False, where(g), "SEM header (%d records, week %d, %d s, title %s): the reader rejects it" % (nrec, week, toa, title), "readback|SEM header|rejected")
            return n
        for m in ("numRecords", "week", "Toa", "Title"):
            v, w = end.read(("this",), (m,)), obj[(m,)]
            d = None if v is w else ("unresolved" if not (isnum(v) or v.op == "str") else "is read back as %s (%s)" % (show(v)[:60], show(w)))
            n += 1
            ob(ctx, "readback", d, g, "SEM header: " + m, "readback|SEM header|" + m, "is read back unchanged")
            h = end.read(("P", "ffs"), ("header", m))
            ctx.ob("readback", h is v, where(g), "SEM header: the stream's header %s the %s read" % ("has" if h is v else "lacks", m), "readback|SEM header|stream " + m)
    # week epoch
    lines = [sstr("31 CURRENT.ALM"), cat(T("col", num(4), "r", " ", T("txt", "int", O("week"))), sstr(" 61440"))]
    epochs(ctx, p, g, SH, "SEM", lambda w: [sstr("31 CURRENT.ALM"), sstr("%4d 61440" % w)])
    return n


def epochs(ctx, p, g, cls, tag, mk_):
    weeks = [0, 1, 2, 255, 300, 511, 512, 513, 700, 1022, 1023, 1024, 1500, 2047, 2048, 2300]
    for nw in [0] + NEAR:
        bad, unk = None, None
        for w in weeks:
            J, q, _ = read(p, cls, mk_(w), None, None, {cls + "::nearFullWeek": num(nw)})
            end = q["state"]
            v = end.read(("this",), ("week",)) if end is not None else None
            if v is None or not isnum(v):
                unk = show(v)[:80] if v is not None else "rejected"
                continue
            x = int(val(v))
            ctx.count("week cases")
            ok = x == w if nw == 0 else ((x - w) % 1024 == 0 and abs(x - nw) <= 512)
            if not ok and bad is None:
                bad = "week %d is taken as %d" % (w, x)
        if unk and not bad:
            ctx.unresolved("week", where(g), "%s near week %d: %s" % (tag, nw, unk))
            continue
        ctx.ob("week", bad is None, where(g), "%s with week of interest %d: %s" % (tag, nw, bad or "every week is moved to the nearest epoch" if nw else "weeks are kept"), "week|%s|%d" % (tag, nw))


def yuma(ctx):
    p = ctx.program(YUMTU)
    exp = {q: O(*q) for q, t in flatmembers(p, Y)}
    L, f = put(ctx, p, Y)
    g = p.one(Y + "::reallyGetRecord")
    if not L:
        return 0
    if not ctx.ob("layout", len(L) == len(YUML) + 2, where(f), "a Yuma record is %d lines" % len(L), "layout|Yuma|lines"):
        return 0
    h = text.substr(L[0], num(0), num(2))
    ctx.ob("layout", h is sstr("**"), where(f), "Yuma: the first line starts with " + show(h), "layout|Yuma|header")
    n = 0
    for k, (lab, m, fmt) in enumerate(YUML):
        ctx.need((m,) in exp, Y + "::" + m)
        t = text.substr(L[k + 1], num(0), num(len(lab)))
        ctx.ob("layout", t is sstr(lab), where(f), "Yuma line %d is labelled %s" % (k + 2, show(t)), "layout|Yuma|label " + m)
        c = text.substr(L[k + 1], num(len(lab)), sub(text.length(L[k + 1]), num(len(lab))))
        tx = [x for x in subterms(c) if x.op == "txt"] if c is not None else []
        d = "unresolved" if len(tx) != 1 else (None if dropcast(tx[0].args[1]) is exp[(m,)] else "is " + show(tx[0].args[1])[:80])
        ob(ctx, "layout", d, f, "Yuma line %d carries %s:" % (k + 2, m), "layout|Yuma|" + m)
        if fmt and len(tx) == 1:
            fm = tx[0].args[2].rsplit(".", 1) if len(tx[0].args) > 2 else ["", "6"]
            if not fm[1].isdigit():
                ctx.unresolved("precision", where(f), "Yuma %s: %s" % (m, tx[0].args[2]))
            else:
                # fixed notation of a quantity of known size is as good with as many digits
                ok = fm[0] == fmt[0] and int(fm[1]) >= fmt[1]
                ctx.ob("precision", ok, where(f), "Yuma: %s is printed with %s digits in %s notation (%d, %s)" % (m, fm[1], fm[0] or "general", fmt[1], fmt[0]), "precision|Yuma|" + m)
    for pre in ([], [sstr("")] * 3, [sstr("almanac"), sstr("")]):
        J, q, _ = read(p, Y, pre + L, None, None, {Y + "::nearFullWeek": num(0)})
        end = q["state"]
        if end is None:
            ctx.ob("readback", False, where(g), "Yuma: the reader rejects the record", "readback|Yuma|rejected")
            return n
        used = J.callseq("formattedGetLine", end)
        # the blank line that ends a record may be left to the next
        ctx.ob("sequence", used in (len(pre) + len(L), len(pre) + len(L) - 1), where(g), "Yuma: the reader takes %s of the %d lines" % (used, len(pre) + len(L)), "sequence|Yuma|%d" % len(pre))
        for m in [x[1] for x in YUML]:
            v = end.read(("this",), (m,))
            d = samenum(v, exp[(m,)], range(0, 1200) if m == "week" else None)
            n += 1
            ob(ctx, "readback", d, g, "Yuma: " + m, "readback|Yuma|" + m, "is read back unchanged")
        incl(ctx, g, "Yuma", end.read(("this",), ("i_offset",)), exp[("i_total",)], -I54)
        n += 1
    epochs(ctx, p, g, Y, "Yuma", lambda w: [subst(x, lambda y: sstr("%-4d" % w) if y.op == "col" and "week" in show(y) else None) if i == 14 - 1 + 0 else x for i, x in enumerate(L)])
    return n
