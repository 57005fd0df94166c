"""C10 RINEX observation, meteorological and clock records: what is written is read back."""
from ..codec import *
from ..check import where

OTU = ["core/lib/FileHandling/RINEX/RinexObsData.cpp", "core/lib/FileHandling/RINEX/RinexObsHeader.cpp", "core/lib/GNSSCore/RinexSatID.cpp",
       "core/lib/FileHandling/RINEX3/RinexDatum.cpp"]
O3TU = ["core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp", "core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp", "core/lib/GNSSCore/RinexSatID.cpp",
        "core/lib/FileHandling/RINEX3/RinexDatum.cpp", "core/lib/GNSSCore/ObsID.cpp", "core/lib/GNSSCore/RinexObsID.cpp"]
MTU = ["core/lib/FileHandling/RINEX/RinexMetData.cpp"]
CTU = ["core/lib/FileHandling/RINEX/RinexClockData.cpp", "core/lib/FileHandling/RINEX/RinexClockBase.cpp", "core/lib/Utilities/FormattedDouble.cpp"]
C3TU = ["core/lib/FileHandling/RINEX3/Rinex3ClockData.cpp", "core/lib/GNSSCore/RinexSatID.cpp", "core/lib/Utilities/FormattedDouble.cpp"]
OD, O3, MD, CD, C3 = "gpstk::RinexObsData", "gpstk::Rinex3ObsData", "gpstk::RinexMetData", "gpstk::RinexClockData", "gpstk::Rinex3ClockData"
FILL = {"gpstk::RinexSatID::fillchar": num(48)}
TIME = O("time")
NOTIME = sym("G", "gpstk::CommonTime::BEGINNING_OF_TIME")
LET = {"GPS": ("G", 0), "Glonass": ("R", 0), "Galileo": ("E", 0), "Geosync": ("S", 100), "BeiDou": ("C", 0), "QZSS": ("J", 192)}


def check(ctx):
    ctx.rule("layout", "every quantity of a record stands in the columns the format gives it, printed with the digits the format asks for")
    ctx.rule("readback", "the reader, applied to the text the writer produces, leaves every member of the record with the value it had")
    ctx.rule("sequence", "a record takes exactly its own lines, whatever was written before it on the stream")
    n = obs2(ctx) + obs3(ctx) + met(ctx) + clock(ctx) + clock3(ctx)
    ctx.floor("record members read back", n, 300)


def agg(c, **kw):
    b = T("agg", c)
    for k, v in kw.items():
        b = upd(b, k, v)
    return b


def pair(a, b):
    return agg("pair", first=a, second=b)


def ob(ctx, rule, d, f, msg, key, ok="holds"):
    if d == "unresolved":
        ctx.unresolved(rule, where(f), msg)
        return False
    return ctx.ob(rule, d is None, where(f), "%s %s" % (msg, d or ok), key)


def col(ctx, f, tag, L, ln, at, w, kind, want, what, fmt=None):
    """columns at..at+w of a line carry the value (or the text) want"""
    key = "layout|%s|%s" % (tag.split(",")[0], what.rstrip("0123456789 "))
    if ln >= len(L):
        ctx.ob("layout", False, where(f), "%s: line %d with %s is missing" % (tag, ln + 1, what), key)
        return
    c = text.substr(L[ln], num(at), num(w))
    if c is None:
        n = text.length(L[ln])
        if isnum(n) and val(n) < at + w:
            ctx.ob("layout", False, where(f), "%s: line %d ends before column %d, where %s belongs" % (tag, ln + 1, at + w, what), key)
        else:
            ctx.unresolved("layout", where(f), "%s: %s at columns %d-%d of line %d" % (tag, what, at + 1, at + w, ln + 1))
        return
    if kind == "str":
        v = c
    else:
        v = text.decode(kind, c)
        v = dropcast(v) if v is not None else None
    good = v is want or (v is not None and v.op in ("mod", "trunc") and v.args[0] is want)
    if not good and (v is None or not (definite(v) or v.op in ("str", "cat", "parse"))):
        ctx.unresolved("layout", where(f), "%s: %s = %s" % (tag, what, show(v)[:80] if v is not None else "?"))
        return
    ctx.ob("layout", good, where(f), "%s: columns %d-%d of line %d carry %s%s" % (tag, at + 1, at + w, ln + 1, what, "" if good else ": " + show(v)[:80]), key)
    if fmt and good and not isnum(want):
        tx = [x for x in subterms(c) if x.op == "txt"]
        if len(tx) == 1:
            got = tx[0].args[2] if len(tx[0].args) > 2 else ""
            ctx.ob("layout", got == fmt, where(f), "%s: %s is printed %s (%s)" % (tag, what, got, fmt), key + " digits")


def epoch(ctx, f, tag, L, ylen, start):
    """calendar fields from the column the year starts"""
    y = T("tc", "Y", TIME)
    c = start
    for ch, w, nm in (("Y", ylen, "the year"), ("m", 3, "the month"), ("d", 3, "the day"), ("H", 3, "the hour"), ("M", 3, "the minute")):
        col(ctx, f, tag, L, 0, c, w, "int", T("tc", ch, TIME), nm)
        c += w
    return c


def lines_of(ctx, p, cls, obj, strm, tag, extra=None, ffs="ffs", rule="layout"):
    f = p.one(cls + "::reallyPutRecord")
    try:
        L, M, f = write_twice(p, cls, obj, strm, FILL, extra, ffs=ffs)
    except text.Layout as e:
        ctx.unresolved("layout", where(f), tag + ": " + str(e)[:120])
        return None, f
    if L is None:
        ctx.ob("readback", False, where(f), tag + ": the writer refuses the record", "readback|%s|refused" % tag.split(",")[0])
        return None, f
    bad = [k for k in range(max(len(L), len(M))) if k >= len(L) or k >= len(M) or L[k] is not M[k]]
    ctx.ob("sequence", not bad, where(f), "%s: a record written after another %s" % (tag, "has the same text" if not bad else "differs: %s, first %s" % (
        show(M[bad[0]])[:120] if bad[0] < len(M) else "no line", show(L[bad[0]])[:120] if bad[0] < len(L) else "no line")), "sequence|%s|again" % tag.split(",")[0])
    return L, f


def back(ctx, p, cls, L, strm, tag, extra=None, ffs="ffs"):
    g = p.one(cls + "::reallyGetRecord")
    J, q, g = read(p, cls, L + L, None, strm, FILL, extra, ffs=ffs)
    end = q["state"]
    if end is None:
        ctx.ob("readback", False, where(g), tag + ": the reader rejects the record", "readback|%s|rejected" % tag.split(",")[0])
        return None, g
    used = J.callseq("formattedGetLine", end.copy())
    if used > 900:
        ctx.unresolved("sequence", where(g), "%s: lines taken" % tag)
    else:
        ctx.ob("sequence", used == len(L), where(g), "%s: the reader takes %d of the %d lines" % (tag, used, len(L)), "sequence|%s|lines" % tag.split(",")[0])
    return end, g


def plain(v, w):
    """v is the concrete or symbolic value w"""
    if v is w:
        return None
    v = dropcast(v)
    if v is w:
        return None
    if isnum(v) or v.op in ("str", "sym") or definite(v):
        return "is read back as %s (%s)" % (show(v)[:80], show(w)[:40])
    return "unresolved"


def fleet(sysn, k):
    """k satellites in key order, several systems"""
    names = sorted(("GPS", "Glonass", "Galileo", "Geosync"), key=lambda s: sysn[s])
    share = {s: k // 4 + (1 if i < k % 4 else 0) for i, s in enumerate(names)}
    return [(s, LET[s][1] + 1 + 2 * i) for s in names for i in range(share[s])]


def satname(s, i):
    return "%s%02d" % (LET[s][0], i - LET[s][1])


def samesat(v, s, i, sysn):
    a, b = fld(v, "system"), fld(v, "id")
    if a is num(sysn[s]) and b is num(i):
        return None
    return "is read back as system %s number %s" % (show(a)[:40], show(b)[:40]) if isnum(a) and isnum(b) else "unresolved"


def datum(k, name, i, j, blank=False):
    l, s = (i + j) % 10, (3 * i + j + 1) % 10
    return agg("gpstk::RinexDatum", data=num(0) if blank else O("d%d%s" % (k, name)), lli=num(l), ssi=num(s),
               dataBlank=TRUE if blank else FALSE, lliBlank=TRUE if l == 0 else FALSE, ssiBlank=TRUE if s == 0 else FALSE)


def samedatum(ctx, g, v, w, tag, what, blanks):
    n = 0
    for m in ("data", "lli", "ssi") + (("dataBlank", "lliBlank", "ssiBlank") if blanks else ()):
        n += 1
        ob(ctx, "readback", plain(fld(v, m), fld(w, m)), g, "%s: %s of %s" % (tag, m, what), "readback|%s|%s" % (tag.split(",")[0], m), "is read back unchanged")
    return n


CLK = Fraction(123456789, 10 ** 9)
SHAPES = [(1, 1), (4, 2), (5, 2), (6, 2), (10, 2), (11, 2), (2, 11), (1, 12), (2, 13), (1, 24), (1, 25), (1, 37)]


def obs2(ctx):
    """RINEX 2 observation records (RinexObsData)"""
    p = ctx.program(OTU)
    sysn = dict((n, v) for n, v, _ in p.enum("gpstk::SatelliteSystem")["vals"])
    names = ["C1", "L1", "L2", "P1", "P2", "S1", "S2", "D1", "D2", "C2", "C5"]
    typ = lambda s: agg("gpstk::RinexObsType", type=sstr(s), description=sstr(s + "d"), units=sstr("m"), depend=num(0))
    n = 0
    for flag, shapes in ((0, SHAPES), (1, SHAPES[:1]), (6, SHAPES[:1])):
        for q, (nt, ns) in enumerate(shapes):
            sats = fleet(sysn, ns)
            tag = "RinexObsData, flag %d, %d types, %d satellites" % (flag, nt, ns)
            key = tag.split(",")[0]
            mine = names[:nt]
            rec = [[(x, datum(i, x, i, j)) for j, x in enumerate(mine)] for i in range(ns)]
            obs = T("arr", *[pair(agg("gpstk::SatID", id=num(k), system=num(sysn[s])), T("arr", *[pair(typ(x), d) for x, d in sorted(rec[i], key=lambda y: y[0])]))
                             for i, (s, k) in enumerate(sats)])
            clk = num(CLK if q % 2 else 0)
            obj = {("obs",): obs, ("epochFlag",): num(flag), ("numSvs",): num(ns), ("clockOffset",): clk}
            strm = {("header", "obsTypeList"): T("arr", *[typ(x) for x in mine]), ("headerRead",): TRUE}
            L, f = lines_of(ctx, p, OD, obj, strm, tag)
            if not L:
                continue
            n += v2layout(ctx, f, tag, L, sats, rec, flag, clk, nt)
            rd = dict(strm)
            rd[("header", "firstObs")] = TIME
            end, g = back(ctx, p, OD, L, rd, tag)
            if end is None:
                continue
            for m in ("epochFlag", "numSvs", "clockOffset"):
                n += 1
                ob(ctx, "readback", plain(end.read(("this",), (m,)), obj[(m,)]), g, "%s: %s" % (tag, m), "readback|%s|%s" % (key, m), "is read back unchanged")
            n += 1
            ob(ctx, "readback", sametime(end.read(("this",), ("time",)), TIME), g, tag + ": the time", "readback|%s|time" % key, "is read back unchanged")
            v = end.read(("this",), ("obs",))
            if v.op != "arr":
                ctx.unresolved("readback", where(g), tag + ": observations " + show(v)[:80])
                continue
            if not ctx.ob("readback", len(v.args) == ns, where(g), "%s: %d satellites are read back" % (tag, len(v.args)), "readback|%s|satellites" % key):
                continue
            for i, (s, k) in enumerate(sats):
                x = v.args[i]
                ob(ctx, "readback", samesat(fld(x, "first"), s, k, sysn), g, "%s: satellite %s" % (tag, satname(s, k)), "readback|%s|satellite" % key, "is read back unchanged")
                ms = fld(x, "second")
                if ms.op != "arr":
                    ctx.unresolved("readback", where(g), "%s: observations of satellite %d" % (tag, i + 1))
                    continue
                got = {fld(fld(y, "first"), "type"): fld(y, "second") for y in ms.args}
                for t, d in rec[i]:
                    w = got.get(sstr(t))
                    if not ctx.ob("readback", w is not None, where(g), "%s: %s of satellite %s %s" % (tag, t, satname(s, k), "is read" if w is not None else "is not read"),
                                  "readback|%s|types" % key):
                        continue
                    n += samedatum(ctx, g, w, d, tag, "%s of satellite %s" % (t, satname(s, k)), False)
    return n


def v2layout(ctx, f, tag, L, sats, rec, flag, clk, nt):
    ns = len(sats)
    c = epoch(ctx, f, tag, L, 3, 0)
    col(ctx, f, tag, L, 0, c, 11, "dbl", T("tc", "f", TIME), "the second", "fixed.7")
    col(ctx, f, tag, L, 0, 28, 1, "int", num(flag), "the epoch flag")
    col(ctx, f, tag, L, 0, 29, 3, "int", num(ns), "the number of satellites")
    if val(clk):
        col(ctx, f, tag, L, 0, 68, 12, "dbl", clk, "the clock offset")
    for i, (s, k) in enumerate(sats):
        col(ctx, f, tag, L, i // 12, 32 + 3 * (i % 12), 3, "str", sstr(satname(s, k)), "satellite %d" % (i + 1))
    head, per = (ns + 11) // 12, (nt + 4) // 5
    want = head + ns * per
    ctx.ob("layout", len(L) == want, where(f), "%s: the record is %d lines (%d)" % (tag, len(L), want), "layout|%s|lines" % tag.split(",")[0])
    if len(L) != want:
        return 0
    for i in range(ns):
        for j, (t, d) in enumerate(rec[i]):
            ln, at = head + i * per + j // 5, 16 * (j % 5)
            if fld(d, "dataBlank") is FALSE:
                col(ctx, f, tag, L, ln, at, 14, "dbl", fld(d, "data"), "the observation %d" % (j + 1), "fixed.3")
            for m, o in (("lli", 14), ("ssi", 15)):
                if val(fld(d, m)):
                    col(ctx, f, tag, L, ln, at + o, 1, "int", fld(d, m), "the %s of observation %d" % (m, j + 1))
    return 0


def obs3(ctx):
    """RINEX 3 observation records, written as RINEX 3 and as RINEX 2"""
    p = ctx.program(O3TU)
    sysn = dict((n, v) for n, v, _ in p.enum("gpstk::SatelliteSystem")["vals"])
    tsn = dict((n, v) for n, v, _ in p.enum("gpstk::TimeSystem")["vals"])
    n3 = ["C1C", "L1C", "C2W", "L2W", "S1C", "S2W", "D1C", "D2W", "C5Q", "L5Q", "S5Q"]
    n2 = ["C1", "L1", "P2", "L2", "S1", "S2", "D1", "D2", "C5", "L5", "S5"]
    ids = {x: agg("gpstk::RinexObsID", type=num(200 + i), band=num(200 + i), code=num(200 + i)) for i, x in enumerate(n3)}
    ids["   "] = agg("gpstk::RinexObsID", type=num(190), band=num(190), code=num(190))
    byno = {val(fld(v, "type")): k for k, v in ids.items()}

    def idname(I, e, st):
        v = I.rd(I.olv(e, st), st)
        t = fld(v, "type")
        return sstr(byno[val(t)]) if isnum(t) and val(t) in byno else None
    extra = {"gpstk::RinexObsID::asString": idname}
    n = 0
    cases = [("3.02", 0, nt, ns) for nt, ns in SHAPES] + [("2.11", 0, nt, ns) for nt, ns in SHAPES] + [("3.02", 1, 2, 5), ("3.02", 6, 2, 5), ("2.11", 1, 2, 5), ("2.11", 6, 2, 5)]
    for q, (ver, flag, nt, ns) in enumerate(cases):
        tag = "Rinex3ObsData version %s, flag %d, %d types, %d satellites" % (ver, flag, nt, ns)
        key = tag.split(",")[0]
        v3 = ver > "3"
        sats = fleet(sysn, ns)
        # the systems do not observe the same quantities
        drop = {"Glonass": {2}, "Geosync": {0, 3}, "Galileo": {nt - 1}}
        keep = lambda s: [j for j in range(nt) if nt == 1 or j not in drop.get(s, ())]
        types = {LET[s][0]: [n3[j] for j in keep(s)] for s, _ in sats}
        rec = [[(n3[j], datum(i, n3[j], i, j, v3 and (i + 2 * j) % 7 == 3)) for j in keep(s)] for i, (s, _) in enumerate(sats)]
        obs = T("arr", *[pair(agg("gpstk::RinexSatID", id=num(k), system=num(sysn[s])), T("arr", *[d for _, d in rec[i]])) for i, (s, k) in enumerate(sats)])
        clk = num((CLK + Fraction(321, 10 ** 12) if v3 else CLK) if q % 2 else 0)
        obj = {("obs",): obs, ("epochFlag",): num(flag), ("numSVs",): num(ns), ("clockOffset",): clk}
        vec = lambda xs: T("arr", *xs) if xs else T("empty", "std::vector")
        strm = {("header", "version"): num(Fraction(ver)), ("headerRead",): TRUE, ("timesystem",): num(tsn["GPS"]),
                ("header", "mapObsTypes"): T("arr", *[pair(sstr(s), vec([ids[x] for x in types[s]])) for s in sorted(types)]),
                ("header", "R2ObsTypes"): T("arr", *[sstr(x) for x in n2[:nt]]),
                ("header", "mapSysR2toR3ObsID"): T("arr", *[pair(sstr(s), T("arr", *sorted([pair(sstr(n2[j]), ids[n3[j]] if n3[j] in types[s] else ids["   "]) for j in range(nt)],
                                                            key=lambda x: fld(x, "first").args[0]))) for s in sorted(types)])}
        for ch, m in (("Y", "year"), ("m", "month"), ("d", "day")):
            strm[("header", "firstObs", m)] = T("tc", ch, TIME)
        L, f = lines_of(ctx, p, O3, obj, strm, tag, extra)
        if not L:
            continue
        if v3:
            ctx.ob("layout", text.substr(L[0], num(0), num(2)) is sstr("> "), where(f), tag + ": the epoch line starts with the marker", "layout|%s|marker" % key)
            c = epoch(ctx, f, tag, L, 4, 2)
            col(ctx, f, tag, L, 0, c, 11, "dbl", T("tc", "f", TIME), "the second", "fixed.7")
            col(ctx, f, tag, L, 0, 31, 1, "int", num(flag), "the epoch flag")
            col(ctx, f, tag, L, 0, 32, 3, "int", num(ns), "the number of satellites")
            if val(clk):
                col(ctx, f, tag, L, 0, 41, 15, "dbl", clk, "the clock offset")
            if not ctx.ob("layout", len(L) == 1 + ns, where(f), "%s: the record is %d lines" % (tag, len(L)), "layout|%s|lines" % key):
                continue
            for i, (s, k) in enumerate(sats):
                col(ctx, f, tag, L, 1 + i, 0, 3, "str", sstr(satname(s, k)), "satellite %d" % (i + 1))
                for j, (t, d) in enumerate(rec[i]):
                    if fld(d, "dataBlank") is FALSE:
                        col(ctx, f, tag, L, 1 + i, 3 + 16 * j, 14, "dbl", fld(d, "data"), "the observation %d" % (j + 1), "fixed.3")
                    for m, o in (("lli", 14), ("ssi", 15)):
                        if val(fld(d, m)):
                            col(ctx, f, tag, L, 1 + i, 3 + 16 * j + o, 1, "int", fld(d, m), "the %s of observation %d" % (m, j + 1))
        else:
            full = []
            for i, (s, _) in enumerate(sats):
                own = dict(rec[i])
                full.append([(n3[j], own.get(n3[j], agg("gpstk::RinexDatum", data=num(0), lli=num(0), ssi=num(0), dataBlank=TRUE))) for j in range(nt)])
            v2layout(ctx, f, tag, L, sats, full, flag, clk, nt)
        end, g = back(ctx, p, O3, L, strm, tag, extra)
        if end is None:
            continue
        for m in ("epochFlag", "numSVs", "clockOffset"):
            n += 1
            ob(ctx, "readback", plain(end.read(("this",), (m,)), obj[(m,)]), g, "%s: %s" % (tag, m), "readback|%s|%s" % (key, m), "is read back unchanged")
        n += 1
        ob(ctx, "readback", sametime(end.read(("this",), ("time",)), TIME, num(tsn["GPS"])), g, tag + ": the time", "readback|%s|time" % key, "is read back unchanged")
        v = end.read(("this",), ("obs",))
        if v.op != "arr":
            ctx.unresolved("readback", where(g), tag + ": observations " + show(v)[:80])
            continue
        if not ctx.ob("readback", len(v.args) == ns, where(g), "%s: %d satellites are read back" % (tag, len(v.args)), "readback|%s|satellites" % key):
            continue
        for i, (s, k) in enumerate(sats):
            x = v.args[i]
            ob(ctx, "readback", samesat(fld(x, "first"), s, k, sysn), g, "%s: satellite %s" % (tag, satname(s, k)), "readback|%s|satellite" % key, "is read back unchanged")
            ds = fld(x, "second")
            if ds.op == "empty":
                ds = T("arr")
            if ds.op != "arr":
                ctx.unresolved("readback", where(g), "%s: observations of satellite %d" % (tag, i + 1))
                continue
            if ctx.ob("readback", len(ds.args) == len(rec[i]), where(g), "%s: satellite %s has %d observations (%d)" % (tag, satname(s, k), len(ds.args), len(rec[i])),
                      "readback|%s|count" % key):
                for (t, d), w in zip(rec[i], ds.args):
                    n += samedatum(ctx, g, w, d, tag, "%s of satellite %s" % (t, satname(s, k)), True)
    # event records, with and without a time
    hdr = "gpstk::Rinex3ObsHeader::"
    ev = dict(extra, **{hdr + "numberHeaderRecordsToBeWritten": lambda I, e, st: num(1), hdr + "writeHeaderRecords": lambda I, e, st: T("void")})
    for ver in ("3.02", "2.11"):
        for flag in (2, 3, 4, 5):
            for timed in (True, False):
                tag = "Rinex3ObsData version %s event, flag %d, %s time" % (ver, flag, "with" if timed else "without")
                key = tag.split(",")[0] + ("" if timed else " without time")
                obj = {("epochFlag",): num(flag), ("numSVs",): num(0), ("clockOffset",): num(0)}
                if not timed:
                    obj[("time",)] = NOTIME
                strm = {("header", "version"): num(Fraction(ver)), ("headerRead",): TRUE, ("timesystem",): num(tsn["GPS"])}
                strm[("header", "firstObs", "year")] = T("tc", "Y", TIME)
                L, f = lines_of(ctx, p, O3, obj, strm, tag, ev)
                if not L:
                    continue
                at = 31 if ver > "3" else 28
                col(ctx, f, key + tag[len(tag.split(",")[0]):], L, 0, at, 1, "int", num(flag), "the epoch flag")
                if not timed and flag == 5 and ver < "3":
                    continue
                end, g = back(ctx, p, O3, L, strm, key + tag[len(tag.split(",")[0]):], ev)
                if end is None:
                    continue
                for m in ("epochFlag", "numSVs"):
                    n += 1
                    ob(ctx, "readback", plain(end.read(("this",), (m,)), obj[(m,)]), g, "%s: %s" % (tag, m), "readback|%s|%s" % (key, m), "is read back unchanged")
                if timed:
                    n += 1
                    ob(ctx, "readback", sametime(end.read(("this",), ("time",)), TIME), g, tag + ": the time", "readback|%s|time" % key, "is read back unchanged")
    return n


def met(ctx):
    p = ctx.program(MTU)
    n = 0
    for ver, k in [(v, k) for v in ("2.11", "3.02", "3.04", "3.00") for k in ((1, 3, 7, 8, 9, 10, 17, 18, 19, 28, 29) if v in ("2.11", "3.02") else (2, 9))]:
        tag = "RinexMetData version %s, %d quantities" % (ver, k)
        key = tag.split(",")[0]
        order = [(5 * i + 2) % 31 for i in range(k)]
        data = T("arr", *[pair(num(t), O("m%d" % t)) for t in sorted(order)])
        strm = {("header", "version"): num(Fraction(ver)), ("header", "obsTypeList"): T("arr", *[num(t) for t in order]), ("headerRead",): TRUE}
        L, f = lines_of(ctx, p, MD, {("data",): data}, strm, tag)
        if not L:
            continue
        y4 = ver >= "3.02"
        c = epoch(ctx, f, tag, L, 5 if y4 else 3, 0)
        col(ctx, f, tag, L, 0, c, 3, "int", T("tc", "f", TIME), "the second")
        for i, t in enumerate(order):
            if i < 8:
                col(ctx, f, tag, L, 0, c + 3 + 7 * i, 7, "dbl", O("m%d" % t), "quantity %d" % (i + 1), "fixed.1")
            else:
                col(ctx, f, tag, L, 1 + (i - 8) // 10, 4 + 7 * ((i - 8) % 10), 7, "dbl", O("m%d" % t), "quantity %d" % (i + 1), "fixed.1")
        end, g = back(ctx, p, MD, L, strm, tag)
        if end is None:
            continue
        v = end.read(("this",), ("data",))
        if v.op != "arr":
            ctx.unresolved("readback", where(g), "%s: %s" % (tag, show(v)[:80]))
        else:
            got = {fld(x, "first"): fld(x, "second") for x in v.args}
            for t in order:
                n += 1
                w = got.get(num(t))
                ob(ctx, "readback", plain(w, O("m%d" % t)) if w is not None else "is not read", g, "%s: a quantity" % tag, "readback|%s|data" % key, "is read back unchanged")
        n += 1
        tm = simp_time(end.read(("this",), ("time",)))
        d = "unresolved" if tm.op != "mktime" else None
        if d is None:
            for ch, x in tm.args[1]:
                if ch in "mdHM":
                    d = d or samenum(x, T("tc", ch, TIME), range(0, 60))
                if ch == "Y":
                    d = d or samenum(x, T("tc", ch, TIME), YEARS)
                if ch == "f":
                    # whole seconds are written
                    d = d or samenum(x, T("tc", ch, TIME), range(0, 60))
        ob(ctx, "readback", d, g, tag + ": the time", "readback|%s|time" % key, "is read back unchanged to the second")
    return n


def clock(ctx):
    p = ctx.program(CTU)
    base = defaultobj(p, CD).read(("this",), ("clockData",))
    ctx.need(base.op == "arr" and len(base.args) == 6, CD + "::clockData of six values")
    cd = T("arr", *[upd(x, "val", O("c%d" % i)) for i, x in enumerate(base.args)])
    n = 0
    et = {m: fld(O("epochTime"), m) for m in ("year", "month", "day", "hour", "minute", "second")}
    for t in ("AR", "AS", "CR", "DR", "MS"):
        for k in range(1, 7):
            for nm in ("G01", "USNO") if k in (1, 3) else ("G01",):
                tag = "RinexClockData, type %s, %d values, name %s" % (t, k, nm)
                key = tag.split(",")[0]
                obj = {("type", "type"): sstr(t), ("dvCount",): num(k), ("name",): sstr(nm), ("clockData",): cd}
                L, f = lines_of(ctx, p, CD, obj, {("headerRead",): TRUE}, tag, ffs="s")
                if not L:
                    continue
                ctx.ob("layout", len(L) == (2 if k > 2 else 1), where(f), "%s: the record is %d lines" % (tag, len(L)), "layout|%s|lines" % key)
                col(ctx, f, tag, L, 0, 0, 2, "str", sstr(t), "the type")
                col(ctx, f, tag, L, 0, 3, 4, "str", sstr("%-4s" % nm), "the name")
                col(ctx, f, tag, L, 0, 34, 3, "int", num(k), "the number of values")
                c = 8
                for m, w in (("year", 4), ("month", 3), ("day", 3), ("hour", 3), ("minute", 3)):
                    col(ctx, f, tag, L, 0, c, w, "int", et[m], "the " + m)
                    c += w
                col(ctx, f, tag, L, 0, 24, 10, "dbl", et["second"], "the second")
                for i in range(k):
                    ln, at = (0, 40 + 20 * i) if i < 2 else (1, 20 * (i - 2))
                    col(ctx, f, tag, L, ln, at, 19, "dbl", O("c%d" % i), "value %d" % (i + 1))
                end, g = back(ctx, p, CD, L, {("headerRead",): TRUE}, tag)
                if end is None:
                    continue
                rd = end.read(("this",), ("clockData",))
                if rd.op != "arr":
                    ctx.unresolved("readback", where(g), tag + ": clockData")
                else:
                    for i in range(k):
                        n += 1
                        ob(ctx, "readback", plain(fld(rd.args[i], "val"), O("c%d" % i)), g, "%s: value %d" % (tag, i + 1), "readback|%s|values" % key, "is read back unchanged")
                n += 3
                v = end.read(("this",), ("type", "type"))
                ob(ctx, "readback", plain(v, sstr(t)), g, tag + ": the type", "readback|%s|type" % key, "is read back unchanged")
                v = end.read(("this",), ("name",))
                ok = v is sstr(nm) or v is sstr("%-4s" % nm)
                ob(ctx, "readback", None if ok else ("is read back as " + show(v)[:40] if v.op == "str" else "unresolved"), g, tag + ": the name", "readback|%s|name" % key,
                   "is read back unchanged")
                ob(ctx, "readback", plain(end.read(("this",), ("dvCount",)), num(k)), g, tag + ": the count", "readback|%s|count" % key, "is read back unchanged")
                for m, w in et.items():
                    n += 1
                    ob(ctx, "readback", plain(end.read(("this",), ("epochTime", m)), w), g, "%s: the %s" % (tag, m), "readback|%s|%s" % (key, m), "is read back unchanged")
    return n


def clock3(ctx):
    p = ctx.program(C3TU)
    sysn = dict((n, v) for n, v, _ in p.enum("gpstk::SatelliteSystem")["vals"])
    n = 0
    who = [("AR", None, 0, "USNO"), ("AR", None, 0, "ABCD")] + [("AS", s, i, None) for s, i in
            (("GPS", 1), ("GPS", 32), ("Glonass", 24), ("Galileo", 36), ("BeiDou", 58), ("QZSS", 193), ("QZSS", 199), ("Geosync", 120), ("Geosync", 138))]
    for t, s, i, site in who:
        for k in (2, 3, 4, 5, 6):
            if k > 3 and (s, i) not in ((None, 0), ("GPS", 1), ("QZSS", 193)):
                continue
            tag = "Rinex3ClockData, type %s, %s, %d values" % (t, site or satname(s, i), k)
            key = tag.split(",")[0]
            obj = {("datatype",): sstr(t), ("site",): sstr(site or ""), ("sat", "system"): num(sysn[s or "GPS"]), ("sat", "id"): num(i if s else -1)}
            vals = ["bias", "sig_bias", "drift", "sig_drift", "accel", "sig_accel"]
            for j, m in enumerate(vals[2:]):
                obj[(m, "val")] = num(Fraction(j + 3, 8) if j + 3 <= k else 0)
            want = {m: obj.get((m, "val"), O(m, "val")) for m in vals}
            L, f = lines_of(ctx, p, C3, obj, {("headerRead",): TRUE}, tag)
            if not L:
                continue
            ctx.ob("layout", len(L) == (2 if k > 2 else 1), where(f), "%s: the record is %d lines" % (tag, len(L)), "layout|%s|lines" % key)
            col(ctx, f, tag, L, 0, 0, 2, "str", sstr(t), "the type")
            col(ctx, f, tag, L, 0, 3, 4, "str", sstr("%-4s" % (site or satname(s, i))), "the name")
            c = 8
            for ch, w in (("Y", 4), ("m", 3), ("d", 3), ("H", 3), ("M", 3)):
                col(ctx, f, tag, L, 0, c, w, "int", T("tc", ch, TIME), "the calendar field " + ch)
                c += w
            col(ctx, f, tag, L, 0, 24, 10, "dbl", T("tc", "f", TIME), "the second", "fixed.6")
            col(ctx, f, tag, L, 0, 34, 3, "int", num(k), "the number of values")
            for j in range(k):
                ln, at = (0, 40 + 20 * j) if j < 2 else (1, 20 * (j - 2))
                col(ctx, f, tag, L, ln, at, 19, "dbl", want[vals[j]], vals[j])
            end, g = back(ctx, p, C3, L, {("headerRead",): TRUE}, tag)
            if end is None:
                continue
            for m in vals:
                n += 1
                v = end.read(("this",), (m, "val"))
                ob(ctx, "readback", plain(v, want[m]), g, "%s: %s" % (tag, m), "readback|%s|%s" % (key, m), "is read back unchanged")
            n += 3
            ob(ctx, "readback", plain(end.read(("this",), ("datatype",)), sstr(t)), g, tag + ": the type", "readback|%s|type" % key, "is read back unchanged")
            if s:
                ob(ctx, "readback", samesat(end.read(("this",), ("sat",)), s, i, sysn), g, tag + ": the satellite", "readback|%s|satellite" % key, "is read back unchanged")
            else:
                ob(ctx, "readback", plain(end.read(("this",), ("site",)), sstr(site)), g, tag + ": the site", "readback|%s|site" % key, "is read back unchanged")
            ob(ctx, "readback", sametime(end.read(("this",), ("time",)), TIME), g, tag + ": the time", "readback|%s|time" % key, "is read back unchanged")
    return n
