"""C08 SP3 files: headers and records written are read back, in order."""
from ..codec import *
from ..check import where
from .c06 import SATS

TUS = ["core/lib/FileHandling/SP3/SP3Data.cpp", "core/lib/FileHandling/SP3/SP3Header.cpp", "core/lib/GNSSEph/SP3SatID.cpp", "core/lib/RefTime/TimeSystem.cpp"]
FILL = {"gpstk::SP3SatID::fillchar": num(48)}
D, H = "gpstk::SP3Data", "gpstk::SP3Header"
# SP3-a/b/c/d columns (1-based, inclusive)
EPOCH = [("Y", 4, 7), ("m", 9, 10), ("d", 12, 13), ("H", 15, 16), ("M", 18, 19), ("f", 21, 31)]
PV = [(("x", num(0)), 5, 18), (("x", num(1)), 19, 32), (("x", num(2)), 33, 46), (("clk",), 47, 60)]
SIG = [(("sig", num(0)), 62, 63), (("sig", num(1)), 65, 66), (("sig", num(2)), 68, 69), (("sig", num(3)), 71, 73)]
COR = [(("sdev", num(0)), 5, 8), (("sdev", num(1)), 10, 13), (("sdev", num(2)), 15, 18), (("sdev", num(3)), 20, 26),
       (("correlation", num(0)), 28, 35), (("correlation", num(1)), 37, 44), (("correlation", num(2)), 46, 53), (("correlation", num(3)), 55, 62),
       (("correlation", num(4)), 64, 71), (("correlation", num(5)), 73, 80)]
FLAGS = [("clockEventFlag", 75, "E"), ("clockPredFlag", 76, "P"), ("orbitManeuverFlag", 79, "M"), ("orbitPredFlag", 80, "P")]


def nm(path):
    return ".".join(show(x) if isinstance(x, Term) else x for x in path)


def check(ctx):
    ctx.rule("columns", "each quantity stands in the columns the SP3 format assigns to it")
    ctx.rule("readback", "the reader, applied to the text the writer produces, leaves every written quantity with the value it had")
    ctx.rule("sequence", "reading a written file returns its records one by one, in order, each data record stamped with the epoch line before it")
    p = ctx.program(TUS)
    sysn = dict((n, v) for n, v, _ in p.enum("gpstk::SatelliteSystem")["vals"])
    vers = dict((n, v) for n, v, _ in p.enum(H + "::Version")["vals"])
    ts = dict((n, v) for n, v, _ in p.enum("gpstk::TimeSystem")["vals"])
    n = 0
    for vn in ("SP3a", "SP3b", "SP3c", "SP3d"):
        n += epoch(ctx, p, vn, vers[vn], sysn, ts)
        systems = {"GPS": ("G", [1, 9, 10, 32], 0)} if vn == "SP3a" else SATS[1][2]
        for s in sorted(systems):
            for rec in "PV":
                for corr in ((0, 1) if vn in ("SP3c", "SP3d") and s == "GPS" else (0,)):
                    n += data(ctx, p, vn, vers[vn], rec, corr, s, sysn[s], systems[s], ts)
    ctx.floor("record quantities", n, 400)
    q = 0
    for vn in ("SP3a", "SP3b", "SP3c", "SP3d"):
        q += header(ctx, p, vn, vers[vn], sysn, ts)
        sequence(ctx, p, vn, vers[vn], sysn, ts)
    ctx.floor("header quantities", q, 100)


def strm(v, ts, **kw):
    d = {("header", "version"): num(v), ("header", "timeSystem"): num(ts["GPS"]), ("lastLine",): sstr(""), ("currentEpoch",): O("epoch"), ("header", "allowSP3aEvents"): FALSE}
    d.update(kw)
    return d


def put(ctx, p, tag, cls, obj, st):
    f = p.one(cls + "::reallyPutRecord")
    try:
        L, I, r, f = write(p, cls, obj, st, FILL)
    except text.Layout as e:
        ctx.unresolved("columns", where(f), tag + ": " + str(e)[:150])
        return None
    if L is None:
        ctx.ob("columns", False, where(f), tag + ": the writer refuses the record", "columns|%s|refused" % tag)
    return L


def column(ctx, f, tag, line, a, b, want, name, dom=None):
    c = text.substr(line, num(a - 1), num(b - a + 1))
    v = text.decode("dbl", c) if c is not None else None
    if v is None:
        if c is not None and all(q.op in ("str", "col", "txt", "chr", "part") for q in text.flat(c)):
            d = "covers " + show(c)[:80]
        else:
            ctx.unresolved("columns", where(f), "%s %s: %s" % (tag, name, show(line)[:120]))
            return
    else:
        d = samenum(v, want, dom)
    if d == "unresolved":
        ctx.unresolved("columns", where(f), "%s %s: %s" % (tag, name, show(v)[:120]))
        return
    ctx.ob("columns", d is None, where(f), "%s: columns %d-%d hold %s%s" % (tag, a, b, name, "" if d is None else ": " + d), "columns|%s|%s" % (tag, name))


def epoch(ctx, p, vn, v, sysn, ts):
    tag = "%s epoch record" % vn
    f = p.one(D + "::reallyPutRecord")
    g = p.one(D + "::reallyGetRecord")
    L = put(ctx, p, tag, D, {("RecType",): num(ord("*"))}, strm(v, ts))
    if not L:
        return 0
    if not ctx.ob("columns", len(L) == 1, where(f), "%s is %d lines" % (tag, len(L)), "columns|%s|lines" % tag):
        return 0
    for ch, a, b in EPOCH:
        column(ctx, f, tag, L[0], a, b, T("tc", ch, O("time")), {"Y": "the year", "m": "the month", "d": "the day", "H": "the hour", "M": "the minute", "f": "the seconds"}[ch],
               YEARS if ch == "Y" else range(0, 60))
    J, q, _ = read(p, D, L + [sstr("PG01" + " " * 76), sstr("EOF")], None, strm(v, ts), FILL)
    end = q["state"]
    if end is None:
        ctx.ob("readback", False, where(g), "%s: the reader rejects it" % tag, "readback|%s|rejected" % tag)
        return 0
    d = sametime(end.read(("this",), ("time",)), O("time"), num(ts["GPS"]))
    if d == "unresolved":
        ctx.unresolved("readback", where(g), tag + ": time = " + show(end.read(("this",), ("time",)))[:200])
    else:
        ctx.ob("readback", d is None, where(g), "%s: time %s" % (tag, d or "is read back, in the header's time system"), "readback|%s|time" % tag)
    same = end.read(("P", "ffs"), ("currentEpoch",)) is end.read(("this",), ("time",))
    ctx.ob("readback", same, where(g), "%s: the stream's current epoch is%s the time read" % (tag, "" if same else " not"), "readback|%s|currentEpoch" % tag)
    return 7


def data(ctx, p, vn, v, rec, corr, s, sv, sysd, ts):
    tag = "%s %s record%s of %s" % (vn, rec, " with correlation" if corr else "", s)
    f = p.one(D + "::reallyPutRecord")
    g = p.one(D + "::reallyGetRecord")
    isc = vn in ("SP3c", "SP3d")
    cases = []
    if isc and rec == "P" and s == "GPS":
        for b in range(16):
            cases.append({(FLAGS[i][0],): num((b >> i) & 1) for i in range(4)})
    else:
        cases.append({(FLAGS[i][0],): num(0) for i in range(4)})
    if vn == "SP3a" and rec == "P":
        cases = [dict(cases[0], ev=e) for e in (0, 1)]
    ids = sysd[1] if vn == "SP3a" else [None]
    n = 0
    members = dict(flatmembers(p, D))
    for ident in ids:
        for case in cases:
            case = dict(case)
            ev = case.pop("ev", 0)
            obj = {("RecType",): num(ord(rec)), ("correlationFlag",): num(corr), ("sat", "system"): num(sv), ("eventFlag",): num(ev)}
            if ident is not None:
                obj[("sat", "id")] = num(ident)
            obj.update(case)
            S = strm(v, ts)
            if ev:
                S[("header", "allowSP3aEvents")] = TRUE
            L = put(ctx, p, tag, D, obj, S)
            if not L:
                return n
            first = case is not None and not any(val(x) for x in case.values()) and not ev
            if not ctx.ob("columns", len(L) == 1 + corr, where(f), "%s is %d lines" % (tag, len(L)), "columns|%s|lines" % tag):
                return n
            c0 = text.substr(L[0], num(0), num(1))
            ctx.ob("columns", c0 is sstr(rec), where(f), "%s starts with %s" % (tag, show(c0)), "columns|%s|symbol" % tag)
            if ident is not None:
                ctx.ob("columns", text.substr(L[0], num(1), num(3)) is sstr("%3d" % ident), where(f), "%s: columns 2-4 hold the number %d" % (tag, ident), "columns|%s|id" % tag)
            if first:
                for path, a, b in PV + (SIG if isc else []):
                    column(ctx, f, tag, L[0], a, b, O(*path), nm(path))
                if corr:
                    h = text.substr(L[1], num(0), num(2))
                    ctx.ob("columns", h is sstr("E" + rec), where(f), "%s: the correlation line starts with %s" % (tag, show(h)), "columns|%s|E%s" % (tag, rec))
                    for path, a, b in COR:
                        column(ctx, f, tag, L[1], a, b, O(*path), nm(path))
            if isc and rec == "P":
                for name, c, ch in FLAGS:
                    w = text.substr(L[0], num(c - 1), num(1))
                    e = sstr(ch if val(case[(name,)]) else " ")
                    ctx.ob("columns", w is e, where(f), "%s: column %d is %s when %s is %s" % (tag, c, show(w) if w is not None else "missing", name, val(case[(name,)])), "columns|%s|%s" % (tag, name))
            J, q, _ = read(p, D, L + [sstr("EOF")], None, strm(v, ts), FILL)
            end = q["state"]
            if end is None:
                ctx.ob("readback", False, where(g), "%s: the reader rejects it with %s" % (tag, ", ".join(sorted(set(x[1] for x in q["throws"])))), "readback|%s|rejected" % tag)
                return n
            want = [("RecType",), ("sat", "id"), ("sat", "system"), ("correlationFlag",), ("time",)] + [x[0] for x in PV]
            if isc:
                want += [x[0] for x in SIG] + ([(x[0],) for x in FLAGS] if rec == "P" else [])
            if corr:
                want += [x[0] for x in COR]
            if vn == "SP3a" and rec == "P":
                want.append(("eventFlag",))
            for path in want:
                w = obj.get(path, O(*path))
                if path == ("time",):
                    w = O("epoch")
                ctx.need(path in members, D + "::" + nm(path))
                x = end.read(("this",), path)
                if path == ("sat", "id") and ident is None:
                    d = same_under(x, w, O("sat", "id"), sysd[1])
                else:
                    d = samenum(x, w, [0, 1])
                if d == "unresolved":
                    ctx.unresolved("readback", where(g), "%s: %s = %s" % (tag, nm(path), show(x)[:200]))
                    continue
                n += 1
                ctx.ob("readback", d is None, where(g), "%s: %s %s" % (tag, nm(path), d or "is read back unchanged"), "readback|%s|%s" % (tag, nm(path)))
    return n


def satlist(sats):
    return T("arr", *[upd(upd(T("agg", "pair"), "first", upd(upd(T("agg", "gpstk::SP3SatID"), "id", num(i)), "system", num(s))), "second", num(a)) for s, i, a in sats])


def header(ctx, p, vn, v, sysn, ts):
    f = p.one(H + "::reallyPutRecord")
    g = p.one(H + "::reallyGetRecord")
    isc = vn in ("SP3c", "SP3d")
    n = 0
    members = dict(flatmembers(p, H))
    def fleet(k):
        """k satellites in the order the list keeps them"""
        gps = [(sysn["GPS"], i, 1 + i % 9) for i in range(1, min(k, 32) + 1)]
        gal = [(sysn["Galileo"], i, 5 + i % 3) for i in range(1, min(k - 32, 36) + 1)]
        return gps + gal + [(sysn["Glonass"], i, 7 - i % 2) for i in range(1, k - 67)]
    # every list length whose last line is full, one short of full or one over, in each number of lines
    sizes = sorted({q for ln in range(0, 8) for q in (17 * ln - 1, 17 * ln, 17 * ln + 1, 17 * ln + 9)})
    top = 32 if vn == "SP3a" else (85 if vn != "SP3d" else 120)
    lists = [[(sysn["GPS"], 5, 7)]] + [fleet(q) for q in sizes if 0 <= q <= top]
    if vn != "SP3a":
        lists.append(sorted([(sysn["GPS"], i, 3 + i % 5) for i in (1, 32)] + [(sysn["Glonass"], i, 4) for i in (2, 24)] + [(sysn["QZSS"], 193, 6)] + [(sysn["BeiDou"], 7, 9)]))
    labels = ["GPS"] if vn == "SP3a" else (["GPS", "UTC"] if vn == "SP3b" else ["GPS", "GLO", "GAL", "TAI", "UTC", "QZS"])
    cases = [(l, labels[0], 4, 0) for l in lists] + [(lists[0], t, 4, 1) for t in labels] + [(lists[0], labels[0], 0, 0), (lists[0], labels[0], 7 if vn == "SP3d" else 3, 1)]
    for sats, lab, ncom, vel in cases:
        tag = "%s header, %d satellites, %s time, %d comments" % (vn, len(sats), lab, ncom)
        key = vn + " header"
        sysv = sats[-1][0] if sats else sysn["GPS"]
        obj = {("version",): num(v), ("containsVelocity",): num(vel), ("system", "system"): num(sysv), ("timeSystem",): num(ts[lab]), ("allowSP3aEvents",): FALSE,
               ("satList",): satlist(sats) if sats else T("empty", "std::map"),
               ("comments",): T("arr", *[T("txt", "str", O("c%d" % i)) for i in range(ncom)]) if ncom else T("empty", "std::vector")}
        L = put(ctx, p, key, H, obj, {})
        if not L:
            return n
        J, q, _ = read(p, H, L + [sstr("*  2000")], None, None, FILL)
        end = q["state"]
        if end is None:
            ctx.ob("readback", False, where(g), "%s: the reader rejects it with %s" % (tag, ", ".join(sorted(set(x[1] for x in q["throws"])))), "readback|%s|rejected" % key)
            return n
        want = ["version", "containsVelocity", "time", "epochInterval", "numberOfEpochs", "dataUsed", "coordSystem", "orbitType", "agency", "satList", "comments"]
        if vn != "SP3a":
            want += ["timeSystem", "system"]
        if isc:
            want += ["basePV", "baseClk"]
        for m in want:
            path = (m,) if m != "system" else ("system", "system")
            ctx.need(path in members, H + "::" + nm(path))
            x = end.read(("this",), path)
            w = obj.get(path, O(*path))
            if m == "time":
                d = sametime(x, w)
            elif m == "satList":
                d = sats_same(x, sats)
            elif m == "comments":
                d = comments_same(x, ncom, 77 if vn == "SP3d" else 57)
            elif m in ("dataUsed", "coordSystem", "orbitType", "agency"):
                y = text.decode("str", x)
                d = None if y in (w, T("txt", "str", w)) else ("unresolved" if y is None or not definite(y) else "is read back as " + show(y)[:100])
            else:
                d = samenum(x, w, [0, 1])
            if d == "unresolved":
                ctx.unresolved("readback", where(g), "%s: %s = %s" % (tag, m, show(x)[:200]))
                continue
            n += 1
            ctx.ob("readback", d is None, where(g), "%s: %s %s" % (tag, m, d or "is read back unchanged"), "readback|%s|%s" % (key, m))
        # the header is kept for the data records
        for path in (("version",), ("timeSystem",)):
            same = end.read(("P", "ffs"), ("header",) + path) is end.read(("this",), path)
            ctx.ob("readback", same, where(g), "%s: the stream's header %s the %s read" % (tag, "has" if same else "does not have", path[0]), "readback|%s|stream %s" % (key, path[0]))
        last = end.read(("P", "ffs"), ("lastLine",))
        ctx.ob("sequence", last is sstr("*  2000"), where(g), "%s: the line after the header is kept for the first record: %s" % (tag, show(last)[:60]), "sequence|%s|lastLine" % key)
    return n


def sats_same(x, sats):
    if x.op == "empty":
        return None if not sats else "is read back empty"
    if x.op != "arr":
        return "unresolved"
    got = []
    for e in x.args:
        k, a = fld(e, "first"), fld(e, "second")
        t = (fld(k, "system"), fld(k, "id"), a)
        if not all(isnum(y) for y in t):
            return "unresolved"
        got.append(tuple(int(val(y)) for y in t))
    if got == sats:
        return None
    bad = [q for q in got if q not in sats] + [q for q in sats if q not in got]
    return "is read back with %d of %d entries, differing in %s" % (len(got), len(sats), bad[:3])


def comments_same(x, n, w):
    want = max(n, 4)
    if x.op != "arr":
        return "unresolved" if x.op != "empty" else "is read back empty"
    if len(x.args) != want:
        return "has %d lines (%d written)" % (len(x.args), want)
    for i, y in enumerate(x.args):
        if i < n:
            z = text.decode("str", y)
            if z not in (O("c%d" % i), T("txt", "str", O("c%d" % i))):
                return "line %d is read back as %s" % (i + 1, show(y)[:80]) if definite(y) else "unresolved"
            if not isnum(text.length(y)) or val(text.length(y)) != w:
                return "line %d is %s characters wide" % (i + 1, show(text.length(y)))
    return None


def sequence(ctx, p, vn, v, sysn, ts):
    g = p.one(D + "::reallyGetRecord")
    isc = vn in ("SP3c", "SP3d")
    recs = [("*", "t0", 0, 0), ("P", "t0", 1, isc), ("V", "t0", 1, isc), ("P", "t0", 2, 0), ("V", "t0", 2, 0), ("P", "t0", 3, isc), ("P", "t0", 4, 0),
            ("*", "t1", 0, 0), ("P", "t1", 1, 0), ("P", "t1", 2, isc), ("*", "t2", 0, 0), ("P", "t2", 9, 0)]
    for tail in ([sstr("EOF")], []):
        lns = []
        for rec, t, ident, corr in recs:
            obj = {("RecType",): num(ord(rec)), ("correlationFlag",): num(1 if corr else 0), ("sat", "system"): num(sysn["GPS"]), ("sat", "id"): num(ident), ("eventFlag",): FALSE,
                   ("time",): O(t)}
            obj.update({(x[0],): FALSE for x in FLAGS})
            L = put(ctx, p, vn + " file", D, obj, strm(v, ts))
            if not L:
                return
            lns += L
        if not tail:
            # files without the EOF line are tolerated only as far as the last record
            continue
        lns += tail
        mem = None
        epochs = {}
        for k, (rec, t, ident, corr) in enumerate(recs):
            tag = "%s file, record %d (%s%s)" % (vn, k + 1, rec, "%02d" % ident if ident else "")
            key = "sequence|%s|%d" % (vn, k + 1)
            st = defaultobj(p, D)
            if mem is None:
                for kk, x in strm(v, ts).items():
                    st.write(("P", "ffs"), kk, x)
            else:
                for (root, path), x in mem:
                    st.mem[(root, path)] = x
            for kk, x in FILL.items():
                st.write(("G", kk), (), x)
            J = mk(p, lns)
            r = J.run(g, cls=D, state=st)
            end = r["state"]
            if end is None:
                ctx.ob("sequence", False, where(g), "%s: the reader stops with %s" % (tag, ", ".join(sorted(set(x[1] for x in r["throws"])))), key)
                return
            used = J.callseq("formattedGetLine", end)
            lns = lns[used:]
            rt, idn, cf, tm = (end.read(("this",), q) for q in (("RecType",), ("sat", "id"), ("correlationFlag",), ("time",)))
            if not (isnum(rt) and isnum(cf) and (isnum(idn) or not ident)):
                ctx.unresolved("sequence", where(g), "%s: %s %s %s" % (tag, show(rt)[:60], show(idn)[:60], show(cf)[:60]))
                return
            ok = val(rt) == ord(rec) and (not ident or val(idn) == ident) and val(cf) == (1 if corr else 0)
            ctx.ob("sequence", ok, where(g), "%s: read as %s%s%s" % (tag, chr(int(val(rt))), int(val(idn)) if isnum(idn) else "", " with correlation" if val(cf) else ""), key)
            if not ok:
                return
            if rec == "*":
                epochs[t] = tm
                d = sametime(tm, O(t))
            else:
                d = None if tm is epochs[t] else "is not the epoch before it: " + show(tm)[:80]
            if d == "unresolved":
                ctx.unresolved("sequence", where(g), "%s: time %s" % (tag, show(tm)[:120]))
            else:
                ctx.ob("sequence", d is None, where(g), "%s: its time %s" % (tag, d or "is the epoch's"), key + " time")
            mem = [(kk, x) for kk, x in end.mem.items() if kk[0] == ("P", "ffs") and not (kk[1] and str(kk[1][0]).startswith("$"))]
