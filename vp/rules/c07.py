"""C07 RINEX navigation records: what is written is read back."""
from ..codec import *
from ..check import where

TUS = ["core/lib/FileHandling/RINEX3/Rinex3NavData.cpp", "core/lib/FileHandling/RINEX/RinexNavData.cpp",
       "core/lib/Utilities/FormattedDouble.cpp", "core/lib/GNSSCore/RinexSatID.cpp"]
KEP = [["af0", "af1", "af2"], ["IODE", "Crs", "dn", "M0"], ["Cuc", "ecc", "Cus", "Ahalf"], ["Toe", "Cic", "OMEGA0", "Cis"],
       ["i0", "Crc", "w", "OMEGAdot"]]
GPS = KEP + [["idot", "codeflgs", "weeknum", "L2Pdata"], ["accuracy", "health", "Tgd", "IODC"], ["xmitTime", "fitint"]]
GPS2 = KEP + [["idot", "codeflgs", "toeWeek", "L2Pdata"], ["accuracy", "health", "Tgd", "IODC"], ["sf1XmitTime", "fitint"]]
GAL = [KEP[0], ["IODnav", "Crs", "dn", "M0"]] + KEP[2:] + [["idot", "datasources", "weeknum"], ["accuracy", "health", "Tgd", "Tgd2"], ["xmitTime"]]
BDS = KEP + [["idot", None, "weeknum"], ["accuracy", "health", "Tgd", "Tgd2"], ["xmitTime", "IODC"]]
GLO = [["TauN", "GammaN", "MFtime"], ["px", "vx", "ax", "health"], ["py", "vy", "ay", "freqNum"], ["pz", "vz", "az", "ageOfInfo"]]
GEO = [["TauN", "GammaN", "MFtime"], ["px", "vx", "ax", "health"], ["py", "vy", "ay", "accCode"], ["pz", "vz", "az", "IODN"]]
SYS = {"G": (1, GPS, "GPS", 0), "R": (3, GLO, "GLO", 0), "S": (4, GEO, "GPS", 100), "E": (2, GAL, "GAL", 0), "C": (7, BDS, "BDT", 0), "J": (8, GPS, "QZS", 192)}
# (transmit second of week, week offset of transmission relative to Toe, Toe)
WEEKS = [(7200, 0, 14400), (601200, -1, 3600), (3600, 1, 603600)]
FULLWEEK = 604800


def check(ctx):
    ctx.rule("readback", "the reader, applied to the text the writer produces, leaves every member of the record with the value it had")
    ctx.rule("layout", "broadcast orbit line k, field j (19 columns each) carries the quantity RINEX defines for the system")
    p = ctx.program(TUS)
    ts = dict((n, v) for n, v, _ in p.enum("gpstk::TimeSystem")["vals"])
    sysn = dict((n, v) for n, v, _ in p.enum("gpstk::SatelliteSystem")["vals"])
    n = 0
    for ver in ("3.04", "2.11"):
        for s in "GRSECJI":
            if ver < "3" and s not in "GRS":
                continue
            for i, (x, dw, toe) in enumerate(WEEKS):
                if i and s in "RSI":
                    continue
                n += one(ctx, p, "gpstk::Rinex3NavData", ver, s, (x, dw, toe), ts, sysn)
    for ver in ("2.11", "2.0"):
        n += one(ctx, p, "gpstk::RinexNavData", ver, "G", None, ts, sysn)
    ctx.floor("navigation record members", n, 250)


def one(ctx, p, cls, ver, s, wk, ts, sysn):
    name = cls.rsplit("::", 1)[1]
    tag = "%s version %s system %s" % (name, ver, s)
    strm = {("header", "version"): num(Fraction(ver)), ("headerRead",): TRUE}
    glob = {"gpstk::RinexSatID::fillchar": num(48)}
    obj, dom = {}, {}
    names = {"G": "GPS", "R": "Glonass", "S": "Geosync", "E": "Galileo", "C": "BeiDou", "J": "QZSS", "I": "IRNSS"}
    if cls == "gpstk::Rinex3NavData":
        strm[("header", "fileSys")] = sstr({"G": "G (GPS)", "R": "R (GLONASS)", "S": "S (SBAS)"}.get(s, s))
        off = SYS[s][3] if s in SYS else 0
        obj = {("satSys",): sstr(s), ("sat", "system"): num(sysn[names[s]]), ("sat", "id"): add(O("PRNID"), num(off)), ("xmitTime",): num(wk[0]),
               ("Toe", "val"): num(wk[2])}
        layout = SYS[s][1] if s in SYS else GPS
        lab = num(ts[SYS[s][2]]) if s in SYS else None
        if wk[1]:
            tag += " sent the week before" if wk[1] < 0 else " sent the week after"
    else:
        layout, lab = GPS2, num(ts["GPS"])
        if ver == "2.0":
            layout = layout[:-1] + [["sf1XmitTime"]]
    f = p.one(cls + "::reallyPutRecord")
    g = p.one(cls + "::reallyGetRecord")
    try:
        L, I, r, _ = write(p, cls, obj, strm, glob)
    except text.Layout as e:
        ctx.unresolved("layout", where(f), tag + ": " + str(e)[:150])
        return 0
    if L is None:
        ctx.unresolved("layout", where(f), tag + ": the writer does not return")
        return 0
    exp = {}
    for path, t in flatmembers(p, cls):
        exp[path] = obj.get(path, O(*path))
    # layout
    first = 23 if ver >= "3" else 22
    for k, row in enumerate(layout):
        if s == "I":
            break
        key = "%s|line %d" % (tag.split(" sent")[0], k + 1)
        if not ctx.ob("layout", k < len(L), where(f), "%s: line %d is %s" % (tag, k + 1, "written" if k < len(L) else "missing"), "layout|%s|missing" % key):
            continue
        at = first if k == 0 else (4 if ver >= "3" else 3)
        for j, m in enumerate(row):
            if m is None:
                continue
            pm = (m, "val") if (m, "val") in exp else (m,)
            c = text.substr(L[k], num(at + 19 * j), num(19))
            v = text.decode("dbl", c) if c is not None else None
            if m in ("weeknum", "xmitTime"):
                continue        # the file's week is that of Toe; the round trip decides
            if v is None and not (c is not None and all(q.op in ("str", "col", "txt", "chr", "part") for q in text.flat(c))):
                ctx.unresolved("layout", where(f), "%s: %s" % (key, show(L[k])[:120]))
                continue
            want = exp[pm]
            d = None if v is want else (samenum(v, want) if v is not None else "covers other text")
            if m == "MFtime" and ver < "3" and v is not None:
                continue
            if d == "unresolved":
                ctx.unresolved("layout", where(f), key + ": " + show(v)[:120])
                continue
            ctx.ob("layout", d is None, where(f), "%s: field %d of line %d is %s" % (tag, j + 1, k + 1, m if d is None else "not %s but %s" % (m, show(v if v is not None else c)[:80])),
                   "layout|%s|%s" % (key, m))
    J, q, _ = read(p, cls, L, None, strm, glob)
    end = q["state"]
    if end is None:
        th = [x[1] for x in q["throws"]]
        ctx.ob("readback", False, where(g), "%s: the reader rejects the written record with %s" % (tag, ", ".join(sorted(set(th)))), "readback|%s|rejected" % tag.split(" sent")[0])
        return 0
    cnt = 0
    members = [m for row in layout for m in row if m] + ["time", "PRNID"] + (["satSys"] if "Rinex3" in cls else [])
    for m in members:
        path = (m, "val") if (m, "val") in exp else (m,)
        ctx.need(path in exp, "%s::%s" % (cls, m))
        t = dict(flatmembers(p, cls))[path]
        v = end.read(("this",), path)
        w = exp[path]
        if wk and wk[1] > 0 and m in ("xmitTime", "weeknum"):
            # weeks and seconds together name the moment
            v, w = (add(mul(x, num(FULLWEEK)), y) for x, y in ((end.read(("this",), ("weeknum",)), end.read(("this",), ("xmitTime",))), (exp[("weeknum",)], exp[("xmitTime",)])))
        if m == "time":
            d = sametime(v, w, lab)
        elif m == "weeknum":
            # the object's week is the transmission week
            d = samenum(v, w, range(1500, 1504))
        else:
            d = samenum(v, w, range(1, 38) if m == "PRNID" else None)
        if m == "MFtime" and ver < "3" and d:
            # decided at one time of week (the printed time was shown to be read back)
            sow = lambda x: num(200000) if x.op == "tc" and x.args[0] == "g" else None
            d = samenum(subst(v, sow), w)
        ctx.count("members")
        if d == "unresolved":
            ctx.unresolved("readback", where(g), "%s: %s = %s" % (tag, m, show(v)[:200]))
            continue
        cnt += 1
        ctx.ob("readback", d is None, where(g), "%s: %s %s" % (tag, m, d or "is read back unchanged"), "readback|%s|%s" % (tag.split(" sent")[0], m))
    if "Rinex3" in cls:
        for pth in (("sat", "id"), ("sat", "system")):
            v, w = end.read(("this",), pth), exp[pth]
            env = range(1, 37) if s != "J" else range(1, 11)
            d = same_under(v, w, O("PRNID"), env)
            if d == "unresolved":
                ctx.unresolved("readback", where(g), "%s: sat = %s" % (tag, show(v)[:200]))
                continue
            cnt += 1
            ctx.ob("readback", d is None, where(g), "%s: sat.%s %s" % (tag, pth[1], d or "is read back unchanged"), "readback|%s|sat" % tag.split(" sent")[0])
    return cnt
