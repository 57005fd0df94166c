"""C11 navigation records and ephemerides converted into one another keep every parameter and every instant."""
from ..codec import *
from ..check import where
from ..prog import lib_sources

TUS = ["core/lib/FileHandling/RINEX3/Rinex3NavData.cpp", "core/lib/FileHandling/RINEX/RinexNavData.cpp", "core/lib/GNSSEph/OrbitEph.cpp",
       "core/lib/GNSSEph/GPSEphemeris.cpp", "core/lib/GNSSEph/GalEphemeris.cpp", "core/lib/GNSSEph/BDSEphemeris.cpp", "core/lib/GNSSEph/QZSEphemeris.cpp",
       "core/lib/GNSSEph/GloEphemeris.cpp", "core/lib/GNSSEph/EngEphemeris.cpp", "core/lib/GNSSEph/BrcKeplerOrbit.cpp",
       "core/lib/GNSSEph/BrcClockCorrection.cpp", "core/lib/Utilities/FormattedDouble.cpp", "core/lib/GNSSCore/RinexSatID.cpp",
       "core/lib/Math/Triple.cpp", "ext/lib/FileHandling/SEM/SEMData.cpp", "ext/lib/FileHandling/Yuma/YumaData.cpp",
       "core/lib/GNSSEph/AlmOrbit.cpp","ext/lib/GNSSEph/OrbAlmGen.cpp","ext/lib/GNSSEph/OrbAlm.cpp"]
R3, R2, ENG, GLO = "gpstk::Rinex3NavData", "gpstk::RinexNavData", "gpstk::EngEphemeris", "gpstk::GloEphemeris"
FULLWEEK, HALFWEEK, DAY = 604800, 302400, 86400
# (transmission second from the start of the week, clock epoch, ephemeris epoch): seconds relative to the start of week 2000
CASES = [("within a week", 7200, 14400, 14400), ("sent before the week starts", -7200, 0, 0), ("sent before the week starts, epoch off the hour", -1200, 1184, 1184),
         ("sent after the week ended", FULLWEEK + 3600, 603584, 603584), ("epochs two hours apart", 7200, 14400, 7200),
         ("epochs in different weeks", -3600, 0, -7200), ("epochs in different weeks, off the hour", 300000 - 300000 - 600, -16, 3584)]
WEEK, DAY0 = 2000, 2444245 + 7 * 2000
BDT0 = 1356         # GPS week 1356 is BDT week 0
KEP = ["af0", "af1", "af2", "M0", "dn", "ecc", "OMEGA0", "i0", "w", "OMEGAdot", "idot", "Cuc", "Cus", "Crc", "Crs", "Cic", "Cis"]
SYSNAME = {"G": "GPS", "E": "Galileo", "C": "BeiDou", "J": "QZSS", "R": "Glonass"}
TSYS = {"G": "GPS", "E": "GAL", "C": "BDT", "J": "QZS", "R": "GLO"}
CLS = {"G": "gpstk::GPSEphemeris", "E": "gpstk::GalEphemeris", "C": "gpstk::BDSEphemeris", "J": "gpstk::QZSEphemeris"}
# ephemeris member -> record member, beside the Keplerian ones
OWN = {"G": {"IODC": "IODC", "IODE": "IODE", "health": "health", "Tgd": "Tgd", "codeflags": "codeflgs", "L2Pdata": "L2Pdata", "accuracy": "accuracy"},
       "E": {"IODnav": "IODnav", "accuracy": "accuracy", "Tgda": "Tgd", "Tgdb": "Tgd2", "datasources": "datasources"},
       "C": {"IODC": "IODC", "IODE": "IODE", "health": "health", "accuracy": "accuracy", "Tgd13": "Tgd", "Tgd23": "Tgd2"},
       "J": {"IODC": "IODC", "IODE": "IODE", "health": "health", "accuracy": "accuracy", "Tgd": "Tgd", "codeflags": "codeflgs", "L2Pdata": "L2Pdata"}}


INTS = {"IODE", "IODC", "IODnav", "health", "codeflags", "codeflgs", "L2Pdata", "datasources", "freqNum", "MFtime"}


def tmodels():
    return {k: v for k, v in models().items() if not any(w in k for w in ("convertFrom", "convertTo", "CommonTime::operator", "CivilTime::operator", "setTimeSystem"))}


def setct(st, root, path, sec, ts):
    """the instant `sec` seconds from the start of week 2000"""
    st.write(root, path + ("m_day",), num(DAY0 + sec // DAY))
    st.write(root, path + ("m_msod",), num(1000 * (sec % DAY)))
    st.write(root, path + ("m_fsod",), num(0))
    st.write(root, path + ("m_timeSystem",), num(ts))


def getct(st, root, path):
    v = [st.read(root, path + (m,)) for m in ("m_day", "m_msod", "m_fsod", "m_timeSystem")]
    if not all(isnum(x) for x in v):
        return None
    d, ms, f, ts = (val(x) for x in v)
    return (d - DAY0) * DAY + Fraction(ms) / 1000 + f, ts


class Conv:
    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p
        self.ts = dict((n, v) for n, v, _ in p.enum("gpstk::TimeSystem")["vals"])
        self.sysn = dict((n, v) for n, v, _ in p.enum("gpstk::SatelliteSystem")["vals"])
        self.n = 0

    def fn(self, cls, target=None, src=None):
        if target:
            fs = self.p.find(cls + "::operator " + target.rsplit("::", 1)[1], need=False) or self.p.find(cls + "::operator " + target, need=False)
        else:
            fs = [f for f in self.p.find(cls + "::" + cls.rsplit("::", 1)[1], need=False) if len(f["params"]) == 1 and nostd(f["params"][0]["t"].rstrip(" &")) == src]
        self.ctx.need(len(fs) == 1, "%s -> %s" % (src or cls, target or cls))
        return fs[0]

    def interp(self):
        I = Interp(self.p, models=tmodels())
        I.textout = I.quietcalls = True
        I.MAXUNROLL = 40
        return I

    def out(self, f, cls, st):
        """run an operator; (state, root) of the value it returns"""
        I = self.interp()
        r = I.run(f, cls=cls, state=st)
        if r["state"] is None or r["ret"] is None:
            return None, [t[1] for t in r["throws"]]
        s = r["state"]
        s.write(("OUT",), (), r["ret"])
        return s, [t[1] for t in r["throws"]]

    def make(self, f, cls, src, st):
        """run a constructor from the object at ("P","src")"""
        I = self.interp()
        I.rootcls[("P", "src")] = src
        r = I.run(f, cls=cls, state=st, args=[T("ptr", ("P", "src"), ())])
        return r["state"], [t[1] for t in r["throws"]]

    def done(self, f, tag, s, throws):
        # the throws are alternatives only when the state did not survive
        return self.ctx.ob("carry", s is not None, where(f), "%s %s" % (tag, "returns" if s is not None else "fails with " + ", ".join(sorted(set(throws)))), "carry|%s|fails" % tag.split(":")[0])

    def same(self, rule, f, tag, name, v, want, key=None):
        if name in INTS and v.op == "trunc" and v.args[0] is want:
            v = want        # an integer quantity, held as a real in the record
        d = None if v is want else samenum(v, want)
        key = "%s|%s|%s" % (rule, tag.split(":")[0], key or name)
        if d == "unresolved":
            self.ctx.unresolved(rule, where(f), "%s: %s = %s" % (tag, name, show(v)[:150]))
            return
        self.n += 1
        self.ctx.ob(rule, d is None, where(f), "%s: %s %s" % (tag, name, d or "is carried over"), key)

    def moment(self, f, tag, name, got, sec, ts):
        key = "instant|%s|%s" % (tag.split(":")[0], name)
        if got is None:
            self.ctx.unresolved("instant", where(f), "%s: %s" % (tag, name))
            return
        self.n += 1
        e = None
        if got[0] != sec:
            e = "is %s s %s" % (abs(got[0] - sec), "late" if got[0] > sec else "early")
        elif ts is not None and got[1] != ts:
            e = "carries another time system"
        self.ctx.ob("instant", e is None, where(f), "%s: %s %s" % (tag, name, e or "is the source's instant"), key)

    def seconds(self, f, tag, name, wk, sow, sec, wk0=WEEK):
        """week and second of week name the instant"""
        if not isnum(sow) or (wk is not None and not isnum(wk)):
            self.ctx.unresolved("instant", where(f), "%s: %s = %s" % (tag, name, show(sow)[:80]))
            return
        got = val(sow) + (0 if wk is None else FULLWEEK * (val(wk) - wk0))
        if wk is None:
            got, sec = got % FULLWEEK, sec % FULLWEEK
        self.moment(f, tag, name, (got, None), sec, None)


def check(ctx):
    ctx.rule("carry", "every parameter of the converted object is the source's parameter of the same meaning")
    ctx.rule("instant", "epoch, ephemeris reference and transmission times of the converted object are the source's instants, on both sides of a week boundary")
    ctx.rule("validity", "the period of validity or fit interval follows from the instants and the fit interval in hours")
    ctx.rule("rejects", "a record of another system does not convert to a loaded ephemeris")
    p = ctx.program(TUS + [s for s in lib_sources() if "/TimeHandling/" in s])
    C = Conv(ctx, p)
    for s in "GECJ":
        for case in CASES:
            torec(C, s, case)
            toeph(C, s, case)
    for case in CASES:
        rec3toeng(C, case)
        engtorec(C, case)
        rec2(C, case)
    glonass(C)
    rejects(C)
    almanacs(C)
    ctx.floor("converted members", C.n, 1000)


def rec3(C, s, case, root=("this",), fit=4):
    name, x, toc, toe = case
    st = defaultobj(C.p, R3)
    bw = BDT0 if s == "C" else 0
    xw = x // FULLWEEK
    symobject(C.p, R3, st, root, fixed={("satSys",): sstr(s), ("PRNID",): num(3), ("sat", "id"): num(195 if s == "J" else 3), ("sat", "system"): num(C.sysn[SYSNAME[s]]),
              ("xmitTime",): num(x % FULLWEEK), ("weeknum",): num(WEEK + xw - bw), ("Toe", "val"): num(toe % FULLWEEK), ("Toc",): num(toc % FULLWEEK),
              ("fitint", "val"): num(fit), ("IODC", "val"): num(10), ("datasources",): num(1), ("health",): O("health"), ("accuracy", "val"): num(Fraction("2.8"))})
    setct(st, root, ("time",), toc, C.ts[TSYS[s]])
    return st


def rv(st, root, m, exp=None):
    v = st.read(root, (m, "val"))
    return v


def toeph(C, s, case):
    """Rinex3NavData -> ephemeris"""
    name, x, toc, toe = case
    f = C.fn(R3, CLS[s])
    K = CLS[s].rsplit("::", 1)[1]
    for fit in ((0, 1, 4, 6) if s == "G" else (0, 1) if s == "J" else (4,)):
        tag = "Rinex3NavData to %s: %s, fit %d" % (K, name, fit)
        st, th = C.out(f, R3, rec3(C, s, case, fit=fit))
        if not C.done(f, tag, st, th):
            continue
        R = ("OUT",)
        rd = lambda *q: st.read(R, q)
        for m in KEP:
            C.same("carry", f, tag, m, rd(m), O(m, "val"))
        C.same("carry", f, tag, "A", rd("A"), mul(O("Ahalf", "val"), O("Ahalf", "val")))
        fds = {q[0] for q, t in flatmembers(C.p, R3) if len(q) == 2 and q[1] == "val"}
        for m, src in OWN[s].items():
            want = O(src, "val") if src in fds else O(src)
            if src == "IODC":
                want = num(10)
            elif src == "datasources":
                want = num(1)
            elif src == "accuracy":
                want = num(Fraction("2.8"))
            C.same("carry", f, tag, m, rd(m), want)
        if s == "G":
            # IS-GPS-200 20.3.3.3.1.3: 2.4 m < 2.8 m <= 3.4 m is URA index 1
            C.same("carry", f, tag, "accuracyFlag", rd("accuracyFlag"), num(1))
        C.same("carry", f, tag, "satellite number", rd("satID", "id"), num(195 if s == "J" else 3))
        C.same("carry", f, tag, "satellite system", rd("satID", "system"), num(C.sysn[SYSNAME[s]]))
        C.same("carry", f, tag, "dataLoadedFlag", rd("dataLoadedFlag"), TRUE)
        C.same("carry", f, tag, "dndot", rd("dndot"), num(0))
        C.same("carry", f, tag, "Adot", rd("Adot"), num(0))
        ts = C.ts[TSYS[s]]
        C.moment(f, tag, "ctToc", getct(st, R, ("ctToc",)), toc, ts)
        C.moment(f, tag, "ctToe", getct(st, R, ("ctToe",)), toe, ts)
        hours = {0: 4, 1: 6, 4: 4, 6: 6}[fit] if s == "G" else {0: 2, 1: 4}[fit] if s == "J" else 4
        if s == "G":
            # on an hour epoch the transmission time is nominal: half the fit interval before it
            sent = toc - hours // 2 * 3600 if toc % 3600 == 0 else x
            C.moment(f, tag, "transmitTime", getct(st, R, ("transmitTime",)), sent, ts)
            C.seconds(f, tag, "HOWtime", None, rd("HOWtime"), sent + 6)
            C.same("validity", f, tag, "fitint", rd("fitint"), num(hours))
            begin = toc - hours // 2 * 3600 if toc % 7200 == 0 else sent - sent % 30
            end = toe - toe % 3600 + (3600 if toe % 3600 else 0) + hours // 2 * 3600
        else:
            sent = x
            C.moment(f, tag, "transmitTime", getct(st, R, ("transmitTime",)), sent, ts)
            begin = sent if s != "C" else max(sent, toe)
            end = toe + {"E": 4 * 3600, "C": 7 * DAY, "J": hours * 1800}[s]
        if s != "C":
            C.same("validity", f, tag, "fitDuration", rd("fitDuration"), num(hours))
        for nm, sec in (("beginValid", begin), ("endValid", end)):
            got = getct(st, R, (nm,))
            if got is None:
                C.ctx.unresolved("validity", where(f), "%s: %s" % (tag, nm))
                continue
            C.n += 1
            C.ctx.ob("validity", got == (sec, ts), where(f), "%s: %s %s" % (tag, nm, "is right" if got == (sec, ts) else "is off by %s s" % (got[0] - sec)), "validity|%s|%s" % (tag.split(":")[0], nm))
    if s == "E":
        galhealth(C, f, case)


def galhealth(C, f, case):
    """RINEX 3 Table A8: each source's own bits decide"""
    if case is not CASES[0]:
        return
    en = C.p.enum("gpstk::Xvt::HealthStatus")
    C.ctx.need(en, "enum gpstk::Xvt::HealthStatus")
    hs = dict((n, v) for n, v, _ in en["vals"])
    g = C.fn(R3, src=CLS["E"])
    for src, shift in ((1, 0), (2, 3), (4, 6), (5, 0)):
        for bits in range(8):
            DVS, HS = bits & 1, bits >> 1
            want = "Unhealthy" if HS in (1, 3) else "Degraded" if HS == 2 or DVS else "Healthy"
            st = rec3(C, "E", case)
            # the other sources' bits are all set
            st.write(("this",), ("health",), num((bits << shift) | (0x1ff & ~(7 << shift))))
            st.write(("this",), ("datasources",), num(src))
            st, th = C.out(f, R3, st)
            if st is None:
                continue
            C.same("carry", f, "Rinex3NavData to GalEphemeris: source %d health bits %d" % (src, bits), "health", st.read(("OUT",), ("health",)), num(hs[want]))
        for name in ("Healthy", "Degraded", "Unhealthy"):
            st = eph(C, "E", case)
            st.write(("P", "src"), ("health",), num(hs[name]))
            st.write(("P", "src"), ("datasources",), num(src))
            s1, th = C.make(g, R3, CLS["E"], st)
            if s1 is None:
                continue
            h = s1.read(("this",), ("health",))
            tag = "GalEphemeris to Rinex3NavData: source %d %s" % (src, name)
            if not isnum(h):
                C.ctx.unresolved("carry", where(g), tag + ": health = " + show(h)[:80])
                continue
            b = int(val(h)) >> shift & 7
            back = "Unhealthy" if b >> 1 in (1, 3) else "Degraded" if b else "Healthy"
            C.n += 1
            C.ctx.ob("carry", back == name, where(g), "%s: the health bits mean %s" % (tag, back), "carry|GalEphemeris to Rinex3NavData|health")


def eph(C, s, case, root=("P", "src")):
    name, x, toc, toe = case
    st = State()
    symobject(C.p, CLS[s], st, root)
    ts = C.ts[TSYS[s]]
    for m, sec in (("ctToc", toc), ("ctToe", toe), ("transmitTime", x)):
        setct(st, root, (m,), sec, ts)
    st.write(root, ("satID", "system"), num(C.sysn[SYSNAME[s]]))
    st.write(root, ("satID", "id"), num(195 if s == "J" else 3))
    if s == "E":
        st.write(root, ("datasources",), num(1))
    return st


def torec(C, s, case):
    """ephemeris -> Rinex3NavData"""
    name, x, toc, toe = case
    f = C.fn(R3, src=CLS[s])
    tag = "%s to Rinex3NavData: %s" % (CLS[s].rsplit("::", 1)[1], name)
    st, th = C.make(f, R3, CLS[s], eph(C, s, case))
    if not C.done(f, tag, st, th):
        return
    R = ("this",)
    fds = {q[0] for q, t in flatmembers(C.p, R3) if len(q) == 2 and q[1] == "val"}
    rd = lambda m: st.read(R, (m, "val") if m in fds else (m,))
    for m in KEP:
        C.same("carry", f, tag, m, rd(m), O(m))
    for m, dst in OWN[s].items():
        C.same("carry", f, tag, dst, rd(dst), num(1) if m == "datasources" else O(m))
    a = rd("Ahalf")
    C.same("carry", f, tag, "Ahalf", a, T("call", "sqrt", O("A")))
    if s in "GJ":
        C.same("carry", f, tag, "fitint", rd("fitint"), O("fitint"))
    C.same("carry", f, tag, "PRNID", rd("PRNID"), num(3))
    C.same("carry", f, tag, "satSys", rd("satSys"), sstr(s))
    C.same("carry", f, tag, "sat number", st.read(R, ("sat", "id")), num(195 if s == "J" else 3))
    C.same("carry", f, tag, "sat system", st.read(R, ("sat", "system")), num(C.sysn[SYSNAME[s]]))
    C.moment(f, tag, "time", getct(st, R, ("time",)), toc, C.ts[TSYS[s]])
    C.seconds(f, tag, "Toc", None, rd("Toc"), toc)
    C.seconds(f, tag, "Toe", None, rd("Toe"), toe)
    C.seconds(f, tag, "weeknum and xmitTime", rd("weeknum"), rd("xmitTime"), x, WEEK - (BDT0 if s == "C" else 0))


def engvals(C, f, tag, st, R, case, src, fd, iodc=True):
    """members of an EngEphemeris"""
    name, x, toc, toe = case
    ts = C.ts["GPS"]
    rd = lambda *q: st.read(R, q)
    w = lambda m: O(m, "val") if fd else O(m)
    for m in ("af0", "af1", "af2"):
        C.same("carry", f, tag, m, rd("bcClock", m), w(m))
    for m in KEP[3:] + ["Ahalf"]:
        C.same("carry", f, tag, m, rd("orbit", m), w(m))
    C.same("carry", f, tag, "A", rd("orbit", "A"), mul(w("Ahalf"), w("Ahalf")))
    for m, s in (("codeflags", "codeflgs"), ("health", "health"), ("L2Pdata", "L2Pdata")):
        C.same("carry", f, tag, m, rd(m), O(s))
    C.same("carry", f, tag, "Tgd", rd("Tgd"), w("Tgd"))
    C.same("carry", f, tag, "IODE", rd("IODE"), w("IODE"))
    C.same("carry", f, tag, "IODC", rd("IODC"), num(10))
    C.same("carry", f, tag, "PRNID", rd("PRNID"), num(3))
    C.same("carry", f, tag, "satSys", rd("satSys"), sstr("G"))
    C.same("carry", f, tag, "URA index", rd("orbit", "URAoe"), num(1))
    for k in range(3):
        C.same("carry", f, tag, "subframe %d present" % (k + 1), rd("haveSubframe", num(k)), TRUE)
        C.seconds(f, tag, "HOW time of subframe %d" % (k + 1), None, rd("HOWtime", num(k)), x + 6 * (k + 1))
    C.seconds(f, tag, "weeknum and HOWtime", rd("weeknum"), rd("HOWtime", num(0)), x + 6)
    C.moment(f, tag, "Toc", getct(st, R, ("bcClock", "Toc")), toc, ts)
    C.moment(f, tag, "Toe", getct(st, R, ("orbit", "Toe")), toe, ts)


def engfit(C, f, tag, st, R, case, hours):
    toe = case[3]
    for nm, sec in (("beginFit", toe - hours // 2 * 3600), ("endFit", toe + hours // 2 * 3600)):
        got = getct(st, R, ("orbit", nm))
        if got is None:
            C.ctx.unresolved("validity", where(f), "%s: %s" % (tag, nm))
            continue
        C.n += 1
        C.ctx.ob("validity", got == (sec, C.ts["GPS"]), where(f), "%s: %s %s" % (tag, nm, "is half the fit interval from Toe" if got[0] == sec else "is off by %s s" % (got[0] - sec)),
                 "validity|%s|%s" % (tag.split(":")[0], nm))


def rec3toeng(C, case):
    f = C.fn(R3, ENG)
    for fit, hours in ((4, 4), (6, 6)):
        tag = "Rinex3NavData to EngEphemeris: %s, fit %d" % (case[0], fit)
        st, th = C.out(f, R3, rec3(C, "G", case, fit=fit))
        if not C.done(f, tag, st, th):
            continue
        engvals(C, f, tag, st, ("OUT",), case, R3, True)
        engfit(C, f, tag, st, ("OUT",), case, hours)


def eng(C, case, root=("P", "src"), fit=1):
    name, x, toc, toe = case
    st = State()
    for sub, cls in (((), ENG), (("orbit",), "gpstk::BrcKeplerOrbit"), (("bcClock",), "gpstk::BrcClockCorrection")):
        for path, t in flatmembers(C.p, cls):
            if any(w in t for w in ("Orbit", "Clock", "CommonTime", "ObsID", "map<", "vector<")):
                continue
            st.write(root, sub + path, O(*path))
    ts = C.ts["GPS"]
    setct(st, root, ("bcClock", "Toc"), toc, ts)
    setct(st, root, ("orbit", "Toe"), toe, ts)
    for k in range(3):
        st.write(root, ("haveSubframe", num(k)), TRUE)
        st.write(root, ("HOWtime", num(k)), num((x + 6 * (k + 1)) % FULLWEEK))
    for path, v in ((("weeknum",), WEEK + x // FULLWEEK), (("PRNID",), 3), (("IODC",), 10), (("fitint",), fit), (("orbit", "URAoe"), 1),
                    (("orbit", "dataLoaded"), 1), (("bcClock", "dataLoaded"), 1)):
        st.write(root, path, num(v))
    st.write(root, ("satSys",), sstr("G"))
    return st


def engtorec(C, case):
    name, x, toc, toe = case
    for cls in (R3, R2):
        f = C.fn(cls, src=ENG)
        for fit, hours in ((0, 4), (1, 6)):
            tag = "EngEphemeris to %s: %s, fit %d" % (cls.rsplit("::", 1)[1], name, hours)
            st, th = C.make(f, cls, ENG, eng(C, case, fit=fit))
            if not C.done(f, tag, st, th):
                continue
            R = ("this",)
            fds = {q[0] for q, t in flatmembers(C.p, cls) if len(q) == 2 and q[1] == "val"}
            rd = lambda m: st.read(R, (m, "val") if m in fds else (m,))
            for m in KEP + ["Ahalf", "Tgd", "IODE", "health", "L2Pdata"]:
                C.same("carry", f, tag, m, rd(m), O(m))
            C.same("carry", f, tag, "codeflgs", rd("codeflgs"), O("codeflags"))
            C.same("carry", f, tag, "IODC", rd("IODC"), num(10))
            C.same("carry", f, tag, "PRNID", rd("PRNID"), num(3))
            C.same("carry", f, tag, "fitint", rd("fitint"), num(hours))
            C.same("carry", f, tag, "accuracy", rd("accuracy"), num(Fraction("3.4")))
            C.moment(f, tag, "time", getct(st, R, ("time",)), toc, C.ts["GPS"])
            C.seconds(f, tag, "Toe", None, rd("Toe"), toe)
            if cls == R3:
                C.same("carry", f, tag, "satSys", rd("satSys"), sstr("G"))
                C.seconds(f, tag, "Toc", None, rd("Toc"), toc)
                C.seconds(f, tag, "weeknum and xmitTime", rd("weeknum"), rd("xmitTime"), x)
            else:
                C.seconds(f, tag, "toeWeek and sf1XmitTime", rd("toeWeek"), rd("sf1XmitTime"), x)
                C.seconds(f, tag, "toeWeek and Toe", rd("toeWeek"), rd("Toe"), toe)


def rec2src(C, case, root, fit=4):
    name, x, toc, toe = case
    st = defaultobj(C.p, R2)
    tw = toe // FULLWEEK
    symobject(C.p, R2, st, root, fixed={("PRNID",): num(3), ("sf1XmitTime",): num(x - tw * FULLWEEK), ("toeWeek",): num(WEEK + tw), ("Toe", "val"): num(toe % FULLWEEK),
              ("fitint", "val"): num(fit), ("IODC", "val"): num(10), ("accuracy", "val"): num(Fraction("2.8"))})
    setct(st, root, ("time",), toc, C.ts["GPS"])
    return st


def rec2(C, case):
    """RINEX 2 records"""
    name, x, toc, toe = case
    ts = C.ts["GPS"]
    f = C.fn(R2, ENG)
    for fit, hours in ((4, 4), (6, 6)):
        tag = "RinexNavData to EngEphemeris: %s, fit %d" % (name, fit)
        st, th = C.out(f, R2, rec2src(C, case, ("this",), fit))
        if C.done(f, tag, st, th):
            engvals(C, f, tag, st, ("OUT",), case, R2, True)
            engfit(C, f, tag, st, ("OUT",), case, hours)
    g = C.fn(R2, CLS["G"])
    for fit, hours in ((0, 4), (1, 6), (4, 4), (6, 6)):
        tag = "RinexNavData to GPSEphemeris: %s, fit %d" % (name, fit)
        st, th = C.out(g, R2, rec2src(C, case, ("this",), fit))
        if not C.done(g, tag, st, th):
            continue
        R = ("OUT",)
        rd = lambda *q: st.read(R, q)
        for m in KEP:
            C.same("carry", g, tag, m, rd(m), O(m, "val"))
        C.same("carry", g, tag, "A", rd("A"), mul(O("Ahalf", "val"), O("Ahalf", "val")))
        for m, v in (("IODC", num(10)), ("IODE", O("IODE", "val")), ("health", O("health")), ("Tgd", O("Tgd", "val")), ("codeflags", O("codeflgs")),
                     ("L2Pdata", O("L2Pdata")), ("accuracy", num(Fraction("2.8"))), ("accuracyFlag", num(1)), ("fitDuration", num(hours)), ("dataLoadedFlag", TRUE)):
            C.same("carry", g, tag, m, rd(m), v)
        C.same("carry", g, tag, "satellite number", rd("satID", "id"), num(3))
        C.moment(g, tag, "ctToc", getct(st, R, ("ctToc",)), toc, ts)
        C.moment(g, tag, "ctToe", getct(st, R, ("ctToe",)), toe, ts)
        C.moment(g, tag, "transmitTime", getct(st, R, ("transmitTime",)), x, ts)
        C.seconds(g, tag, "HOWtime", None, rd("HOWtime"), x + 6)
    h = C.fn(R3, src=R2)
    tag = "RinexNavData to Rinex3NavData: %s" % name
    st = rec2src(C, case, ("P", "src"))
    st, th = C.make(h, R3, R2, st)
    if not C.done(h, tag, st, th):
        return
    R = ("this",)
    f2 = {q[0] for q, t in flatmembers(C.p, R2) if len(q) == 2 and q[1] == "val"}
    f3 = {q[0] for q, t in flatmembers(C.p, R3) if len(q) == 2 and q[1] == "val"}
    rd = lambda m: st.read(R, (m, "val") if m in f3 else (m,))
    for m in KEP + ["Ahalf", "Tgd", "IODE", "codeflgs", "L2Pdata", "health"]:
        C.same("carry", h, tag, m, rd(m), O(m, "val") if m in f2 else O(m))
    for m, v in (("IODC", num(10)), ("accuracy", num(Fraction("2.8"))), ("fitint", num(4)), ("PRNID", num(3)), ("satSys", sstr("G"))):
        C.same("carry", h, tag, m, rd(m), v)
    C.moment(h, tag, "time", getct(st, R, ("time",)), toc, ts)
    C.seconds(h, tag, "Toc", None, rd("Toc"), toc)
    C.seconds(h, tag, "Toe", None, rd("Toe"), toe)
    C.seconds(h, tag, "weeknum and xmitTime", rd("weeknum"), rd("xmitTime"), x)


GLOM = [("clkbias", "TauN"), ("clkdrift", "GammaN"), ("MFtime", "MFtime"), ("health", "health"), ("freqNum", "freqNum"), ("ageOfInfo", "ageOfInfo")]


def glonass(C):
    p = C.p
    f = C.fn(R3, GLO)
    st = rec3(C, "R", CASES[0])
    tag = "Rinex3NavData to GloEphemeris"
    st, th = C.out(f, R3, st)
    if C.done(f, tag, st, th):
        R = ("OUT",)
        f3 = {q[0] for q, t in flatmembers(p, R3) if len(q) == 2 and q[1] == "val"}
        for m, s in GLOM:
            C.same("carry", f, tag, m, st.read(R, (m,)), O(s, "val") if s in f3 else O(s))
        for m, s in (("x", "p"), ("v", "v"), ("a", "a")):
            for k, c in enumerate("xyz"):
                C.same("carry", f, tag, "%s[%d]" % (m, k), triple(st, R, m, k), O(s + c, "val") if s + c in f3 else O(s + c))
        C.same("carry", f, tag, "PRNID", st.read(R, ("PRNID",)), num(3))
        C.moment(f, tag, "ephTime", getct(st, R, ("ephTime",)), CASES[0][2], C.ts["GLO"])
        C.same("carry", f, tag, "valid", st.read(R, ("valid",)), TRUE)
    g = C.fn(R3, src=GLO)
    tag = "GloEphemeris to Rinex3NavData"
    st = State()
    symobject(p, GLO, st, ("P", "src"), fixed={("valid",): TRUE, ("PRNID",): num(3), ("satSys",): sstr("R")})
    for m in "xva":
        st.write(("P", "src"), (m, "theArray"), T("arr", *[O(m, str(k)) for k in range(3)]))
    setct(st, ("P", "src"), ("ephTime",), CASES[0][2], C.ts["GLO"])
    st, th = C.make(g, R3, GLO, st)
    if C.done(g, tag, st, th):
        R = ("this",)
        f3 = {q[0] for q, t in flatmembers(p, R3) if len(q) == 2 and q[1] == "val"}
        rd = lambda m: st.read(R, (m, "val") if m in f3 else (m,))
        for m, s in GLOM:
            C.same("carry", g, tag, s, rd(s), O(m))
        for m, s in (("x", "p"), ("v", "v"), ("a", "a")):
            for k, c in enumerate("xyz"):
                C.same("carry", g, tag, s + c, rd(s + c), O(m, str(k)))
        C.same("carry", g, tag, "PRNID", rd("PRNID"), num(3))
        C.same("carry", g, tag, "satSys", rd("satSys"), sstr("R"))
        C.moment(g, tag, "time", getct(st, R, ("time",)), CASES[0][2], C.ts["GLO"])


def triple(st, R, m, k):
    v = st.read(R, (m, "theArray"))
    if v.op == "arr" and k < len(v.args):
        return v.args[k]
    return st.read(R, (m, "theArray", num(k)))


def rejects(C):
    for s in "GECJ":
        f = C.fn(R3, CLS[s])
        for o in "GECJRS":
            if o == s:
                continue
            st = rec3(C, o if o != "S" else "R", CASES[0])
            if o == "S":
                st.write(("this",), ("satSys",), sstr("S"))
                st.write(("this",), ("sat", "system"), num(C.sysn["Geosync"]))
            st, th = C.out(f, R3, st)
            tag = "Rinex3NavData to %s" % CLS[s].rsplit("::", 1)[1]
            if st is None:
                continue
            v = st.read(("OUT",), ("dataLoadedFlag",))
            if not isnum(v):
                C.ctx.unresolved("rejects", where(f), "%s: record of %s: %s" % (tag, o, show(v)[:100]))
                continue
            C.n += 1
            C.ctx.ob("rejects", not val(v), where(f), "%s: a record of system %s is %sconverted" % (tag, o, "" if val(v) else "not "), "rejects|%s|%s" % (tag, o))


def almanacs(C):
    """SEM and Yuma almanac records -> AlmOrbit and OrbAlmGen"""
    same = ["ecc", "i_offset", "OMEGAdot", "Ahalf", "OMEGA0", "w", "M0", "AF0", "AF1", "SV_health", "PRN", "Toa", "xmit_time", "week"]
    gen = {"AHalf": "Ahalf", "af0": "AF0", "af1": "AF1", "OMEGA0": "OMEGA0", "ecc": "ecc", "deltai": "i_offset", "i0": "i_total", "OMEGAdot": "OMEGAdot", "w": "w", "M0": "M0", "toa": "Toa",
           "health": "SV_health"}
    for cls in ("gpstk::SEMData", "gpstk::YumaData"):
        K = cls.rsplit("::", 1)[1]
        fds = {q[0] for q, t in flatmembers(C.p, cls) if len(q) == 2 and q[1] == "val"}
        w = lambda m: O(m, "val") if m in fds else O(m)
        f = C.fn(cls, "gpstk::AlmOrbit")
        st = State()
        symobject(C.p, cls, st, ("this",))
        st, th = C.out(f, cls, st)
        tag = "%s to AlmOrbit" % K
        if C.done(f, tag, st, th):
            for m in same:
                C.same("carry", f, tag, m, st.read(("OUT",), (m,)), w(m))
        f = C.fn(cls, "gpstk::OrbAlmGen")
        for toa in (0, 61440, 319488, 589824):
            for health in (0, 1, 63):
                st = State()
                symobject(C.p, cls, st, ("this",), fixed={("PRN",): num(3), ("Toa",): num(toa), ("week",): num(WEEK), ("SV_health",): num(health)})
                st, th = C.out(f, cls, st)
                tag = "%s to OrbAlmGen: toa %d, health %d" % (K, toa, health)
                if not C.done(f, tag, st, th):
                    continue
                rd = lambda *q: st.read(("OUT",), q)
                for m, src in gen.items():
                    C.same("carry", f, tag, m, rd(m), num({"Toa": toa, "SV_health": health}[src]) if src in ("Toa", "SV_health") else w(src))
                C.same("carry", f, tag, "A", rd("A"), mul(w("Ahalf"), w("Ahalf")))
                C.same("carry", f, tag, "subject number", rd("subjectSV", "id"), num(3))
                C.same("carry", f, tag, "subject system", rd("subjectSV", "system"), num(C.sysn["GPS"]))
                C.same("carry", f, tag, "dataLoadedFlag", rd("dataLoadedFlag"), TRUE)
                C.same("carry", f, tag, "healthy", rd("healthy"), TRUE if health == 0 else FALSE)
                C.moment(f, tag, "ctToe", getct(st, ("OUT",), ("ctToe",)), toa, C.ts["GPS"])
                # IS-GPS-200 Table 20-XIII: transmitted from 70 h before toa, for 144 h
                for nm, sec in (("beginValid", toa - 70 * 3600), ("endValid", toa + 74 * 3600)):
                    got = getct(st, ("OUT",), (nm,))
                    if got is None:
                        C.ctx.unresolved("validity", where(f), "%s: %s" % (tag, nm))
                        continue
                    C.n += 1
                    C.ctx.ob("validity", got == (sec, C.ts["GPS"]), where(f), "%s: %s %s" % (tag, nm, "is right" if got[0] == sec else "is off by %s s" % (got[0] - sec)),
                             "validity|%s|%s" % (tag.split(":")[0], nm))
