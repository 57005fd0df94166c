"""C15 broadcast orbit and clock are computed as the interface documents lay them out."""
import random
from mpmath import mp, mpf
import mpmath
from ..check import where
from ..interp import *
from ..prog import lib_sources
from ..real import Real, NoValue

PI = mpf("3.1415926535898")          # the value the documents give
GPS, GAL, BDS, QZS = "GPS", "Galileo", "BeiDou", "QZSS"
CONST = {GPS: (mpf("3.986005e14"), mpf("7.2921151467e-5")), QZS: (mpf("3.986005e14"), mpf("7.2921151467e-5")),
         GAL: (mpf("3.986004418e14"), mpf("7.2921151467e-5")), BDS: (mpf("3.986004418e14"), mpf("7.292115e-5"))}
FREL = mpf("-4.442807633e-10")
C = mpf(299792458)
TOLX, TOLV, TOLT, TOLD = mpf("1e-4"), mpf("1e-6"), mpf("1e-14"), mpf("1e-20")    # m, m/s, s, s/s
EPOCH0 = 2444245                     # day number of the GPS epoch (a Sunday)


class Orbit:
    """parameters of one broadcast orbit at a sample point"""

    def __init__(self, rnd, kind, ecc, dt, dtc, toe):
        u = lambda a: mpf(rnd.uniform(-a, a))
        self.A = mpf(26560000) + u(20000) if kind not in ("geo", "igso") else mpf(42164000) + u(20000)
        self.ecc = mpf(ecc)
        self.M0, self.w, self.OMEGA0 = u(3.1), u(3.1), u(3.1)
        self.i0 = mpf("0.96") + u(0.05) if kind != "geo" else mpf("0.06") + u(0.05)
        self.idot, self.OMEGAdot = u(5e-10), mpf("-8e-9") + u(1e-9)
        self.dn = mpf("4.5e-9") + u(1e-9)
        for n, a in (("Cuc", 6e-6), ("Cus", 9e-6), ("Cic", 3e-7), ("Cis", 3e-7), ("Crc", 300), ("Crs", 100)):
            setattr(self, n, u(a))
        self.af0, self.af1, self.af2 = u(5e-4), u(1e-11), u(1e-16)
        self.Adot, self.dndot = mpf(0), mpf(0)
        if kind == "cnav":
            self.Adot = u(0.02)
        if kind == "cnavn":
            self.Adot, self.dndot = u(0.02), u(1e-13)
        if kind == "alm":
            for n in ("Cuc", "Cus", "Cic", "Cis", "Crc", "Crs", "idot", "dn", "af2"):
                setattr(self, n, mpf(0))
        self.toe = toe                                   # (day, msod, fsod)
        self.toc = add_sec(toe, rnd.choice([0, 0, 900, -16]))
        self.t = add_sec(toe, dt)
        self.toesow = ((toe[0] - EPOCH0) % 7) * 86400 + mpf(toe[1]) / 1000 + toe[2]

    def pos(self, sysc, tk, geo):
        mu, om = sysc
        n = mpmath.sqrt(mu / self.A ** 3) + self.dn + self.dndot * tk / 2
        M = self.M0 + n * tk
        E = M
        for _ in range(60):
            d = (M - E + self.ecc * mpmath.sin(E)) / (1 - self.ecc * mpmath.cos(E))
            E += d
            if abs(d) < mpf(10) ** -28:
                break
        nu = mpmath.atan2(mpmath.sqrt(1 - self.ecc ** 2) * mpmath.sin(E), mpmath.cos(E) - self.ecc)
        ph = nu + self.w
        s2, c2 = mpmath.sin(2 * ph), mpmath.cos(2 * ph)
        uu = ph + self.Cus * s2 + self.Cuc * c2
        r = (self.A + self.Adot * tk) * (1 - self.ecc * mpmath.cos(E)) + self.Crs * s2 + self.Crc * c2
        i = self.i0 + self.Cis * s2 + self.Cic * c2 + self.idot * tk
        xp, yp = r * mpmath.cos(uu), r * mpmath.sin(uu)
        L = self.OMEGA0 + (self.OMEGAdot - (0 if geo else om)) * tk - om * self.toesow
        x = xp * mpmath.cos(L) - yp * mpmath.cos(i) * mpmath.sin(L)
        y = xp * mpmath.sin(L) + yp * mpmath.cos(i) * mpmath.cos(L)
        z = yp * mpmath.sin(i)
        if geo:
            a = -5 * PI / 180
            y, z = y * mpmath.cos(a) + z * mpmath.sin(a), -y * mpmath.sin(a) + z * mpmath.cos(a)
            b = om * tk
            x, y = x * mpmath.cos(b) + y * mpmath.sin(b), -x * mpmath.sin(b) + y * mpmath.cos(b)
        return [x, y, z], E

    def want(self, system, geo):
        """position, velocity, relativity, clock bias and drift the documents give"""
        k = CONST[system]
        tk = diff(self.t, self.toe)
        x, E = self.pos(k, tk, geo)
        h = mpf("1e-4")
        a, b = self.pos(k, tk - h, geo)[0], self.pos(k, tk + h, geo)[0]
        v = [(q - p) / (2 * h) for p, q in zip(a, b)]
        tc = diff(self.t, self.toc)
        return dict(x=x, v=v, relcorr=FREL * self.ecc * mpmath.sqrt(self.A) * mpmath.sin(E), clkbias=self.af0 + self.af1 * tc + self.af2 * tc ** 2,
                    clkdrift=self.af1 + 2 * self.af2 * tc)


def add_sec(t, s):
    d, ms, fs = t
    ms = ms + int(s * 1000)
    return (d + ms // 86400000, ms % 86400000, fs)


def diff(a, b):
    return mpf(86400 * (a[0] - b[0])) + mpf(a[1] - b[1]) / 1000 + a[2] - b[2]


SUN = EPOCH0 + 7 * 1886
# epoch of the elements and the time asked for: same day, over midnight, over the end of the week both ways, at the epoch
CASES = [((SUN + 2, 43200000, mpf(0)), 3600.25), ((SUN + 2, 43200000, mpf(0)), -7000.5), ((SUN + 4, 79200000, mpf(0)), 7150.125), ((SUN + 6, 82800000, mpf(0)), 7000.75),
         ((SUN + 7, 0, mpf(0)), -3000.5), ((SUN + 7, 3600000, mpf("0.25")), 0), ((SUN + 3, 16000, mpf(0)), 5.5)]
ECC = [0.0, 0.0005, 0.012, 0.027, 0.08, 0.2]


class Target:
    def __init__(self, name, qual, cls, system, kinds, names, pre=(), out=None, alm=False, label=None):
        self.name, self.qual, self.cls, self.system, self.kinds, self.names, self.pre, self.out, self.alm = name, qual, cls, system, kinds, names, pre, out, alm


OE = dict((n, "this." + n) for n in "A Adot dn dndot M0 ecc w OMEGA0 OMEGAdot i0 idot Cuc Cus Cic Cis Crc Crs af0 af1 af2".split())
OE.update(toe="this.ctToe", toc="this.ctToc")
BRC = dict(OE, toe="this.Toe", Ahalf="this.Ahalf")
for n in ("toc", "af0", "af1", "af2"):
    BRC.pop(n)
CLK = dict(toc="this.Toc", af0="this.af0", af1="this.af1", af2="this.af2")
ENG = {k: v.replace("this.", "this.orbit.") for k, v in BRC.items()}
ENG.update({k: v.replace("this.", "this.bcClock.") for k, v in CLK.items()})
ALM = dict(ecc="this.ecc", i_offset="this.i_offset", OMEGAdot="this.OMEGAdot", Ahalf="this.Ahalf", OMEGA0="this.OMEGA0", w="this.w", M0="this.M0", af0="this.AF0", af1="this.AF1",
           Toa="this.Toa", week="this.week")
SYS = {"GPS": 1, "Galileo": 2, "BeiDou": 7, "QZSS": 6}


def kepler(name, qual, cls, kinds, names, pre=(), **kw):
    return Target(name, qual, cls, kw.pop("system"), kinds, names, pre, **kw)


ALL = ("x", "v", "relcorr", "clkbias", "clkdrift")
G = "gpstk::"


def targets():
    t = []
    for s, c, kinds in ((GPS, "GPSEphemeris", ("lnav", "cnav", "cnavn")), (QZS, "QZSEphemeris", ("igso",)), (GAL, "GalEphemeris", ("lnav",)), (BDS, "BDSEphemeris", ("lnav", "igso", "geo"))):
        t.append((s + " " + c, G + c, "svXvt", s, kinds, OE, ALL))
        for f, o in (("svRelativity", "relcorr"), ("svClockBias", "clkbias"), ("svClockDrift", "clkdrift")):
            t.append((s + " " + c, G + c, f, s, kinds[:1], OE, (o,)))
    for s in (GPS, QZS, GAL, BDS):
        kinds = ("lnav", "cnav", "cnavn") if s in (GPS, QZS) else ("lnav",)
        t.append((s + " OrbElemRinex", G + "OrbElemRinex", "svXvt", s, kinds, OE, ALL))
        for f, o in (("svRelativity", "relcorr"), ("svClockBias", "clkbias"), ("svClockDrift", "clkdrift")):
            t.append((s + " OrbElemRinex", G + "OrbElemRinex", f, s, kinds[:1], OE, (o,)))
    t.append(("BrcKeplerOrbit", G + "BrcKeplerOrbit", "svXvt", GPS, ("lnav", "cnav", "cnavn"), BRC, ("x", "v", "relcorr")))
    t.append(("BrcKeplerOrbit", G + "BrcKeplerOrbit", "svRelativity", GPS, ("lnav",), BRC, ("relcorr",)))
    t.append(("BrcClockCorrection", G + "BrcClockCorrection", "svClockBias", GPS, ("lnav",), CLK, ("clkbias",)))
    t.append(("BrcClockCorrection", G + "BrcClockCorrection", "svClockBiasM", GPS, ("lnav",), CLK, ("clkbiasm",)))
    t.append(("OrbElemRinex", G + "OrbElemRinex", "svClockBiasM", GPS, ("lnav",), OE, ("clkbiasm",)))
    t.append(("BrcClockCorrection", G + "BrcClockCorrection", "svClockDrift", GPS, ("lnav",), CLK, ("clkdrift",)))
    t.append(("EngEphemeris", G + "EngEphemeris", "svXvt", GPS, ("lnav",), ENG, ALL))
    for f, o in (("svRelativity", "relcorr"), ("svClockBias", "clkbias"), ("svClockDrift", "clkdrift")):
        t.append(("EngEphemeris", G + "EngEphemeris", f, GPS, ("lnav",), ENG, (o,)))
    t.append(("AlmOrbit", G + "AlmOrbit", "svXvt", GPS, ("alm",), ALM, ("x", "v", "clkbias", "clkdrift")))
    alm = {k: v for k, v in OE.items() if k in "A ecc M0 w OMEGA0 OMEGAdot i0 af0 af1 toe".split()}
    t.append(("OrbAlmGen", G + "OrbAlmGen", "svXvt", GPS, ("alm",), alm, ("x", "v", "relcorr", "clkbias", "clkdrift")))
    for f, o in (("svRelativity", "relcorr"), ("svClockBias", "clkbias"), ("svClockDrift", "clkdrift"), ("svClockBiasM", "clkbiasm")):
        t.append(("OrbAlmGen", G + "OrbAlmGen", f, GPS, ("alm",), alm, (o,)))
    return t


def method(ctx, p, cls, name):
    """the function a call of that member on an object of that class reaches"""
    seen = [cls]
    while seen:
        c = seen.pop(0)
        fs = [f for f in p.find(c + "::" + name, need=False) if len(f["params"]) == 1 and "CommonTime" in f["params"][0]["t"] and f.get("body")]
        if fs:
            ctx.need(len(fs) == 1, "%s::%s: one function" % (cls, name))
            return fs[0]
        r = p.rec(c)
        ctx.need(r is not None, "class " + c)
        seen += [b["t"] if isinstance(b, dict) else b for b in r.get("bases", [])]
    ctx.need(False, "%s::%s(const CommonTime&)" % (cls, name))


def leaves_of(o, names, tname):
    env = {}
    for k, pth in names.items():
        if k in ("toe", "toc"):
            v = getattr(o, k)
            env[pth + ".m_day"], env[pth + ".m_msod"], env[pth + ".m_fsod"] = mpf(v[0]), mpf(v[1]), v[2]
            env[pth + ".m_timeSystem"] = mpf(2)
        elif k == "Ahalf":
            env[pth] = mpmath.sqrt(o.A)
        elif k == "i_offset":
            env[pth] = o.i0 - mpf("0.3") * PI
        elif k == "Toa":
            env[pth] = o.toesow
        elif k == "week":
            env[pth] = mpf((o.toe[0] - EPOCH0) // 7)
        else:
            env[pth] = getattr(o, k)
    env[tname + ".m_day"], env[tname + ".m_msod"], env[tname + ".m_fsod"] = mpf(o.t[0]), mpf(o.t[1]), o.t[2]
    env[tname + ".m_timeSystem"] = mpf(2)
    for n in ("this.health", "this.healthy", "this.SV_health", "this.dataLoadedFlag"):
        env[n] = mpf(1)
    return env


def extractfn(ctx, p, cls, fn, system):
    I = Interp(p, inline=lambda a, b: True)
    I.quietcalls = True
    st = State()
    if "BrcK" not in cls and "BrcC" not in cls and "Eng" not in cls and "AlmOrbit" not in cls:
        st.write(("this",), ("satID", "system"), num(SYS[system]))
        st.write(("this",), ("dataLoadedFlag",), num(1))
    r = I.run(fn, cls=cls, state=st)
    return I, r


def element(R, k):
    st = State()
    st.write(("R",), (), R)
    if k in ("x", "v"):
        return [st.read(("R",), (k, "theArray", num(i))) for i in range(3)]
    return [st.read(("R",), (k,))]


TOL = {"x": TOLX, "v": TOLV, "clkdrift": TOLD, "clkbias": TOLT, "clkbiasm": TOLT * C}
WHAT = {"x": "position", "v": "velocity", "relcorr": "relativity correction", "clkbias": "clock bias", "clkdrift": "clock drift", "clkbiasm": "clock bias in metres"}


def compare(got, want, k, tol):
    bad = max(abs(a - b) for a, b in zip(got, want))
    return bad <= tol, bad


def kepler_targets(ctx, p):
    n = 0
    for name, cls, fname, system, kinds, names, outs in targets():
        f = method(ctx, p, cls, fname)
        I, r = extractfn(ctx, p, cls, f, system)
        rep = "%s::%s" % (name, fname)
        if r["state"] is None or r["ret"] is None:
            ctx.ob("formula", False, where(f), "%s returns a result" % rep)
            continue
        R = r["ret"]
        tname = f["params"][0]["n"]
        for kind in kinds:
            rnd = random.Random("%s %s" % (name, kind))
            worst = {}
            err = None
            geo = kind == "geo"
            for ci, (toe, dt) in enumerate(CASES):
                if kind == "alm":
                    toe = (toe[0], toe[1], mpf(0))
                for ecc in ECC:
                    if (kind == "geo" or kind.startswith("cnav")) and ecc > 0.1:
                        continue
                    o = Orbit(rnd, kind, ecc, dt, 0, toe)
                    if kind == "alm" and "Toa" not in names:
                        o.toc = o.toe
                    if kind == "alm" and "Toa" in names:
                        o.toc = o.toe
                    env = leaves_of(o, names, tname)
                    ev = Real(I, env.get)
                    want = o.want(system, geo)
                    want["clkbiasm"] = want["clkbias"] * C
                    for k in outs:
                        w = want[k] if k in ("x", "v") else [want[k]]
                        if k == "v" and o.dndot:
                            continue
                        try:
                            g = [ev.ev(x) for x in (element(R, k) if fname == "svXvt" else [R])]
                        except NoValue as e:
                            err = (k, str(e))
                            break
                        tol = TOL.get(k)
                        if k == "relcorr":
                            tol = abs(FREL) * o.ecc * mpmath.sqrt(o.A) * mpf("1e-5") + mpf("1e-16")
                        ok, bad = compare(g, w, k, tol)
                        n += 1
                        if k not in worst or (worst[k][0] and not ok):
                            worst[k] = (ok, "at %+.6g s from the epoch of the elements%s, eccentricity %g: off by %s" % (
                                float(diff(o.t, o.toe)), " (other week)" if (o.t[0] - EPOCH0) // 7 != (o.toe[0] - EPOCH0) // 7 else "", float(ecc), mpmath.nstr(bad, 3)))
                    if err:
                        break
                if err:
                    break
            for k in outs:
                msg = "%s: the %s%s is the one of the interface document" % (rep, WHAT[k], {"geo": " of a geostationary satellite", "cnav": " with the rate of the semi-major axis",
                                                                                           "cnavn": " with the rate of the mean motion", "igso": " of an inclined geosynchronous satellite",
                                                                                           "alm": " of the almanac"}.get(kind, ""))
                if err and k not in worst:
                    if k == err[0]:
                        ctx.unresolved("formula", where(f), msg + ": " + err[1])
                    continue
                if k in worst:
                    ctx.ob("formula", worst[k][0], where(f), msg + ("" if worst[k][0] else "; " + worst[k][1]), key="formula|%s|%s|%s" % (rep, k, kind))
    ctx.count("comparisons with the reference formulas", n)
    return n


# ---- GLONASS: numerical integration of the equations of motion of the interface document
MU_GLO, AE, J2, OM_GLO = mpf("398600.4418"), mpf("6378.136"), mpf("1.08262575e-3"), mpf("7.292115e-5")


def glo_rate(s, a):
    x, y, z, vx, vy, vz = s
    r2 = x * x + y * y + z * z
    r = mpmath.sqrt(r2)
    k = mpf("1.5") * J2 * MU_GLO * AE ** 2 / r ** 5
    m = -MU_GLO / r ** 3
    w = OM_GLO
    return [vx, vy, vz, m * x - k * x * (1 - 5 * z * z / r2) + w * w * x + 2 * w * vy + a[0], m * y - k * y * (1 - 5 * z * z / r2) + w * w * y - 2 * w * vx + a[1],
            m * z - k * z * (3 - 5 * z * z / r2) + a[2]]


def glo_orbit(s, a, dt, step=15):
    n = max(1, int(abs(dt) / step) + 1)
    h = dt / n
    lin = lambda s, k, f: [p + f * q for p, q in zip(s, k)]
    for _ in range(n if dt else 0):
        k1 = glo_rate(s, a)
        k2 = glo_rate(lin(s, k1, h / 2), a)
        k3 = glo_rate(lin(s, k2, h / 2), a)
        k4 = glo_rate(lin(s, k3, h), a)
        s = [p + h * (b + 2 * c + 2 * d + e) / 6 for p, b, c, d, e in zip(s, k1, k2, k3, k4)]
    return s


GLODT = [0, 30.5, -45.25, 60, 433.75, -611.5, 899.5, -900, 0.25, -0.004, 120.001, -60.25, 359.96, -480.625, -59.75]


def glonass(ctx, p):
    cls = G + "GloEphemeris"
    n = 0
    res = {}

    def note(f, k, ok, text, rep):
        key = (rep, k)
        if key not in res or (res[key][1] and not ok):
            res[key] = (f, ok, text)

    for fname, outs in (("svXvt", ALL), ("svClockBias", ("clkbias",)), ("svClockDrift", ("clkdrift",))):
        f = method(ctx, p, cls, fname)
        I = Interp(p, inline=lambda a, b: True)
        I.quietcalls = True
        st = State()
        st.write(("this",), ("valid",), num(1))
        r = I.run(f, cls=cls, state=st)
        rep = "GloEphemeris::" + fname
        if r["state"] is None:
            ctx.ob("formula", False, where(f), rep + " returns a result")
            continue
        R = r["ret"]
        tn = f["params"][0]["n"]
        for ci, dt in enumerate(GLODT if fname == "svXvt" else GLODT[:3]):
            rnd = random.Random("glo %d" % ci)
            u = lambda a: mpf(rnd.uniform(-a, a))
            # circular orbit of 25508 km, Earth-fixed velocity
            th, inc, nd = u(3.1), mpf("1.13"), u(3.1)
            P = [mpmath.cos(nd) * mpmath.cos(th) - mpmath.sin(nd) * mpmath.sin(th) * mpmath.cos(inc), mpmath.sin(nd) * mpmath.cos(th) + mpmath.cos(nd) * mpmath.sin(th) * mpmath.cos(inc),
                 mpmath.sin(th) * mpmath.sin(inc)]
            Q = [-mpmath.cos(nd) * mpmath.sin(th) - mpmath.sin(nd) * mpmath.cos(th) * mpmath.cos(inc), -mpmath.sin(nd) * mpmath.sin(th) + mpmath.cos(nd) * mpmath.cos(th) * mpmath.cos(inc),
                 mpmath.cos(th) * mpmath.sin(inc)]
            rad, spd = mpf(25508) + u(20), mpf("3.953") + u(0.005)
            x = [rad * e for e in P]
            v = [spd * e for e in Q]
            v = [v[0] + OM_GLO * x[1], v[1] - OM_GLO * x[0], v[2]]
            a = [u(2.8e-9), u(2.8e-9), u(2.8e-9)]
            toe = (SUN + rnd.randrange(7), rnd.choice([900000, 43200000, 86399000 if dt < 0 else 85500000]), mpf(0))
            t = add_sec(toe, dt)
            env = {"this.step": mpf([60, 60, 60, 30, 45][ci % 5]), "this.clkbias": u(2e-4), "this.clkdrift": u(1e-11), "this.valid": mpf(1)}
            for i in range(3):
                env["this.x[%d]" % i], env["this.v[%d]" % i], env["this.a[%d]" % i] = x[i], v[i], a[i]
            for nm, tt in (("this.ephTime", toe), (tn, t)):
                env[nm + ".m_day"], env[nm + ".m_msod"], env[nm + ".m_fsod"], env[nm + ".m_timeSystem"] = mpf(tt[0]), mpf(tt[1]), tt[2], mpf(3)
            s = glo_orbit(x + v, a, diff(t, toe))
            w = dict(x=[1000 * e for e in s[:3]], v=[1000 * e for e in s[3:]])
            ref = s if fname == "svXvt" else x + v
            rel = -2 * sum(1000 * p * 1000 * q for p, q in zip(ref[:3], ref[3:])) / C ** 2
            w["relcorr"] = rel
            w["clkbias"] = env["this.clkbias"] + env["this.clkdrift"] * diff(t, toe) - rel
            w["clkdrift"] = env["this.clkdrift"]
            ev = Real(I, env.get)
            tol = {"x": mpf("0.02"), "v": mpf("1e-4"), "relcorr": mpf("1e-14"), "clkbias": mpf("2e-14"), "clkdrift": TOLD}
            for k in outs:
                try:
                    g = [ev.ev(y) for y in (element(R, k) if fname == "svXvt" else [R])]
                except NoValue as e:
                    ctx.unresolved("formula", where(f), "%s: %s: %s" % (rep, WHAT[k], e))
                    continue
                ok, bad = compare(g, w[k] if k in ("x", "v") else [w[k]], k, tol[k])
                n += 1
                note(f, k, ok, "%+.6g s from the epoch of the record: off by %s" % (dt, mpmath.nstr(bad, 3)), rep)
    for (rep, k), (f, ok, text) in sorted(res.items()):
        ctx.ob("formula", ok, where(f), "%s: the %s is the one of the interface document%s" % (rep, WHAT[k], "" if ok else "; " + text), key="formula|%s|%s" % (rep, k))
    ctx.count("comparisons with the reference formulas", n)
    return n


def relativity(ctx, p):
    f = p.find(G + "Xvt::computeRelativityCorrection", need=False)
    ctx.need(len(f) == 1, "Xvt::computeRelativityCorrection")
    f = f[0]
    I = Interp(p, inline=lambda a, b: True)
    I.quietcalls = True
    r = I.run(f, cls=G + "Xvt")
    rnd = random.Random(7)
    ok, bad = True, None
    for _ in range(8):
        env = {"this.%s[%d]" % (k, i): mpf(rnd.uniform(-1, 1) * a) for k, a in (("x", 2.6e7), ("v", 3.9e3)) for i in range(3)}
        want = -2 * sum(env["this.x[%d]" % i] * env["this.v[%d]" % i] for i in range(3)) / C ** 2
        ev = Real(I, env.get)
        try:
            g = [ev.ev(r["ret"]), ev.ev(r["state"].read(("this",), ("relcorr",)))]
        except NoValue as e:
            ctx.unresolved("formula", where(f), "Xvt::computeRelativityCorrection: %s" % e)
            return
        ok &= all(abs(x - want) < mpf("1e-18") for x in g)
    ctx.ob("formula", ok, where(f), "Xvt::computeRelativityCorrection returns and stores -2 r.v/c^2", key="formula|computeRelativityCorrection")


def check(ctx):
    ctx.rule("formula", "position, velocity, relativity correction, clock bias and clock drift of a broadcast orbit are those of the algorithm of the interface document "
                        "(constants, time from epoch, harmonic corrections, rotation, rates), and the velocity is the derivative of the position")
    p = ctx.program(lib_sources())
    n = kepler_targets(ctx, p)
    m = glonass(ctx, p)
    relativity(ctx, p)
    ctx.floor("comparisons of Kepler orbits", n, 4000)
    ctx.floor("comparisons of GLONASS orbits", m, 40)
