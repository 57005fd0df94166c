"""C16 one point of space has the same coordinates in every system, and the geometry between points follows from them."""
import random
from mpmath import mp, mpf
import mpmath
from ..check import where
from ..interp import *
from ..prog import lib_sources
from ..real import Real, NoValue

G = "gpstk::"
UNK, GDT, GCT, XYZ, SPH = range(5)
SYS = {GDT: "geodetic", GCT: "geocentric", XYZ: "cartesian", SPH: "spherical"}
RAD = mpmath.pi / 180
TOL = mpf("1e-3")                     # the class's own tolerance: one millimetre
ELL = {"WGS84": (mpf(6378137), mpf("0.00669437999014")), "PZ90": (mpf(6378136), mpf("0.0066943661931")), "Hayford": (mpf(6378388), mpf("0.00672267002233")),
       "a sphere": (mpf(6371000), mpf(0)), "Airy": (mpf("6377563.396"), mpf("0.0066705397616"))}


class Point:
    def __init__(self, ell, lat, lon, h):
        self.ell, self.lat, self.lon, self.h = ell, mpf(lat), mpf(lon), mpf(h)
        self.a, self.e2 = ELL[ell]
        self.xyz = self.geodetic(self.lat, self.lon, self.h)
        x, y, z = self.xyz
        self.r = mpmath.sqrt(x * x + y * y + z * z)
        self.rho = mpmath.sqrt(x * x + y * y)

    def geodetic(self, lat, lon, h):
        s, c = mpmath.sin(lat * RAD), mpmath.cos(lat * RAD)
        n = self.a / mpmath.sqrt(1 - self.e2 * s * s)
        return [(n + h) * c * mpmath.cos(lon * RAD), (n + h) * c * mpmath.sin(lon * RAD), (n * (1 - self.e2) + h) * s]

    def coord(self, sysn):
        if sysn == GDT:
            return [self.lat, self.lon, self.h]
        lat = mpmath.atan2(self.xyz[2], self.rho) / RAD
        return {XYZ: list(self.xyz), GCT: [lat, self.lon, self.r], SPH: [90 - lat, self.lon, self.r]}[sysn]

    def back(self, sysn, c):
        """the point those coordinates stand for"""
        if sysn == XYZ:
            return list(c)
        if sysn == GDT:
            return self.geodetic(*c)
        la = c[0] * RAD if sysn == GCT else (90 - c[0]) * RAD
        return [c[2] * mpmath.cos(la) * mpmath.cos(c[1] * RAD), c[2] * mpmath.cos(la) * mpmath.sin(c[1] * RAD), c[2] * mpmath.sin(la)]

    def __str__(self):
        return "latitude %s longitude %s height %s m on %s" % (mpmath.nstr(self.lat, 8), mpmath.nstr(self.lon, 8), mpmath.nstr(self.h, 8), self.ell)


def dist(a, b):
    return mpmath.sqrt(sum((p - q) ** 2 for p, q in zip(a, b)))


def points():
    rnd = random.Random(16)
    out = []
    for lat, lon, h in ((0, 0, 0), (0, 90, 100), (0, 180, 1000), (0, 270, -50), (45, 45, 0), (-45, 135, 0), (30, 225, 8848), (-30, 315, 0), (37.5, 122.25, 20200000), (-62, 200, 36000000),
                        (89.9997, 33, 120), (-89.9997, 290, 20), (89.99999, 77, 0), (-89.99999, 181, 3000), (89.9999995, 10, 0), (1e-7, 1e-7, 5), (-1e-6, 359.999999, 12), (60, 0, -5000),
                        (12, 179.9999999, 300), (5, 180.0000001, 300)):
        out.append(Point("WGS84", lat, lon, h))
    for e in ELL:
        for _ in range(3):
            out.append(Point(e, rnd.uniform(-89, 89), rnd.uniform(0, 360), rnd.choice([rnd.uniform(-5000, 9000), rnd.uniform(1e5, 3e7)])))
    for s in (90, -90):
        for lon in (0, 123):
            out.append(Point("WGS84", s, lon, 250))
    return out


def env_of(root, c, p):
    e = {root + ".AEarth": p.a, root + ".eccSquared": p.e2, root + ".tolerance": TOL, root + ".refFrame": mpf(0)}
    for i in range(3):
        e["%s[%d]" % (root, i)] = c[i]
    return e


CONSTS = {"G.gpstk::Position::POSITION_TOLERANCE": TOL}


def interp(p, dyn=None):
    I = Interp(p, inline=lambda a, b: True)
    I.quietcalls = True
    if dyn:
        I.dyn = dyn
    return I


def one(ctx, p, name, nparams, sig=None):
    fs = [f for f in p.find(name, need=False) if f.get("body") and (nparams is None or len(f["params"]) == nparams) and (sig is None or sig in f["id"])]
    ctx.need(len(fs) == 1, "%s with %s parameters%s" % (name, nparams, " (%s)" % sig if sig else ""))
    return fs[0]


class Res:
    """worst result per obligation"""

    def __init__(self, ctx, rule):
        self.ctx, self.rule, self.d, self.n = ctx, rule, {}, 0
        self.un = {}

    def note(self, key, f, msg, ok, text):
        self.n += 1
        if key not in self.d or (self.d[key][2] and not ok):
            self.d[key] = (f, msg, bool(ok), text)

    def unres(self, key, f, msg):
        self.un.setdefault(key, (f, msg))

    def flush(self):
        for k, (f, msg, ok, text) in self.d.items():
            self.ctx.ob(self.rule, ok, where(f), msg + ("" if ok else "; " + text), key="%s|%s" % (self.rule, k))
        for k, (f, msg) in self.un.items():
            if k not in self.d:
                self.ctx.unresolved(self.rule, where(f), msg)
        self.ctx.count("comparisons with reference geometry (%s)" % self.rule, self.n)
        return self.n


def outcome(R, r):
    """'return' or the type thrown for the sample R stands for"""
    for th in r["throws"]:
        try:
            if all(R.ev(c) for c in th[0].pc):
                return th[1]
        except NoValue:
            raise
    return "return"


def system_ok(sysn, c):
    if sysn == XYZ:
        return True
    lo, hi = (-90, 90) if sysn in (GDT, GCT) else (0, 180)
    return lo <= c[0] <= hi and 0 <= c[1] < 360 and (sysn == GDT or c[2] >= 0)


def read3(st, root, path=()):
    return [st.read(root, path + ("theArray", num(i))) for i in range(3)]


def transforms(ctx, p):
    f = one(ctx, p, G + "Position::transformTo", 1)
    res = Res(ctx, "coordinates")
    for a in SYS:
        for b in SYS:
            I = interp(p)
            st = State()
            st.write(("this",), ("system",), num(a))
            r = I.run(f, cls=G + "Position", state=st, args=[num(b)])
            rep = "transformTo from %s to %s coordinates" % (SYS[a], SYS[b])
            key = "%s|%s" % (SYS[a], SYS[b])
            if r["state"] is None:
                ctx.ob("coordinates", False, where(f), rep + " returns")
                continue
            st = r["state"]
            nsys = st.read(("this",), ("system",))
            res.note(key + "|system", f, rep + " leaves the object in that system", isnum(nsys) and val(nsys) == b, "system is " + show(nsys, 3)[:60])
            out = read3(st, ("this",))
            for pt in points():
                env = env_of("this", pt.coord(a), pt)
                env.update(CONSTS)
                R = Real(I, env.get)
                try:
                    g = [R.ev(x) for x in out]
                except NoValue as e:
                    res.unres(key, f, "%s: %s" % (rep, e))
                    continue
                d = dist(pt.back(b, g), pt.xyz)
                res.note(key + "|point", f, rep + " keeps the point", d <= TOL, "%s moves by %s m" % (pt, mpmath.nstr(d, 3)))
                # inside a pole cap of the tolerance the longitude may be anything
                res.note(key + "|range", f, rep + " gives coordinates within their ranges (longitude 0 to 360, latitude -90 to 90)", system_ok(b, g),
                         "%s gives %s" % (pt, ", ".join(mpmath.nstr(x, 8) for x in g)))
            # the centre of the Earth, as the class documents it
            if a != b:
                z = Point("WGS84", 0, 0, -ELL["WGS84"][0])
                c0 = {GDT: [mpf(0), mpf(0), -z.a], GCT: [mpf(12), mpf(34), mpf(0)], XYZ: [mpf(0)] * 3, SPH: [mpf(77), mpf(34), mpf(0)]}[a]
                want = {GDT: [mpf(0), mpf(0), -z.a], GCT: [mpf(0)] * 3, XYZ: [mpf(0)] * 3, SPH: [mpf(90), mpf(0), mpf(0)]}[b]
                env = env_of("this", c0, z)
                env.update(CONSTS)
                R = Real(I, env.get)
                try:
                    g = [R.ev(x) for x in out]
                except NoValue as e:
                    res.unres(key + "|origin", f, "%s at the centre of the Earth: %s" % (rep, e))
                    continue
                if b == XYZ or {a, b} != {GCT, SPH}:
                    res.note(key + "|origin", f, rep + ": the centre of the Earth has the documented coordinates", max(abs(x - y) for x, y in zip(g, want)) < mpf("1e-6"),
                             "gives " + ", ".join(mpmath.nstr(x, 8) for x in g))
    return res.flush()


GETTERS = {"X": (XYZ, 0), "Y": (XYZ, 1), "Z": (XYZ, 2), "geodeticLatitude": (GDT, 0), "geocentricLatitude": (GCT, 0), "theta": (SPH, 0), "phi": (SPH, 1), "longitude": (GDT, 1),
           "radius": (SPH, 2), "height": (GDT, 2)}
ALIAS = {"getX": "X", "getY": "Y", "getZ": "Z", "getGeodeticLatitude": "geodeticLatitude", "getGeocentricLatitude": "geocentricLatitude", "getTheta": "theta", "getPhi": "phi",
         "getLongitude": "longitude", "getRadius": "radius", "getHeight": "height", "getAltitude": "height"}


def close(sysn, k, got, want, pt):
    """coordinates in metres to a millimetre; angles so that the point moves by no more"""
    if sysn == XYZ or k == 2:
        return abs(got - want) <= TOL
    d = abs(got - want)
    if k == 1:
        if pt.rho < 1:
            return True
        d = min(d % 360, 360 - d % 360)
        return d * RAD * pt.rho <= TOL and 0 <= got < 360
    return d * RAD * max(pt.r, pt.a / 2) <= TOL * 2


def getters(ctx, p):
    res = Res(ctx, "coordinates")
    todo = [(n, n) for n in GETTERS]
    rec = [m for m in ALIAS if [f for f in p.find(G + "Position::" + m, need=False) if f.get("body")]]
    todo += [(m, ALIAS[m]) for m in rec]
    pts = points()
    for n, base in todo:
        f = one(ctx, p, G + "Position::" + n, 0)
        b, k = GETTERS[base]
        for a in SYS:
            I = interp(p)
            st = State()
            st.write(("this",), ("system",), num(a))
            r = I.run(f, cls=G + "Position", state=st)
            for pt in pts[:40:1 if base == n else 5]:
                env = env_of("this", pt.coord(a), pt)
                env.update(CONSTS)
                try:
                    g = Real(I, env.get).ev(r["ret"])
                except NoValue as e:
                    res.unres("%s|%s" % (n, SYS[a]), f, "%s of a position in %s coordinates: %s" % (n, SYS[a], e))
                    continue
                w = pt.coord(b)[k]
                res.note("%s|%s" % (n, SYS[a]), f, "Position::%s of a position held in %s coordinates is that coordinate of the point" % (n, SYS[a]), close(b, k, g, w, pt),
                         "%s gives %s, not %s" % (pt, mpmath.nstr(g, 14), mpmath.nstr(w, 14)))
    return res.flush()


LONS = [0, 12.5, 359.75, 360, 360.5, 719.5, 720, 7200.25, 100000.5, -0.25, -180, -359.5, -360, -360.25, -719.75, -720, -1080.5, -36000.125]


def setters(ctx, p):
    """longitudes are folded into 0..360 without changing the direction; values that are no coordinates are refused"""
    res = Res(ctx, "setting coordinates")
    good = {GDT: (10, None, -100), GCT: (-10, None, 7000000), SPH: (100, None, 7000000), XYZ: (1, None, 3)}
    bad = {GDT: [(90.001, 0, 0), (-90.5, 10, 0), (180, 0, 0)], GCT: [(90.001, 0, 7e6), (-91, 0, 7e6), (10, 0, -1), (10, 0, -1e-6)],
           SPH: [(-0.001, 0, 7e6), (180.5, 0, 7e6), (10, 0, -1)], XYZ: []}
    edge = {GDT: [(90, 10, -6378137), (-90, 10, 0)], GCT: [(90, 10, 0), (-90, 10, 7e6)], SPH: [(0, 0, 7e6), (180, 0, 0)], XYZ: [(-1, -2, -3)]}
    table = [("setGeodetic", GDT, None), ("setGeocentric", GCT, None), ("setSpherical", SPH, None), ("setECEF", XYZ, None)]
    ctors = [f for f in p.find(G + "Position::Position", need=False) if f.get("body")]
    kinds = {"(const double &,const double &,const double &": "three values", "(const double *": "an array", "(const double[3]": "an array", "(const gpstk::Triple &": "a Triple"}
    seen = set()
    for f in ctors:
        for sig, what in kinds.items():
            if sig in f["id"]:
                seen.add(what)
                table += [(f, s, what) for s in (GDT, GCT, SPH, XYZ)]
    ctx.need(seen == set(kinds.values()), "the constructors of Position from values, an array and a Triple")
    for name, sysn, what in table:
        f = name if what else one(ctx, p, G + "Position::" + name, 4 if name == "setGeodetic" else 3)
        rep = "Position::" + name if not what else "the constructor of Position from %s (%s)" % (what, SYS[sysn])
        I = interp(p)
        st = State()
        args, pn = None, [q["n"] for q in f["params"]]
        if what:
            i = next(j for j, q in enumerate(f["params"]) if "CoordinateSystem" in q["t"])
            args = [None] * len(pn)
            args[i] = num(sysn)
            args[i + 1] = num(0)
        elif name == "setGeodetic":
            args = [None, None, None, num(0)]
        r = I.run(f, cls=G + "Position", state=st, args=args)
        names = pn[:3] if what in (None, "three values") else ["%s[%d]" % (pn[0], i) for i in range(3)]

        def sample(c):
            env = dict(CONSTS)
            env.update({n: mpf(x) for n, x in zip(names, c)})
            return Real(I, env.get)
        for lon in (LONS if sysn != XYZ else [5, -400]):
            c = [good[sysn][0], lon, good[sysn][2]]
            R = sample(c)
            try:
                oc = outcome(R, r)
                g = [R.ev(x) for x in read3(r["state"], ("this",))] + [R.ev(r["state"].read(("this",), ("system",)))] if oc == "return" else None
            except NoValue as e:
                res.unres("%s|set" % rep, f, "%s: %s" % (rep, e))
                continue
            if sysn == XYZ:
                ok = g is not None and max(abs(x - y) for x, y in zip(g, c)) == 0 and g[3] == sysn
            else:
                ok = g is not None and 0 <= g[1] < 360 and abs((g[1] - lon) % 360) < mpf("1e-9") and g[0] == c[0] and g[2] == c[2] and g[3] == sysn
            res.note("%s|set" % rep, f, rep + " stores the coordinates given, any longitude folded into 0 to 360 degrees", ok,
                     "longitude %s %s" % (lon, "stored as " + mpmath.nstr(g[1], 10) if g else "refused"))
        for c in edge[sysn]:
            try:
                oc = outcome(sample(c), r)
            except NoValue as e:
                res.unres("%s|edge" % rep, f, "%s: %s" % (rep, e))
                continue
            res.note("%s|edge" % rep, f, rep + " takes poles and the centre of the Earth", oc == "return", "%s throws %s" % (c, oc))
        for c in bad[sysn]:
            try:
                oc = outcome(sample(c), r)
            except NoValue as e:
                res.unres("%s|refuse" % rep, f, "%s: %s" % (rep, e))
                continue
            res.note("%s|refuse" % rep, f, rep + " refuses latitudes beyond the poles and negative radii", oc.endswith("GeometryException"), "%s is taken" % (c,))
    return res.flush()


def pair(rnd, k):
    rx = points()[k % 20]
    b = rx.xyz
    if k % 3 == 0:
        t = Point(rx.ell, rnd.uniform(-80, 80), rnd.uniform(0, 360), 2.02e7)
    else:
        t = Point(rx.ell, max(-89, min(89, float(rx.lat) + rnd.uniform(-0.2, 0.2))), (float(rx.lon) + rnd.uniform(-0.3, 0.3)) % 360, float(rx.h) + rnd.uniform(-100, 3000))
    return rx, t


def arithmetic(ctx, p):
    res = Res(ctx, "arithmetic")
    ops = [("+=", one(ctx, p, G + "Position::operator+=", 1), True, 1), ("-=", one(ctx, p, G + "Position::operator-=", 1), True, -1),
           ("+", one(ctx, p, G + "operator+", 2, "Position &,const gpstk::Position &"), False, 1), ("-", one(ctx, p, G + "operator-", 2, "Position &,const gpstk::Position &"), False, -1),
           ("range", one(ctx, p, G + "range", 2, "Position &,const gpstk::Position &"), False, 0)]
    rnd = random.Random(5)
    for name, f, member, sgn in ops:
        pn = [q["n"] for q in f["params"]]
        for a in SYS:
            for b in SYS:
                I = interp(p)
                st = State()
                L = ("this",) if member else ("P", pn[0])
                Rr = ("P", pn[-1])
                st.write(L, ("system",), num(a))
                st.write(Rr, ("system",), num(b))
                r = I.run(f, cls=G + "Position" if member else None, state=st)
                key = "%s|%s|%s" % (name, SYS[a], SYS[b])
                msg = "%s of a %s and a %s position is that of the points" % (name, SYS[a], SYS[b])
                for k in (0, 4, 6, 10, 13, 17):
                    x, y = pair(rnd, k)
                    env = dict(CONSTS)
                    env.update(env_of("this" if member else pn[0], x.coord(a), x))
                    env.update(env_of(pn[-1], y.coord(b), y))
                    R = Real(I, env.get)
                    try:
                        if sgn == 0:
                            g = R.ev(r["ret"])
                            ok, w = abs(g - dist(x.xyz, y.xyz)) <= 2 * TOL, None
                        else:
                            w = [u + sgn * v for u, v in zip(x.xyz, y.xyz)]
                            s2, root = r["state"], ("this",)
                            if not member:
                                s2, root = State(), ("R",)
                                s2.write(root, (), r["ret"])
                            sy = R.ev(s2.read(root, ("system",)))
                            g = [R.ev(z) for z in read3(s2, root)]
                            want = a if member else XYZ
                            # a difference near the centre of the Earth has no useful geodetic coordinates
                            if member and a == GDT and dist(w, [0, 0, 0]) < 6e6:
                                continue
                            ok = sy == want and dist(x.back(int(sy), g), w) <= 3 * TOL
                    except NoValue as e:
                        res.unres(key, f, msg + ": %s" % e)
                        continue
                    res.note(key, f, msg, ok, "fails for %s and %s" % (x, y))
    return res.flush()


def unit(v):
    n = mpmath.sqrt(sum(x * x for x in v))
    return [x / n for x in v]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def look(rx, t, lat, lon):
    """elevation and azimuth of t from rx in the horizon system of that latitude and longitude"""
    z = [b - a for a, b in zip(rx, t)]
    sl, cl, so, co = mpmath.sin(lat), mpmath.cos(lat), mpmath.sin(lon), mpmath.cos(lon)
    up, n, e = dot(z, [cl * co, cl * so, sl]), dot(z, [-sl * co, -sl * so, cl]), dot(z, [-so, co, 0])
    return mpmath.atan2(up, mpmath.sqrt(n * n + e * e)) / RAD, (mpmath.atan2(e, n) / RAD) % 360


def angles(ctx, p):
    res = Res(ctx, "directions")
    rnd = random.Random(9)
    for name, which, geod in (("elevation", 0, False), ("elevationGeodetic", 0, True), ("azimuth", 1, False), ("azimuthGeodetic", 1, True)):
        f = one(ctx, p, G + "Position::" + name, 1)
        pn = f["params"][0]["n"]
        for a in SYS:
            for b in SYS:
                I = interp(p)
                st = State()
                st.write(("this",), ("system",), num(a))
                st.write(("P", pn), ("system",), num(b))
                r = I.run(f, cls=G + "Position", state=st)
                key = "%s|%s|%s" % (name, SYS[a], SYS[b])
                msg = "Position::%s of a %s target from a %s position is the angle in the local horizon system" % (name, SYS[b], SYS[a])
                for k in (1, 3, 4, 5, 6, 7, 8, 18, 19, 0, 2, 9, 12):
                    x, y = pair(rnd, k)
                    env = dict(CONSTS)
                    env.update(env_of("this", x.coord(a), x))
                    env.update(env_of(pn, y.coord(b), y))
                    lat = x.lat * RAD if geod else mpmath.atan2(x.xyz[2], x.rho)
                    w = look(x.xyz, y.xyz, lat, x.lon * RAD)[which]
                    try:
                        g = Real(I, env.get).ev(r["ret"])
                    except NoValue as e:
                        res.unres(key, f, msg + ": %s" % e)
                        continue
                    d = abs(g - w) if which == 0 else min(abs(g - w), 360 - abs(g - w))
                    s = dist(x.xyz, y.xyz)
                    ok = d * RAD * (s if which == 0 else s * mpmath.cos(look(x.xyz, y.xyz, lat, x.lon * RAD)[0] * RAD)) <= 4 * TOL and (which == 0 or 0 <= g < 360)
                    res.note(key, f, msg, ok, "%s to %s: %s, not %s" % (x, y, mpmath.nstr(g, 10), mpmath.nstr(w, 10)))
    # pierce point: on the shell, in the direction asked for
    f = one(ctx, p, G + "Position::getIonosphericPiercePoint", 3)
    pn = [q["n"] for q in f["params"]]
    for a in SYS:
        I = interp(p)
        st = State()
        st.write(("this",), ("system",), num(a))
        r = I.run(f, cls=G + "Position", state=st)
        key = "pierce|" + SYS[a]
        msg = "Position::getIonosphericPiercePoint from a %s position: the point of the shell in that azimuth at the central angle of that elevation, in that system" % SYS[a]
        s2 = State()
        s2.write(("R",), (), r["ret"])
        for k, (lat, lon, el, az) in enumerate(((30, 100, 45, 200), (-40, 350, 15, 80), (60, 5, 5, 300), (0, 180, 89, 10), (88, 40, 10, 20), (-87.5, 200, 8, 150), (45, 359.9, 30, 95), (80, 0.5, 5, 10),
                                                (10, 20, 60, 0), (-10, 20, 60, 180))):
            x = Point("WGS84", lat, lon, 0)
            ht = mpf(350000 if k % 2 else 450000)
            gc = x.coord(GCT)
            la, lo, A, E = gc[0] * RAD, gc[1] * RAD, mpf(az) * RAD, mpf(el) * RAD
            psi = mpmath.pi / 2 - E - mpmath.asin(x.a * mpmath.cos(E) / (x.a + ht))
            u = [mpmath.cos(la) * mpmath.cos(lo), mpmath.cos(la) * mpmath.sin(lo), mpmath.sin(la)]
            n = [-mpmath.sin(la) * mpmath.cos(lo), -mpmath.sin(la) * mpmath.sin(lo), mpmath.cos(la)]
            e = [-mpmath.sin(lo), mpmath.cos(lo), mpf(0)]
            w = [(x.a + ht) * (mpmath.cos(psi) * uu + mpmath.sin(psi) * (mpmath.cos(A) * nn + mpmath.sin(A) * ee)) for uu, nn, ee in zip(u, n, e)]
            env = dict(CONSTS)
            env.update(env_of("this", x.coord(a), x))
            env.update({pn[0]: mpf(el), pn[1]: mpf(az), pn[2]: ht})
            R = Real(I, env.get)
            try:
                g = [R.ev(z) for z in read3(s2, ("R",))]
                sy = R.ev(s2.read(("R",), ("system",)))
            except NoValue as ex:
                res.unres(key, f, msg + ": %s" % ex)
                continue
            ok = sy == a and dist(x.back(a, g), w) <= 2 * TOL and system_ok(a, g)
            res.note(key, f, msg, ok, "from %s at elevation %s azimuth %s: %s" % (x, el, az, ", ".join(mpmath.nstr(z, 8) for z in g)))
    for name, fn in (("getCurvMeridian", lambda x, s: x.a * (1 - x.e2) / (1 - x.e2 * s * s) ** mpf("1.5")), ("getCurvPrimeVertical", lambda x, s: x.a / mpmath.sqrt(1 - x.e2 * s * s))):
        f = one(ctx, p, G + "Position::" + name, 0)
        for a in SYS:
            I = interp(p)
            st = State()
            st.write(("this",), ("system",), num(a))
            r = I.run(f, cls=G + "Position", state=st)
            for x in points()[:36]:
                env = dict(CONSTS)
                env.update(env_of("this", x.coord(a), x))
                try:
                    g = Real(I, env.get).ev(r["ret"])
                except NoValue as ex:
                    res.unres(name + SYS[a], f, "%s: %s" % (name, ex))
                    continue
                res.note("%s|%s" % (name, SYS[a]), f, "Position::%s of a %s position is the radius of curvature of the ellipsoid there" % (name, SYS[a]), abs(g - fn(x, mpmath.sin(x.lat * RAD))) <= TOL,
                         "%s: %s" % (x, mpmath.nstr(g, 10)))
    f = one(ctx, p, G + "Position::radiusEarth", 3)
    I = interp(p)
    r = I.run(f, cls=G + "Position")
    pn = [q["n"] for q in f["params"]]
    for x in points()[:36]:
        s = Point(x.ell, x.lat, x.lon, 0)
        env = {pn[0]: x.lat, pn[1]: x.a, pn[2]: x.e2}
        try:
            g = Real(I, env.get).ev(r["ret"])
        except NoValue as ex:
            res.unres("radiusEarth", f, "radiusEarth: %s" % ex)
            continue
        res.note("radiusEarth", f, "Position::radiusEarth is the distance of the ellipsoid from the centre at that geodetic latitude", abs(g - s.r) <= TOL, "%s: %s" % (x, mpmath.nstr(g, 10)))
    return res.flush()


def vectors(ctx, p):
    res = Res(ctx, "vectors")
    rnd = random.Random(3)

    def rot(k, v, a):
        c, s = mpmath.cos(a), mpmath.sin(a)
        x, y, z = v
        return {1: [x, c * y + s * z, -s * y + c * z], 2: [c * x - s * z, y, s * x + c * z], 3: [c * x + s * y, -s * x + c * y, z]}[k]
    T = {"dot": (1, lambda u, v, a: dot(u, v)), "cross": (1, lambda u, v, a: cross(u, v)), "mag": (0, lambda u, v, a: mpmath.sqrt(dot(u, u))), "unitVector": (0, lambda u, v, a: unit(u)),
         "cosVector": (1, lambda u, v, a: dot(unit(u), unit(v))), "slantRange": (1, lambda u, v, a: dist(u, v)),
         "elvAngle": (1, lambda u, v, a: look(u, v, mpmath.atan2(u[2], mpmath.sqrt(u[0] ** 2 + u[1] ** 2)), mpmath.atan2(u[1], u[0]))[0]),
         "azAngle": (1, lambda u, v, a: look(u, v, mpmath.atan2(u[2], mpmath.sqrt(u[0] ** 2 + u[1] ** 2)), mpmath.atan2(u[1], u[0]))[1]),
         "R1": (1, lambda u, v, a: rot(1, u, a * RAD)), "R2": (1, lambda u, v, a: rot(2, u, a * RAD)), "R3": (1, lambda u, v, a: rot(3, u, a * RAD)),
         "operator+": (1, lambda u, v, a: [x + y for x, y in zip(u, v)]), "operator-": (1, lambda u, v, a: [x - y for x, y in zip(u, v)]), "toStdVector": (0, lambda u, v, a: list(u)),
         "toVector": (0, lambda u, v, a: list(u))}
    for name, (np, fn) in T.items():
        f = one(ctx, p, G + "Triple::" + name, np)
        I = interp(p)
        r = I.run(f, cls=G + "Triple")
        pn = f["params"][0]["n"] if np else None
        if r["ret"] is None:
            ctx.ob("vectors", False, where(f), "Triple::%s returns a result" % name)
            continue
        for k in range(12):
            u = [mpf(rnd.uniform(-1, 1)) * 10 ** rnd.choice([0, 3, 7]) for _ in range(3)]
            v = [mpf(rnd.uniform(-1, 1)) * 10 ** rnd.choice([0, 3, 7]) for _ in range(3)]
            if name in ("elvAngle", "azAngle"):
                u = unit(u)
                u = [x * 6378000 for x in u]
                v = [x * mpf(2.6e7) for x in unit(v)]
            a = mpf(rnd.uniform(-400, 400))
            env = {"this[%d]" % i: u[i] for i in range(3)}
            if pn:
                env.update({"%s[%d]" % (pn, i): v[i] for i in range(3)})
                env[pn] = a
            R = Real(I, env.get)
            w = fn(u, v, a)
            try:
                if isinstance(w, list):
                    s2 = State()
                    if r["ret"].op == "arr":
                        g = [R.ev(x) for x in r["ret"].args]
                    elif name == "toStdVector":
                        s2.write(("R",), (), r["ret"])
                        g = [R.ev(s2.read(("R",), (num(i),))) for i in range(3)] if r["ret"].op != "empty" else []
                    elif name == "toVector":
                        g = veclist(I, R, r["state"], r["ret"])
                    else:
                        s2.write(("R",), (), r["ret"])
                        g = [R.ev(x) for x in read3(s2, ("R",))]
                    ok = len(g) == 3 and max(abs(x - y) for x, y in zip(g, w)) <= mpf("1e-11") * (1 + max(abs(x) for x in w))
                else:
                    g = R.ev(r["ret"])
                    ok = abs(g - w) <= mpf("1e-11") * (1 + abs(w))
            except NoValue as e:
                res.unres(name, f, "Triple::%s: %s" % (name, e))
                continue
            res.note(name, f, "Triple::%s is that operation on the vectors" % name, ok, "of (%s) and (%s)" % (", ".join(mpmath.nstr(x, 5) for x in u), ", ".join(mpmath.nstr(x, 5) for x in v)))
    return res.flush()


def veclist(I, R, st, v):
    """elements of a gpstk::Vector value"""
    s2 = st.copy()
    s2.write(("R",), (), v)
    n = s2.read(("R",), ("s",))
    q = s2.read(("R",), ("v",))
    if not isnum(n) or q.op != "ptr":
        raise NoValue("elements of the vector " + show(v, 3)[:80])
    return [R.ev(s2.read(q.args[0], q.args[1] + (num(i),))) for i in range(int(val(n)))]


def frames(ctx, p):
    """rotations into local frames"""
    res = Res(ctx, "local frames")
    rnd = random.Random(11)

    def rac(x, v):
        r = unit(x)
        c = unit(cross(r, v))
        return [r, cross(c, r), c]

    def enu(lat, lon):
        sl, cl, so, co = mpmath.sin(lat), mpmath.cos(lat), mpmath.sin(lon), mpmath.cos(lon)
        return [[-so, co, mpf(0)], [-sl * co, -sl * so, cl], [cl * co, cl * so, sl]]

    def ned(lat, lon):
        e, n, u = enu(lat, lon)
        return [n, e, [-x for x in u]]
    for cls, conv, ctor in (("RACRotation", "convertToRAC", "(const gpstk::Triple &,const gpstk::Triple &)"), ("RACRotation", "convertToRAC", "(const gpstk::Xvt &)"),
                            ("ENUUtil", "convertToENU", "(const double,const double)"), ("NEDUtil", "convertToNED", "(const double,const double)")):
        fc = one(ctx, p, G + cls + "::" + cls, None, ctor)
        for arg in ("gpstk::Triple", "gpstk::Vector<double>", "gpstk::Xvt"):
            fm = one(ctx, p, G + cls + "::" + conv, 1, "(const %s &)" % arg)
            rep = "%s made from %s: %s(%s)" % (cls, ctor.strip("()").replace("const ", "").replace(" &", "").replace("gpstk::", ""), conv, arg.replace("gpstk::", ""))
            key = "%s|%s|%s" % (cls, ctor, arg)
            I = interp(p)
            r1 = I.run(fc, cls=G + cls)
            if r1["state"] is None:
                ctx.ob("local frames", False, where(fc), rep + ": the constructor returns")
                continue
            st = r1["state"].copy()
            st.pc = ()
            pn = fm["params"][0]["n"]
            if "Vector" in arg:
                st.write(("P", pn), ("s",), num(3))
            r = I.run(fm, cls=G + cls, state=st)
            if r["ret"] is None:
                ctx.ob("local frames", False, where(fm), rep + " returns a result")
                continue
            cn = [q["n"] for q in fc["params"]]
            for k in range(5):
                w = [mpf(rnd.uniform(-1, 1)) * 2e7 for _ in range(3)]
                w2 = [mpf(rnd.uniform(-1, 1)) * 4e3 for _ in range(3)]
                env = {}
                if cls == "RACRotation":
                    x, v = [mpf(rnd.uniform(-1, 1)) * 2e7 for _ in range(3)], [mpf(rnd.uniform(-1, 1)) * 4e3 for _ in range(3)]
                    M = rac(x, v)
                    a, b = (cn[0], cn[1]) if len(cn) == 2 else (cn[0] + ".x", cn[0] + ".v")
                    for i in range(3):
                        env["%s[%d]" % (a, i)], env["%s[%d]" % (b, i)] = x[i], v[i]
                else:
                    lat, lon = mpf(rnd.uniform(-1.5, 1.5)), mpf(rnd.uniform(-3, 6))
                    env[cn[0]], env[cn[1]] = lat, lon
                    M = (enu if cls == "ENUUtil" else ned)(lat, lon)
                for i in range(3):
                    if "Vector" in arg:
                        env["deref(%s.v)[%d]" % (pn, i)] = w[i]
                    elif "Xvt" in arg:
                        env["%s.x[%d]" % (pn, i)], env["%s.v[%d]" % (pn, i)] = w[i], w2[i]
                    else:
                        env["%s[%d]" % (pn, i)] = w[i]
                env.update({pn + ".clkbias": mpf(3), pn + ".clkdrift": mpf(5), pn + ".relcorr": mpf(7)})
                R = Real(I, env.get)
                try:
                    if "Vector" in arg:
                        g = veclist(I, R, r["state"], r["ret"])
                        e = [dot(m, w) for m in M]
                    else:
                        s2 = r["state"].copy()
                        s2.write(("R",), (), r["ret"])
                        if "Xvt" in arg:
                            g = [R.ev(y) for y in read3(s2, ("R",), ("x",)) + read3(s2, ("R",), ("v",))] + [R.ev(s2.read(("R",), (n,))) for n in ("clkbias", "clkdrift", "relcorr")]
                            e = [dot(m, w) for m in M] + [dot(m, w2) for m in M] + [3, 5, 7]
                        else:
                            g = [R.ev(y) for y in read3(s2, ("R",))]
                            e = [dot(m, w) for m in M]
                except NoValue as ex:
                    res.unres(key, fm, rep + ": %s" % ex)
                    continue
                ok = len(g) == len(e) and max(abs(a - b) for a, b in zip(g, e)) <= mpf("1e-6")
                res.note(key, fm, rep + " gives the components along the axes of that frame", ok, "differs")
    return res.flush()


ELLC = {"WGS84Ellipsoid": ("6378137", "0.00669437999014", "298.257223563", "7292115e-11", "3.986004418e14"), "GPSEllipsoid": ("6378137", "0.00669437999014", "298.257223563", "7.2921151467e-5", "3.986005e14"),
        "GalileoEllipsoid": ("6378137", "0.00669438002290", "298.257222101", "7.2921151467e-5", "3.986004418e14"), "PZ90Ellipsoid": ("6378136", None, "298.25784", "7.292115e-5", "3.986004418e14"),
        "CGCS2000Ellipsoid": ("6378137", None, "298.257222101", "7.2921150e-5", "3.986004418e14")}


def ranges(ctx, p):
    """geometric range with the rotation of the Earth during the flight of the signal"""
    res = Res(ctx, "range")
    f = one(ctx, p, G + "Xvt::preciseRho", 3)
    pn = [q["n"] for q in f["params"]]
    rnd = random.Random(21)
    for e in ("GPSEllipsoid", "WGS84Ellipsoid", "PZ90Ellipsoid"):
        I = interp(p, {(("P", pn[1]), ()): G + e})
        r = I.run(f, cls=G + "Xvt")
        om = mpf(ELLC[e][3])
        for k in range(10):
            rx = points()[k].xyz
            u = unit([mpf(rnd.uniform(-1, 1)) for _ in range(3)])
            if dot(u, rx) < 0:
                u = [-x for x in u]
            x = [mpf(2.66e7) * a for a in u]
            b, rel, cor = mpf(rnd.uniform(-5e-4, 5e-4)), mpf(rnd.uniform(-3e-8, 3e-8)), mpf(rnd.uniform(-20, 20))
            env = {"this.clkbias": b, "this.relcorr": rel, pn[2]: cor}
            for i in range(3):
                env["this.x[%d]" % i], env["%s[%d]" % (pn[0], i)] = x[i], rx[i]
            rho = dist(x, rx)
            for _ in range(20):
                a = om * rho / 299792458
                y = [mpmath.cos(a) * x[0] + mpmath.sin(a) * x[1], -mpmath.sin(a) * x[0] + mpmath.cos(a) * x[1], x[2]]
                rho = dist(y, rx)
            w = rho - (b + rel) * 299792458 - cor
            try:
                g = Real(I, env.get).ev(r["ret"])
            except NoValue as ex:
                res.unres("preciseRho|" + e, f, "preciseRho with %s: %s" % (e, ex))
                continue
            res.note("preciseRho|" + e, f, "Xvt::preciseRho with %s: range to where the satellite was sent from, less clock, relativity and correction" % e, abs(g - w) <= TOL, "off by %s m" % mpmath.nstr(g - w, 4))
    for e, (a, e2, finv, om, gm) in ELLC.items():
        for m, w in (("a", mpf(a)), ("a_km", mpf(a) / 1000), ("eccSquared", mpf(e2) if e2 else 1 - (1 - 1 / mpf(finv)) ** 2), ("eccentricity", mpmath.sqrt(mpf(e2)) if e2 else mpmath.sqrt(1 - (1 - 1 / mpf(finv)) ** 2)),
                     ("flattening", 1 / mpf(finv) if finv else None), ("angVelocity", mpf(om)), ("gm", mpf(gm)), ("gm_km", mpf(gm) / 10 ** 9), ("c", mpf(299792458)), ("c_km", mpf("299792.458"))):
            fs = []
            c = G + e
            while not fs and c:
                fs = [x for x in p.find(c + "::" + m, need=False) if x.get("body")]
                bs = (p.rec(c) or {}).get("bases", [])
                c = (bs[0]["t"] if isinstance(bs[0], dict) else bs[0]) if bs and not fs else None
            ctx.need(len(fs) == 1, "%s::%s" % (e, m))
            if w is None:
                continue
            I = interp(p)
            I.rootcls[("this",)] = G + e
            r = I.run(fs[0], cls=G + e)
            try:
                g = Real(I, {}.get).ev(r["ret"])
            except NoValue as ex:
                res.unres("%s|%s" % (e, m), fs[0], "%s::%s: %s" % (e, m, ex))
                continue
            res.note("%s|%s" % (e, m), fs[0], "%s::%s is the value the defining document gives" % (e, m), abs(g - w) <= abs(w) * mpf("2e-10"), "%s, not %s" % (mpmath.nstr(g, 15), mpmath.nstr(w, 15)))
    return res.flush()


def helmert(ctx, p):
    res = Res(ctx, "datum transformation")
    rec = p.rec(G + "HelmertTransform")
    ctx.need(rec is not None, "class HelmertTransform")
    fc = one(ctx, p, G + "HelmertTransform::HelmertTransform", 11)
    cn = [q["n"] for q in fc["params"]]
    rnd = random.Random(31)
    overloads = {"Position": "(const gpstk::Position &,gpstk::Position &)", "Xvt": "(const gpstk::Xvt &,gpstk::Xvt &)", "Triple": "(const gpstk::Triple &,const gpstk::ReferenceFrame &,gpstk::Triple &)",
                 "Vector": "(const gpstk::Vector<double> &,const gpstk::ReferenceFrame &,gpstk::Vector<double> &)", "values": "(const double &,const double &,const double &,const gpstk::ReferenceFrame &,double &,double &,double &)"}
    A, B, OTHER = 3, 5, 4
    for what, sig in overloads.items():
        fs = [x for x in p.find(G + "HelmertTransform::transform", need=False) if x["id"].split("transform", 1)[1].startswith(sig) and x.get("body")]
        ctx.need(len(fs) == 1, "HelmertTransform::transform" + sig)
        f = fs[0]
        pn = [q["n"] for q in f["params"]]
        for frm, sysn in [(A, XYZ), (B, XYZ), (OTHER, XYZ)] + ([(A, GDT), (B, GCT), (A, SPH)] if what == "Position" else []):
            rep = "HelmertTransform::transform (%s%s), %s" % (what, "" if sysn == XYZ else ", " + SYS[sysn], {A: "forward", B: "inverse", OTHER: "another frame"}[frm])
            key = "%s|%s|%d" % (what, SYS[sysn], frm)
            I = interp(p)
            st = State()
            args = [num(A), num(B)] + [None] * (len(fc["params"]) - 2)
            r1 = I.run(fc, cls=G + "HelmertTransform", state=st, args=args)
            if r1["state"] is None:
                ctx.ob("datum transformation", False, where(fc), "the constructor returns")
                return 0
            st = r1["state"].copy()
            st.pc = ()
            args = None
            if what == "Position":
                st.write(("P", pn[0]), ("refFrame",), num(frm))
                st.write(("P", pn[0]), ("system",), num(sysn))
            elif what == "Xvt":
                st.write(("P", pn[0]), ("frame",), num(frm))
            else:
                k = 3 if what == "values" else 1
                st.write(("P", pn[k]), (), num(frm))
            if what == "Vector":
                st.write(("P", pn[0]), ("s",), num(3))
                st.write(("P", pn[2]), ("s",), num(0))
                st.write(("P", pn[2]), ("v",), num(0))
            r = I.run(f, cls=G + "HelmertTransform", state=st)
            if frm == OTHER:
                ok = r["state"] is None and all(t[1].endswith("InvalidRequest") or t[1].endswith("Exception") for t in r["throws"])
                res.note(key, f, rep + " is refused", ok, "returns")
                continue
            if r["state"] is None:
                res.note(key, f, rep + " returns", False, "throws")
                continue
            for k in range(6):
                rot = [mpf(rnd.uniform(-1, 1)) * mpf("1e-4") for _ in range(3)]        # degrees
                tr = [mpf(rnd.uniform(-2, 2)) for _ in range(3)]
                sc = mpf(rnd.uniform(-1, 1)) * mpf("1e-8")
                pt = Point("WGS84", rnd.uniform(-85, 85), rnd.uniform(0, 360), rnd.uniform(-100, 1e4))
                env = dict(CONSTS)
                env.update({cn[2 + i]: rot[i] for i in range(3)})
                env.update({cn[5 + i]: tr[i] for i in range(3)})
                env[cn[8]] = sc
                X, Y, Z = pt.xyz
                w = [a * RAD for a in rot]
                W = [-w[2] * Y + w[1] * Z, w[2] * X - w[0] * Z, -w[1] * X + w[0] * Y]
                fwd = [a + b + sc * a + t for a, b, t in zip(pt.xyz, W, tr)]
                src, want = (pt.xyz, fwd) if frm == A else (fwd, pt.xyz)
                c = src
                if sysn != XYZ:
                    c = pt.coord(sysn) if frm == A else [mpmath.atan2(src[2], mpmath.sqrt(src[0] ** 2 + src[1] ** 2)) / RAD, mpmath.atan2(src[1], src[0]) / RAD % 360, dist(src, [0, 0, 0])]
                if what == "Position":
                    env.update(env_of(pn[0], c, pt))
                elif what == "values":
                    env.update({pn[i]: c[i] for i in range(3)})
                else:
                    pre = {"Xvt": pn[0] + ".x", "Triple": pn[0], "Vector": "deref(%s.v)" % pn[0]}[what]
                    env.update({"%s[%d]" % (pre, i): c[i] for i in range(3)})
                R = Real(I, env.get)
                try:
                    s2 = r["state"]
                    if what == "Position":
                        g = [R.ev(y) for y in read3(s2, ("P", pn[1]))]
                        tag = s2.read(("P", pn[1]), ("refFrame",))
                    elif what == "Xvt":
                        g = [R.ev(y) for y in read3(s2, ("P", pn[1]), ("x",))]
                        tag = s2.read(("P", pn[1]), ("frame",))
                        if tag.op == "ptr":
                            tag = s2.read(*tag.args)
                    elif what == "Triple":
                        g = [R.ev(y) for y in read3(s2, ("P", pn[2]))]
                        tag = None
                    elif what == "Vector":
                        g = veclist(I, R, s2, s2.read(("P", pn[2]), ()))
                        tag = None
                    else:
                        g = [R.ev(s2.read(("P", n), ())) for n in pn[4:7]]
                        tag = None
                    t = None if tag is None else R.ev(tag)
                except NoValue as ex:
                    res.unres(key, f, rep + ": %s" % ex)
                    continue
                d = dist(g, want)
                res.note(key, f, rep + " applies rotation, scale and translation (or undoes them)", d <= TOL, "off by %s m" % mpmath.nstr(d, 3))
                if tag is not None:
                    res.note(key + "|frame", f, rep + " marks the result with the frame it is in", t == (B if frm == A else A), "the result is marked as still in the frame it came from")
    # refusal of unknown frames and large rotations
    for fr, to, big, what in ((0, B, 0, "from an unknown frame"), (A, 0, 0, "to an unknown frame"), (A, B, 1, "with a rotation about x too large for the approximation"),
                              (A, B, 2, "with a rotation about y too large"), (A, B, 3, "with a rotation about z too large"), (A, B, -3, "with a negative rotation about z too large"), (A, B, 0, "ordinary")):
        I = interp(p)
        st = State()
        args = [num(fr), num(to)] + [None] * (len(fc["params"]) - 2)
        r = I.run(fc, cls=G + "HelmertTransform", state=st, args=args)
        env = {n: mpf("1e-5") for n in cn[2:9]}
        if big:
            env[cn[1 + abs(big)]] = mpf("0.5") * (1 if big > 0 else -1)
        try:
            oc = outcome(Real(I, env.get), r)
        except NoValue as ex:
            res.unres("refuse|" + what, fc, "HelmertTransform %s: %s" % (what, ex))
            continue
        res.note("refuse|" + what, fc, "a HelmertTransform %s is %s" % (what, "made" if what == "ordinary" else "refused"), (oc == "return") == (what == "ordinary"), "outcome: " + oc)
    return res.flush()


def check(ctx):
    ctx.rule("coordinates", "transforming a position, or asking it for a coordinate, gives coordinates of the same point to a millimetre, within the ranges of the system, whatever systems are involved")
    ctx.rule("setting coordinates", "setters and constructors keep the coordinates given, fold longitudes into 0 to 360 degrees, refuse latitudes beyond the poles and negative radii")
    ctx.rule("arithmetic", "sum, difference and range of positions are those of the points, whatever systems they are held in")
    ctx.rule("directions", "elevation, azimuth, pierce points and radii of curvature are those of the ellipsoid and of the local horizon")
    ctx.rule("vectors", "Triple's operations are those of vectors of three components")
    ctx.rule("local frames", "radial/along/cross, east/north/up and north/east/down components are those along the axes of the frame")
    ctx.rule("range", "the range to a satellite accounts for the rotation of the Earth, clock, relativity and correction; ellipsoid constants are those of the defining documents")
    ctx.rule("datum transformation", "a Helmert transformation applies its seven parameters one way and undoes them the other, marks the result's frame and refuses other frames")
    p = ctx.program(lib_sources())
    n = transforms(ctx, p)
    ctx.floor("comparisons of transformed points", n, 1000)
    ctx.floor("comparisons of coordinates asked for", getters(ctx, p), 1500)
    ctx.floor("comparisons of coordinates set", setters(ctx, p), 200)
    ctx.floor("comparisons of position arithmetic", arithmetic(ctx, p), 300)
    ctx.floor("comparisons of directions", angles(ctx, p), 800)
    ctx.floor("comparisons of vector operations", vectors(ctx, p), 150)
    ctx.floor("comparisons of local frames", frames(ctx, p), 50)
    ctx.floor("comparisons of ranges and ellipsoids", ranges(ctx, p), 70)
    ctx.floor("comparisons of datum transformations", helmert(ctx, p), 60)
