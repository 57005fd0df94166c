"""C18 computed ranges are those of the signal's flight, with clock, relativity and Earth rotation."""
import random
from mpmath import mpf
import mpmath
from ..interp import *
from ..prog import lib_sources
from ..real import Real, NoValue
from .c16 import Res, Point, env_of, one, outcome, dist, dot, look, unit, CONSTS, SYS, GDT, XYZ, RAD

G = "gpstk::"
C = mpf(299792458)
OM = mpf("7.2921151467e-5")
KSH = mpf("0.00887005608")
DAY = mpf(2455000)


class Sky:
    """a satellite whose position, clock and relativity are quadratic or linear in time, and a receiver"""

    def __init__(self, rnd, k):
        for _ in range(1000):
            self.lat, self.lon, self.h = mpf(rnd.choice([0, 12, -33, 48, -71, 85])) + mpf(rnd.randint(0, 99)) / 100, mpf(rnd.randint(0, 359)), mpf(rnd.choice([0, 200, 4500]))
            self.rx = Point("WGS84", self.lat, self.lon, self.h)
            u = unit([mpf(rnd.uniform(-1, 1)) for _ in range(3)])
            if dot(u, unit(self.rx.xyz)) > (0.3 if k % 2 else 0.6):
                break
        self.x0 = [mpf(rnd.choice([25600000, 26560000, 42164000])) * z for z in u]
        self.v0 = [mpf(rnd.randint(-2000, 2000)) for _ in range(3)]
        self.a0 = [mpf(rnd.randint(-50, 50)) / 100 for _ in range(3)]
        self.b0, self.b1 = mpf(rnd.randint(-900, 900)) * mpf("1e-6"), mpf(rnd.randint(-90, 90)) * mpf("1e-12")
        self.r0, self.r1 = mpf(rnd.randint(-40, 40)) * mpf("1e-9"), mpf(rnd.randint(-9, 9)) * mpf("1e-12")
        self.sod = mpf(rnd.randint(0, 86399))
        self.bias = mpf(rnd.randint(-200000, 200000))

    def at(self, t):
        x = [p + v * t + a * t * t / 2 for p, v, a in zip(self.x0, self.v0, self.a0)]
        v = [v + a * t for v, a in zip(self.v0, self.a0)]
        return x, v, self.b0 + self.b1 * t, self.b1, self.r0 + self.r1 * t

    def env(self):
        e = {"T0": self.sod, "DAY": DAY}
        for i in range(3):
            e["x0.%d" % i], e["v0.%d" % i], e["a0.%d" % i] = self.x0[i], self.v0[i], self.a0[i]
        e.update({"b0": self.b0, "b1": self.b1, "r0": self.r0, "r1": self.r1})
        return e

    def turn(self, x, w):
        c, s = mpmath.cos(w), mpmath.sin(w)
        return [c * x[0] + s * x[1], -s * x[0] + c * x[1], x[2]]

    def flight(self, t):
        """satellite at t seen by the receiver in the frame of the time of reception"""
        x, v, b, d, r = self.at(t)
        rho = dist(x, self.rx.xyz)
        for _ in range(30):
            y = self.turn(x, OM * rho / C)
            rho = dist(y, self.rx.xyz)
        return rho, y, self.turn(v, OM * rho / C), b, d, r

    def received(self, t):
        """the same for the time of reception on true time"""
        tof = mpf("0.07")
        for _ in range(60):
            q = self.flight(t - tof)
            tof = q[0] / C
        return q + (t - tof,)

    def measured(self, t, pr):
        """for the time of reception on the receiver's clock and the pseudorange"""
        tx = t - pr / C
        for _ in range(60):
            q = self.flight(tx)
            tx = t - pr / C - q[3] - q[5]
        return q + (tx,)


def sym_(n):
    return T("sym", "P", n)


def prod(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = mul(r, t)
    return r


def secs(t):
    """seconds of a CommonTime value since the start of DAY, as the model of arithmetic here keeps it"""
    return add(add(prod(num(86400), sub(fld(t, "m_day"), sym_("DAY"))), div(fld(t, "m_msod"), num(1000))), fld(t, "m_fsod"))


def getxvt(I, e, st):
    loc = None
    args = e["a"]
    l = I.lv(args[1], st)
    t = I.rd(l, st) if l is not None else I.ev(args[1], st)
    if t.op == "ptr":
        t = I.rd(t.args, st)
    tau = sub(secs(t), sym_("T0"))
    X, V = [], []
    for i in range(3):
        x0, v0, a0 = (sym_("%s0.%d" % (c, i)) for c in "xva")
        X.append(add(add(x0, prod(v0, tau)), prod(num(Fraction(1, 2)), a0, tau, tau)))
        V.append(add(v0, prod(a0, tau)))
    r = sym_("XVT")
    r = upd(r, "x", upd(sym_("XVTx"), "theArray", T("arr", *X)))
    r = upd(r, "v", upd(sym_("XVTv"), "theArray", T("arr", *V)))
    r = upd(r, "clkbias", add(sym_("b0"), prod(sym_("b1"), tau)))
    r = upd(r, "clkdrift", sym_("b1"))
    r = upd(r, "relcorr", add(sym_("r0"), prod(sym_("r1"), tau)))
    return r


def shift(sign):
    def m(I, e, st):
        o = e.get("o")
        if o is not None:
            args = e["a"]
            loc = I.frames[-1].this.args if o["k"] == "this" else I.lv(o, st)
        else:
            o, args = e["a"][0], e["a"][1:]
            loc = I.lv(o, st)
        if loc is None:
            return None
        v = I.ev(args[0], st)
        if v.op == "ptr":
            v = I.rd(v.args, st)
        f = I.rd((loc[0], loc[1] + ("m_fsod",)), st)
        st.write(loc[0], loc[1] + ("m_fsod",), add(f, v) if sign > 0 else sub(f, v))
        return T("ptr", *loc)
    return m


MODELS = {G + "XvtStore<gpstk::SatID>::getXvt": getxvt, G + "CommonTime::operator-=": shift(-1), G + "CommonTime::operator+=": shift(1), G + "CommonTime::addSeconds": shift(1)}


def interp(p):
    I = Interp(p, models=dict(MODELS), inline=lambda a, b: True)
    I.quietcalls = True
    return I


def values(R, st, root, paths):
    return {k: R.ev(st.read(root, pth)) for k, pth in paths.items()}


TR = ("theArray",)


def vec(R, st, root, pth):
    return [R.ev(st.read(root, pth + ("theArray", num(i)))) for i in range(3)]


def base_env(sky, sysn, rn, tn):
    e = dict(CONSTS)
    e.update(sky.env())
    e.update(env_of(rn, sky.rx.coord(sysn), sky.rx))
    e.update({tn + ".m_day": DAY, tn + ".m_msod": sky.sod * 1000, tn + ".m_fsod": mpf(0), tn + ".m_timeSystem": mpf(2)})
    return e


def cer(ctx, p):
    """CorrectedEphemerisRange"""
    res = Res(ctx, "ranges")
    cls = G + "CorrectedEphemerisRange"
    for name, nargs, mode in (("ComputeAtReceiveTime", 4, "received"), ("ComputeAtTransmitTime", 5, "measured"), ("ComputeAtTransmitTime", 4, "received2"), ("ComputeAtTransmitSvTime", 5, "sent")):
        f = one(ctx, p, cls + "::" + name, nargs)
        pn = [x["n"] for x in f["params"]]
        tn, rn = pn[0], pn[2 if nargs == 5 else 1]
        for sysn in (XYZ, GDT):
            I = interp(p)
            st = State()
            st.write(("P", rn), ("system",), num(sysn))
            r = I.run(f, cls=cls, state=st)
            ctx.need(r["state"] is not None, name + " returns")
            rnd = random.Random(18)
            key0 = "%s/%d|%s" % (name, nargs, SYS[sysn])
            for k in range(14):
                sky = Sky(rnd, k)
                env = base_env(sky, sysn, rn, tn)
                if mode in ("received", "received2"):
                    want = sky.received(mpf(0))
                elif mode == "measured":
                    q = sky.received(mpf(0))
                    pr = q[0] - (q[3] + q[5]) * C + sky.bias
                    env[pn[1]] = pr
                    want = sky.measured(mpf(0), pr)
                else:
                    q = sky.flight(mpf(0))
                    env[pn[1]] = q[0] - (q[3] + q[5]) * C
                    want = q + (mpf(0),)
                rho, x, v, b, d, rel, tx = want
                R = Real(I, env.get)
                s = r["state"]
                relm = -2 * dot(x, v) / C
                at = "satellite %s m from a receiver at %s" % (mpmath.nstr(rho, 6), sky.rx)
                look_s = look(sky.rx.xyz, x, mpmath.atan2(sky.rx.xyz[2], sky.rx.rho), sky.lon * RAD)
                look_g = look(sky.rx.xyz, x, sky.lat * RAD, sky.lon * RAD)
                tol = {"received": mpf("0.002"), "measured": mpf("0.002"), "received2": mpf("0.006"), "sent": mpf("0.006")}[mode]
                checks = [("range", lambda: R.ev(r["ret"]), rho - b * C - relm, tol), ("rawrange", lambda: R.ev(s.read(("this",), ("rawrange",))), rho, tol),
                          ("svclkbias", lambda: R.ev(s.read(("this",), ("svclkbias",))), b * C, mpf("1e-4")), ("svclkdrift", lambda: R.ev(s.read(("this",), ("svclkdrift",))), d * C, mpf("1e-9")),
                          ("relativity", lambda: R.ev(s.read(("this",), ("relativity",))), relm, mpf("2e-3"))]
                for i in range(3):
                    checks.append(("svPosVel.x", lambda i=i: R.ev(s.read(("this",), ("svPosVel", "x", "theArray", num(i)))), x[i], mpf("0.02")))
                    checks.append(("svPosVel.v", lambda i=i: R.ev(s.read(("this",), ("svPosVel", "v", "theArray", num(i)))), v[i], mpf("1e-4")))
                    checks.append(("cosines", lambda i=i: R.ev(s.read(("this",), ("cosines", "theArray", num(i)))), (sky.rx.xyz[i] - x[i]) / rho, mpf("1e-8")))
                for fld_, w in (("elevation", look_s[0]), ("azimuth", look_s[1]), ("elevationGeodetic", look_g[0]), ("azimuthGeodetic", look_g[1])):
                    checks.append((fld_, lambda fld_=fld_: R.ev(s.read(("this",), (fld_,))), w, mpf("1e-5")))
                checks.append(("transmit", lambda: R.ev(secs(s.read(("this",), ("transmit",)))) - sky.sod, tx, mpf("1e-3") if mode != "received" else mpf("1e-9")))
                for what, get, w, tl in checks:
                    try:
                        g = get()
                    except NoValue as ex:
                        res.unres(key0 + "|" + what, f, "%s %s: %s" % (name, what, ex))
                        continue
                    dd = abs(g - w)
                    if what.startswith("azimuth"):
                        dd = min(dd, 360 - dd)
                    res.note(key0 + "|" + what, f, "CorrectedEphemerisRange::%s of %d arguments, receiver in %s coordinates: %s is that of the signal's flight" % (name, nargs, SYS[sysn], what), dd <= tl,
                             "%s: %s, not %s" % (at, mpmath.nstr(g, 15), mpmath.nstr(w, 15)))
    return res.flush()


def compare(res, key0, f, label, at, checks):
    for what, get, w, tl in checks:
        try:
            g = get()
        except NoValue as ex:
            res.unres(key0 + "|" + what, f, "%s %s: %s" % (label, what, ex))
            continue
        dd = abs(g - w)
        if what.startswith("azimuth"):
            dd = min(dd, 360 - dd)
        res.note(key0 + "|" + what, f, "%s: %s is that of the signal's flight" % (label, what), dd <= tl, "%s: %s, not %s" % (at, mpmath.nstr(g, 15), mpmath.nstr(w, 15)))


def ord_(ctx, p):
    """the functions for observed range deviations"""
    res = Res(ctx, "observed range")
    O = G + "ord::"
    for name, nargs, mode in (("RawRange1", 5, "received"), ("RawRange2", 6, "measured"), ("RawRange3", 6, "sent"), ("RawRange4", 5, "received2")):
        f = one(ctx, p, O + name, nargs)
        pn = [x["n"] for x in f["params"]]
        prn, rn, tn, on = (pn[0] if nargs == 6 else None), pn[nargs - 5], pn[nargs - 3], pn[nargs - 1]
        for sysn in (XYZ, GDT):
            I = interp(p)
            st = State()
            st.write(("P", rn), ("system",), num(sysn))
            r = I.run(f, state=st)
            ctx.need(r["state"] is not None, name + " returns")
            rnd = random.Random(19)
            key0 = "%s|%s" % (name, SYS[sysn])
            for k in range(14):
                sky = Sky(rnd, k)
                env = base_env(sky, sysn, rn, tn)
                q = sky.received(mpf(0))
                if mode == "measured":
                    env[prn] = q[0] - (q[3] + q[5]) * C + sky.bias
                    q = sky.measured(mpf(0), env[prn])
                elif mode == "sent":
                    q = sky.flight(mpf(0))
                    env[prn] = q[0] - (q[3] + q[5]) * C
                rho, x, v, b, d, rel = q[:6]
                R = Real(I, env.get)
                s = r["state"]
                tol = mpf("0.006")
                out = lambda *pth: R.ev(s.read(("P", on), pth))
                checks = [("range", lambda: R.ev(r["ret"]), rho, tol), ("clkbias", lambda: out("clkbias"), b, mpf("1e-12")), ("clkdrift", lambda: out("clkdrift"), d, mpf("1e-18"))]
                for i in range(3):
                    checks.append(("position", lambda i=i: out("x", "theArray", num(i)), x[i], mpf("0.02")))
                    checks.append(("velocity", lambda i=i: out("v", "theArray", num(i)), v[i], mpf("1e-4")))
                compare(res, key0, f, "ord::%s, receiver in %s coordinates" % (name, SYS[sysn]), "satellite %s m from a receiver at %s" % (mpmath.nstr(rho, 6), sky.rx), checks)
    rnd = random.Random(20)
    f = one(ctx, p, O + "SvClockBiasCorrection", 1)
    g = one(ctx, p, O + "SvRelativityCorrection", 1)
    for fn, what, want in ((f, "clock", lambda e, n: -C * e[n + ".clkbias"]), (g, "relativity", lambda e, n: 2 * sum(e["%s.x[%d]" % (n, i)] * e["%s.v[%d]" % (n, i)] for i in range(3)) / C)):
        I = interp(p)
        r = I.run(fn)
        n = fn["params"][0]["n"]
        for k in range(6):
            env = {n + ".clkbias": mpf(rnd.randint(-999, 999)) * mpf("1e-6"), n + ".clkdrift": mpf(rnd.randint(-999, 999)) * mpf("1e-12"), n + ".relcorr": mpf(rnd.randint(-40, 40)) * mpf("1e-9")}
            for i in range(3):
                env["%s.x[%d]" % (n, i)], env["%s.v[%d]" % (n, i)] = mpf(rnd.randint(-26000000, 26000000)), mpf(rnd.randint(-3000, 3000))
            R = Real(I, env.get)
            compare(res, what, fn, "ord::" + fn["qual"].split("::")[-1], "a satellite", [("correction", lambda: R.ev(r["ret"]), want(env, n), mpf("1e-5"))])
    # ionosphere-free combination
    f = one(ctx, p, O + "IonosphereFreeRange", 2)
    a, b = [x["n"] for x in f["params"]]
    for n in range(4):
        for m in range(4):
            I = interp(p)
            st = State()
            st.write(("P", a), (), T("arr", *[sym_("f%d" % i) for i in range(n)]) if n else T("empty", "std::vector"))
            st.write(("P", b), (), T("arr", *[sym_("r%d" % i) for i in range(m)]) if m else T("empty", "std::vector"))
            r = I.run(f, state=st)
            key = "iono-free|%d|%d" % (n, m)
            if n != 2 or m != 2:
                res.note(key, f, "IonosphereFreeRange refuses %d frequencies with %d ranges" % (n, m), r["state"] is None and bool(r["throws"]), "it returns")
                continue
            F = {"L1": mpf("1575.42e6"), "L2": mpf("1227.60e6"), "L5": mpf("1176.45e6")}
            for x in F:
                for y in F:
                    if x == y:
                        continue
                    rho, I1 = mpf(rnd.randint(20000000, 26000000)), mpf(rnd.randint(0, 30))
                    env = {"f0": F[x], "f1": F[y], "r0": rho + I1 * (F["L1"] / F[x]) ** 2, "r1": rho + I1 * (F["L1"] / F[y]) ** 2}
                    R = Real(I, env.get)
                    compare(res, key, f, "ord::IonosphereFreeRange", "%s and %s" % (x, y), [("range without the ionosphere", lambda: R.ev(r["ret"]), rho, mpf("1e-5"))])
    # troposphere and ionosphere: the model is asked for the direction of the satellite
    seen = {}

    def trop(I, e, st):
        v = [I.ev(x, st) for x in e["a"]]
        v = [I.rd(x.args, st) if x.op == "ptr" else x for x in v]
        return T("sum", Fraction(0), ((v[0], Fraction(1)),)) if len(v) == 1 else None

    def iono(I, e, st):
        v = []
        for x in e["a"]:
            l = I.lv(x, st)
            y = I.rd(l, st) if l is not None else I.ev(x, st)
            v.append(I.rd(y.args, st) if y.op == "ptr" else y)
        r = add(add(v[2], prod(num(1000), v[3])), prod(num(1000000), v[4]))
        for i in range(3):
            r = add(r, prod(num(100000000 * 10 ** i), T("eq", fld(fld(v[1], "theArray"), num(i)), sym_("RX%d" % i))))
        return add(r, prod(num(100000000000), T("eq", fld(v[0], "m_msod"), sym_("MSOD"))))
    for name, nargs, mod in (("TroposphereCorrection", 3, {G + "TropModel::correction": trop}), ("IonosphereModelCorrection", 5, {G + "IonoModelStore::getCorrection": iono})):
        f = one(ctx, p, O + name, nargs)
        pn = [x["n"] for x in f["params"]]
        rn, sn = pn[-2:]
        for sysn in (XYZ, GDT):
            I = interp(p)
            I.models.update(mod)
            st = State()
            st.write(("P", rn), ("system",), num(sysn))
            r = I.run(f, state=st)
            for k in range(8):
                sky = Sky(rnd, k)
                env = base_env(sky, sysn, rn, pn[1])
                x = sky.x0
                for i in range(3):
                    env["%s.x[%d]" % (sn, i)] = x[i]
                    env["RX%d" % i] = sky.rx.coord(sysn)[i]
                env["MSOD"] = sky.sod * 1000
                if nargs == 5:
                    env[pn[2]] = mpf(3)
                el, az = look(sky.rx.xyz, x, mpmath.atan2(sky.rx.xyz[2], sky.rx.rho), sky.lon * RAD)
                w = el if nargs == 3 else -(el + 1000 * az + 3000000 + 100000000 * 111 + 100000000000)
                R = Real(I, env.get)
                compare(res, name + "|" + SYS[sysn], f, "ord::%s, receiver in %s coordinates" % (name, SYS[sysn]), "at %s" % sky.rx,
                        [("the model's correction in the direction of the satellite", lambda: R.ev(r["ret"]), w, mpf("1e-3"))])
    return res.flush()


def precise(ctx, p):
    """PreciseRange without an antenna model"""
    res = Res(ctx, "precise range")
    cls = G + "PreciseRange"
    f = one(ctx, p, cls + "::ComputeAtTransmitTime", 10)
    pn = [x["n"] for x in f["params"]]
    tn, prn, rn = pn[:3]
    for sysn in (XYZ, GDT):
        I = interp(p)
        st = State()
        st.write(("P", rn), ("system",), num(sysn))
        r = I.run(f, cls=cls, state=st, args=[None] * 9 + [num(0)])
        ctx.need(r["state"] is not None, "PreciseRange::ComputeAtTransmitTime returns")
        rnd = random.Random(21)
        for k in range(14):
            sky = Sky(rnd, k)
            env = base_env(sky, sysn, rn, tn)
            q = sky.received(mpf(0))
            env[prn] = q[0] - (q[3] + q[5]) * C + sky.bias
            rho, x, v, b, d, rel, tx = sky.measured(mpf(0), env[prn])
            R = Real(I, env.get)
            s = r["state"]
            ra, rb = mpmath.sqrt(dot(x, x)), mpmath.sqrt(dot(sky.rx.xyz, sky.rx.xyz))
            sh = KSH * mpmath.log((ra + rb + rho) / (ra + rb - rho))
            el, az = look(sky.rx.xyz, x, mpmath.atan2(sky.rx.xyz[2], sky.rx.rho), sky.lon * RAD)
            eg, ag = look(sky.rx.xyz, x, sky.lat * RAD, sky.lon * RAD)
            own = lambda *pth: R.ev(s.read(("this",), pth))
            tol = mpf("0.005")
            checks = [("range", lambda: R.ev(r["ret"]), rho - b * C - rel * C + sh, tol), ("rawrange", lambda: own("rawrange"), rho, tol), ("satclkbias", lambda: own("satclkbias"), b * C, mpf("1e-4")),
                      ("satclkdrift", lambda: own("satclkdrift"), d * C, mpf("1e-9")), ("relativity", lambda: own("relativity"), rel * C, mpf("1e-4")), ("relativity2", lambda: own("relativity2"), -sh, mpf("1e-6")),
                      ("transmit", lambda: R.ev(secs(s.read(("this",), ("transmit",)))) - sky.sod, tx, mpf("1e-6")), ("satLOSPCO", lambda: own("satLOSPCO"), 0, 0), ("satLOSPCV", lambda: own("satLOSPCV"), 0, 0),
                      ("elevation", lambda: own("elevation"), el, mpf("1e-5")), ("azimuth", lambda: own("azimuth"), az, mpf("1e-5")), ("elevationGeodetic", lambda: own("elevationGeodetic"), eg, mpf("1e-5")),
                      ("azimuthGeodetic", lambda: own("azimuthGeodetic"), ag, mpf("1e-5"))]
            for i in range(3):
                checks.append(("SatR", lambda i=i: own("SatR", "theArray", num(i)), x[i], mpf("0.02")))
                checks.append(("SatV", lambda i=i: own("SatV", "theArray", num(i)), v[i], mpf("1e-4")))
                checks.append(("cosines", lambda i=i: own("cosines", "theArray", num(i)), (x[i] - sky.rx.xyz[i]) / rho, mpf("1e-8")))
            compare(res, SYS[sysn], f, "PreciseRange, receiver in %s coordinates" % SYS[sysn], "satellite %s m from a receiver at %s" % (mpmath.nstr(rho, 6), sky.rx), checks)
    return res.flush()


def prepare(ctx, p):
    """satellite positions and pseudoranges handed to the position solution"""
    res = Res(ctx, "preparation")
    SS = {n: v for n, v, _ in p.enum(G + "SatelliteSystem")["vals"]}

    def sky_xvt(I, e, st):
        l = I.lv(e["a"][0], st)
        s = I.rd(l, st) if l is not None else I.ev(e["a"][0], st)
        if s.op == "ptr":
            s = I.rd(s.args, st)
        i = fld(s, "id")
        if not isnum(i):
            return None
        if val(i) == 9:
            I.throw(st, G + "InvalidRequest", e.get("l", 0))
            raise Dead()
        r = getxvt(I, e, st)
        x = fld(fld(r, "x"), "theArray")
        return upd(r, "x", upd(fld(r, "x"), "theArray", T("arr", *[add(y, num(1000 * int(val(i)))) for y in x.args])))
    sets = [[("GPS", 5)], [("GPS", 5), ("Glonass", 7), ("GPS", 9), ("GPS", -3), ("GPS", 12)], [("GPS", 9), ("GPS", 9)], [("Glonass", 4)], [("GPS", -3), ("GPS", 9)]]
    for cls, name in ((G + "PRSolution", "PreparePRSolution"), (G + "PRSolutionLegacy", "PrepareAutonomousSolution")):
        fs = [f for f in p.find(cls + "::" + name) if f.get("body")]
        ctx.need(len(fs) == 1, name)
        f = fs[0]
        pn = [x["n"] for x in f["params"]]
        ctx.need(len(pn) in (5, 6), name + " takes five or six arguments")
        tn, sn, prn, en, on = pn[:5]
        for k, sats in enumerate(sets):
            I = interp(p)
            I.models[G + "XvtStore<gpstk::SatID>::getXvt"] = sky_xvt
            st = State()
            st.write(("P", sn), (), T("arr", *[upd(upd(T("obj0", G + "SatID"), "id", num(i)), "system", num(SS[y])) for y, i in sats]))
            st.write(("P", prn), (), T("arr", *[sym_("pr%d" % j) for j in range(len(sats))]))
            for q in ("r", "c", "s"):
                st.write(("P", on), (q,), num(0))
            for q in ("s", "v"):
                st.write(("P", on), ("v", q), num(0))
            st.write(("this",), ("allowedGNSS",), T("arr", num(SS["GPS"]), num(SS["Galileo"])))
            r = I.run(f, cls=cls, state=st, args=[None] * 5 + ([num(0)] if len(pn) == 6 else []))
            ctx.need(r["state"] is not None, name + " returns")
            key = "%s|%d" % (name, k)
            rnd = random.Random(30 + k)
            s = r["state"]
            good = [y in ("GPS", "Galileo") and i > 0 and i != 9 for y, i in sats]
            for m in range(4):
                sky = Sky(rnd, m)
                env = base_env(sky, XYZ, "rx", tn)
                prs = []
                for j in range(len(sats)):
                    prs.append(mpf(rnd.randint(20000000, 26000000)))
                    env["pr%d" % j] = prs[-1]
                R = Real(I, env.get)
                checks = []
                for j, (y, i) in enumerate(sats):
                    checks.append(("satellites", lambda j=j: R.ev(fld(fld(s.read(("P", sn), ()), num(j)), "id")), -abs(i) if not good[j] else i, 0))
                    t = -prs[j] / C
                    for _ in range(9):
                        x, v, b, d, rel = sky.at(t)
                        t = -prs[j] / C - b - rel
                    row = [q + 1000 * i for q in x] + [prs[j] + C * (b + rel)] if good[j] else [mpf(0)] * 4
                    for c in range(4):
                        if not any(good) and name == "PreparePRSolution":
                            continue
                        checks.append(("satellite position and corrected pseudorange", lambda j=j, c=c: R.ev(matrix(s, on, j, c, len(sats))), row[c], mpf("1e-3")))
                n = sum(good)
                sys_ok = sum(y in ("GPS", "Galileo") and i > 0 for y, i in sats)
                if name == "PreparePRSolution":
                    w = n if n or not sys_ok else -4
                else:
                    w = 0 if n else -4
                checks.append(("result", lambda: R.ev(r["ret"]), w, 0))
                compare(res, key, f, name, "satellites %s" % ", ".join("%s %d" % q for q in sats), checks)
    return res.flush()


def matrix(st, root, i, j, rows):
    """element of a Matrix, which is kept by columns"""
    m = st.read(("P", root), ("v", "v"))
    if m.op != "ptr":
        raise NoValue("elements of the matrix")
    q = m.args[1]
    return st.read(m.args[0], (q[:-1] if q and isinstance(q[-1], Term) else q) + (num(i + j * rows),))


def check(ctx):
    ctx.rule("ranges", "range, corrections, direction and satellite state are those of the flight of the signal from the satellite at the time of transmission to the receiver at the time of reception on the rotating Earth")
    p = ctx.program(lib_sources())
    ctx.floor("comparisons of ranges", cer(ctx, p), 2000)
    ctx.rule("observed range", "the functions for observed range deviations give range, satellite state and corrections of the flight of the signal")
    ctx.floor("comparisons of observed ranges", ord_(ctx, p), 1000)
    ctx.rule("precise range", "PreciseRange gives range, satellite state, corrections and direction of the flight of the signal, with the delay by gravity")
    ctx.floor("comparisons of precise ranges", precise(ctx, p), 500)
    ctx.rule("preparation", "the position solution is given each usable satellite's position and corrected pseudorange at the time of transmission; the others are marked and left out")
    ctx.floor("comparisons of prepared data", prepare(ctx, p), 100)
