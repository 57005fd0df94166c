"""C17 tropospheric and ionospheric delays are those of the published models, of the conditions given last, or are refused."""
import copy
import json
import os
import random
from mpmath import mpf
import mpmath
from ..check import where
from ..interp import *
from ..prog import lib_sources
from ..real import Real, NoValue
from .c16 import Res, interp, one, outcome, Point, env_of, look, XYZ, CONSTS, G, dist

D = mpmath.pi / 180
A_EARTH = mpf(6378137)
REL = mpf("1e-9")
INVALID, BADPARAM = "InvalidTropModel", "InvalidParameter"


class Refused(Exception):
    pass


# --- the published models ---------------------------------------------------
# Niell 1996, Tables 3 and 4
HA = "1.2769934e-3 1.2683230e-3 1.2465397e-3 1.2196049e-3 1.2045996e-3"
HB = "2.9153695e-3 2.9152299e-3 2.9288445e-3 2.9022565e-3 2.9024912e-3"
HC = "62.610505e-3 62.837393e-3 63.721774e-3 63.824265e-3 64.258455e-3"
PA = "0 1.2709626e-5 2.6523662e-5 3.4000452e-5 4.1202191e-5"
PB = "0 2.1414979e-5 3.0160779e-5 7.2562722e-5 11.723375e-5"
PC = "0 9.0128400e-5 4.3497037e-5 84.795348e-5 170.37206e-5"
WA = "5.8021897e-4 5.6794847e-4 5.8118019e-4 5.9727542e-4 6.1641693e-4"
WB = "1.4275268e-3 1.5138625e-3 1.4572752e-3 1.5007428e-3 1.7599082e-3"
WC = "4.3472961e-2 4.6729510e-2 4.3908931e-2 4.4626982e-2 5.4736038e-2"
# UNB3 / RTCA DO-229, Table A-2
AVG = ["1013.25 1017.25 1015.75 1011.75 1013.00", "299.65 294.15 283.15 272.15 263.65", "26.31 21.79 11.66 6.78 4.11", "6.30e-3 6.05e-3 5.58e-3 5.39e-3 4.53e-3", "2.77 3.15 2.57 1.81 1.55"]
AMP = ["0 -3.75 -2.25 -1.75 -0.50", "0 7 11 15 14.5", "0 8.85 7.24 5.36 3.39", "0 0.25e-3 0.32e-3 0.81e-3 0.62e-3", "0 0.33 0.46 0.74 0.30"]
K1, K3, RD, GN, GM = mpf("77.604"), mpf(382000), mpf("287.054"), mpf("9.80665"), mpf("9.784")


def tab(s, lat):
    v = [mpf(x) for x in s.split()]
    lat = abs(lat)
    if lat <= 15:
        return v[0]
    if lat >= 75:
        return v[4]
    i = int(lat / 15) - 1
    return v[i] + (v[i + 1] - v[i]) * (lat - 15 * (i + 1)) / 15


def season(avg, amp, lat, doy, south=mpf("182.625")):
    t = doy - 28 + (south if lat < 0 else 0)
    return tab(avg, lat) - tab(amp, lat) * mpmath.cos(2 * mpmath.pi * t / mpf("365.25"))


def frac(a, b, c, s):
    return (1 + a / (1 + b / (1 + c))) / (s + a / (s + b / (s + c)))


def heightcorr(s, h):
    return (1 / s - frac(mpf("2.53e-5"), mpf("5.49e-3"), mpf("1.14e-3"), s)) * h / 1000


def niell_dry(e, lat, doy, h):
    s = mpmath.sin(e * D)
    return frac(season(HA, PA, lat, doy), season(HB, PB, lat, doy), season(HC, PC, lat, doy), s) + heightcorr(s, h)


def niell_wet(e, lat):
    return frac(tab(WA, lat), tab(WB, lat), tab(WC, lat), mpmath.sin(e * D))


def saas_g(lat, h):
    return 1 - mpf("0.00266") * mpmath.cos(2 * lat * D) - mpf("0.00028") * h / 1000


def vapour(T, H):
    """partial pressure of water vapour, as Goad and Goodman / UNB compute it"""
    th = 300 / T
    return mpf("2.409e9") * H * th ** 4 * mpmath.exp(mpf("-22.64") * th)


class Model:
    low = mpf(0)
    needs = ()

    def __init__(self):
        self.s = {}
        self.junk = False

    def need(self):
        for n in self.needs:
            if n not in self.s:
                raise Refused()

    def setWeather(self, T, P, H):
        if T + mpf("273.15") < 0 or P < 0 or H < 0 or H > 105:
            self.s.pop("T", None)
            raise Refused()
        self.s.update(T=T + mpf("273.15"), P=P, H=min(H, mpf(100)))

    def setReceiverHeight(self, h):
        self.s["h"] = h

    def setReceiverLatitude(self, lat):
        self.s["lat"] = lat

    def setDayOfYear(self, d):
        if 1 <= d <= 366:
            self.s["doy"] = d
        else:
            self.s.pop("doy", None)

    def dry_mapping_function(self, e):
        self.need()
        return mpf(0) if e < self.low else self.dmap(e)

    def wet_mapping_function(self, e):
        self.need()
        return mpf(0) if e < self.low else self.wmap(e)

    def dry_zenith_delay(self):
        self.need()
        return self.dry()

    def wet_zenith_delay(self):
        self.need()
        return self.wet()

    def place(self, lat, lon, h):
        self.setReceiverHeight(h)

    def moment(self, doy, mjd):
        pass

    def correction(self, e):
        self.need()
        return mpf(0) if e < self.low else self.dry() * self.dmap(e) + self.wet() * self.wmap(e)

    def isValid(self):
        return mpf(all(n in self.s for n in self.needs))


class Simple(Model):
    def place(self, lat, lon, h):
        pass

    needs = ("T",)

    def start(self):
        self.s.update(T=mpf("293.15"), P=mpf(980), H=mpf(50))

    def dry(self):
        return mpf("2.343") * self.s["P"] / mpf("1013.25") * (self.s["T"] - mpf("3.96")) / self.s["T"]

    def wet(self):
        T = self.s["T"]
        return mpf("8.952") / T ** 2 * self.s["H"] * mpmath.exp(mpf("-37.2465") + mpf("0.213166") * T - mpf("0.256908e-3") * T ** 2)

    def black(self, e, h):
        return 1 / mpmath.sqrt(1 - (mpmath.cos(e * D) / (1 + mpf("0.15") * h / A_EARTH)) ** 2)

    def dmap(self, e):
        return self.black(e, mpf("148.98") * (self.s["T"] - mpf("3.96")))

    def wmap(self, e):
        return self.black(e, mpf(12000))


class GG(Model):
    c05 = mpf("0.05")

    def place(self, lat, lon, h):
        pass

    """Goad and Goodman; zenith delays and mapping functions are normalised, so only their products are compared"""
    needs = ("T",)

    def start(self):
        self.s.update(T=mpf("293.15"), P=mpf(980), H=mpf(50))

    def dry(self):
        self.h = mpf(5) * mpf("0.002277") * self.s["P"] / self.nd()
        return self.nd()

    def nd(self):
        return mpf("7.7624e-5") * self.s["P"] / self.s["T"]

    def wet(self):
        return self.nw()

    def e(self):
        return vapour(self.s["T"], self.s["H"])

    def nw(self):
        T = self.s["T"]
        return mpf("1e-6") * (mpf("-12.92") + mpf("3.719e5") / T) * self.e() / T

    def seg(self, e, h, a0=0):
        """integral of (1 - h'/h)^4 along the ray, by the expansion of the paper"""
        s, c, a = mpmath.sin(e * D), mpmath.cos(e * D), A_EARTH
        r = mpmath.sqrt((a + h) ** 2 - (a * c) ** 2) - a * s
        p, q = -s / h, -c * c / (2 * h * a)
        al = [1, 4 * p, 6 * p * p + 4 * q, 4 * p * (p * p + 3 * q), p ** 4 + 12 * p * p * q + 6 * q * q, 4 * p * q * (p * p + 3 * q), q * q * (6 * p * p + 4 * q), 4 * p * q ** 3, q ** 4]
        return sum(x / (i + 1) * r ** (i + 1) for i, x in enumerate(al))

    def dmap(self, e):
        return self.seg(e, 5 * mpf("0.002277") * self.s["P"] / self.nd())

    def wmap(self, e):
        return self.seg(e, 5 * mpf("0.002277") / self.nw() * (1255 / self.s["T"] + self.c05) * self.e())


class GGHeight(Model):
    needs = ("T", "h", "hT")

    def setReceiverHeight(self, h):
        self.s["h"] = h
        if "hT" not in self.s:
            self.s.update(hT=h, hP=h, hH=h)

    def setHeights(self, t, p, h):
        self.s.update(hT=t, hP=p, hH=h)

    def parts(self):
        s = self.s
        rate = mpf("6.5e-3")
        Ts = s["T"] + rate * s["hT"]
        em = mpf("978.77") / (mpf("2.8704e4") * rate)
        ps = s["P"] * (Ts / (Ts - rate * s["hP"])) ** em / 1000
        rd = mpf("77.624e-3") / Ts
        hd = mpf("11.385") / rd
        t = s["T"] - mpf("273.15") - rate * (s["hH"] - s["hT"])
        e0 = mpf("6.11e-5") * s["H"] * mpf(10) ** (mpf("7.5") * t / (mpf("237.3") + t))
        es = e0 * (Ts / (Ts - rate * s["hH"])) ** (4 * em)
        rw = (mpf("371900.0e-3") / Ts - mpf("12.92e-3")) / Ts
        hw = mpf("11.385") * (1255 / Ts + mpf("0.05")) / rw
        return rd * ps, hd, rw * es, hw

    def seg(self, e, ho):
        h = self.s["h"]
        s = mpmath.sin(e * D)
        er = A_EARTH
        rt = (er + h) * (mpmath.sqrt(((er + ho) / (er + h)) ** 2 - 1 + s * s) - s)
        a, b = -s / (ho - h), -(1 - s * s) / (2 * er * (ho - h))
        al = [2 * a, 2 * a * a + 4 * b / 3, a * (a * a + 3 * b), a ** 4 / 5 + mpf("2.4") * a * a * b + mpf("1.2") * b * b, 2 * a * b * (a * a + 3 * b) / 3, b * b * (6 * a * a + 4 * b) / 7, a * b ** 3 / 2, b ** 4 / 9]
        return rt + sum(x * rt ** (i + 2) for i, x in enumerate(al))

    def dry(self):
        n, ho, _, _ = self.parts()
        return n * ((ho - self.s["h"]) / ho) ** 4

    def wet(self):
        _, _, n, ho = self.parts()
        return n * ((ho - self.s["h"]) / ho) ** 4

    def dmap(self, e):
        return self.seg(e, self.parts()[1])

    def wmap(self, e):
        return self.seg(e, self.parts()[3])


class GCAT(Model):
    needs = ("h",)
    low = mpf(5)

    def dry(self):
        return mpf("2.29951") * mpmath.exp(mpf("-0.000116") * self.s["h"])

    def wet(self):
        return mpf("0.1")

    def dmap(self, e):
        return mpf("1.001") / mpmath.sqrt(mpf("0.002001") + mpmath.sin(e * D) ** 2)

    wmap = dmap

    def mapping_function(self, e):
        return self.dry_mapping_function(e)


class Where:
    def place(self, lat, lon, h):
        self.setReceiverHeight(h)
        self.setReceiverLatitude(lat)

    def moment(self, doy, mjd):
        self.setDayOfYear(doy)


class MOPS(Where, GCAT):
    needs = ("h", "lat", "doy")
    south = mpf(211 - 28)

    def par(self, k):
        # the table counts the southern season from day 211
        lat, t = self.s["lat"], self.s["doy"] - (211 if self.s["lat"] < 0 else 28)
        return tab(AVG[k], lat) - tab(AMP[k], lat) * mpmath.cos(2 * mpmath.pi * t / mpf("365.25"))

    def dry(self):
        P, T, b = self.par(0), self.par(1), self.par(3)
        return mpf("1e-6") * K1 * RD * P / GM * (1 - b * self.s["h"] / T) ** (GN / (RD * b))

    def wet(self):
        T, e, b, l = self.par(1), self.par(2), self.par(3), self.par(4)
        return mpf("1e-6") * K3 * RD / (GM * (l + 1) - b * RD) * e / T * (1 - b * self.s["h"] / T) ** ((l + 1) * GN / (RD * b) - 1)

    def MOPSsigma2(self, e):
        return mpf("9.9e9") if e < 5 else (mpf("0.12") * self.dmap(e)) ** 2


class NB(Where, Model):
    needs = ("h", "lat", "doy")

    def start(self):
        self.own = True

    own = True

    def setWeather(self, *a):
        if not a:
            if "lat" not in self.s or "doy" not in self.s:
                raise Refused()
            self.own = True
            return
        self.own = None
        Model.setWeather(self, *a)
        self.own = False

    def need(self):
        Model.need(self)
        if self.own is None:
            raise Refused()

    def isValid(self):
        return mpf(all(n in self.s for n in self.needs) and self.own is not None)

    def par(self, k):
        return season(AVG[k], AMP[k], self.s["lat"], self.s["doy"])

    def g(self):
        return GM * (1 - mpf("2.66e-3") * mpmath.cos(2 * self.s["lat"] * D) - mpf("2.8e-7") * self.s["h"])

    def dry(self):
        b = self.par(3)
        z = mpf("1e-6") * K1 * RD / self.g()
        if not self.own:
            return z * self.s["P"]
        return z * self.par(0) * (1 - b * self.s["h"] / self.par(1)) ** (GN / (RD * b))

    def wet(self):
        b, l = self.par(3), self.par(4)
        z = mpf("1e-6") * K3 * RD / (self.g() * (l + 1) - b * RD)
        if not self.own:
            return z * vapour(self.s["T"], self.s["H"]) / self.s["T"]
        return z * self.par(2) / self.par(1) * (1 - b * self.s["h"] / self.par(1)) ** ((l + 1) * GN / (RD * b) - 1)

    def dmap(self, e):
        if abs(e) <= mpf("0.001"):
            raise Refused()
        return niell_dry(e, self.s["lat"], self.s["doy"], self.s["h"])

    def wmap(self, e):
        return niell_wet(e, self.s["lat"])


class Neill(Where, Model):
    needs = ("h", "lat", "doy")
    low = mpf(3)

    def dry(self):
        return mpf("2.29951") * mpmath.exp(mpf("-0.000116") * self.s["h"])

    def wet(self):
        return mpf("0.1")

    def dmap(self, e):
        return niell_dry(e, self.s["lat"], self.s["doy"], self.s["h"])

    def wmap(self, e):
        return niell_wet(e, self.s["lat"])


class GGVariant(GG):
    c05 = mpf("0.5")


class Saas(Neill):
    needs = ("T", "h", "lat", "doy")
    low = mpf(0)

    def dry(self):
        return mpf("0.0022768") * self.s["P"] / saas_g(self.s["lat"], self.s["h"])

    def wet(self):
        t = self.s["T"] - mpf("273.15")
        e = mpf("6.11") * self.s["H"] / 100 * mpf(10) ** (mpf("7.5") * t / (t + mpf("237.3")))
        return mpf("0.002277") * (1255 / self.s["T"] + mpf("0.05")) * self.again(e) / saas_g(self.s["lat"], self.s["h"])

    def again(self, e):
        return e


class SaasVariant(Saas):
    def again(self, e):
        return leick(self.s["T"], e)


def leick(T, H):
    return H / 100 * mpmath.exp(mpf("-37.2465") + mpf("0.213166") * T - mpf("0.000256908") * T * T)


class Global(Model):
    """Boehm's global mapping function and global pressure and temperature"""
    needs = ("h", "lat", "lon", "t")
    low = mpf(3)
    day1 = 44238
    tables = None

    def __init__(self):
        Model.__init__(self)
        self.s["H"] = mpf(50)

    def setReceiverLongitude(self, lon):
        self.s["lon"] = lon

    def setDayOfYear(self, d):
        self.setTime(self.day1 + d)

    def setTime(self, mjd):
        self.s["t"] = 2 * mpmath.pi * (mjd - 44266) / mpf("365.25")

    def moment(self, doy, mjd):
        self.setTime(mjd)

    def place(self, lat, lon, h):
        self.s.update(lat=lat, lon=lon, h=h)

    def setHumidity(self, H):
        if H < 0 or H > 100:
            raise Refused()
        self.s["H"] = H

    def setWeather(self, T, P, H):
        self.setHumidity(H)

    def basis(self):
        k = (self.s["lat"], self.s["lon"])
        if getattr(self, "k", None) != k:
            self.k, self.b = k, []
            x = mpmath.sin(self.s["lat"] * D)
            for n in range(10):
                for m in range(n + 1):
                    # unnormalised, without the sign (-1)^m
                    P = sum((-1) ** i * mpmath.factorial(2 * n - 2 * i) / mpmath.factorial(i) / mpmath.factorial(n - i) / mpmath.factorial(n - m - 2 * i) * x ** (n - m - 2 * i)
                            for i in range((n - m) // 2 + 1)) / mpf(2) ** n * mpmath.cos(self.s["lat"] * D) ** m
                    a = m * self.s["lon"] * D
                    self.b.append((P * mpmath.cos(a), P * mpmath.sin(a)))
        return self.b

    def series(self, name):
        if Global.tables is None:
            Global.tables = {k: [mpf(x) for x in v] for k, v in json.load(open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "gmf.json"))).items()}
        t = Global.tables
        return sum(p * a + q * b for p, q, (a, b) in zip(t["A" + name], t["B" + name], self.basis()))

    def seasonal(self, name):
        return self.series(name + "Mean") + self.series(name + "Amp") * mpmath.cos(self.s["t"])

    def ortho(self):
        return self.s["h"] - self.series("geoid")

    def kelvin(self):
        return self.seasonal("Temp") - mpf("6.5e-3") * self.ortho() + mpf("273.15")

    def press(self):
        return self.seasonal("Press") * (1 - mpf("2.26e-5") * self.ortho()) ** mpf("5.225")

    def dry(self):
        return mpf("0.0022768") * self.press() / saas_g(self.s["lat"], self.s["h"])

    def wet(self):
        return mpf("0.0122") + mpf("0.00943") * leick(self.kelvin(), self.s["H"])

    def dmap(self, e):
        south = self.s["lat"] < 0
        ch = mpf("0.062") + ((mpmath.cos(self.s["t"] + (mpmath.pi if south else 0)) + 1) * mpf("0.007" if south else "0.005") / 2 + mpf("0.002" if south else "0.001")) * (1 - mpmath.cos(self.s["lat"] * D))
        s = mpmath.sin(e * D)
        return frac(self.seasonal("Dry") * mpf("1e-5"), mpf("0.0029"), ch, s) + heightcorr(s, self.s["h"])

    def wmap(self, e):
        return frac(self.seasonal("Wet") * mpf("1e-5"), mpf("0.00146"), mpf("0.04391"), mpmath.sin(e * D))


class GlobalVariant(Global):
    day1 = 44266


class Zero(Model):
    def place(self, lat, lon, h):
        pass

    def setWeather(self, *a):
        pass

    def dry(self):
        return mpf(0)

    def wet(self):
        return mpf(0)

    def dmap(self, e):
        return mpf(0)

    wmap = dmap


# deviations listed as known findings: the obligation that fails, and the model the code computes instead
VARIANTS = {GG: ("GGTropModel uses 0.5 for 0.05", GGVariant), Saas: ("SaasTropModel converts the vapour pressure twice", SaasVariant), Global: ("GlobalTropModel counts days from 29 January", GlobalVariant)}
VMSG = {GG: "the wet mapping height of GGTropModel uses Saastamoinen's (1255/T+0.05)e", Saas: "SaasTropModel::wet_zenith_delay takes the vapour pressure that setWeather computed",
        Global: "GlobalTropModel::setDayOfYear counts the seasons from 28 January"}


# --- running the classes ----------------------------------------------------
def bases(p, c):
    out = []
    while c:
        out.append(c)
        bs = (p.rec(c) or {}).get("bases", [])
        c = (bs[0]["t"] if isinstance(bs[0], dict) else bs[0]) if bs else None
    return out


def plain(t):
    return t.replace("const ", "").replace("gpstk::", "").replace("&", "").strip()


def method(ctx, p, cls, name, types):
    """the function a call with those argument types reaches on an object of that class"""
    ctor = name is None
    for c in (bases(p, cls) if not ctor else [cls]):
        q = c + "::" + (name or c.split("::")[-1])
        for f in p.find(q, need=False):
            if f.get("body") is not None and tuple(plain(x["t"]) for x in f["params"]) == tuple(types):
                return f
    ctx.need(False, "%s::%s(%s)" % (cls, name or cls.split("::")[-1], ", ".join(types)))


TYPES = {"T": "double", "P": "double", "H": "double", "h": "double", "lat": "double", "lon": "double", "mjd": "double", "doy": "int", "e": "double", "hT": "double", "hP": "double", "hH": "double",
         "wx": "WxObservation", "RX": "Position", "SV": "Position", "RV": "Xvt", "SX": "Xvt", "tt": "CommonTime"}


class Play:
    """the class's own code run over a sequence of calls with symbolic arguments"""

    def __init__(self, ctx, p, cls, steps):
        self.ctx, self.p, self.cls = ctx, p, cls
        self.I = interp(p)
        self.steps = []
        self.st = State()
        self.dead = False
        for name, args in steps:
            if name is None and not args and not any(f.get("body") is not None for f in p.find(cls + "::" + cls.split("::")[-1], need=False)):
                continue                # implicit constructor: the members stay as they are
            f, r = self.call(name, args, self.st)
            self.steps.append((name, args, f, r))
            if r["state"] is None:
                if len(r["throws"]) == 1:
                    self.st = r["throws"][0][0].copy()
                    self.st.pc = ()
                    continue
                self.dead = True
                break
            self.st = r["state"].copy()
            self.st.pc = ()

    def call(self, name, args, st):
        base = [x.split(":")[0] for x in args]
        f = method(self.ctx, self.p, self.cls, name, [TYPES[x.rstrip("0123456789")] for x in base])
        terms = []
        for x, q in zip(args, f["params"]):
            if ":" in x:
                terms.append(num(Fraction(x.split(":")[1])))
            elif TYPES[x.rstrip("0123456789")] in ("double", "int"):
                terms.append(sym("P", x))
            else:
                terms.append(T("ptr", ("P", x), ()))
                if TYPES[x] == "Position":
                    st = st.copy()
                    st.write(("P", x), ("system",), num(XYZ))
                self.I.rootcls[("P", x)] = G + TYPES[x.rstrip("0123456789")]
        return f, self.I.run(f, cls=self.cls, state=st.copy(), args=terms)

    def observe(self, name, args):
        return self.call(name, args, self.st)


def result(R, r):
    """value returned, or the type thrown"""
    oc = outcome(R, r)
    if oc != "return":
        return oc.split("::")[-1]
    if r["state"] is None:
        return "nothing"
    return None if r["ret"] is None else R.ev(r["ret"])


def reader(I, env, junk):
    def leaf(n):
        v = env.get(n)
        if v is None and n.startswith("this."):
            if "valid" in n.lower() or "interpolate" in n:
                return mpf(junk[0])
            return mpf(junk[1])
        return v
    return Real(I, leaf)


JUNK = ((0, 0), (1, 0), (1, 45))


def close(g, w, rel=REL):
    return abs(g - w) <= rel * max(abs(w), mpf("1e-6"))


def argval(x, v):
    if ":" in x:
        return mpf(Fraction(x.split(":")[1]).numerator) / Fraction(x.split(":")[1]).denominator
    return v.get(x)


def weather(x, v):
    if x == "wx":
        return v["T"], v["P"], v["H"]


def refstep(ref, name, args, v):
    """the same call on the reference; whether it is refused"""
    d = {x.split(":")[0].rstrip("0123456789"): argval(x, v) for x in args}
    try:
        if name is None:
            if not args and hasattr(ref, "start"):
                ref.start()
            if "h" in d:
                ref.setReceiverHeight(d["h"])
            if "lat" in d:
                ref.setReceiverLatitude(d["lat"])
            if "lon" in d:
                ref.setReceiverLongitude(d["lon"])
            if "doy" in d:
                ref.setDayOfYear(d["doy"])
            if "mjd" in d:
                ref.setTime(d["mjd"])
            if "wx" in d:
                ref.setWeather(*weather("wx", v))
            if "T" in d:
                ref.setWeather(d["T"], d["P"], d["H"])
            if "RX" in d or "RV" in d:
                ref.place(v["lat"], v["lon"], v["h"])
            if "tt" in d:
                ref.moment(v["doy"], v["mjd"])
            if "hT" in d:
                ref.setHeights(d["hT"], d["hP"], d["hH"])
            return False
        if "wx" in d:
            ref.setWeather(*weather("wx", v))
        elif "RX" in d or "tt" in d:
            if "tt" in d:
                ref.moment(v["doy"], v["mjd"])
            if "RX" in d:
                ref.place(v["lat"], v["lon"], v["h"])
        else:
            getattr(ref, name)(*[argval(x, v) for x in args])
        return False
    except Refused:
        return True


def sample(rnd, k):
    lats = [mpf(x) for x in (3, 15, 22, 30, 41, 45, 59, 60, 68, 75, 80, 89, -7, -15, -33, -45, -52, -75, -88)]
    v = {"T": mpf(rnd.randint(-300, 400)) / 10, "P": mpf(rnd.randint(7000, 10400)) / 10, "H": mpf(rnd.choice([0, 10, 50, 75, 99, 100, 102, 105])), "h": mpf(rnd.randint(-100, 4500)),
         "lat": lats[k % len(lats)], "lon": mpf(rnd.randint(0, 359)) + mpf("0.5"), "doy": mpf(rnd.choice([1, 28, 29, 100, 120, 211, 212, 300, 365, 366])), "mjd": mpf(44239 + rnd.randint(9000, 15000)) + mpf("0.25"),
         "hT": mpf(rnd.randint(0, 900)), "hP": mpf(rnd.randint(0, 900)), "hH": mpf(rnd.randint(0, 900)), "e": mpf([90, 60, 30, 15, 10, 6, 5, "4.99", 3, "2.99", "0.5", "0.1", -1, -30, 45, 75, 20, 12, 8][(k * 7 + 3) % 19])}
    for n in ("T", "P", "H", "h", "lat", "lon", "doy"):
        v[n + "2"] = {"T": mpf(15), "P": mpf(1002), "H": mpf(33), "h": mpf(880), "lat": lats[(k + 5) % len(lats)], "lon": mpf(rnd.randint(0, 359)), "doy": mpf(rnd.choice([15, 60, 180, 240]))}[n]
    year = 2003 + k % 2
    if v["doy"] == 366:
        year = 2004
    day = (52640 if year == 2003 else 53005) + int(v["doy"]) - 1
    v["mjd"] = day + mpf(k % 24) / 24 + mpf("0.01")
    sod = (v["mjd"] - day) * 86400
    v.update({"tt.m_day": mpf(day + 2400001), "tt.m_msod": mpmath.floor(sod * 1000), "tt.m_fsod": (sod * 1000 - mpmath.floor(sod * 1000)) / 1000, "tt.m_timeSystem": mpf(2)})
    pt = Point("WGS84", v["lat"], v["lon"], v["h"])
    el, az, far = mpf([88, 60, 30, 15, 9, 6, 4, "2.5", 1, -5, 45, 75, 20, 12, 7][k % 15]), mpf(rnd.randint(0, 359)), mpf("2.2e7")
    sl, cl, so, co = mpmath.sin(pt.lat * D), mpmath.cos(pt.lat * D), mpmath.sin(pt.lon * D), mpmath.cos(pt.lon * D)
    n, e, u = mpmath.cos(el * D) * mpmath.cos(az * D), mpmath.cos(el * D) * mpmath.sin(az * D), mpmath.sin(el * D)
    sv = [a + far * (n * b + e * c + u * d) for a, b, c, d in zip(pt.xyz, (-sl * co, -sl * so, cl), (-so, co, 0), (cl * co, cl * so, sl))]
    v.update(env_of("RX", pt.xyz, pt))
    v.update(env_of("SV", sv, pt))
    for i in range(3):
        v["RV.x[%d]" % i], v["SX.x[%d]" % i] = pt.xyz[i], sv[i]
    v.update(CONSTS)
    gclat = mpmath.atan2(pt.xyz[2], pt.rho)
    v["elevations"] = [el, look(pt.xyz, sv, gclat, pt.lon * D)[0]]
    v.update({"wx.temperature": v["T"], "wx.pressure": v["P"], "wx.humidity": v["H"], "wx.temperatureSource": mpf(2), "wx.pressureSource": mpf(2 - k % 2), "wx.humiditySource": mpf(2)})
    return v


OBS = (("correction", ["e"]), ("dry_zenith_delay", []), ("wet_zenith_delay", []), ("dry_mapping_function", ["e"]), ("wet_mapping_function", ["e"]), ("isValid", []))


POS = {"MOPSTropModel": (["RX", "SV"], ["RX", "SV", "tt"], ["RX", "SV", "doy2"], ["RV", "SX"], ["RV", "SX", "tt"], ["RV", "SX", "doy2"]),
       "GCATTropModel": (["RX", "SV"], ["RX", "SV", "tt"], ["RV", "SX", "tt"]), "GlobalTropModel": (["RX", "SV"], ["RX", "SV", "tt"])}
POS["NeillTropModel"] = POS["MOPSTropModel"]
LATER = (["RX", "SV", "tt"], ["RV", "SX", "tt"])


def pos(cls):
    return tuple(("correction", a) for a in POS.get(cls, LATER))


def label(name, args):
    return name + ("(%s)" % ", ".join(args) if args and args != ["e"] else "")


def show_steps(c, steps):
    def arg(x):
        return x.split(":")[1] if ":" in x else x
    out = [c + "(" + ", ".join(arg(x) for x in steps[0][1]) + ")"]
    return ", ".join(out + ["%s(%s)" % (n, ", ".join(arg(x) for x in a)) for n, a in steps[1:]])


def scenario(ctx, p, res, cls, refcls, steps, obs, n=19, products=False, skip=()):
    P = Play(ctx, p, G + cls, steps)
    title = show_steps(cls, steps)
    runs = []
    for name, args in obs:
        runs.append((name, args) + P.observe(name, args))
    rnd = random.Random(hash_of(title))
    rel = mpf('3e-2') if refcls in (Simple, GG) and steps == [(None, [])] else mpf('1e-6') if products or any('RX' in a or 'RV' in a for _, a in steps + list(obs)) else REL
    used = ' '.join(' '.join(a) for _, a in steps + list(obs)).replace(',', ' ').split()
    used += ['h', 'lat', 'lon', 'doy'] if 'RX' in used else []
    for k in range(n):
        v = sample(rnd, k)
        for junk in JUNK:
            R = reader(P.I, v, junk)
            if refcls is Saas:      # which does not clamp the excess to 100
                v["H"] = v["wx.humidity"] = min(v["H"], mpf(100))
            ref = refcls()
            ok = True
            dead = False
            for name, args, f, r in P.steps:
                refused = refstep(ref, name, args, v)
                key = "%s|%s|%s" % (cls, title, name or "constructor")
                try:
                    oc = outcome(R, r).split("::")[-1]
                except NoValue as ex:
                    res.unres(key, f, "%s: %s: %s" % (title, name, ex))
                    ok = False
                    break
                msg = "%s, then nothing else: %s %s" % (title, name or "the constructor", "takes what it documents and refuses the rest")
                res.note(key, f, msg, (oc != "return") == refused, "%s although the arguments are %s" % ("it returns" if oc == "return" else "it throws " + oc, "refused" if refused else "good"))
                if (oc != "return") != refused:
                    ok = False
                if r["state"] is not None and oc != "return":
                    dead = True
                if not ok:
                    break
            if not ok or dead:
                continue
            got = {}
            for name, args, f, r in runs:
                try:
                    got[label(name, args)] = result(R, r)
                except NoValue as ex:
                    res.unres("%s|%s|%s" % (cls, title, label(name, args)), f, "%s: %s: %s" % (title, label(name, args), ex))
            at = ", ".join("%s %s" % (x, mpmath.nstr(v[x], 6)) for x in ("T", "P", "H", "h", "lat", "lon", "doy", "e", "h2", "lat2", "doy2", "hT", "hP", "hH") if x in used)
            for name, args, f, r in runs:
                lab = label(name, args)
                if lab not in got or lab in skip or (isinstance(ref, NB) and ref.isValid() and abs(v["e"]) <= mpf("0.001")):
                    continue
                key = "%s|%s|%s" % (cls, title, lab)
                want = [expect(ref, name, args, v, products, dict(got), k2) for k2 in range(2 if len(args) > 1 else 1)]
                if None in want:
                    continue
                g = got[lab]
                if products and name.endswith("mapping_function"):
                    z = got.get(name[:3] + "_zenith_delay")
                    if isinstance(z, mpf) and isinstance(g, mpf):
                        g = g * z
                msg = "after %s, %s is %s" % (title, lab, "that of the model for those conditions, or refused while they are incomplete")
                ok = any(same(g, w, rel) for w in want)
                if not ok and refcls in VARIANTS:
                    var = VARIANTS[refcls][1]()
                    vs = var
                    try:
                        for n2, a2, f2, r2 in P.steps:
                            refstep(vs, n2, a2, v)
                    except Refused:
                        pass
                    if any(same(g, expect(vs, name, args, v, products, dict(got), k2), rel) for k2 in range(2 if len(args) > 1 else 1)):
                        res.note(VARIANTS[refcls][0], f, VMSG[refcls], False, "at %s: %s is %s, not %s" % (at, lab, shown(g), shown(want[0])))
                        continue
                res.note(key, f, msg, ok, "at %s: %s, not %s" % (at, shown(g), shown(want[0])))


def shown(x):
    return x if isinstance(x, str) else mpmath.nstr(x, 10)


def same(g, w, rel):
    if isinstance(g, str) or isinstance(w, str) or g is None or w is None:
        return g == w
    return close(g, w, rel)


def expect(ref, name, args, v, products, got, k):
    """what the reference gives (its product with the zenith delay for models that normalise), a refusal, or None where either is acceptable"""
    try:
        if name == "correction" and len(args) > 1:
            ref2 = copy.copy(ref)
            ref2.s = dict(ref.s)
            early = not ref.isValid()
            if refused_call(ref2, args, v):
                return INVALID
            if early and ref2.isValid() and not isinstance(ref, Where):
                return None
            e = v["elevations"][k]
            if abs(e - ref2.low) < mpf("0.3"):
                return None
            return ref2.correction(e)
        w = getattr(ref, name)(*[v[x] for x in args])
        if products and name in ("dry_zenith_delay", "wet_zenith_delay"):
            return got[name] if isinstance(got.get(name), mpf) else mpf(0)
        if products and name.endswith("mapping_function"):
            return w * getattr(ref, name[:3] + "_zenith_delay")()
        return w
    except Refused:
        return INVALID


def refused_call(ref, args, v):
    try:
        if "tt" in args:
            ref.moment(v["doy"], v["mjd"])
        elif len(args) > 2:
            ref.setDayOfYear(v["doy2"])
        ref.place(v["lat"], v["lon"], v["h"])
        return False
    except Refused:
        return True


def hash_of(s):
    h = 7
    for c in s:
        h = (h * 131 + ord(c)) % 1000003
    return h


W, W2, WX = ["T", "P", "H"], ["T2", "P2", "H2"], ["wx"]
BADT, BADP, BADH, BADL = ["T:-274", "P:1000", "H:50"], ["T:10", "P:-1", "H:50"], ["T:10", "P:1000", "H:106"], ["T:10", "P:1000", "H:-1"]


def perms(xs):
    if not xs:
        return [[]]
    return [[x] + r for i, x in enumerate(xs) for r in perms(xs[:i] + xs[i + 1:])]


SH, SL, SD, SW, SWX = ("setReceiverHeight", ["h"]), ("setReceiverLatitude", ["lat"]), ("setDayOfYear", ["doy"]), ("setWeather", W), ("setWeather", WX)
SH2, SL2, SD2 = ("setReceiverHeight", ["h2"]), ("setReceiverLatitude", ["lat2"]), ("setDayOfYear", ["doy2"])
SHS = ("setHeights", ["hT", "hP", "hH"])
BADD = [("setDayOfYear", ["doy:0"]), ("setDayOfYear", ["doy:367"])]


def trop_scenarios():
    c = lambda *a: (None, list(a))
    for m, ref, prod in (("SimpleTropModel", Simple, False), ("GGTropModel", GG, True)):
        for s in ([c()], [c(*W)], [c(), SW], [c("wx")], [c(), SWX], [c(*W), ("setWeather", W2)], [c(*W), ("setWeather", BADT)], [c(), ("setWeather", BADP)], [c(), ("setWeather", BADH)],
                  [c(), ("setWeather", BADL)], [c(), ("setWeather", BADL), SW]):
            yield m, ref, s, OBS, prod, ()
    for s in [[c()], [c(*W)], [c(*W), SH], [c("wx"), SH], [c(*W), SHS, SH], [c(*W), SH, SHS], [c(*W, "hT", "hP", "hH")], [c(*W, "hT", "hP", "hH"), SH], [c(), SH], [c(), SHS, SH], [c(), SWX, SHS, SH],
              [c(*W), SH, SH2], [c(*W), SHS, SH, ("setWeather", W2)], [c(*W), SH, ("setWeather", BADP)], [c(*W), ("setWeather", BADH), SH]] + [[c()] + q for q in perms([SW, SHS, SH])]:
        yield "GGHeightTropModel", GGHeight, s, OBS, True, ()
    for s in ([c()], [c("h")], [c(), SH], [c("h"), SH2]):
        yield "GCATTropModel", GCAT, s, OBS + (("mapping_function", ["e"]),), False, ()
    for m, ref, extra in (("MOPSTropModel", MOPS, (("mapping_function", ["e"]), ("MOPSsigma2", ["e"]))), ("NeillTropModel", Neill, ())):
        for s in [[c()], [c("h", "lat", "doy")], [c(), SH], [c(), SH, SL], [c(), SL, SD], [c(), SH, SD], [c("h", "lat", "doy"), SL2], [c("h", "lat", "doy"), SH2], [c("h", "lat", "doy"), SD2]] + \
                 [[c("h", "lat", "doy"), b] for b in BADD] + [[c("h", "lat", "doy"), BADD[0], SD2]] + [[c()] + q for q in perms([SH, SL, SD])]:
            if m == "NeillTropModel" and len(s[0][1]) == 3:
                s = [c(), SH, SL, SD] + s[1:]
            yield m, ref, s, OBS + (extra if len(s[0][1]) == 3 and len(s) == 1 else ()), False, ()
    for s in [[c()], [c("lat", "doy")], [c("lat", "doy"), SH], [c("lat", "doy", *W), SH], [c("lat", "doy", "wx"), SH], [c("h", "lat", "doy")], [c("h", "lat", "doy"), SL2], [c("h", "lat", "doy"), SD2],
              [c("h", "lat", "doy"), SH2], [c("h", "lat", "doy"), SW], [c("h", "lat", "doy"), SWX], [c("h", "lat", "doy"), SW, SL2], [c("h", "lat", "doy"), SW, ("setWeather", [])], [c("lat", "doy", *W), SH, SH2],
              [c("h", "lat", "doy"), BADD[0]], [c(), SW], [c(), SW, SH], [c(), SH, SL], [c("lat", "doy", *W), ("setWeather", W2), SH], [c(), SL, SD, SWX, SH]] + [[c()] + q for q in perms([SH, SL, SD])]:
        yield "NBTropModel", NB, s, OBS, False, ()
    for s in [[c()], [c("lat", "doy")], [c("lat", "doy"), SH], [c("lat", "doy", *W)], [c("lat", "doy", *W), SH], [c("lat", "doy", "wx"), SH], [c(), SWX, SL, SD, SH], [c("lat", "doy", *W), SH, SL2],
              [c("lat", "doy", *W), SH, SD2], [c("lat", "doy", *W), SH, ("setWeather", W2)], [c("lat", "doy", *W), SH, BADD[1]], [c(), SW, SL, SD], [c(), SW, SL, SH], [c(), SW, SH, SD]] + \
             [[c()] + q for q in perms([SH, SL, SD, SW])[::5]]:
        yield "SaasTropModel", Saas, s, OBS, False, ()


def more_scenarios():
    c = lambda *a: (None, list(a))
    P2 = ("setAllParameters", ["tt", "RX"])
    for m, ref, s, prod in (("SimpleTropModel", Simple, [c(*W)], False), ("GGTropModel", GG, [c(*W)], True), ("GGHeightTropModel", GGHeight, [c(*W), SHS, SH2], True), ("GGHeightTropModel", GGHeight, [c(*W), SH2, SHS], True),
                            ("GCATTropModel", GCAT, [c()], False), ("GCATTropModel", GCAT, [c("h2")], False), ("NBTropModel", NB, [c("h2", "lat2", "doy2")], False), ("NBTropModel", NB, [c("lat2", "doy2", *W), SH2], False),
                            ("SaasTropModel", Saas, [c("lat2", "doy2", *W), SH2], False), ("SaasTropModel", Saas, [c(*["lat2", "doy2"]), SW, SH2], False)):
        yield m, ref, s, OBS[:1] + pos(m), prod, ()
    for m, ref in (("MOPSTropModel", MOPS), ("NeillTropModel", Neill)):
        for s in ([c()], [c("h2", "lat2", "doy2")], [c(), SD]):
            yield m, ref, s, OBS[5:] + pos(m), False, ()
        for s in ([c("RX", "tt")], [c(), P2], [c("h2", "lat2", "doy2"), P2], [c("RX", "tt"), SH2], [c(), P2, SL2], [c(), P2, SD2], [c("h2")], [c("h2"), SL, SD], [c("h2", "lat2", "doy2"), ("setDayOfYear", ["tt"])]):
            yield m, ref, s, OBS, False, ()
    SLO, SLO2, HUM = ("setReceiverLongitude", ["lon"]), ("setReceiverLongitude", ["lon2"]), ("setHumidity", ["H"])
    ALL = ("setParameters", ["tt", "RX"])
    for s in [[c()], [c("h", "lat", "lon", "mjd")], [c("RX", "tt")], [c(), ALL], [c("h", "lat", "lon", "mjd"), ALL], [c(), ALL, ALL], [c(), ALL, HUM], [c(), HUM, ALL], [c(), ALL, SW], [c(), ALL, SWX], [c(), ALL, SH2],
              [c(), ALL, SL2], [c(), ALL, SLO2], [c(), ALL, SD2], [c(), ALL, SH2, SL2, SLO2], [c(), SH, SL, SLO], [c(), SL, SLO, SD], [c(), SH, SLO, SD], [c(), SH, SL, SD], [c(), SH, SL, SLO, SD], [c(), SD, SLO, SL, SH],
              [c(), ("setReceiverHeight", ["h:0"]), ("setReceiverLatitude", ["lat:0"]), ("setReceiverLongitude", ["lon:0"]), SD], [c("h", "lat", "lon", "mjd"), ("setHumidity", ["H:-1"])], [c("RX", "tt"), ("setHumidity", ["H:101"])]]:
        yield "GlobalTropModel", Global, s, OBS, False, ()
    for s in ([c()], [c("h2", "lat2", "lon2", "mjd")], [c(), ALL]):
        yield "GlobalTropModel", Global, s, OBS[5:] + pos("GlobalTropModel"), False, ()
    for s in ([c()], [c(), SW], [c(), SWX]):
        yield "ZeroTropModel", Zero, s, OBS[:5] + pos(""), False, ()


def trop(ctx, p, only=None):
    res = Res(ctx, "troposphere")
    for m, ref, s, obs, prod, skip in list(trop_scenarios()) + list(more_scenarios()):
        if only and m != only:
            continue
        scenario(ctx, p, res, m, ref, s, obs, products=prod, skip=skip)
    return res.flush()


def simple(ctx, p):
    return trop(ctx, p, "SimpleTropModel")


def gg(ctx, p):
    return trop(ctx, p, "GGTropModel")


def ggh(ctx, p):
    return trop(ctx, p, "GGHeightTropModel")


def gcat(ctx, p):
    return trop(ctx, p, "GCATTropModel")


def glob(ctx, p):
    return trop(ctx, p, "GlobalTropModel")


def zero(ctx, p):
    return trop(ctx, p, "ZeroTropModel")


def mops(ctx, p):
    return trop(ctx, p, "MOPSTropModel")


def neill(ctx, p):
    return trop(ctx, p, "NeillTropModel")


def nb(ctx, p):
    return trop(ctx, p, "NBTropModel")


def saas(ctx, p):
    return trop(ctx, p, "SaasTropModel")


C_M, L1, L2, L5 = mpf(299792458), mpf("1575.42"), mpf("1227.60"), mpf("1176.45")


def klobuchar(al, be, lat, lon, el, az, sod):
    """IS-GPS-200 20.3.3.5.2.5, seconds on L1"""
    E = el / 180
    psi = mpf("0.0137") / (E + mpf("0.11")) - mpf("0.022")
    pi_ = max(min(lat / 180 + psi * mpmath.cos(az * D), mpf("0.416")), mpf("-0.416"))
    li = lon / 180 + psi * mpmath.sin(az * D) / mpmath.cos(pi_ * mpmath.pi)
    pm = pi_ + mpf("0.064") * mpmath.cos((li - mpf("1.617")) * mpmath.pi)
    amp = max(sum(a * pm ** n for n, a in enumerate(al)), mpf(0))
    per = max(sum(b * pm ** n for n, b in enumerate(be)), mpf(72000))
    t = (mpf(43200) * li + sod) % 86400
    x = 2 * mpmath.pi * (t - 50400) / per
    F = 1 + 16 * (mpf("0.53") - E) ** 3
    return F * (mpf("5e-9") + (amp * (1 - x ** 2 / 2 + x ** 4 / 24) if abs(x) < mpf("1.57") else 0)), abs(abs(x) - mpf("1.57")), t


def iono(ctx, p):
    res = Res(ctx, "ionosphere")
    f = one(ctx, p, G + "IonoModel::getCorrection", 5)
    tn, rn, en, an, bn = [x["n"] for x in f["params"]]
    rnd = random.Random(5)
    bands = {n: v for n, v, _ in p.enum("gpstk::CarrierBand")["vals"]}
    ctx.need(all(b in bands for b in ("L1", "L2", "L5")), "CarrierBand L1, L2, L5")
    makes = []
    for name, nargs in (("IonoModel", 3), ("setModel", 3)):
        for unit in (1, 0):
            makes.append((name, nargs, unit))
    models = []
    for name, nargs, unit in makes:
        fc = one(ctx, p, G + "IonoModel::" + name, nargs)
        I = interp(p)
        st = State()
        if name == "setModel":
            r0 = I.run(one(ctx, p, G + "IonoModel::IonoModel", 0), cls=G + "IonoModel", state=st)
            st = r0["state"].copy()
            st.pc = ()
        r1 = I.run(fc, cls=G + "IonoModel", state=st, args=[None, None, num(unit)])
        ctx.need(r1["state"] is not None, "IonoModel::%s returns" % name)
        models.append((name, unit, I, fc, r1["state"]))
    for name, unit, I, fc, s0 in models:
        al_, be_ = [x["n"] for x in fc["params"]][:2]
        for band, num_ in sorted(bands.items()):
            if name == "setModel" and band not in ("L1", "L2"):
                continue
            st = s0.copy()
            st.pc = ()
            st.write(("P", rn), ("system",), num(XYZ))
            r = I.run(f, cls=G + "IonoModel", state=st, args=[None, None, None, None, num(num_)])
            key = "%s|%d|%s" % (name, unit, band)
            if band not in ("L1", "L2", "L5"):
                only = r["state"] is None and all(t[1].endswith("InvalidIonoModel") for t in r["throws"]) and r["throws"]
                res.note(key, f, "IonoModel::getCorrection refuses bands that are none of L1, L2 and L5", only, "CarrierBand::%s is corrected" % band)
                continue
            scale = {"L1": mpf(1), "L2": (L1 / L2) ** 2, "L5": (L1 / L5) ** 2}[band]
            for k in range(60):
                lat, lon = mpf(rnd.randint(-89, 89)), mpf(rnd.randint(0, 359))
                el, az, sod = mpf(rnd.randint(1, 90)), mpf(rnd.randint(0, 359)), mpf(rnd.randint(0, 86399))
                if k % 3 == 0:
                    lon, sod, el, az = mpf(rnd.randint(355, 359)), mpf(rnd.randint(84000, 86399)), mpf(rnd.randint(1, 9)), mpf(rnd.randint(60, 120))
                al = [mpf(rnd.randint(-9, 30)) * mpf("1e-9") * m for m in (1, 2, 8, 8)]
                be = [mpf(rnd.randint(-9, 30)) * mpf("1e4"), mpf(rnd.randint(-3, 9)) * mpf("1e4"), mpf(rnd.randint(-3, 3)) * mpf("1e5"), mpf(rnd.randint(-3, 3)) * mpf("1e5")]
                want, near, t = klobuchar(al, be, lat, lon, el, az, sod)
                if near < mpf("1e-6") or min(t, 86400 - t) < mpf("1e-3"):
                    continue
                pt = Point("WGS84", lat, lon, 100)
                env = dict(CONSTS)
                env.update(env_of(rn, pt.xyz, pt))
                env.update({en: el, an: az, tn + ".m_day": mpf(2452641 + k), tn + ".m_msod": sod * 1000, tn + ".m_fsod": mpf(0), tn + ".m_timeSystem": mpf(2)})
                for i in range(4):
                    env["%s[%d]" % (al_, i)] = al[i] / (1 if unit else mpmath.pi ** i)
                    env["%s[%d]" % (be_, i)] = be[i] / (1 if unit else mpmath.pi ** i)
                R = Real(I, lambda n: env.get(n, env.get(n[6:-4] + n[-3:] if n.startswith("deref(") else n)))
                try:
                    oc = outcome(R, r)
                    got = R.ev(r["ret"]) if oc == "return" else oc
                except NoValue as ex:
                    res.unres(key, f, "IonoModel::getCorrection: %s" % ex)
                    break
                w = want * scale * C_M
                res.note(key, f, "IonoModel::getCorrection on %s of a model given in %s by %s is that of IS-GPS-200" % (band, "semicircles" if unit else "radians", name),
                         not isinstance(got, str) and abs(got - w) < mpf("1e-6"), "latitude %s longitude %s elevation %s azimuth %s, second %s of day: %s, not %s" %
                         tuple(shown(x) for x in (lat, lon, el, az, sod, got, w)))
    # a model without parameters
    I = interp(p)
    r0 = I.run(one(ctx, p, G + "IonoModel::IonoModel", 0), cls=G + "IonoModel", state=State())
    st = r0["state"].copy()
    st.pc = ()
    r = I.run(f, cls=G + "IonoModel", state=st)
    res.note("invalid", f, "IonoModel::getCorrection of a model without parameters is refused", r["state"] is None and bool(r["throws"]) and all(t[1].endswith("InvalidIonoModel") for t in r["throws"]), "it returns")
    # comparison
    for op in ("operator==", "operator!="):
        fo = one(ctx, p, G + "IonoModel::" + op, 1)
        q = fo["params"][0]["n"]
        I = interp(p)
        r = I.run(fo, cls=G + "IonoModel")
        for k in range(9):
            env = {}
            for a in ("alpha", "beta"):
                for i in range(4):
                    env["this.%s[%d]" % (a, i)] = env["%s.%s[%d]" % (q, a, i)] = mpf(rnd.randint(1, 99))
            if k:
                env["this.%s[%d]" % (("alpha", "beta")[(k - 1) // 4], (k - 1) % 4)] += 1
            try:
                got = Real(I, env.get).ev(r["ret"])
            except NoValue as ex:
                res.unres(op, fo, "IonoModel::%s: %s" % (op, ex))
                break
            res.note(op, fo, "IonoModel::%s compares all eight parameters" % op, bool(got) == ((k == 0) == (op == "operator==")), "models that differ in %s compare %s" % ("nothing" if not k else "parameter %d" % k, bool(got)))
    return res.flush()


def check(ctx):
    ctx.rule("troposphere", "after any sequence of calls a model gives the delays of the published model for the conditions given last, nothing below its lowest elevation, and refuses while conditions are missing or bad")
    p = ctx.program(lib_sources())
    ctx.rule("ionosphere", "a model made in either unit by either way gives the correction of IS-GPS-200 20.3.3.5.2.5 on L1, L2 and L5, and refuses other bands and missing parameters")
    ctx.floor("comparisons of tropospheric delays", trop(ctx, p), 40000)
    ctx.floor("comparisons of ionospheric delays", iono(ctx, p), 300)
