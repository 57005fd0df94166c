"""C19 GPS system data, almanacs and corrections are decoded from the message as the interface specifications lay them out."""
import random
from fractions import Fraction
from mpmath import mpf
import mpmath
from ..interp import *
from ..prog import lib_sources
from ..real import Real, NoValue
from .c16 import Res, one, outcome

G = "gpstk::"
PNB = G + "PackedNavBits::"
PI = Fraction(3.1415926535898)
DEG = Fraction(3, 10)
KINDS = {"asUnsignedLong": "u", "asLong": "s", "asUnsignedDouble": "u", "asSignedDouble": "s", "asDoubleSemiCircles": "s"}
T0 = ("X",)
STALE = mpf("3.0e77")


# ---------------------------------------------------------------- model of the packed message
def elem(I, st, a, i):
    v = I.ev(a, st)
    if v.op != "ptr":
        return fld(v, num(i))
    r, q = v.args
    if q and isinstance(q[-1], Term):
        q = q[:-1]
    return st.read(r, q + (num(i),))


def accessor(name):
    kind = KINDS[name]

    def m(I, e, st):
        a = e["a"]
        t = a[0].get("t", "")
        if "*" in t or "[" in t:
            n = I.ev(a[2], st)
            if not isnum(n):
                return None
            q = [x for i in range(int(val(n))) for x in (elem(I, st, a[0], i), elem(I, st, a[1], i))]
            sc = I.ev(a[3], st)
        else:
            q = [I.valueof(I.ev(y, st), st) for y in a[:2]]
            sc = I.valueof(I.ev(a[2], st), st)
        s = T("call", "packed:" + kind, *q)
        if name in ("asLong", "asUnsignedLong"):
            return mul(s, sc)
        if not isnum(sc):
            return None
        s = mul(s, num(Fraction(2) ** int(val(sc))))
        return mul(s, num(PI)) if name == "asDoubleSemiCircles" else s
    return m


def astring(I, e, st):
    return T("call", "packed:str", *[I.valueof(I.ev(y, st), st) for y in e["a"][:2]])


def asbool(I, e, st):
    return T("call", "packed:u", I.valueof(I.ev(e["a"][0], st), st), num(1))


def getter(n):
    return lambda I, e, st: T("sym", "P", "msg." + n)


MODELS = {PNB + k: accessor(k) for k in KINDS}
MODELS.update({PNB + k: getter(k) for k in ("getobsID", "getsatSys", "getTransmitTime", "getNumBits", "getRxID", "getNavID")})
MODELS[PNB + "asString"] = astring
MODELS[PNB + "asBool"] = asbool
MODELS[G + "printTime"] = lambda I, e, st: I.fresh("text")


def interp(p, **kw):
    I = Interp(p, models=dict(MODELS), inline=lambda a, b: True, **kw)
    I.quietcalls = True
    I.keepcasts = True
    return I


class Msg:
    """a message of n bits"""

    def __init__(self, n, rnd, mode=None):
        self.n = n
        if mode in (0, 1):
            self.b = [mode] * n
        else:
            self.b = [rnd.randint(0, 1) for _ in range(n)]

    def put(self, start, n, v):
        for i in range(n):
            self.b[start + i] = (v >> (n - 1 - i)) & 1

    def u(self, *q):
        v = 0
        for s, n in zip(q[::2], q[1::2]):
            for i in range(n):
                k = s + i
                if not 0 <= k < self.n:
                    raise NoValue("bit %d of a message of %d bits" % (k, self.n))
                v = 2 * v + self.b[k]
        return v

    def s(self, *q):
        v, n = self.u(*q), sum(q[1::2])
        return v - (1 << n) if v >> (n - 1) else v


class Bits(Real):
    """terms over a message"""

    def __init__(self, I, msg, env):
        Real.__init__(self, I, self.value)
        self.msg, self.env = msg, env

    def value(self, p):
        if p in self.env:
            return self.env[p]
        if p.startswith("this") or p.startswith("uninit"):
            return STALE
        return None

    def go(self, t, env):
        op, a = t.op, t.args
        if op == "call" and isinstance(a[0], str) and a[0].startswith("packed:"):
            q = [int(self.ev(x, env)) for x in a[1:]]
            if a[0] == "packed:str":
                raise NoValue("text")
            return mpf(getattr(self.msg, a[0][7:])(*q))
        if op == "cast":
            v = self.ev(a[1], env)
            return v if abs(v) > mpf(10) ** 30 else mpf(wrap(int(v), a[0]))
        if op in ("band", "bor", "bxor", "shl", "shr"):
            x, y = int(self.ev(a[0], env)), int(self.ev(a[1], env))
            return mpf({"band": lambda: x & y, "bor": lambda: x | y, "bxor": lambda: x ^ y, "shl": lambda: x << y, "shr": lambda: x >> y}[op]())
        if op in ("uninit", "this") or (op == "sym" and a[0] == "this"):
            return STALE
        return Real.go(self, t, env)


# ---------------------------------------------------------------- what the interface specifications say
# field of the object: (signed, bits as (first, number)..., power of two, further factor)
def U(*q, p2=0, k=1):
    return ("num", False, q, Fraction(2) ** p2 * Fraction(k))


def S(*q, p2=0, k=1):
    return ("num", True, q, Fraction(2) ** p2 * Fraction(k))


def SC(*q, p2=0):
    return ("num", True, q, Fraction(2) ** p2 * PI)


def F(fn):
    return ("fn", fn)


def TM(fn):
    return ("time", fn)


def text(start, n):
    return ("text", start, n)


def near(low, bits, week):
    m = 1 << bits
    return week + (low - week + m // 2) % m - m // 2


def data_bits(first, n, k):
    """k-th quantity of n bits packed after `first` over the data bits of the words of 30 bits"""
    out, pos, skip = [], first, n * k
    while skip:
        w = 24 - pos % 30
        d = min(skip, w)
        pos += d
        skip -= d
        if pos % 30 == 24:
            pos += 6
    left = n
    while left:
        w = min(left, 24 - pos % 30)
        out += [pos, w]
        left -= w
        pos += w
        if pos % 30 == 24:
            pos += 6
    return tuple(out)


def iono(a, b=None):
    r = {}
    for i, (s, p) in enumerate(zip(a, (-30, -27, -24, -24))):
        r["alpha[%d]" % i] = S(s, 8, p2=p, k=1 / PI ** i)
    for i, (s, p) in enumerate(zip(b, (11, 14, 16, 16))):
        r["beta[%d]" % i] = S(s, 8, p2=p, k=1 / PI ** i)
    return r


HB51 = [90, 96, 102, 108, 120, 126, 132, 138, 150, 156, 162, 168, 180, 186, 192, 198, 210, 216, 222, 228, 240, 246, 252, 258]
VALID = set("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-.'/ :\"")
TEXT55 = [68, 76, 90, 98, 106, 120, 128, 136, 150, 158, 166, 180, 188, 196, 210, 218, 226, 240, 248, 256, 270, 278]


def ch55(m, k):
    c = m.u(TEXT55[k], 8)
    return ord("d") if c == 0xF8 else c if chr(c) in VALID else ord("_")


def lsf(m, w, tot, wn, bits=None):
    return w


def isc():
    r = {}
    for n, a, s in (("Tgd", "avail_Tgd", 127), ("ISC_L1CA", "avail_L1CA", 140), ("ISC_L2C", "avail_L2C", 153), ("ISC_L5I5", "avail_L5I5", 166), ("ISC_L5Q5", "avail_L5Q5", 179)):
        r[n] = F(lambda m, w, s=s: 0 if m.u(s, 13) == 4096 else m.s(s, 13) * mpf(2) ** -35)
        r[a] = F(lambda m, w, s=s: int(m.u(s, 13) != 4096))
    r.update(iono((192, 200, 208, 216), (224, 232, 240, 248)))
    return r


def eop(names):
    x, xd, y, yd, u, ud = names
    return {x: S(143, 21, p2=-20), xd: S(164, 15, p2=-21), y: S(179, 21, p2=-20), yd: S(200, 15, p2=-21), u: S(215, 31, p2=-24), ud: S(246, 19, p2=-25)}


def week_of(sow, now):
    """week of a time of week given without one: within half a week of the time of transmission"""
    w, s = now[:2]
    d = sow - s
    return w + (1 if d < -302400 else -1 if d > 302400 else 0)


EPOCH32 = TM(lambda m, now: (week_of(16 * m.u(127, 16), now), 16 * m.u(127, 16)))
L = dict(nbits=300, head=[(49, 3, 4)])
TABLE = {
    "OrbSysGpsL_51": dict(L, head=[(49, 3, 5), (62, 6, 51)], uid=(62, 6, 51), caps=[(68, 8, 147)], fields=dict(
        {"toa": U(68, 8, p2=12), "WNa": U(76, 8), "ctToa": TM(lambda m, now: (near(m.u(76, 8), 8, now[0]), 4096 * m.u(68, 8)))},
        **{"health[%d]" % (i + 1): U(HB51[i], 6) for i in range(24)})),
    "OrbSysGpsL_52": dict(L, head=[(49, 3, 4), (62, 6, 52)], uid=(62, 6, 52), fields=dict(
        {"availIndicator": U(68, 2)},
        **dict([("erd[%d]" % i, F(lambda m, w, i=i: 0 if m.u(*data_bits(70, 6, i)) == 32 else m.s(*data_bits(70, 6, i)) * mpf(3) / 10)) for i in range(30)] +
               [("erdAvail[%d]" % i, F(lambda m, w, i=i: int(m.u(*data_bits(70, 6, i)) != 32))) for i in range(30)]))),
    "OrbSysGpsL_55": dict(L, head=[(49, 3, 4), (62, 6, 55)], uid=(62, 6, 55), fields=dict(
        **{"textMsg[%d]" % k: F(lambda m, w, k=k: ch55(m, k)) for k in range(22)})),
    "OrbSysGpsL_56": dict(L, head=[(49, 3, 4), (62, 6, 56)], uid=(62, 6, 56), caps=[(218, 8, 147)], ranges=[(256, 8, 1, 7)], fields=dict(
        {"A1": S(150, 24, p2=-50), "A0": S(180, 24, 210, 8, p2=-30), "dtLS": S(240, 8), "dtLSF": S(270, 8), "WN_LSF": U(248, 8), "DN": U(256, 8),
         "WN_LSF_full": F(lambda m, now: near(m.u(248, 8), 8, now[0])),
         "ctEpoch": TM(lambda m, now: (near(m.u(226, 8), 8, now[0]), 4096 * m.u(218, 8))),
         "ctLSF": TM(lambda m, now: (near(m.u(248, 8), 8, now[0]), 86400 * (m.u(256, 8) - 1)))}, **iono((68, 76, 90, 98), (106, 120, 128, 136))),
        ties=[(226, 8), (248, 8)]),
    "OrbSysGpsL_63": dict(L, head=[(49, 3, 4), (62, 6, 63)], uid=(62, 6, 63), fields=dict(
        [("config[%d]" % (i + 1), U([68, 72, 76, 80, 90, 94, 98, 102, 106, 110, 120, 124, 128, 132, 136, 140, 150, 154, 158, 162, 166, 170, 180, 184, 188, 192, 196, 200, 210, 214, 218, 222][i], 4)) for i in range(32)] +
        [("health[%d]" % (i + 1), U([228, 240, 246, 252, 258, 270, 276, 282][i], 6)) for i in range(8)])),
    "OrbSysGpsC_30": dict(nbits=300, head=[(14, 6, 30)], uid=(14, 6, 30), fields=isc(), avail=True),
    "OrbSysGpsC_32": dict(nbits=300, head=[(14, 6, 32)], uid=(14, 6, 32), caps=[(127, 16, 37799)], fields=dict(
        {"tEOP": U(127, 16, p2=4), "ctEpoch": EPOCH32}, **eop(("PM_X", "PM_X_dot", "PM_Y", "PM_Y_dot", "delta_UT1", "delta_UT1_dot")))),
    "OrbSysGpsC_33": dict(nbits=300, head=[(14, 6, 33)], uid=(14, 6, 33), caps=[(171, 16, 37799)], ranges=[(213, 4, 1, 7)], fields={
        "A0": S(127, 16, p2=-35), "A1": S(143, 13, p2=-51), "A2": S(156, 7, p2=-68), "dtLS": S(163, 8), "dtLSF": S(217, 8), "WN_LSF": U(200, 13), "DN": U(213, 4),
        "ctEpoch": TM(lambda m, now: (m.u(187, 13), 16 * m.u(171, 16))), "ctLSF": TM(lambda m, now: (m.u(200, 13), 86400 * (m.u(213, 4) - 1)))}),
    "CNavEOP": dict(nbits=300, head=[(14, 6, 32)], uid=(14, 6, 32), xmit="ctXmit", caps=[(127, 16, 37799)], fields=dict(
        {"Teop": U(127, 16, p2=4), "ctEpoch": EPOCH32}, **eop(("PM_X", "PM_X_dot", "PM_Y", "PM_Y_dot", "deltaUT1", "deltaUT1_dot")))),
    "CNavUTC": dict(nbits=300, head=[(14, 6, 33)], uid=(14, 6, 33), xmit="ctXmit", caps=[(171, 16, 37799)], fields={
        "A0": S(127, 16, p2=-35), "A1": S(143, 13, p2=-51), "A2": S(156, 7, p2=-68), "deltaTls": S(163, 8), "deltaTlsf": S(217, 8), "WNlsf": U(200, 13), "DN": U(213, 4),
        "Tot": U(171, 16, p2=4), "WNot": U(187, 13), "ctEpoch": TM(lambda m, now: (m.u(187, 13), 16 * m.u(171, 16)))}),
    "CNavGGTO": dict(nbits=300, head=[(14, 6, 35)], uid=(14, 6, 35), xmit="ctXmit", caps=[(127, 16, 37799)], ranges=[(156, 3, 1, 7)], fields={
        "TGGTO": U(127, 16, p2=4), "WNGGTO": U(143, 13), "GNSS_ID": U(156, 3), "A0GGTO": S(159, 16, p2=-35), "A1GGTO": S(175, 13, p2=-51), "A2GGTO": S(188, 7, p2=-68),
        "ctEpoch": TM(lambda m, now: (m.u(143, 13), 16 * m.u(127, 16)))}),
    "CNavISC": dict(nbits=300, head=[(14, 6, 30)], uid=(14, 6, 30), xmit="ctXmit", fields=dict(isc(), ctEpoch=TM(lambda m, now: now)), avail=True),
    "CNavText 15": dict(nbits=300, head=[(14, 6, 15)], uid=None, xmit="ctXmit", fields={"textMessage": text(38, 29), "textPage": U(270, 4), "ctEpoch": TM(lambda m, now: now)}),
    "CNavText 36": dict(nbits=300, head=[(14, 6, 36)], uid=None, xmit="ctXmit", fields={"textMessage": text(127, 18), "textPage": U(271, 4), "ctEpoch": TM(lambda m, now: now)}),
}


def midi(o, prn, xm):
    """almanac of 'midi' form whose week begins at bit o"""
    a = o + 21 + prn
    return {"xmitSv.id": U(*xm), "subjSv.id": U(o + 21, prn), "ctAlmEpoch": TM(lambda m, now: (m.u(o, 13), 4096 * m.u(o + 13, 8))),
            "L1HEALTH": U(a, 1), "L2HEALTH": U(a + 1, 1), "L5HEALTH": U(a + 2, 1), "e": U(a + 3, 11, p2=-16), "di": SC(a + 14, 11, p2=-14), "OMEGAdot": SC(a + 25, 11, p2=-33),
            "sqrtA": U(a + 36, 17, p2=-4), "OMEGA0": SC(a + 53, 16, p2=-15), "w": SC(a + 69, 16, p2=-15), "M0": SC(a + 85, 16, p2=-15), "af0": S(a + 101, 11, p2=-20), "af1": S(a + 112, 10, p2=-37)}


TABLE["CNavMidiAlm CNAV"] = dict(nbits=300, head=[(14, 6, 37)], uid=(14, 6, 37), caps=[(140, 8, 147)], fields=midi(127, 6, (8, 6)))
TABLE["CNavMidiAlm CNAV-2"] = dict(nbits=274, head=[(8, 6, 4)], uid=(8, 6, 4), caps=[(27, 8, 147)], fields=midi(14, 8, (0, 8)))


def reduced(s, prn):
    return {"subjSv.id": U(s, prn), "deltaA": S(s + prn, 8, p2=9), "A": F(lambda m, now: 26559710 + 512 * m.s(s + prn, 8)), "OMEGA0": SC(s + prn + 8, 7, p2=-6),
            "Psi0": SC(s + prn + 15, 7, p2=-6), "L1HEALTH": U(s + prn + 22, 1), "L2HEALTH": U(s + prn + 23, 1), "L5HEALTH": U(s + prn + 24, 1),
            "ctAlmEpoch": TM(lambda m, now: (1800, 345600))}


for _s in (143, 143 + 31 * 3):
    TABLE["CNavReducedAlm CNAV, packet at %d" % _s] = dict(nbits=300, head=[(14, 6, 31)], uid=(14, 6, 31), ranges=[(_s, 6, 1, 63)], almtype="atCNAV", start=_s, fields=reduced(_s, 6), noxmit=True)
for _s in (35, 35 + 33 * 5):
    TABLE["CNavReducedAlm CNAV-2, packet at %d" % _s] = dict(nbits=274, head=[(8, 6, 3)], uid=(8, 6, 3), ranges=[(_s, 8, 1, 63)], almtype="atCNAV2", start=_s, fields=reduced(_s, 8), noxmit=True)


def corr(kind, head, nbits, tp, xm, s):
    f = {"xmitSv.id": U(*xm), "subjSv.id": U(s, 8), "topD": TM(lambda m, now: (week_of(300 * m.u(tp, 11), now), 300 * m.u(tp, 11))),
         "tOD": TM(lambda m, now: (week_of(300 * m.u(tp + 11, 11), now), 300 * m.u(tp + 11, 11)))}
    if kind == "Clk":
        f.update({"daf0": S(s + 8, 13, p2=-35), "daf1": S(s + 21, 8, p2=-51), "UDRA": S(s + 29, 5)})
    else:
        f.update({"dalpha": S(s + 8, 14, p2=-34), "dbeta": S(s + 22, 14, p2=-34), "dgamma": SC(s + 36, 15, p2=-32), "di": SC(s + 51, 12, p2=-32), "dOMEGA": SC(s + 63, 12, p2=-32),
                  "dA": S(s + 75, 12, p2=-9), "dUDRA": S(s + 87, 5)})
    f["dcDataType"] = ("enum", (lambda m: "dtCNAV2") if nbits == 274 else (lambda m, s=s: "dtLNAV" if m.u(s - 1, 1) else "dtCNAV"))
    return dict(nbits=nbits, head=head, uid=head[0], caps=[(tp, 11, 2015), (tp + 11, 11, 2015)], fields=f, start=s, noxmit=True)


TABLE["DiffCorrClk CNAV 34"] = corr("Clk", [(14, 6, 34)], 300, 127, (8, 6), 150)
TABLE["DiffCorrClk CNAV 13"] = corr("Clk", [(14, 6, 13)], 300, 38, (8, 6), 61 + 35)
TABLE["DiffCorrClk CNAV-2"] = corr("Clk", [(8, 6, 5)], 274, 14, (0, 8), 37)
TABLE["DiffCorrEph CNAV 34"] = corr("Eph", [(14, 6, 34)], 300, 127, (8, 6), 184)
TABLE["DiffCorrEph CNAV 14"] = corr("Eph", [(14, 6, 14)], 300, 38, (8, 6), 61)
TABLE["DiffCorrEph CNAV-2"] = corr("Eph", [(8, 6, 5)], 274, 14, (0, 8), 71)


def alm_lnav():
    f = {"ecc": U(68, 16, p2=-21), "toa": U(90, 8, p2=12), "deltai": SC(98, 16, p2=-19), "OMEGAdot": SC(120, 16, p2=-38), "health": U(136, 8), "AHalf": U(150, 24, p2=-11),
         "A": F(lambda m, now: (mpf(m.u(150, 24)) / 2048) ** 2), "i0": F(lambda m, now: val_(PI) * (mpf(3) / 10 + mpf(m.s(98, 16)) * mpf(2) ** -19)),
         "OMEGA0": SC(180, 24, p2=-23), "w": SC(210, 24, p2=-23), "M0": SC(240, 24, p2=-23), "af0": S(270, 8, 289, 3, p2=-20), "af1": S(278, 11, p2=-38), "subjectSV.id": U(62, 6),
         "healthy": F(lambda m, now: int(m.u(136, 8) == 0)),
         "ctToe": TM(lambda m, now: (week_of(4096 * m.u(90, 8), (now[2], now[3])), 4096 * m.u(90, 8))),
         "endValid": TM(lambda m, now: (week_of(4096 * m.u(90, 8), (now[2], now[3])), 4096 * m.u(90, 8) + 266400))}
    return dict(nbits=300, head=[(49, 3, 4)], uid=None, caps=[(90, 8, 147)], ranges=[(62, 6, 1, 32)], fields=f, fn="loadDataGpsLNAV")


def alm_cnav():
    f = {"ecc": U(157, 11, p2=-16), "toa": U(140, 8, p2=12), "deltai": SC(168, 11, p2=-14), "OMEGAdot": SC(179, 11, p2=-33), "health": U(154, 3), "AHalf": U(190, 17, p2=-4),
         "A": F(lambda m, now: (mpf(m.u(190, 17)) / 16) ** 2), "i0": F(lambda m, now: val_(PI) * (mpf(3) / 10 + mpf(m.s(168, 11)) * mpf(2) ** -14)),
         "OMEGA0": SC(207, 16, p2=-15), "w": SC(223, 16, p2=-15), "M0": SC(239, 16, p2=-15), "af0": S(255, 11, p2=-20), "af1": S(266, 10, p2=-37), "subjectSV.id": U(148, 6),
         "healthy": F(lambda m, now: int(not m.u(155 if now[4] == "L2" else 156, 1))),
         "ctToe": TM(lambda m, now: (m.u(127, 13), 4096 * m.u(140, 8)))}
    return dict(nbits=300, head=[(14, 6, 37)], uid=(14, 6, 37), caps=[(140, 8, 147)], fields=f, fn="loadDataGpsCNAV")


def val_(fr):
    return mpf(fr.numerator) / fr.denominator


TABLE["OrbSysGpsL_Reserved"] = dict(nbits=300, head=[(49, 3, 4), (62, 6, 53)], uid=None, fields=dict(
    [("pnb.bits[%d]" % i, U(b, 1)) for i, b in enumerate([b for s, n in ((68, 16), (90, 24), (120, 24), (150, 24), (180, 24), (210, 24), (240, 24), (270, 22)) for b in range(s, s + n)])],
    **{"pnb.bits_used": F(lambda m, now: 182)}))
TABLE["OrbAlmGen LNAV"] = alm_lnav()
TABLE["OrbAlmGen CNAV"] = alm_cnav()


def rdpath(name):
    out = []
    for part in name.split("."):
        if "[" in part:
            out += [part[:part.index("[")], num(int(part[part.index("[") + 1:-1]))]
        else:
            out.append(part)
    return tuple(out)


def enum_value(p, ename, name):
    e = p.enum(ename)
    for k, v, _ in e["vals"]:
        if k == name:
            return v
    raise KeyError(name)


def samples(d, rnd, n):
    out = []
    for k in range(n):
        m = Msg(d["nbits"], rnd, k if k < 2 else None)
        if k >= 4 and k % 2 == 0:
            # some field at an extreme value
            fs = [q for q in d["fields"].values() if q[0] == "num"]
            if fs:
                q = rnd.choice(fs)[2]
                total = sum(q[1::2])
                v = rnd.choice([0, (1 << total) - 1, 1 << (total - 1), (1 << (total - 1)) - 1])
                i = total
                for s, w in zip(q[::2], q[1::2]):
                    i -= w
                    m.put(s, w, (v >> i) & ((1 << w) - 1))
        if d.get("avail") and k % 3 == 0:
            for s in (127, 140, 153, 166, 179):
                if rnd.random() < 0.5:
                    m.put(s, 13, 4096)
        for s, w, cap in d.get("caps", []):
            if m.u(s, w) > cap:
                m.put(s, w, rnd.randint(0, cap))
        for s, w, lo, hi in d.get("ranges", []):
            if not lo <= m.u(s, w) <= hi:
                m.put(s, w, rnd.randint(lo, hi))
        for s, w, v in d["head"]:
            m.put(s, w, v)
        week, sow = rnd.randint(1030, 2400), rnd.choice([0, 3, 151200, 302400, 453600, 604794, rnd.randint(0, 604799)])
        for s, w in d.get("ties", []):
            if (m.u(s, w) - week) % (1 << w) == 1 << (w - 1):
                m.put(s, w, (m.u(s, w) + 1) % (1 << w))
        out.append((m, week, sow))
    return out


GPSDAY0 = 2444245


def time_env(root, week, sow):
    return {root + ".m_day": mpf(GPSDAY0 + 7 * week + sow // 86400), root + ".m_msod": mpf(sow % 86400 * 1000), root + ".m_fsod": mpf(0), root + ".m_timeSystem": mpf(2)}


def total(R, st, path):
    return R.ev(st.read(("this",), path + ("m_day",))) * 86400 + R.ev(st.read(("this",), path + ("m_msod",))) / 1000 + R.ev(st.read(("this",), path + ("m_fsod",)))


def textval(R, t):
    if t.op == "ite":
        return textval(R, t.args[1] if R.ev(t.args[0]) else t.args[2])
    if t.op == "call" and t.args[0] == "packed:str":
        return int(R.ev(t.args[1])), int(R.ev(t.args[2]))
    raise NoValue("text " + show(t, 4)[:80])


def params(f, d, p, st):
    """names of the parameters by role"""
    for x in f["params"]:
        if "AlmType" in x["t"]:
            st.write(("P", x["n"]), (), num(enum_value(p, G + "CNavReducedAlm::AlmType", d["almtype"])))
    return {}


def decode(ctx, p):
    res = Res(ctx, "layout")
    for key, d in TABLE.items():
        cls = G + key.split(" ")[0]
        short = key.split(" ")[0]
        fns = [one(ctx, p, cls + "::" + d.get("fn", "loadData"), None, None if short != "OrbAlmGen" else "PackedNavBits")]
        if "fn" not in d:
            fns.append(one(ctx, p, cls + "::" + short, len(fns[0]["params"])) if len(fns[0]["params"]) != 1 else
                       [f for f in p.find(cls + "::" + short) if f.get("body") and len(f["params"]) == 1 and "PackedNavBits" in f["params"][0]["t"]][0])
        for f in fns:
            I = interp(p)
            args = []
            for x in f["params"]:
                if "AlmType" in x["t"]:
                    args.append(num(enum_value(p, G + "CNavReducedAlm::AlmType", d["almtype"])))
                elif "nsigned" in x["t"] or x["t"].strip() == "const unsigned":
                    args.append(num(d["start"]))
                else:
                    args.append(None)
            r = I.run(f, cls=cls, args=args)
            ctx.need(r["state"] is not None or r["throws"], "%s::%s returns" % (short, f["name"]))
            st = r["state"]
            rnd = random.Random(1900 + len(key))
            how = "constructor" if f["name"] == short else f["name"]
            for m, week, sow in samples(d, rnd, 40):
                env = {"msg.getNumBits": mpf(d["nbits"])}
                env.update(time_env("msg.getTransmitTime", week, sow))
                env.update({"msg.getsatSys.id": mpf(7), "msg.getsatSys.system": mpf(enum_value(p, G + "SatelliteSystem", "GPS"))})
                band = rnd.choice(["L2", "L5"])
                env["msg.getobsID.band"] = mpf(enum_value(p, G + "CarrierBand", band))
                w0, s0 = week + rnd.choice([0, 0, 1]), rnd.choice([61440, 319488, 405504, 589824])
                env.update({"G.gpstk::OrbAlmGen::WNa_full": mpf(w0), "G.gpstk::OrbAlmGen::t_oa": mpf(s0), "G.gpstk::OrbAlmGen::WN_set": mpf(1)})
                ca = [x["n"] for x in f["params"] if "CommonTime" in x["t"]]
                if ca:
                    env.update(time_env(ca[0], 1800, 345600))
                now = (week, sow, w0, s0, band)
                R = Bits(I, m, env)
                at = "message sent in week %d at %d s" % (week, sow)
                k0 = "%s|%s" % (key, how)
                try:
                    o = outcome(R, r)
                except NoValue as ex:
                    res.unres(k0, f, "%s %s: %s" % (key, how, ex))
                    continue
                res.note(k0 + "|accepted", f, "%s, %s: a message of its kind is accepted" % (key, how), o == "return", "%s: %s" % (at, o))
                if o != "return" or st is None:
                    continue
                allf = dict(d["fields"])
                allf[d.get("xmit", "beginValid")] = TM(lambda m, now: now)
                if d.get("noxmit"):
                    del allf["beginValid"]
                if d.get("fn") is None:
                    allf["dataLoadedFlag"] = F(lambda m, now: 1)
                for name, q in allf.items():
                    pth = rdpath(name)
                    try:
                        if q[0] == "time":
                            w = q[1](m, now)
                            w = w[0] * 604800 + w[1]
                            g = total(R, st, pth) - GPSDAY0 * 86400
                            ok = abs(g - w) < mpf("1e-6")
                            sysv = R.ev(st.read(("this",), pth + ("m_timeSystem",)))
                            if name != "beginValid" and sysv != 2:
                                ok, g = False, "time system %s" % mpmath.nstr(sysv, 4)
                        elif q[0] == "text":
                            g, w = textval(R, st.read(("this",), pth)), (q[1], q[2])
                            ok = g == w
                        else:
                            if q[0] == "enum":
                                w = mpf(enum_value(p, G + "DiffCorrBase::DCTYPE", q[1](m)))
                            elif q[0] == "num":
                                w = mpf(m.s(*q[2]) if q[1] else m.u(*q[2])) * q[3].numerator / q[3].denominator
                            else:
                                w = mpf(q[1](m, now))
                            g = R.ev(st.read(("this",), pth))
                            ok = abs(g - w) <= abs(w) * mpf("1e-14") + mpf("1e-25")
                    except NoValue as ex:
                        res.unres(k0 + "|" + name, f, "%s %s: %s: %s" % (key, how, name, ex))
                        continue
                    if not ok:
                        g = "what was there before" if not isinstance(g, (str, tuple)) and abs(g) > mpf(10) ** 60 else g if isinstance(g, (str, tuple)) else mpmath.nstr(g, 15)
                    res.note(k0 + "|" + name, f, "%s, %s: %s is what the message holds" % (key, how, name), ok, "%s: %s, not %s" % (at, g, w if isinstance(w, tuple) else mpmath.nstr(w, 15)))
    return res.flush()



# ---------------------------------------------------------------- messages that are not meant
ACCEPT = {"CNavReducedAlm CNAV": {31, 12}, "DiffCorrClk CNAV": {34, 13, 14}, "DiffCorrEph CNAV": {34, 13, 14}}


def refuse(ctx, p):
    res = Res(ctx, "kind")
    done = set()
    todo = [(k, d) for k, d in TABLE.items()]
    for key, d in todo:
        short = key.split(" ")[0]
        k2 = " ".join(key.split(",")[0].split(" ")[:2])
        if k2 in done or (short == "CNavText" and "CNavText" in done):
            continue
        done.add(k2)
        done.add(short)
        cls = G + short
        f = one(ctx, p, cls + "::" + d.get("fn", "loadData"), None, None if short != "OrbAlmGen" else "PackedNavBits")
        I = interp(p)
        args = []
        for x in f["params"]:
            if "AlmType" in x["t"]:
                args.append(num(enum_value(p, G + "CNavReducedAlm::AlmType", d["almtype"])))
            elif "nsigned" in x["t"]:
                args.append(num(d["start"]))
            else:
                args.append(None)
        r = I.run(f, cls=cls, args=args)
        rnd = random.Random(7)
        lnav = d["head"][0][0] == 49
        accept = ACCEPT.get(k2, {15, 36} if short == "CNavText" else set(range(1, 33)) if short == "OrbAlmGen" and lnav else {53, 54, 57, 58, 59, 60, 61, 62} if short.endswith("Reserved") else {d["head"][-1][2]})
        pos = (62, 6) if lnav else d["head"][0][:2]
        cases = [(sf, u) for sf in range(8) for u in range(64)] if lnav else [(0, u) for u in range(1 << pos[1])]
        for sf, u in cases:
            m, week, sow = samples(d, rnd, 5)[4]
            m.put(pos[0], pos[1], u)
            good = u in accept
            if lnav:
                m.put(49, 3, sf)
                good = good and sf in (4, 5)
                if sf not in (4, 5) and u % 7 and u not in accept:
                    continue
            env = {"msg.getNumBits": mpf(d["nbits"]), "this.UID": mpf(min(accept)), "G.gpstk::OrbAlmGen::WN_set": mpf(1), "G.gpstk::OrbAlmGen::WNa_full": mpf(week), "G.gpstk::OrbAlmGen::t_oa": mpf(61440)}
            env.update(time_env("msg.getTransmitTime", week, sow))
            env.update({"msg.getsatSys.id": mpf(7), "msg.getsatSys.system": mpf(enum_value(p, G + "SatelliteSystem", "GPS")), "msg.getobsID.band": mpf(enum_value(p, G + "CarrierBand", "L2"))})
            R = Bits(I, m, env)
            try:
                o = outcome(R, r)
            except NoValue as ex:
                res.unres(k2, f, "%s: %s" % (k2, ex))
                continue
            want = "return" if good else "gpstk::InvalidParameter"
            res.note(k2 + ("|taken" if good else "|refused"), f, "%s::%s %s" % (short, f["name"], "takes messages of its kind" if good else "refuses every other message with InvalidParameter"),
                     o == want, "%s%d: %s" % ("subframe %d, page identifier " % sf if lnav else "message type or page ", u, o))
    return res.flush()


# ---------------------------------------------------------------- sameness
EXTRA = {"OrbSysGpsL_51": ["ctToa"], "OrbSysGpsL_56": ["ctEpoch", "ctLSF"]}
SKIP = {"dcDataType", "toa", "WNa", "WN_LSF_full", "ctLSF", "tEOP", "Teop", "Tot", "WNot", "TGGTO", "WNGGTO", "deltai", "deltaA", "AHalf", "A", "endValid", "healthy", "beginValid", "reserved", "i0"}
NOTDATA = {"CNavISC": {"ctEpoch"}, "CNavText": {"ctEpoch"}, "OrbAlmGen": {"subjectSV.id"}}


TEXTS = ("textMsg", "textMessage")


class Pair(Real):
    def __init__(self, I, other, changed):
        Real.__init__(self, I, self.value)
        self.other, self.changed = other, changed

    def value(self, p):
        for root in ("this.", "deref(" + self.other + ").", self.other + "."):
            if p.startswith(root):
                q = p[len(root):]
                base = mpf(sum(ord(c) * (i + 3) for i, c in enumerate(q)) % 97 + 1)
                if root == "this.":
                    return base
                if q == self.changed or q.startswith(self.changed + "."):
                    return base + 1
                return base
        return None

    def go(self, t, env):
        if t.op == "cast":
            return self.ev(t.args[1], env)
        if t.op == "ne":
            return mpf(1 - (self.ev(t.args[0], env) == self.ev(t.args[1], env)))
        if t.op in ("ptr", "dyncast"):
            return mpf(1)
        if t.op == "call" and len(t.args) == 3 and str(t.args[0]).split("::")[-1] in ("compare", "strcmp"):
            return mpf(1 if self.changed in TEXTS and any(self.changed in show(a, 6) for a in t.args[1:]) else 0)
        return Real.go(self, t, env)


def same(ctx, p):
    res = Res(ctx, "sameness")
    done = set()
    for key, d in TABLE.items():
        short = key.split(" ")[0]
        if short in done:
            continue
        done.add(short)
        cls = G + short
        f = one(ctx, p, cls + "::isSameData", None)
        pn = f["params"][0]["n"]
        I = interp(p, **({}))
        ptr = "*" in f["params"][0]["t"]
        target = ("P", pn) if not ptr else ("deref", pn)
        args = [None]
        st = State()
        I.models = dict(I.models)
        if ptr:
            I.dyn = {(("Q", pn), ()): cls}
            I.rootcls[("Q", pn)] = cls
            args = [T("ptr", ("Q", pn), ())]
        r = I.run(f, cls=cls, args=args, state=st)
        names = set()
        for k, dd in TABLE.items():
            if k.split(" ")[0] == short:
                names |= set(dd["fields"])
        names = {n.split("[")[0] if n.startswith("textM") else n for n in names}
        names = {n for n in names if n not in SKIP and n not in NOTDATA.get(short, ()) and not n.startswith("pnb")}
        names |= set(EXTRA.get(short, ())) - NOTDATA.get(short, set()) - (SKIP - {"ctToa"})
        other = "Q." + pn if ptr else pn
        for n in sorted(names) + [None]:
            tag = n + (".m_day" if n and (n.startswith("ct") or n in ("topD", "tOD")) else "") if n else "-"
            R = Pair(I, other, tag)
            try:
                v = R.ev(r["ret"])
            except NoValue as ex:
                res.unres("%s|%s" % (short, n), f, "%s::isSameData: %s" % (short, ex))
                continue
            if n:
                res.note("%s|%s" % (short, n), f, "%s::isSameData: objects that differ in %s are not the same data" % (short, n), v == 0, "taken as the same")
            else:
                res.note("%s|equal" % short, f, "%s::isSameData: equal objects are the same data" % short, v != 0, "taken as different")
    return res.flush()


# ---------------------------------------------------------------- what the data say at a given time
class Data(Bits):
    def __init__(self, I, env):
        Bits.__init__(self, I, None, env)

    def value(self, p):
        return self.env.get(p)

    def go(self, t, env):
        if t.op == "ptr" and t.args[0] == ("this",):
            q = "this"
            for x in t.args[1]:
                q += "[%d]" % int(self.ev(x, env)) if isinstance(x, Term) else "." + str(x)
            if q in self.env:
                return self.env[q]
            raise NoValue(q)
        return Bits.go(self, t, env)


def at(name, t):
    """environment of an epoch t seconds after the GPS epoch"""
    d = int(mpmath.floor(t / 86400))
    ms = int((t - d * 86400) * 1000 + mpf("1e-9"))
    return {name + ".m_day": mpf(GPSDAY0 + d), name + ".m_msod": mpf(ms), name + ".m_fsod": (t - d * 86400) - mpf(ms) / 1000, name + ".m_timeSystem": mpf(2)}


def runf(p, cls, name, n=None, has=None, const=True):
    fs = [f for f in p.find(G + cls + "::" + name) if f.get("body") and (n is None or len(f["params"]) == n) and (has is None or any(has in x["t"] for x in f["params"]))]
    return fs[0] if len(fs) == 1 else None


def gps(w, s):
    return mpf(w) * 604800 + mpf(s)


DAYS = [-20, -8, -1.5, -0.52, -0.48, -0.26, -0.24, -0.1, -60.0 / 86400, -10.0 / 86400, -3.0 / 86400, 3.0 / 86400, 10.0 / 86400, 17.0 / 86400, 60.0 / 86400, 0.1, 0.24, 0.26, 0.48, 0.52, 1.5, 8, 20]


def utc(ctx, p, res):
    for cls, degree in (("OrbSysGpsL_56", 1), ("OrbSysGpsC_33", 2)):
        rnd = random.Random(56 + degree)
        fo, fm, fv, ft = (ctx.need(runf(p, cls, n, k), "%s::%s" % (cls, n)) for n, k in (("getUtcOffset", 1), ("getUtcOffsetModLeapSec", 1), ("isUtcValid", 2), ("getTSC", 0)))
        runs = {}
        for f in (fo, fm, fv):
            I = interp(p)
            runs[f["name"]] = (I, I.run(f, cls=G + cls), f["params"])
        for k in range(60):
            ls = rnd.choice([13, 17, 18, 18, 37])
            lsf = ls + rnd.choice([0, 1, 1, 1, -1])
            wn, dn = rnd.randint(1100, 2300), rnd.randint(1, 7)
            lsft = gps(wn, 86400 * (dn - 1))
            eff = lsft + 86400 + lsf
            a = [mpf(rnd.randint(-2 ** 15, 2 ** 15)) / 2 ** 35, mpf(rnd.randint(-2 ** 12, 2 ** 12)) / 2 ** 51, mpf(rnd.randint(-64, 63)) / 2 ** 68 if degree == 2 else mpf(0)]
            for dd in DAYS:
                ct = eff + mpf(int(dd * 86400)) + mpf(rnd.choice([0, 0, 250])) / 1000
                tot = ct + rnd.choice([-300000, -4096, 0, 4096, 100000, 400000])
                tot = mpmath.floor(tot / 16) * 16
                env = {"this.A0": a[0], "this.A1": a[1], "this.A2": a[2], "this.dtLS": mpf(ls), "this.dtLSF": mpf(lsf), "this.WN_LSF": mpf(wn % 256 if degree == 1 else wn), "this.WN_LSF_full": mpf(wn), "this.DN": mpf(dn), "this.dataLoadedFlag": mpf(1)}
                env.update(at("this.ctEpoch", tot))
                env.update(at("this.ctLSF", lsft))
                dt = ct - tot
                want = a[0] + a[1] * dt + a[2] * dt * dt
                for nm, w in (("getUtcOffsetModLeapSec", want), ("getUtcOffset", want + (ls if ct < eff else lsf))):
                    I, r, ps = runs[nm]
                    e2 = dict(env)
                    e2.update(at(ps[0]["n"], ct))
                    f = fo if nm == "getUtcOffset" else fm
                    try:
                        g = Data(I, e2).ev(r["ret"])
                    except NoValue as ex:
                        res.unres("%s|%s" % (cls, nm), f, "%s::%s: %s" % (cls, nm, ex))
                        continue
                    res.note("%s|%s" % (cls, nm), f, "%s::%s is %s" % (cls, nm, "the polynomial in the time since its epoch" if f is fm else "the leap seconds in force plus the polynomial"),
                             abs(g - w) < mpf("1e-7"), "%s s after the leap second takes effect, which is the end of the UTC day DN (%d to %d s): %s, not %s" % (mpmath.nstr(ct - eff, 9), ls, lsf, mpmath.nstr(g, 12), mpmath.nstr(w, 12)))
                # validity
                for h in (-71, -69, -10, 0, 10, 23.5, 24.5, 47.5, 48.5, 73, 75, 167, 169):
                    I, r, ps = runs["isUtcValid"]
                    if dd != DAYS[0] and rnd.random() < 0.9:
                        continue
                    # h hours of the time of interest after the epoch (C_33) or before it (L_56)
                    t = tot + mpf(h) * 3600 * (1 if degree == 2 else -1)
                    for first in (0, 1):
                        e2 = dict(env)
                        e2.update(at(ps[0]["n"], t))
                        e2[ps[1]["n"]] = mpf(first)
                        w = -70 <= h <= 74 if degree == 2 else (48 if first else 24) <= h <= 168
                        try:
                            g = Data(I, e2).ev(r["ret"]) != 0
                        except NoValue as ex:
                            res.unres("%s|valid" % cls, fv, "%s::isUtcValid: %s" % (cls, ex))
                            continue
                        res.note("%s|valid" % cls, fv, "%s::isUtcValid is the window its documentation gives" % cls, g == w, "%s h %s the reference time%s: %s" % (h, "after" if degree == 2 else "before", ", first transmission" if first else "", g))
    return


def eopeval(ctx, p, res):
    cls = "OrbSysGpsC_32"
    fx, fy = runf(p, cls, "getxp", 1), runf(p, cls, "getyp", 1)
    fu = ([f for f in p.find(G + cls + "::getUT1") if f.get("body") and all("CommonTime" in x["t"] for x in f["params"])] or [None])[0]
    for f in (fx, fy, fu):
        ctx.need(f, "polar motion and UT1 of " + cls)
    rnd = random.Random(32)
    for f, kind in ((fx, "X"), (fy, "Y"), (fu, "UT1")):
        I = interp(p)
        r = I.run(f, cls=G + cls)
        for k in range(60):
            v, d = mpf(rnd.randint(-2 ** 20, 2 ** 20)) / 2 ** 20, mpf(rnd.randint(-2 ** 14, 2 ** 14)) / 2 ** 21
            tot = gps(rnd.randint(1100, 2300), 16 * rnd.randint(0, 37799))
            ct = tot + rnd.choice([-200000, -3600, 0, 86400, 43200, 500000])
            env = {"this.dataLoadedFlag": mpf(1)}
            env.update({"this.PM_X": v, "this.PM_X_dot": d} if kind == "X" else {"this.PM_Y": v, "this.PM_Y_dot": d} if kind == "Y" else {"this.delta_UT1": v, "this.delta_UT1_dot": d, "this.delta_UT1_dot_per_sec": d / 86400})
            env.update(at("this.ctEpoch", tot))
            env.update(at(f["params"][0]["n"], ct))
            w = v + d / 86400 * (ct - tot)
            R = Data(I, env)
            try:
                if kind == "UT1":
                    env.update(at(f["params"][1]["n"], ct - 18))
                    env[f["params"][1]["n"] + ".m_timeSystem"] = mpf(enum_value(p, G + "TimeSystem::Systems", "UTC") if p.enum(G + "TimeSystem::Systems") else 5)
                    g = (R.ev(fld(r["ret"], "m_day")) - GPSDAY0) * 86400 + R.ev(fld(r["ret"], "m_msod")) / 1000 + R.ev(fld(r["ret"], "m_fsod"))
                    w = w + ct - 18
                else:
                    g = R.ev(r["ret"])
            except NoValue as ex:
                res.unres("%s|%s" % (cls, kind), f, "%s %s: %s" % (cls, kind, ex))
                continue
            res.note("%s|%s" % (cls, kind), f, "%s::%s is the value at its epoch plus the rate per day" % (cls, f["name"]), abs(g - w) < mpf("1e-7"), "%s s after the epoch: %s, not %s" % (mpmath.nstr(ct - tot, 9), mpmath.nstr(g, 12), mpmath.nstr(w, 12)))


PAGES = {51: 25, 52: 13, 53: 14, 54: 15, 55: 17, 56: 18, 58: 19, 59: 20, 60: 22, 61: 23, 63: 25}


def pages(ctx, p, res):
    f = one(ctx, p, G + "OrbSysGpsL::getPageID", 0)
    g = one(ctx, p, G + "OrbSysGpsL::getSubframe", 0)
    I, J = interp(p), interp(p)
    r, s = I.run(f, cls=G + "OrbSysGpsL"), J.run(g, cls=G + "OrbSysGpsL")
    for uid in range(51, 64):
        for sow in [30 * k + o for k in list(range(0, 52)) + [5000, 20159] for o in (0, 6, 24, 29)]:
            env = {"this.UID": mpf(uid)}
            env.update(at("this.beginValid", gps(1900, sow)))
            w = PAGES.get(uid, sow % 750 // 30 + 1)
            try:
                v, sf = Data(I, env).ev(r["ret"]), Data(J, env).ev(s["ret"])
            except NoValue as ex:
                res.unres("page", f, "getPageID: %s" % ex)
                continue
            res.note("page|%d" % uid, f, "getPageID of unique ID %d is the page that carries it, counting from one" % uid, v == w, "sent at %d s of week: %s, not %d" % (sow, mpmath.nstr(v, 4), w))
            res.note("subframe|%d" % uid, g, "getSubframe of unique ID %d" % uid, sf == (5 if uid == 51 else 4), "subframe %s" % mpmath.nstr(sf, 3))


def erd(ctx, p, res):
    f = one(ctx, p, G + "OrbSysGpsL_52::getERD", 1)
    I = interp(p)
    r = I.run(f, cls=G + "OrbSysGpsL_52")
    pn = f["params"][0]["n"]
    gpsv = mpf(enum_value(p, G + "SatelliteSystem", "GPS"))
    for own in (1, 2, 15, 30, 31, 32):
        for sat in list(range(-1, 34)):
            for mode in ("ok", "encrypted", "slot", "empty"):
                env = {"this.dataLoadedFlag": mpf(mode != "empty"), "this.availIndicator": mpf(mode == "encrypted"), "this.satID.id": mpf(own), "this.satID.system": gpsv, pn + ".id": mpf(sat), pn + ".system": gpsv}
                env["G.gpstk::OrbSysGpsL_52::max_erd"] = mpf(30)
                slot = sat - 1 - (sat > own)
                for i in range(32):
                    env["this.erd[%d]" % i] = mpf(i) / 4 + 1
                    env["this.erdAvail[%d]" % i] = mpf(not (mode == "slot" and i == slot))
                good = mode == "ok" and 1 <= sat <= 31 and sat != own and slot < 30
                R = Data(I, env)
                try:
                    o = outcome(R, r)
                    v = R.ev(r["ret"]) if o == "return" else None
                except NoValue as ex:
                    res.unres("erd", f, "getERD: %s" % ex)
                    continue
                ok = (o == "return" and v == mpf(slot) / 4 + 1) if good else o == "gpstk::InvalidRequest"
                res.note("erd|%s" % ("value" if good else "refused"), f, "getERD gives the slot of the satellite, which skips the transmitting one, or refuses with InvalidRequest", ok,
                         "PRN %d from PRN %d (%s): %s" % (sat, own, mode, o if v is None else mpmath.nstr((v - 1) * 4, 4) + ". slot"))


def signal(ctx, p, res):
    f = ctx.need(([x for x in p.find(G + "OrbSysGpsL_63::hasSignal") if x.get("body") and len(x["params"]) == 4] or [None])[0], "OrbSysGpsL_63::hasSignal by band and code")
    I = interp(p)
    r = I.run(f, cls=G + "OrbSysGpsL_63")
    ps = [x["n"] for x in f["params"]]
    bands = {k: v for k, v, _ in p.enum(G + "CarrierBand")["vals"]}
    codes = {k: v for k, v, _ in p.enum(G + "TrackingCode")["vals"]}
    need = {}
    for b in ("L1", "L2"):
        for c in ("P", "Y", "Ztracking", "YCodeless", "Semicodeless"):
            need[b, c] = 1
        need[b, "MDP"] = 2
    need["L1", "CA"] = 1
    for c in ("L2CL", "L2CM", "L2CML"):
        need["L2", c] = 2
    for c in ("L5I", "L5Q"):
        need["L5", c] = 3
    for c in ("L1CP", "L1CD", "L1CDP"):
        need["L1", c] = 4
    gpsv, gal = mpf(enum_value(p, G + "SatelliteSystem", "GPS")), mpf(enum_value(p, G + "SatelliteSystem", "Galileo"))
    cases = []
    for b in ("L1", "L2", "L5", "G1", "E6"):
        for c in sorted(codes):
            if b in bands:
                cases.append((b, c, 7, gpsv, 1))
    cases += [("L1", "CA", k, gpsv, 1) for k in (-1, 0, 1, 32, 33, 40)] + [("L1", "CA", 7, gal, 1), ("L1", "CA", 7, gpsv, 0)]
    for b, c, sat, sysv, loaded in cases:
        for cfg in (0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 15) if (b, c) in need else (4,):
            env = {"this.dataLoadedFlag": mpf(loaded), ps[0] + ".id": mpf(sat), ps[0] + ".system": sysv, ps[2]: mpf(bands[b]), ps[3]: mpf(codes[c])}
            for i in range(33):
                env["this.config[%d]" % i] = mpf(cfg if i == sat else 15 - cfg)
            R = Data(I, env)
            try:
                o = outcome(R, r)
                v = R.ev(r["ret"]) != 0 if o == "return" else None
            except NoValue as ex:
                res.unres("signal", f, "hasSignal: %s" % ex)
                continue
            good = (b, c) in need and 1 <= sat <= 32 and sysv == gpsv and loaded
            w = cfg % 8 >= need.get((b, c), 9)
            res.note("signal|%s" % ("value" if good else "refused"), f, "hasSignal follows the configuration code of the satellite, or refuses with InvalidRequest", (o == "return" and v == w) if good else o == "gpstk::InvalidRequest",
                     "%s %s, satellite %d, configuration %d%s: %s" % (b, c, sat, cfg, "" if loaded else ", nothing loaded", o if v is None else v))


def empty(ctx, p, res):
    """objects into which nothing was loaded"""
    for short in ["OrbSysGpsL_" + k for k in ("51", "52", "55", "56", "63", "Reserved")] + ["OrbSysGpsC_" + k for k in ("30", "32", "33")]:
        todo = [n for n in ("dumpTerse", "dumpBody", "dumpUtcTerse", "getTSC", "getERD", "hasSignal") if p.find(G + short + "::" + n, need=False)]
        ctx.need("dumpBody" in todo, "%s has a body" % short)
        for n in todo:
            for f in [x for x in p.find(G + short + "::" + n) if x.get("body")]:
                I = Interp(p, inline=lambda a, b: True)
                I.quietcalls = True
                st = State()
                st.write(("this",), ("dataLoadedFlag",), num(0))
                r = I.run(f, cls=G + short, state=st)
                names = [t for t in r["throws"]]
                ok = r["state"] is None and bool(names) and all("InvalidRequest" in str(t) for t in names)
                res.note("empty|%s::%s" % (short, n), f, "%s::%s of an object into which nothing was loaded throws InvalidRequest" % (short, n), ok, "it %s" % ("returns" if r["state"] is not None else "throws something else"))


KIND = {51: "OrbSysGpsL_51", 52: "OrbSysGpsL_52", 55: "OrbSysGpsL_55", 56: "OrbSysGpsL_56", 63: "OrbSysGpsL_63"}
KIND.update({k: "OrbSysGpsL_Reserved" for k in (53, 54, 57, 58, 59, 60, 61, 62)})


def factory(ctx, p, res):
    for fn, classes in (("GPSLNAV", KIND), ("GPSCNAV", {30: "OrbSysGpsC_30", 32: "OrbSysGpsC_32", 33: "OrbSysGpsC_33"})):
        f = one(ctx, p, G + "OrbDataSysFactory::" + fn, 1)
        I = interp(p)
        r = I.run(f)
        for uid in range(64):
            for sf in (range(1, 6) if fn == "GPSLNAV" else (0,)):
                m = Msg(300, random.Random(uid * 7 + sf))
                if fn == "GPSLNAV":
                    m.put(49, 3, sf)
                    m.put(62, 6, uid)
                else:
                    m.put(14, 6, uid)
                env = {"msg.getNumBits": mpf(300)}
                env.update(at("msg.getTransmitTime", gps(1900, 345600)))
                R = Bits(I, m, env)
                w = classes.get(uid) if fn == "GPSCNAV" or sf in (4, 5) else None
                t = r["ret"]
                try:
                    while t.op == "ite":
                        t = t.args[1] if R.ev(t.args[0]) else t.args[2]
                except NoValue as ex:
                    res.unres(fn, f, "%s: %s" % (fn, ex))
                    continue
                g = str(I.rootcls.get(t.args[0])).split("::")[-1] if t.op == "ptr" else None
                if t.op != "ptr" and not (isnum(t) and val(t) == 0) and t.op not in ("null", "nullptr"):
                    res.unres(fn, f, "%s: returns %s" % (fn, show(t, 4)[:80]))
                    continue
                res.note("factory|%s" % fn, f, "OrbDataSysFactory::%s makes an object of the class of the message" % fn, g == w, "unique ID or type %d, subframe %d: %s, not %s" % (uid, sf, g, w))


def evaluate(ctx, p):
    res = Res(ctx, "evaluation")
    for fn in (utc, eopeval, pages, erd, signal, empty, factory):
        fn(ctx, p, res)
    return res.flush()


def check(ctx):
    ctx.rule("layout", "every quantity is read from the bits, with the sign, scale and units, of the interface specification, and epochs lie in the right week")
    p = ctx.program(lib_sources())
    ctx.floor("comparisons of decoded quantities", decode(ctx, p), 8000)
    ctx.rule("kind", "a message of another kind is refused with InvalidParameter, whatever was loaded before")
    ctx.floor("kinds of message tried", refuse(ctx, p), 2000)
    ctx.rule("sameness", "isSameData tells apart objects that differ in any quantity the message carries")
    ctx.floor("quantities compared", same(ctx, p), 100)
    ctx.rule("evaluation", "the UTC offset, earth orientation, pages, range corrections and signal configurations follow from the loaded data, and objects without data refuse")
    ctx.floor("evaluations of loaded data", evaluate(ctx, p), 3000)
