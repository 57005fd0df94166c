"""GPS legacy navigation message (IS-GPS-200 20.3.3, 20.3.5): the layout of the subframes, and
terms over the 300 bits of a subframe."""
from fractions import Fraction
from .terms import *
from . import bits

PI = Fraction(3.1415926535898)


def Q(start, n, p2=0, sg=False, pi=0, scale=1, more=None):
    """a quantity: (parts, scale, signed)"""
    return ([(start, n)] + ([more] if more else []), Fraction(scale) * Fraction(2) ** p2 * PI ** pi, sg)


HEAD = {"preamble": Q(1, 8), "message": Q(9, 14), "HOW": Q(31, 17, scale=6), "alert": Q(48, 2), "sfid": Q(50, 3)}
SF1 = {"week": Q(61, 10), "codes": Q(71, 2), "ura": Q(73, 4), "health": Q(77, 6), "IODC": Q(83, 2, more=(211, 8)), "L2P": Q(91, 1),
       "Tgd": Q(197, 8, -31, True), "Toc": Q(219, 16, 4), "af2": Q(241, 8, -55, True), "af1": Q(249, 16, -43, True), "af0": Q(271, 22, -31, True)}
SF2 = {"IODE": Q(61, 8), "Crs": Q(69, 16, -5, True), "dn": Q(91, 16, -43, True, 1), "M0": Q(107, 8, -31, True, 1, more=(121, 24)),
       "Cuc": Q(151, 16, -29, True), "ecc": Q(167, 8, -33, more=(181, 24)), "Cus": Q(211, 16, -29, True), "Ahalf": Q(227, 8, -19, more=(241, 24)),
       "Toe": Q(271, 16, 4), "fit": Q(287, 1), "AODO": Q(288, 5, scale=900)}
SF3 = {"Cic": Q(61, 16, -29, True), "OMEGA0": Q(77, 8, -31, True, 1, more=(91, 24)), "Cis": Q(121, 16, -29, True),
       "i0": Q(137, 8, -31, True, 1, more=(151, 24)), "Crc": Q(181, 16, -5, True), "w": Q(197, 8, -31, True, 1, more=(211, 24)),
       "OMEGAdot": Q(241, 24, -43, True, 1), "IODE": Q(271, 8), "idot": Q(279, 14, -43, True, 1)}
ALM = {"dataid": Q(61, 2), "page": Q(63, 6), "ecc": Q(69, 16, -21), "toa": Q(91, 8, 12), "i_offset": Q(99, 16, -19, True, 1),
       "OMEGAdot": Q(121, 16, -38, True, 1), "health": Q(137, 8), "Ahalf": Q(151, 24, -11), "OMEGA0": Q(181, 24, -23, True, 1),
       "w": Q(211, 24, -23, True, 1), "M0": Q(241, 24, -23, True, 1), "af0": Q(271, 8, -20, True, more=(290, 3)), "af1": Q(279, 11, -38, True)}
PG = {"dataid": Q(61, 2), "page": Q(63, 6)}
HEALTH24 = {"sv%d" % (i + 1): Q([91, 97, 103, 109, 121, 127, 133, 139, 151, 157, 163, 169, 181, 187, 193, 199, 211, 217, 223, 229, 241, 247, 253, 259][i], 6)
            for i in range(24)}
PAGE51 = dict(PG, wna=Q(77, 8), toa=Q(69, 8, 12), **HEALTH24)
IONO = dict(PG, a0=Q(69, 8, -30, True), a1=Q(77, 8, -27, True, -1), a2=Q(91, 8, -24, True, -2), a3=Q(99, 8, -24, True, -3),
            b0=Q(107, 8, 11, True), b1=Q(121, 8, 14, True, -1), b2=Q(129, 8, 16, True, -2), b3=Q(137, 8, 16, True, -3),
            A1=Q(151, 24, -50, True), A0=Q(181, 24, -30, True, more=(211, 8)), tot=Q(219, 8, 12), wnt=Q(227, 8), dtls=Q(241, 8, 0, True),
            wnlsf=Q(249, 8), dn=Q(257, 8), dtlsf=Q(271, 8, 0, True))
CONFIG = dict(PG)
for _i in range(32):
    CONFIG["cfg%d" % (_i + 1)] = Q([69, 73, 77, 81, 91, 95, 99, 103, 107, 111, 121, 125, 129, 133, 137, 141, 151, 155, 159, 163, 167, 171,
                                  181, 185, 189, 193, 197, 201, 211, 215, 219, 223][_i], 4)
for _i in range(8):
    CONFIG["sv%d" % (_i + 25)] = Q([229, 241, 247, 253, 259, 271, 277, 283][_i], 6)
TEXT = dict(PG)
for _i in range(22):
    TEXT["ch%d" % _i] = Q([69, 77, 91, 99, 107, 121, 129, 137, 151, 159, 167, 181, 189, 197, 211, 219, 227, 241, 249, 257, 271, 279][_i], 8)


def word(sf, i):
    return sym("w", sf, i)


def dbit(sf, k):
    return sym("d", sf, k)


def width(t):
    if t.op == "sym":
        if t.args[0] == "w":
            return 32, False
        if t.args[0] == "d":
            return 1, False
    return None


def words(sf, conc=()):
    """the ten 32-bit words of a subframe (bits 31, 32 zero where spelled out); conc: {(start, len): value}"""
    fix = {}
    for (s, n), v in dict(conc).items():
        for i in range(n):
            fix[s + i] = v >> (n - 1 - i) & 1
    out = []
    for k in range(10):
        rng = range(30 * k + 1, 30 * k + 31)
        if not any(j in fix for j in rng):
            out.append(word(sf, k))
            continue
        t = num(0)
        for j in rng:
            t = add(t, mul(num(2 ** (30 * k + 30 - j)), num(fix[j]) if j in fix else dbit(sf, j)))
        out.append(t)
    return out


def bitno(a):
    """(subframe, bit number) of a bit atom"""
    t, b = a
    if t.op == "sym" and t.args[0] == "w" and b < 30:
        return t.args[1], 30 * t.args[2] + 30 - b
    if t.op == "sym" and t.args[0] == "d" and b == 0:
        return t.args[1], t.args[2]
    return None


def weights(t, w=width, name=bitno):
    """the real value of t as {bit: weight}, const; None if t is no such functional"""
    if isnum(t):
        return {}, Fraction(val(t))
    if t.op == "sum":
        c, d = t.args
        r, k = {}, Fraction(c)
        for x, v in d:
            q = weights(x, w, name)
            if q is None:
                return None
            k += v * q[1]
            for a, y in q[0].items():
                r[a] = r.get(a, 0) + v * y
        return {a: y for a, y in r.items() if y}, k
    if t.op == "mul" and any(isnum(x) for x in t.args):
        r = weights(num(1), w, name)
        rest = [x for x in t.args if not isnum(x)]
        if len(rest) != 1:
            return None
        c = Fraction(1)
        for x in t.args:
            if isnum(x):
                c *= val(x)
        q = weights(rest[0], w, name)
        return None if q is None else ({a: c * y for a, y in q[0].items()}, c * q[1])
    if t.op in ("trunc",):
        q = weights(t.args[0], w, name)
        if q is None:
            return None
        return q if all(y.denominator == 1 for y in list(q[0].values()) + [q[1]]) else None
    if t.op == "cast" and "double" in str(t.args[0]) or t.op == "cast" and "float" in str(t.args[0]):
        return weights(t.args[1], w, name)
    if t.op == "cast":
        ty = str(t.args[0].args[0] if isinstance(t.args[0], Term) else t.args[0]).replace("const ", "")
        n, sg = bits.CASTW.get(ty), 0
        if n is None:
            n, sg = bits.CASTS.get(ty), 1
        q = weights(t.args[1], w, name) if n else None
        if q is not None:
            lo = q[1] + sum(v for v in q[0].values() if v < 0)
            hi = q[1] + sum(v for v in q[0].values() if v > 0)
            if all(v.denominator == 1 for v in list(q[0].values()) + [q[1]]) and (-2 ** (n - 1) if sg else 0) <= lo and hi < 2 ** (n - sg):
                return q
    b = bits.bits(t, w)
    if t.op == "ite" and (bits.UNK in b or any(a not in (0, 1) and a[0] is t for a in b)):
        return gated(t, w, name)
    if bits.UNK in b:
        return None
    r, k = {}, Fraction(0)
    for i, a in enumerate(b):
        y = Fraction(-(1 << i) if i == bits.W - 1 else 1 << i)
        if a == 1:
            k += y
        elif a != 0:
            if a[0] == "^":
                if len(a[1]) != 1:
                    return None
                k += y
                y = -y
                a = next(iter(a[1]))
            a = name(a)
            if a is None:
                return None
            r[a] = r.get(a, 0) + y
    return {a: y for a, y in r.items() if y}, k


def gated(t, w, name):
    """a choice by one bit between two values that differ by a constant"""
    if t.op != "ite":
        return None
    c = bits.condbit(t.args[0], lambda x: bits.bits(x, w))
    x, y = weights(t.args[1], w, name), weights(t.args[2], w, name)
    if c in (None, 0, 1, bits.UNK) or x is None or y is None or x[0] != y[0]:
        return None
    s, one = bits._gf2(c)
    if len(s) != 1:
        return None
    a = name(next(iter(s)))
    if a is None or a in x[0]:
        return None
    lo, hi = (x[1], y[1]) if one else (y[1], x[1])
    r = dict(x[0])
    r[a] = hi - lo
    return {a: v for a, v in r.items() if v}, lo


def expect(sf, q):
    parts, scale, sg = q
    r, pos = {}, sum(n for _, n in parts)
    top = True
    for s, n in parts:
        for i in range(n):
            pos -= 1
            r[(sf, s + i)] = scale * (-(1 << pos) if sg and top else 1 << pos)
            top = False
    return r


def differs(t, sf, q, scale=1, conc=(), const=0, opaque=False):
    """None: t is the quantity; 'unresolved'; else what it is"""
    got = weights(t)
    if got is None:
        return "unresolved"
    want = {a: v * scale for a, v in expect(sf, q).items()}
    fix = {}
    for (s, n), v in dict(conc).items():
        for i in range(n):
            fix[(sf, s + i)] = v >> (n - 1 - i) & 1
    k = Fraction(const) + sum(v * fix[a] for a, v in want.items() if a in fix)
    want = {a: v for a, v in want.items() if a not in fix}
    tol = Fraction(1, 10 ** 12)
    if set(got[0]) != set(want):
        ex, mi = sorted(set(got[0]) - set(want)), sorted(set(want) - set(got[0]))
        return "is made of other bits: " + ("takes bit %s " % (ex[0],) if ex else "") + ("misses bit %s" % (mi[0],) if mi else "")
    for a in want:
        if abs(got[0][a] - want[a]) > abs(want[a]) * tol:
            return "weighs bit %d of subframe %s with %g instead of %g" % (a[1], a[0], got[0][a], want[a])
    if abs(got[1] - k) > max(abs(k), 1) * tol:
        return "is off by %g" % float(got[1] - k)
    return None
