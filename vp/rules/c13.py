"""C13 packed navigation bits: what is packed is unpacked, bit for bit, and nothing else changes."""
from ..check import where
from .. import bits, lnav
from ..interp import *

PB = "gpstk::PackedNavBits"
TUS = ["core/lib/GNSSEph/PackedNavBits.cpp", "core/lib/TimeHandling/CommonTime.cpp"]
SIZES = [1, 2, 3, 5, 8, 11, 14, 16, 21, 24, 29, 31, 32, 33, 38, 53]


def width(t):
    if t.op == "sym" and t.args[0] in ("k", "w"):
        return t.args[2], False
    return None


def name(a):
    t, i = a
    return (t, i) if t.op == "sym" else None


class M:
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = ctx.program(TUS)
        self.outside = []
        global PI
        pi = self.interp().gval("gpstk::PI")
        ctx.need(isnum(pi) and abs(val(pi) - Fraction("3.14159265358979")) < Fraction(1, 10 ** 13), "gpstk::PI")
        PI = val(pi)
        ctor = self.fn("PackedNavBits")
        self.empty = self.call(None, ctor)[1]
        ctx.need(self.empty is not None, PB + " constructor returns")

    def interp(self):
        I = Interp(self.p, models=MODELS)
        I.keepcasts = I.quietcalls = I.ranges = True
        I.MAXUNROLL = 4000
        I.outside = self.outside
        I.bitwidth = width
        return I

    def fn(self, n, *pt):
        fs = [f for f in self.p.find(PB + "::" + n, need=False) if len(f["params"]) == len(pt) and all(y in x["t"] for x, y in zip(f["params"], pt))]
        self.ctx.need(len(fs) == 1, "%s::%s(%s): %d found" % (PB, n, ", ".join(pt), len(fs)))
        return fs[0]

    def call(self, st, f, *args, this=None):
        """(value, state or None when it always throws, exceptions)"""
        r = self.interp().run(f, cls=PB, state=st.copy() if st is not None else State(), args=list(args), **({"this": this} if this else {}))
        return r["ret"], r["state"], r["throws"]

    def put(self, st, v, n):
        s = self.call(st, self.fn("addUnsignedLong", "long", "int", "int"), v, num(n), num(1))
        return s[1]

    def nbits(self, st, this=None):
        return self.call(st, self.fn("getNumBits"), this=this)[0]

    def get(self, st, start, n, this=None):
        v = self.call(st, self.fn("asUnsignedLong", "int", "int", "int"), num(start), num(n), num(1), this=this)[0]
        return None if v is None else bits.bits(v, width)

    def content(self, st, n=None, this=None):
        """all bits, first to last"""
        if n is None:
            n = self.nbits(st, this)
            if n is None or not isnum(n):
                return None
            n = int(val(n))
        r = []
        for i in range(0, n, 32):
            b = self.get(st, i, min(32, n - i), this)
            if b is None:
                return None
            r += b[:min(32, n - i)][::-1]
        return r


def check(ctx):
    ctx.rule("pack", "a value is packed as exactly the bits asked for, most significant first, after the bits already there, which keep their values")
    ctx.rule("room", "no bit outside the storage is read or written, however many bits are added to whatever object")
    ctx.rule("refuse", "a value that does not fit its bits, and bits beyond those stored, are refused, and nothing is changed")
    ctx.rule("unpack", "unpacking takes exactly the bits named, first bit most significant, with the sign and scale asked for; parts are joined in the order given")
    ctx.rule("inverse", "unpacking what was packed with the same size and scale gives the value back (rounded to the scale)")
    ctx.rule("edit", "copying, inserting, inverting, appending and comparing act on exactly the bits named")
    ctx.rule("text", "the hexadecimal text of the bits is read back as the same bits")
    m = M(ctx)
    n = 0
    for g in (packing, unpacking, room, strings, edits, text):
        n += g(ctx, m)
    seen = {}
    for f, line, i, size in m.outside:
        seen.setdefault(f["id"], (f, line, i, size))
    for f, line, i, size in seen.values():
        ctx.ob("room", False, where(f, line), "element %d of %d is used" % (i, size), "room|" + f["qual"])
    ctx.ob("room", not seen, where(m.fn("addUnsignedLong", "long", "int", "int")), "no bit beyond those stored is used", "room|none")
    ctx.floor("pack and unpack obligations", n, 1200)


def rep(ctx, rule, d, f, msg, key):
    if d == "unresolved":
        ctx.unresolved(rule, where(f), msg)
        return 0
    ctx.ob(rule, d is None, where(f), msg + (": " + d if d else ""), key)
    return 1


def k(n, tag="k"):
    return sym("k", tag, n)


def same(got, want):
    if got is None or bits.UNK in got:
        return "unresolved"
    return None if got == want else "are other bits"


A, Z = sym("k", "before", 9), sym("k", "after", 6)


def low(t, n):
    return bits.bits(t, width)[:n][::-1]


def cases(n):
    """(pack, unpack, signed, scale arguments, scale of the value)"""
    for sc in (1, 16, 900):
        yield "addUnsignedLong", "asUnsignedLong", "long", False, sc, Fraction(sc), True
        yield "addLong", "asLong", "long", True, sc, Fraction(sc), True
    for p in (-44, -19, 0, 4, 11):
        yield "addUnsignedDouble", "asUnsignedDouble", "double", False, p, Fraction(2) ** p, False
        yield "addSignedDouble", "asSignedDouble", "double", True, p, Fraction(2) ** p, False
        yield "addDoubleSemiCircles", "asDoubleSemiCircles", "double", True, p, Fraction(2) ** p * PI, False


def packing(ctx, m):
    n = 0
    base = m.put(m.empty, A, 9)
    for size in SIZES:
        for pk, un, ty, sg, arg, sc, whole in cases(size):
            if size > 33 and arg not in (1, -44):
                continue
            f, g = m.fn(pk, ty, "int", "int"), m.fn(un, "int", "int", "int")
            vals = [("", k(size))] if not sg else []
            if sg:
                vals = [("negative", sub(num(-1), k(size - 1)) if size > 1 else num(-1)), ("not negative", k(size - 1) if size > 1 else num(0))]
            for tag, v in vals:
                for fr in (0, Fraction(1, 4), Fraction(-1, 4)) if not whole else (0,):
                    w = v
                    if fr:
                        if size < 3 or not whole and arg not in (-19, 4):
                            continue
                        w = add(num(2 ** (size - 2)), k(size - 2))
                        w = sub(num(-1), w) if tag == "negative" else w
                    msg = "%s(%s value, %d bits, %d)" % (pk, tag, size, arg) if tag else "%s(%d bits, %d)" % (pk, size, arg)
                    msg += " rounded" if fr else ""
                    key = "%s|%d|%d|%s|%s" % (pk, size, arg, tag, fr)
                    r, st, th = m.call(base, f, mul(add(w, num(fr)), num(sc)), num(size), num(arg))
                    if st is None:
                        n += rep(ctx, "pack", "is refused", f, msg, "pack|" + key)
                        continue
                    if th:
                        n += rep(ctx, "pack", "unresolved", f, msg, "pack|" + key)
                        continue
                    nb = m.nbits(st)
                    n += rep(ctx, "pack", "unresolved" if nb is None or not isnum(nb) else None if val(nb) == 9 + size else "leaves %s bits" % show(nb), f, msg, "pack|n|" + key)
                    st = m.put(st, Z, 6)
                    if st is None:
                        n += rep(ctx, "pack", "unresolved", f, msg, "pack|" + key)
                        continue
                    got = m.content(st, 15 + size)
                    n += rep(ctx, "pack", same(got, low(A, 9) + low(w, size) + low(Z, 6)), f, msg + ": bits", "pack|bits|" + key)
                    v2, _, th = m.call(st, g, num(9), num(size), num(arg))
                    d = "unresolved" if v2 is None or th else equal(v2, mul(w, num(sc)))
                    n += rep(ctx, "inverse", d, g, "%s of %s" % (un, msg), "inverse|" + key)
            # values that do not fit
            over = [("too large", add(num(2 ** (size - (1 if sg else 0))), k(size)))]
            if sg:
                over.append(("too small", sub(num(-1 - 2 ** (size - 1)), k(size))))
            for tag, v in over:
                r, st, th = m.call(base, f, mul(v, num(sc)), num(size), num(arg))
                msg = "%s(value %s for %d bits, %d)" % (pk, tag, size, arg)
                d = None if st is None and th else "unresolved" if th and st is not None else "is accepted"
                n += rep(ctx, "refuse", d, f, msg, "refuse|%s|%d|%d|%s" % (pk, size, arg, tag))
    return n


def equal(a, b):
    x, y = lnav.weights(a, width, name), lnav.weights(b, width, name)
    if x is None or y is None:
        return "unresolved"
    if set(x[0]) != set(y[0]):
        return "is made of other bits"
    tol = Fraction(1, 10 ** 12)
    if any(abs(x[0][q] - y[0][q]) > abs(y[0][q]) * tol for q in x[0]) or abs(x[1] - y[1]) > abs(y[1]) * tol:
        return "has another value"
    return None


# ---- unpacking from 20 words of 32 bits
def filled(m, words=6):
    st = m.empty
    for i in range(words):
        st = m.put(st, sym("w", i, 32), 32) if st is not None else None
    return st


def wb(i):
    return (sym("w", i // 32, 32), 31 - i % 32)


def want(parts, sg, scale):
    n = sum(q for _, q in parts)
    r = {}
    pos = n
    for s, q in parts:
        for i in range(q):
            pos -= 1
            r[wb(s + i)] = scale * (-(1 << pos) if sg and pos == n - 1 else 1 << pos)
    return r


def isval(v, parts, sg, scale, mag=None):
    x = lnav.weights(v, width, name) if v is not None else None
    if x is None:
        return "unresolved"
    y = want(parts, sg, scale)
    if set(x[0]) != set(y):
        return "is made of other bits"
    tol = Fraction(1, 10 ** 12)
    return "has another value" if any(abs(x[0][q] - y[q]) > abs(y[q]) * tol for q in y) or x[1] else None


UNP = [("asUnsignedLong", False, 0), ("asLong", True, 0), ("asUnsignedDouble", False, 1), ("asSignedDouble", True, 1), ("asDoubleSemiCircles", True, 2)]


def unpacking(ctx, m):
    n = 0
    st = filled(m)
    ctx.need(st is not None, "packing words of 32 bits")
    one = [(0, 1), (0, 32), (1, 1), (31, 1), (31, 2), (5, 8), (29, 33), (0, 46), (77, 17), (160, 32), (191, 1), (30, 11), (63, 14)]
    many = [[(40, 3)], [(3, 5), (60, 4)], [(70, 8), (31, 2)], [(120, 16), (7, 16)], [(9, 1), (8, 1), (100, 9)], [(64, 4), (30, 4), (0, 12), (180, 12)], [(40, 4), (50, 36)], [(100, 2), (3, 40), (60, 5)]]
    for un, sg, kind in UNP:
        f, g = m.fn(un, "int", "int", "int"), m.fn(un, "unsigned", "unsigned", "unsigned", "int")
        for arg in (1, 3, 16, 604800 // 6) if kind == 0 else (-43, -5, 0, 12):
            sc = Fraction(arg) if kind == 0 else Fraction(2) ** arg * (PI if kind == 2 else 1)
            for s, q in one:
                v, _, th = m.call(st, f, num(s), num(q), num(arg))
                n += rep(ctx, "unpack", "unresolved" if th else isval(v, [(s, q)], sg, sc), f, "%s(%d, %d, %d)" % (un, s, q, arg), "unpack|%s|%d|%d|%d" % (un, s, q, arg))
            for ps in many:
                s2 = st.copy()
                s2.write(("SB",), (), T("arr", *[num(a) for a, _ in ps]))
                s2.write(("NB",), (), T("arr", *[num(b) for _, b in ps]))
                v, _, th = m.call(s2, g, T("ptr", ("SB",), ()), T("ptr", ("NB",), ()), num(len(ps)), num(arg))
                n += rep(ctx, "unpack", "unresolved" if th else isval(v, ps, sg, sc), g, "%s of parts %s, %d" % (un, ps, arg), "unpack|%s|%s|%d" % (un, ps, arg))
        for s, q in ((900, 1), (880, 32), (6000, 8)):
            v, s2, th = m.call(st, f, num(s), num(q), num(1))
            n += rep(ctx, "refuse", None if s2 is None and th else "is given", f, "%s(%d, %d) beyond the bits stored" % (un, s, q), "refuse|%s|%d" % (un, s))
    # sign and magnitude
    for un, kind in (("asSignMagLong", 0), ("asSignMagDouble", 1), ("asSignMagDoubleSemiCircles", 2)):
        f = m.fn(un, "int", "int", "int")
        for arg in (1, 7) if kind == 0 else (-20, 0, 5):
            sc = Fraction(arg) if kind == 0 else Fraction(2) ** arg * (PI if kind == 2 else 1)
            for s, q in ((0, 2), (31, 5), (10, 22), (100, 11), (160, 32)):
                for sign in (0, 1):
                    s2 = setbit(m, st, s, sign)
                    v, _, th = m.call(s2, f, num(s), num(q), num(arg)) if s2 is not None else (None, None, None)
                    d = "unresolved" if v is None or th else isval(v, [(s + 1, q - 1)], False, -sc if sign else sc)
                    n += rep(ctx, "unpack", d, f, "%s(%d, %d, %d), sign bit %d" % (un, s, q, arg, sign), "unpack|%s|%d|%d|%d|%d" % (un, s, q, arg, sign))
    f = m.fn("asBool", "unsigned")
    for s in (0, 1, 31, 32, 100, 191):
        v, _, th = m.call(st, f, num(s))
        n += rep(ctx, "unpack", "unresolved" if v is None or th else isval(v, [(s, 1)], False, 1), f, "asBool(%d)" % s, "unpack|asBool|%d" % s)
    return n


def setbit(m, st, i, b):
    return m.call(st, m.fn("insertUnsignedLong", "long", "int", "int", "int"), num(b), num(i), num(1), num(1))[1]


def room(ctx, m):
    """bits are kept however many are added, to any object"""
    n = 0
    f = m.fn("addUnsignedLong", "long", "int", "int")
    for total in (30, 58):
        st = m.empty
        for i in range(total):
            st = m.put(st, sym("w", i, 32), 32) if st is not None else None
        c = m.content(st) if st is not None else None
        d = "unresolved" if c is None else same(c, [wb(i) for i in range(32 * total)])
        n += rep(ctx, "pack", d, f, "%d bits" % (32 * total), "room|%d" % total)
    cp = copied(m, filled(m, 2))
    for what, st, this in (("a copy", cp, T("ptr", ("C",), ())), ("a trimmed object", trimmed(m, filled(m, 2)), None), ("a cleared object", cleared(m, filled(m, 2)), None)):
        if st is None:
            ctx.unresolved("pack", where(f), "adding to " + what)
            continue
        pre = [] if "cleared" in what else [wb(i) for i in range(64)]
        st = m.call(st, f, A, num(9), num(1), this=this)[1]
        c = m.content(st, this=this) if st is not None else None
        n += rep(ctx, "pack", "is refused" if st is None else "bits are lost" if c is None else same(c, pre + low(A, 9)), f, "adding to " + what, "room|" + what)
    return n


def copied(m, st):
    if st is None:
        return None
    f = [g for g in m.p.find(PB + "::PackedNavBits") if len(g["params"]) == 1]
    m.ctx.need(len(f) == 1 or True, "copy")
    if len(f) != 1:
        return None
    return m.call(st, f[0], T("ptr", ("this",), ()), this=T("ptr", ("C",), ()))[1]


def trimmed(m, st):
    return m.call(st, m.fn("trimsize"))[1]


def cleared(m, st):
    return m.call(st, m.fn("clearBits"))[1]


def strings(ctx, m):
    n = 0
    f, g = m.fn("addString", "string", "int"), m.fn("asString", "int", "int")
    base = m.put(m.empty, A, 9)
    for s, q in (("GPS ICD:200/IS-705", 18), ("AB'C+\"", 6), ("AB 12", 9), ("", 3), ("ABCDEF", 4), ("\xf8/Z.", 4)):
        r, st, th = m.call(base, f, sstr(s), num(q))
        w = (s + " " * q)[:q]
        if st is None or th:
            n += rep(ctx, "pack", "is refused" if st is None else "unresolved", f, "addString(%r, %d)" % (s, q), "string|%r|%d" % (s, q))
            continue
        c = m.content(st)
        n += rep(ctx, "pack", same(c, low(A, 9) + [ord(x) >> 7 - i & 1 for x in w for i in range(8)]), f, "addString(%r, %d)" % (s, q), "string|%r|%d" % (s, q))
        v = m.call(st, g, num(9), num(q))[0]
        d = "unresolved" if v is None or v.op != "str" else None if chars(v.args[0]) == w else "is %r" % v.args[0]
        n += rep(ctx, "inverse", d, g, "asString of %r in %d characters" % (s, q), "astring|%r|%d" % (s, q))
    for s in ("lower", "A;B", "A\nB", "*"):
        r, st, th = m.call(base, f, sstr(s), num(len(s)))
        n += rep(ctx, "refuse", None if st is None and th else "unresolved" if th else "is accepted", f, "addString(%r)" % s, "refuse|string|%r" % s)
    return n


def chars(s):
    return "".join(chr(ord(c) & 255) for c in s)


def edits(ctx, m):
    n = 0
    st = filled(m)
    all_ = [wb(i) for i in range(192)]
    f = m.fn("insertUnsignedLong", "long", "int", "int", "int")
    for s, q, sc in ((0, 1, 1), (31, 2, 1), (10, 33, 1), (160, 32, 1), (191, 1, 1), (77, 17, 16)):
        v = k(q)
        s2 = m.call(st, f, mul(v, num(sc)), num(s), num(q), num(sc))[1]
        d = "is refused" if s2 is None else same(m.content(s2), all_[:s] + low(v, q) + all_[s + q:])
        n += rep(ctx, "edit", d, f, "insertUnsignedLong at %d, %d bits, scale %d" % (s, q, sc), "insert|%d|%d|%d" % (s, q, sc))
    for s, q in ((192, 1), (180, 13), (161, 32)):
        r, s2, th = m.call(st, f, k(q), num(s), num(q), num(1))
        n += rep(ctx, "refuse", None if s2 is None and th else "is accepted", f, "insertUnsignedLong at %d, %d bits of 192" % (s, q), "refuse|insert|%d|%d" % (s, q))
    r, s2, th = m.call(st, f, add(num(32), k(5)), num(3), num(5), num(1))
    n += rep(ctx, "refuse", None if s2 is None and th else "is accepted", f, "insertUnsignedLong of a value too large", "refuse|insert|large")
    f = m.fn("invert")
    s2 = m.call(st, f)[1]
    n += rep(ctx, "edit", "unresolved" if s2 is None else same(m.content(s2), [bits.xor(b, 1) for b in all_]), f, "invert", "invert")
    # another object
    o = T("ptr", ("O",), ())
    ctor = m.fn("PackedNavBits")

    def other(st, words, tag="x"):
        s2 = m.call(st, ctor, this=o)[1]
        g = m.fn("addUnsignedLong", "long", "int", "int")
        for i, (v, q) in enumerate(words):
            s2 = m.call(s2, g, v, num(q), num(1), this=o)[1] if s2 is not None else None
        return s2
    xs = [(sym("k", "x%d" % i, 32), 32) for i in range(6)]
    ob = [b for v, q in xs for b in low(v, q)]
    so = other(st, xs)
    f = m.fn("copyBits", "PackedNavBits", "short", "short")
    if so is None:
        ctx.unresolved("edit", where(f), "two objects")
        return n
    for a, b in ((0, -1), (0, 0), (5, 17), (31, 64), (191, 191), (100, -1)):
        s2 = m.call(so, f, o, num(a), num(b))[1]
        e = 191 if b == -1 else b
        d = "is refused" if s2 is None else same(m.content(s2), all_[:a] + ob[a:e + 1] + all_[e + 1:])
        n += rep(ctx, "edit", d, f, "copyBits(%d, %d)" % (a, b), "copyBits|%d|%d" % (a, b))
    s2 = other(st, xs[:5])
    r, s3, th = m.call(s2, f, o, num(0), num(-1)) if s2 is not None else (None, st, None)
    n += rep(ctx, "refuse", None if s3 is None and th else "is accepted", f, "copyBits of another number of bits", "refuse|copyBits")
    f = m.fn("addPackedNavBits", "PackedNavBits")
    for q in (1, 2, 6):
        s2 = other(st, xs[:q])
        s2 = m.call(s2, f, o)[1] if s2 is not None else None
        d = "unresolved" if s2 is None else same(m.content(s2), all_ + ob[:32 * q])
        n += rep(ctx, "edit", d, f, "addPackedNavBits of %d bits" % (32 * q), "addPNB|%d" % q)
        s2 = m.put(s2, A, 9) if s2 is not None else None
        c = m.content(s2) if s2 is not None else None
        d = "bits are lost" if c is None else same(c, all_ + ob[:32 * q] + low(A, 9))
        n += rep(ctx, "edit", d, f, "addPackedNavBits of %d bits, then 9 more" % (32 * q), "addPNB|%d|more" % q)
    # comparisons: equal but for one bit
    f, g = m.fn("matchBits", "PackedNavBits", "short", "short"), m.fn("operator<", "PackedNavBits")
    ws = [0xA5A5A5A5, 0, 0xFFFFFFFF, 0x12345678, 1, 0x80000000]
    sa = m.empty
    for w in ws:
        sa = m.put(sa, num(w), 32)
    for i in (None, 0, 31, 32, 77, 100, 191):
        w2 = list(ws)
        if i is not None:
            w2[i // 32] ^= 1 << (31 - i % 32)
        so = other(sa, [(num(w), 32) for w in w2])
        if so is None:
            ctx.unresolved("edit", where(f), "matchBits")
            continue
        for a, b in ((0, -1), (0, 31), (31, 31), (32, 100), (78, 191), (191, 191), (101, -1), (0, 500)):
            v = m.call(so, f, o, num(a), num(b))[0]
            e = 191 if b in (-1, 500) else b
            w = not (i is not None and a <= i <= e)
            n += rep(ctx, "edit", "unresolved" if v is None or not isnum(v) else None if bool(val(v)) == w else "is " + show(v), f,
                     "matchBits(%d, %d) with %s" % (a, b, "the same bits" if i is None else "bit %d different" % i), "match|%s|%d|%d" % (i, a, b))
        v = m.call(so, g, o)[0]
        w = i is not None and not ws[i // 32] >> (31 - i % 32) & 1
        n += rep(ctx, "edit", "unresolved" if v is None or not isnum(v) else None if bool(val(v)) == w else "is " + show(v), g, "operator< with %s" % ("the same bits" if i is None else "bit %d different" % i),
                 "less|%s" % i)
    # a copy
    f = [g for g in m.p.find(PB + "::PackedNavBits") if len(g["params"]) == 1]
    meta = [("setRxID", "getRxID", sym("rx"))]
    s1 = sa
    for a, b, v in meta:
        s1 = m.call(s1, m.fn(a, "string"), v)[1] if s1 is not None else None
    C = T("ptr", ("C",), ())
    s2 = copied(m, s1)
    if s2 is not None:
        c = m.content(s2, this=C)
        n += rep(ctx, "edit", "unresolved" if c is None else same(c, m.content(sa)), f[0], "bits of a copy", "copy|bits")
        for a, b, v in meta:
            x = m.call(s2, m.fn(b), this=C)[0]
            n += rep(ctx, "edit", "unresolved" if x is None else None if x is v else "is " + show(x)[:60], f[0], "%s of a copy" % b, "copy|" + b)
        g, lt_ = m.fn("matchBits", "PackedNavBits", "short", "short"), m.fn("operator<", "PackedNavBits")
        for fn, args, w in ((g, (C, num(0), num(-1)), True), (lt_, (C,), False)):
            v = m.call(s2, fn, *args)[0]
            n += rep(ctx, "edit", "unresolved" if v is None or not isnum(v) else None if bool(val(v)) == w else "is " + show(v), fn, "%s with a copy" % fn["name"] if "name" in fn else "with a copy", "copy|" + fn["qual"])
    return n


def render(t):
    """the text of a sequence of insertions with known values"""
    out, w, fill, hx, up = "", 0, " ", False, False
    for x in t.args if t.op == "cat" else [t]:
        if x.op == "str":
            s = x.args[0]
            out += s
        elif x.op in ("ostr", "put"):
            v = x.args[-1]
            if x.op == "ostr" and (not isinstance(v, Term) or v.op == "str"):
                s = v.args[0] if isinstance(v, Term) else v
            elif isinstance(v, Term) and isnum(v):
                s = ("%X" if up else "%x") % int(val(v)) if hx else "%d" % int(val(v))
            else:
                return None
            out, w = out + s.rjust(w, fill), 0
        elif x.op == "manip":
            a = [str(y.args[0]) if isinstance(y, Term) and y.op in ("str", "num") else str(y) for y in x.args]
            if a[0] == "setw":
                w = int(a[1])
            elif a[0] == "setfill":
                fill = chr(int(a[1]))
            elif a[0] in ("hex", "dec"):
                hx = a[0] == "hex"
            elif "uppercase" in " ".join(map(str, x.args)):
                up = True
            elif a[0] != "flags":
                return None
        else:
            return None
    return out


def asint(I, e, st):
    v = I.ev(e["a"][0], st)
    v = st.read(*v.args) if v.op == "ptr" else v
    import re
    q = re.match(r"\s*[-+]?\d+", v.args[0]) if v.op == "str" else None
    return num(int(q.group())) if q else T("call", "asInt", v)


def hexint(I, e, st):
    v = I.ev(e["a"][0], st)
    v = st.read(*v.args) if v.op == "ptr" else v
    import re
    q = re.match(r"\s*(0[xX])?[0-9a-fA-F]+", v.args[0]) if v.op == "str" else None
    return num(int(q.group(), 16)) if q else T("call", "x2uint", v)


MODELS = {"gpstk::StringUtils::asInt": asint, "gpstk::StringUtils::x2uint": hexint}


def text(ctx, m):
    n = 0
    f, g = m.fn("outputPackedBits", "ostream", "short", "char", "short"), m.fn("rawBitInput", "string")
    for nb in (1, 31, 32, 33, 64, 77, 300):
        for sep in " ,":
            ws = [0xA5A5A5A5, 0x00000001, 0xFFFFFFFF, 0x12345678, 0x80000000, 0, 0x0F0F0F0F, 0xCAFEBABE, 0x8BADF00D, 0x3C3C3C3C]
            bl = [w >> 31 - i & 1 for w in ws for i in range(32)][:nb]
            st = m.empty
            for i in range(0, nb, 32):
                part = bl[i:i + 32]
                st = m.put(st, num(int("".join(map(str, part)), 2)), len(part)) if st is not None else None
            st = trimmed(m, st) if st is not None else None
            if st is None:
                ctx.unresolved("text", where(f), "%d bits" % nb)
                continue
            st.write(("OS",), (), upd(T("obj0", "stream"), "$out", sstr("")))
            r, s2, th = m.call(st, f, T("ptr", ("OS",), ()), num(4), num(ord(sep)), num(32))
            t = s2.read(("OS",), ("$out",)) if s2 is not None else None
            pad = bl + [0] * (-nb % 32)
            want = ["0x%08X" % int("".join(map(str, pad[i:i + 32])), 2) for i in range(0, len(pad), 32)]
            t = render(t) if t is not None else None
            if t is None:
                d = "unresolved"
            else:
                got = t.replace(",", " ").split()
                d = None if [x.lower() for x in got] == [x.lower() for x in want] else "is %r" % t[:60]
            n += rep(ctx, "text", d, f, "outputPackedBits of %d bits" % nb, "text|out|%d|%s" % (nb, sep))
            st = m.call(m.empty, g, sstr("%d" % nb + "".join(sep + x for x in want)))[1]
            d = "is refused" if st is None else same(m.content(st), bl)
            n += rep(ctx, "text", d, g, "rawBitInput of %d bits, separator %r" % (nb, sep), "text|in|%d|%s" % (nb, sep))
    for s in ("", "   ", "32", "64 0x12345678", "32 12345678"):
        r, st, th = m.call(m.empty, g, sstr(s))
        n += rep(ctx, "refuse", None if st is None and th else "is accepted" if not th else "unresolved", g, "rawBitInput(%r)" % s, "text|bad|%s" % s)
    return n
