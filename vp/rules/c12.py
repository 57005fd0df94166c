"""C12 the GPS legacy navigation message is decoded as IS-GPS-200 lays it out."""
from ..codec import *
from ..check import where
from .. import bits, lnav
from ..prog import lib_sources
from ..lnav import *
from ..interp import *

EN = "gpstk::EngNav"
TUS = ["core/lib/GNSSEph/EngNav.cpp"]
ARR = ("IN",)
OUT = ("OUTA",)
# output position of each quantity (FIC blocks 9, 62 order); IODC and IODE carry the factor 2^11 of the format
POS = {1: ["preamble", "message", "HOW", "alert", "sfid", "week", "codes", "ura", "health", ("IODC", 2048), "L2P", "Tgd", "Toc", "af2", "af1", "af0"],
       2: ["preamble", "message", "HOW", "alert", "sfid", ("IODE", 2048), "Crs", "dn", "M0", "Cuc", "ecc", "Cus", "Ahalf", "Toe", "fit", "AODO"],
       3: ["preamble", "message", "HOW", "alert", "sfid", "Cic", "OMEGA0", "Cis", "i0", "Crc", "w", "OMEGAdot", ("IODE", 2048), "idot"],
       4: ["preamble", "message", "HOW", "alert", "sfid", "dataid", "page", "ecc", "toa", "i_offset", "OMEGAdot", "health", "Ahalf", "OMEGA0", "w", "M0", "af0", "af1",
           None, "page"],
       5: ["preamble", "message", "HOW", "alert", "sfid", "dataid", "page", "wna"] + ["sv%d" % i for i in range(1, 25)],
       8: ["preamble", "message", "HOW", "alert", "sfid", "dataid", "page", "a0", "a1", "a2", "a3", "b0", "b1", "b2", "b3", "A0", "A1", "tot", None, "dtls", None, "dn", "dtlsf"],
       9: ["preamble", "message", "HOW", "alert", "sfid", "dataid", "page"] + ["cfg%d" % i for i in range(1, 33)] + ["sv%d" % i for i in range(25, 33)],
       10: ["preamble", "message", "HOW", "alert", "sfid", "dataid", "page"] + ["ch%d" % i for i in range(22)]}
LAY = {1: SF1, 2: SF2, 3: SF3, 4: ALM, 5: PAGE51, 8: IONO, 9: CONFIG, 10: TEXT}
WEEKS = [0, 1, 127, 128, 129, 255, 256, 384, 511, 512, 513, 1023, 1024, 1025, 1535, 1536, 1537, 1900, 2047, 2048, 2049, 2200, 3071, 3072]


def kind(sfid, svid):
    """pattern of a subframe; 0 = cannot be decoded"""
    if sfid in (1, 2, 3):
        return sfid
    if sfid not in (4, 5):
        return 0
    if svid <= 32:
        return 4
    return {51: 5, 55: 10, 56: 8, 63: 9}.get(svid, None if svid >= 51 else 0)


class M:
    def __init__(self, ctx, tus, models=None):
        self.ctx = ctx
        self.p = ctx.program(tus)
        self.models = models
        self.base = self.start()

    def interp(self):
        I = Interp(self.p, models=self.models)
        I.keepcasts = True
        I.quietcalls = True
        I.MAXUNROLL = 400
        I.bitwidth = width
        return I

    def start(self):
        """the state after the first EngNav object was made"""
        I = self.interp()
        st = State()
        for q in self.p.ids("var"):
            if self.p.var(q)["file"].endswith("EngNav.cpp"):
                I.initglobal(q, st)
        ctor = [f for f in self.p.find(EN + "::EngNav") if not f["params"]]
        self.ctx.need(len(ctor) == 1, EN + " constructor")
        r = I.run(ctor[0], cls=EN, state=st)
        self.ctx.need(r["state"] is not None, EN + " constructor returns")
        return r["state"]

    def fn(self, qual, *ptypes):
        fs = [f for f in self.p.find(qual, need=False) if len(f["params"]) == len(ptypes) and all(y in x["t"] for x, y in zip(f["params"], ptypes))]
        self.ctx.need(len(fs) == 1, "%s(%s): %d found" % (qual, ", ".join(ptypes), len(fs)))
        return fs[0]

    def convert(self, sf, ws, week, out=OUT):
        f = self.fn(EN + "::subframeConvert", "int *", "short", "double *")
        st = self.base.copy()
        st.write(ARR, (), T("arr", *ws))
        r = self.interp().run(f, cls=EN, state=st, args=[T("ptr", ARR, ()), week, T("ptr", out, ())])
        return f, r


def check(ctx):
    ctx.rule("decode", "each quantity of a subframe is the number its bits give it in IS-GPS-200: exactly those bits, two's complement where signed, with the scale of its table")
    ctx.rule("page", "which layout a subframe has follows from its subframe and SV/page identifiers; an identifier no layout belongs to is refused")
    ctx.rule("week", "a week number cut to 8 or 10 bits becomes the full week with those low bits nearest the given one")
    ctx.rule("parity", "the six parity bits are the exclusive-or combinations of IS-GPS-200 table 20-XIV")
    ctx.rule("map", "page, subframe and count are mapped onto each other as IS-GPS-200 schedules them")
    ctx.rule("nmct", "the NMCT validity time follows from Toe and AODO in the right week")
    ctx.rule("fit", "the fit interval of an IODC and fit flag is that of IS-GPS-200 table 20-XII")
    ctx.rule("ephemeris", "subframes 1-3 added in any order leave in the ephemeris every quantity they carry, at the instants they mean")
    ctx.rule("almanac", "an almanac page leaves in the almanac every quantity it carries, for the satellite it names")
    m = M(ctx, TUS)
    n = decode(ctx, m) + compat(ctx, m) + week(ctx, m) + parity(ctx) + countbits(ctx, m) + pages(ctx, m)
    e = M(ctx, ETU + [s for s in lib_sources() if "/TimeHandling/" in s], tmodels())
    for g in (ephem, fitint, nmct, almanac):
        n += g(ctx, e)
    ctx.floor("decoded quantities", n, 2000)


def rep(ctx, rule, d, f, msg, key):
    if d == "unresolved":
        ctx.unresolved(rule, where(f), msg)
        return 0
    ctx.ob(rule, d is None, where(f), msg + (": " + d if d else ""), key)
    return 1


def decode(ctx, m):
    n = 0
    for sfid in range(8):
        for svid in (range(64) if sfid in (4, 5) else [None]):
            conc = {(50, 3): sfid}
            if svid is not None:
                conc[(63, 6)] = svid
            k = kind(sfid, svid)
            f, r = m.convert("s", words("s", conc), sym("wk"))
            st, ret = r["state"], r["ret"]
            tag = "sf%d%s" % (sfid, "" if svid is None else "/id%d" % svid)
            if st is None or ret is None or not isnum(ret):
                ctx.unresolved("page", where(f), tag + ": " + (show(ret)[:80] if ret is not None else "does not return"))
                continue
            if k is None:
                continue
            ctx.ob("page", bool(val(ret)) == (k != 0), where(f), "subframe %s is %s" % (tag, "decoded" if k else "refused"), "page|" + tag)
            n += 1
            if not k or not val(ret):
                continue
            for i, q in enumerate(POS[k]):
                if q is None:
                    continue
                q, sc = q if isinstance(q, tuple) else (q, 1)
                if k == 1 and q == "week":
                    continue
                lay = HEAD[q] if q in HEAD else LAY[k][q]
                d = differs(st.read(OUT, (num(i),)), "s", lay, sc, conc)
                n += rep(ctx, "decode", d, f, "%s: output %d is %s" % (tag, i, q), "decode|%s|%d" % (tag, i))
    return n


def compat(ctx, m):
    """the entries kept for callers with other types"""
    n = 0
    f = m.fn(EN + "::subframeConvert", "long *", "int", "double *")
    for sfid, svid in ((1, None), (2, None), (3, None), (4, 25), (5, 51), (4, 55), (4, 56), (4, 63)):
        conc = {(50, 3): sfid}
        if svid:
            conc[(63, 6)] = svid
        st = m.base.copy()
        st.write(ARR, (), T("arr", *words("s", conc)))
        r = m.interp().run(f, cls=EN, state=st, args=[T("ptr", ARR, ()), sym("wk"), T("ptr", OUT, ())])
        g, r2 = m.convert("s", words("s", conc), sym("wk"))
        k = kind(sfid, svid)
        for i in range(len(POS[k])):
            d = "unresolved"
            if r["state"] is not None and r2["state"] is not None:
                a, b = weights(r["state"].read(OUT, (num(i),))), weights(r2["state"].read(OUT, (num(i),)))
                if (a is None) != (b is None) or POS[k][i] is None or (k, i) == (1, 5):
                    continue
                d = "unresolved" if a is None else None if a == b else "differs"
            n += rep(ctx, "decode", d, f, "words given as long: subframe %d output %d" % (sfid, i), "decode|long|%d|%s|%d" % (sfid, svid, i))
    for nm, nb in (("convert8bit", 8), ("convert10bit", 10)):
        f = m.fn(EN + "::" + nm, "int", "double *")
        bad, und = None, 0
        for wk in WEEKS:
            for low in {0, 1, wk % (1 << nb), (wk + (1 << nb - 1) - 1) % (1 << nb), (wk - (1 << nb - 1) + 1) % (1 << nb), (1 << nb) - 1}:
                st = m.base.copy()
                st.write(OUT, (), num(low))
                r = m.interp().run(f, cls=EN, state=st, args=[num(wk), T("ptr", OUT, ())])
                v = r["state"] and r["state"].read(OUT, ())
                if v is None or not isnum(v):
                    und += 1
                elif (val(v) - low) % (1 << nb) or abs(val(v) - wk) > 1 << (nb - 1):
                    bad = bad or "%d in week %d becomes %s" % (low, wk, show(v))
        n += rep(ctx, "week", bad or ("unresolved" if und else None), f, nm, "week|" + nm)
    return n


def week(ctx, m):
    f = m.fn(EN + "::convertXBit", "short", "short", "BitConvertType")
    bt = dict((n, v) for n, v, _ in m.p.enum(EN + "::BitConvertType")["vals"])
    n = 0
    for name, nb in (("BITS8", 8), ("BITS10", 10)):
        I = m.interp()
        I.bitwidth = None
        I.keepcasts = False
        bad, und = None, 0
        for wk in WEEKS:
            r = I.run(f, cls=EN, state=m.base.copy(), args=[num(wk), sym("inc"), num(bt[name])])
            if r["ret"] is None:
                und += 1
                continue
            for inc in range(1 << nb):
                try:
                    v = int(evaln(r["ret"], {sym("inc"): Fraction(inc)}))
                except Unknown:
                    und += 1
                    break
                if (v - inc) % (1 << nb) or abs(v - wk) > 1 << (nb - 1):
                    bad = bad or "%d in week %d becomes %d" % (inc, wk, v)
        n += rep(ctx, "week", bad or ("unresolved" if und else None), f, "%d-bit week" % nb, "week|%d" % nb)
    # where the conversion is applied
    for sfid, svid, out, q in ((1, None, 5, SF1["week"]), (4, 56, 18, IONO["wnt"]), (4, 56, 20, IONO["wnlsf"])):
        nb = q[0][0][1]
        bad, und = None, 0
        for wk in (0, 130, 700, 1023, 1024, 1800, 2100):
            for low in sorted({0, 1, wk % (1 << nb), (wk + 3) % (1 << nb), (wk - 5) % (1 << nb), (wk + (1 << nb - 1) - 2) % (1 << nb), (1 << nb) - 1}):
                conc = {(50, 3): sfid, q[0][0]: low}
                if svid is not None:
                    conc[(63, 6)] = svid
                g, r = m.convert("s", words("s", conc), num(wk))
                v = r["state"] and r["state"].read(OUT, (num(out),))
                if v is None or not isnum(v):
                    und += 1
                elif (val(v) - low) % (1 << nb) or abs(val(v) - wk) > 1 << (nb - 1):
                    bad = bad or "%d in week %d becomes %s" % (low, wk, show(v))
        n += rep(ctx, "week", bad or ("unresolved" if und else None), g, "sf%d output %d is the full week" % (sfid, out), "week|sf%d|%d" % (sfid, out))
    return n


# ---- parity: IS-GPS-200 table 20-XIV; source data bits of each parity bit, and which bit of the word before
PARITY = {25: (29, [1, 2, 3, 5, 6, 10, 11, 12, 13, 14, 17, 18, 20, 23]), 26: (30, [2, 3, 4, 6, 7, 11, 12, 13, 14, 15, 18, 19, 21, 24]),
          27: (29, [1, 3, 4, 5, 7, 8, 12, 13, 14, 15, 16, 19, 20, 22]), 28: (30, [2, 4, 5, 6, 8, 9, 13, 14, 15, 16, 17, 20, 21, 23]),
          29: (30, [1, 3, 5, 6, 7, 9, 10, 14, 15, 16, 17, 18, 21, 22, 24]), 30: (29, [3, 5, 6, 8, 9, 10, 11, 13, 15, 19, 22, 23, 24])}


def popcount(I, e, st):
    return T("popcount", I.ev(e["a"][0], st))


def wbit(t, i):
    """bit i (1 = leftmost of 30) of a word"""
    return (t, 30 - i)


def form(b):
    """b, unknown unless it is made of bits of the words alone"""
    if b in (0, 1):
        return b
    if b == bits.UNK:
        return b
    at = b[1] if b[0] == "^" else [b]
    return b if all(bitno(a) or width(a[0]) for a in at) else bits.UNK


def bitsof(t):
    return [form(b) for b in bits.bits(t, width)] if t is not None else [bits.UNK] * 64


def oracle(cur, prev, upright, dbits=None):
    """the six parity bits of word cur after word prev, as GF(2) forms"""
    inv = 0 if upright or prev is None else wbit(prev, 30)
    d = {i: bits.xor((dbits or {}).get(i, wbit(cur, i)), inv) for i in range(1, 25)}
    r = {}
    for k, (pb, ds) in PARITY.items():
        r[k] = bits.xor(0 if prev is None else wbit(prev, pb), *[d[i] for i in ds])
    return r


def parity(ctx):
    m = M(ctx, TUS, {"gpstk::BinUtils::countBits": popcount})
    cur, prev = word("s", 1), word("s", 0)
    n = 0
    f = m.fn(EN + "::computeParity", "int", "int", "bool")
    for up in (1, 0):
        r = m.interp().run(f, cls=EN, state=m.base.copy(), args=[cur, prev, num(up)])
        got = bitsof(r["ret"])
        want = oracle(cur, prev, up)
        tag = "upright" if up else "as received"
        for k in range(25, 31):
            g = got[30 - k]
            n += rep(ctx, "parity", "unresolved" if g == bits.UNK else None if g == want[k] else "another combination", f, "parity bit %d, word %s" % (k, tag), "parity|%d|%d" % (k, up))
        n += rep(ctx, "parity", "unresolved" if bits.UNK in got[6:] else None if not any(got[6:]) else "more than six bits", f, "nothing but parity bits, word " + tag, "parity|rest|%d" % up)
    n += fix(ctx, m) + checkpar(ctx, m) + fields(ctx, m)
    return n


def fix(ctx, m):
    f = m.fn(EN + "::fixParity", "int", "int", "bool", "bool")
    n = 0
    cur, prev = word("s", 1), word("s", 0)
    for up in (1, 0):
        for nib in (1, 0):
            r = m.interp().run(f, cls=EN, state=m.base.copy(), args=[cur, prev, num(nib), num(up)])
            tag = "%s word, %s" % ("word 2 or 10" if nib else "other", "upright" if up else "as received")
            key = "fix|%d|%d" % (nib, up)
            got = bitsof(r["ret"])[:30]
            if bits.UNK in got:
                n += rep(ctx, "parity", "unresolved", f, tag, key)
                continue
            keep = 22 if nib else 24
            bad = [i for i in range(1, keep + 1) if got[30 - i] != wbit(cur, i)]
            n += rep(ctx, "parity", "bit %d is changed" % bad[0] if bad else None, f, "fixParity keeps the data bits, " + tag, key + "|data")
            want = oracle(cur, prev, up, {i: got[30 - i] for i in range(1, 25)})
            bad = [k for k in want if got[30 - k] != want[k]]
            n += rep(ctx, "parity", "bit %d is not the parity of the word" % bad[0] if bad else None, f, "fixParity, " + tag, key + "|parity")
            if nib:
                n += rep(ctx, "parity", None if got[0] == 0 and got[1] == 0 else "are not zero", f, "the last two bits, " + tag, key + "|zero")
    return n


def conj(c):
    """(bit form that must be 0) of a condition that is a conjunction of equalities; None otherwise"""
    if isnum(c):
        return [] if val(c) else [1]
    if c.op == "and":
        r = [conj(x) for x in c.args]
        return None if None in r else sum(r, [])
    if c.op == "ite":
        g, a, b = c.args
        if isnum(b) and not val(b):
            r = [conj(g), conj(a)]
        elif isnum(a) and not val(a):
            r = [conj(not_(g)), conj(b)]
        else:
            return None
        return None if None in r else sum(r, [])
    if c.op == "eq":
        x, y = bitsof(c.args[0]), bitsof(c.args[1])
        z = [bits.xor(p, q) for p, q in zip(x, y)]
        return None if bits.UNK in z else [q for q in z if q != 0]
    if c.op == "not":
        x = c.args[0]
        if x.op == "not":
            return conj(x.args[0])
        b = bits.condbit(x, bitsof)
        return None if b is None or b == bits.UNK else [b]
    b = bits.condbit(c, bitsof)
    return None if b is None or b == bits.UNK else [bits.xor(b, 1)]


def checkpar(ctx, m):
    fs = [f for f in m.p.find(EN + "::checkParity") if "uint" in f["params"][0]["t"] or "int *" in f["params"][0]["t"]]
    fs = [f for f in fs if "vector" not in f["params"][0]["t"]]
    ctx.need(len(fs) == 1, EN + "::checkParity")
    f = fs[0]
    n = 0
    for up in (1, 0):
        st = m.base.copy()
        w = [word("s", i) for i in range(10)]
        st.write(ARR, (), T("arr", *w))
        r = m.interp().run(f, cls=EN, state=st, args=[T("ptr", ARR, ()), num(up)])
        c = conj(r["ret"]) if r["ret"] is not None else None
        want = set()
        for i in range(10):
            o = oracle(w[i], w[i - 1] if i else None, up)
            want |= {bits.xor(o[k], wbit(w[i], k)) for k in o}
        d = "unresolved" if c is None else None if set(c) == want else "tests something else"
        n += rep(ctx, "parity", d, f, "a subframe passes exactly if all sixty parity bits fit, " + ("upright" if up else "as received"), "check|%d" % up)
    return n


def fields(ctx, m):
    """the bit fields read by the small accessors"""
    n = 0
    ws = words("s", {(301, 0): 0})
    t = num(0)
    for j in range(31, 61):
        t = add(t, mul(num(2 ** (60 - j)), dbit("s", j)))
    for name, q in (("getd29", Q(59, 1)), ("getd30", Q(60, 1)), ("getHOWTime", HEAD["HOW"]), ("getTOW", Q(31, 17)), ("getSFID", HEAD["sfid"])):
        f = m.fn(EN + "::" + name, "int")
        r = m.interp().run(f, cls=EN, state=m.base.copy(), args=[t])
        n += rep(ctx, "decode", differs(r["ret"], "s", q) if r["ret"] is not None else "unresolved", f, name, "field|" + name)
    return n


def lanes(t, x):
    """t as disjoint bit fields, each the number of set bits among some bits of x: [(offset, set)]"""
    if t is x:
        return [(i, frozenset([i])) for i in range(32)]
    w = lambda s: len(s).bit_length()
    if t.op == "cast":
        return lanes(t.args[1], x)
    if t.op == "shr" and isnum(t.args[1]):
        k, a = int(val(t.args[1])), lanes(t.args[0], x)
        if a is None or any(o < k < o + w(s) for o, s in a):
            return None
        return [(o - k, s) for o, s in a if o >= k]
    if t.op == "band" and len(t.args) == 2 and any(isnum(y) for y in t.args):
        k, y = t.args if isnum(t.args[0]) else t.args[::-1]
        k, a = int(val(k)), lanes(y, x)
        if a is None:
            return None
        out = []
        for o, s in a:
            f = (k >> o) & ((1 << w(s)) - 1)
            if f == (1 << w(s)) - 1:
                out.append((o, s))
            elif f:
                return None
        return out
    if t.op == "sum":
        c, d = t.args
        if c or any(v.denominator != 1 or v <= 0 or int(v) & (int(v) - 1) for _, v in d):
            return None
        acc = {}
        for y, v in d:
            a = lanes(y, x)
            if a is None:
                return None
            for o, s in a:
                o += int(v).bit_length() - 1
                if acc.get(o, frozenset()) & s:
                    return None
                acc[o] = acc.get(o, frozenset()) | s
        out = sorted(acc.items())
        for (o, s), (o2, _) in zip(out, out[1:]):
            if o + w(s) > o2:
                return None
        return out
    if t.op == "popcount" and t.args[0] is x:
        return [(0, frozenset(range(32)))]
    return None


def countbits(ctx, m):
    fs = m.p.find("gpstk::BinUtils::countBits", need=False)
    ctx.need(len(fs) == 1, "BinUtils::countBits")
    f = fs[0]
    x = word("s", 0)
    I = m.interp()
    r = I.run(f, state=m.base.copy(), args=[x])
    v = r["ret"]
    d = "unresolved"
    if v is not None:
        g = lanes(v, x)
        if g is not None:
            d = None if g == [(0, frozenset(range(32)))] else "counts other bits"
        else:
            # a packed counter that does not add up: look for a word it counts wrongly
            for k in [0, 0xffffffff, 0x3fffffff, 0x55555555, 0xaaaaaaaa, 0x0f0f0f0f, 0xffff, 0x12345678, 0x80000001, 0x00ff00ff, 0x7f7f7f7f] + [1 << i for i in range(32)]:
                try:
                    y = evaln(v, {x: Fraction(k)})
                except (Unknown, TypeError, ZeroDivisionError):
                    break
                if int(y) != bin(k).count("1"):
                    d = "counts %d bits in %#x" % (y, k)
                    break
    return rep(ctx, "parity", d, f, "countBits counts the set bits of a word", "countBits")


# ---- pages (IS-GPS-200 table 20-V): SV/page identifier of each page of subframe 4
SF4 = [57, 25, 26, 27, 28, 57, 29, 30, 31, 32, 57, 62, 52, 53, 54, 57, 55, 56, 58, 59, 57, 60, 61, 62, 63]


def pages(ctx, m):
    n = 0
    f = m.fn(EN + "::sfpage2svid", "short", "short", "short &")
    g = m.fn(EN + "::sv2page", "short", "short &", "short &")
    h = m.fn(EN + "::zcount2page", "long", "short &", "short &")
    R = [T("ptr", (x,), ()) for x in ("A", "B")]

    def call(fn, args, outs):
        st = m.base.copy()
        for o in outs:
            st.write((o,), (), num(-99))
        r = m.interp().run(fn, cls=EN, state=st, args=args)
        if r["state"] is None or r["ret"] is None or not isnum(r["ret"]):
            return None
        v = [r["state"].read((o,), ()) for o in outs]
        return (bool(val(r["ret"])), [int(val(x)) if isnum(x) else None for x in v])
    bad = {}
    for sf in range(0, 8):
        for pg in range(0, 28):
            q = call(f, [num(sf), num(pg), R[0]], ["A"])
            ok = sf in (4, 5) and 1 <= pg <= 25
            want = (51 if pg == 25 else pg) if sf == 5 else SF4[pg - 1] if ok else None
            d = "unresolved" if q is None else None if q[0] == ok and (not ok or q[1][0] == want) else "becomes %s" % (q,)
            n += rep(ctx, "map", d, f, "subframe %d page %d" % (sf, pg), "sfpage2svid|%d|%d" % (sf, pg))
    for sv in range(-1, 66):
        q = call(g, [num(sv), R[0], R[1]], ["A", "B"])
        where_ = [(5, sv)] if 1 <= sv <= 24 else [(5, 25)] if sv == 51 else [(4, i + 1) for i, s in enumerate(SF4) if s == sv]
        d = "unresolved" if q is None else None if q[0] == bool(where_) and (not where_ or tuple(q[1]) in where_) else "becomes %s" % (q,)
        n += rep(ctx, "map", d, g, "SV/page identifier %d" % sv, "sv2page|%d" % sv)
    und, bad = 0, None
    for z in list(range(0, 1600, 4)) + [403196, 403196 - 4, 403200 - 500, 201600]:
        # the count in the HOW belongs to the start of the next subframe: frames of 30 s, 25 pages from the start of the week
        q = call(h, [num(z), R[0], R[1]], ["A", "B"])
        if q is None or None in q[1]:
            und += 1
            continue
        k = (z // 4 - 1) % 125 if z else 124
        sf, pg = k % 5 + 1, k // 5 + 1
        if not q[0] or q[1][0] != sf or q[1][1] != (pg if sf > 3 else 0):
            bad = bad or "count %d: subframe %s page %s" % (z, q[1][0], q[1][1])
    n += rep(ctx, "map", bad or ("unresolved" if und else None), h, "the count in the HOW gives subframe and page", "zcount2page")
    return n


# ---- the objects the subframes are collected in
from .c11 import tmodels, getct, setct, FULLWEEK, HALFWEEK, WEEK
ETU = TUS + ["core/lib/GNSSEph/" + x for x in ("EngEphemeris.cpp", "EngAlmanac.cpp", "AlmOrbit.cpp", "BrcKeplerOrbit.cpp", "BrcClockCorrection.cpp")]
EE, EA = "gpstk::EngEphemeris", "gpstk::EngAlmanac"
# getter -> (subframe, quantity); what is read without a time or an identifier in it
GETS = {"getCodeFlags": (1, "codes"), "getAccFlag": (1, "ura"), "getHealth": (1, "health"), "getL2Pdata": (1, "L2P"), "getAf0": (1, "af0"), "getAf1": (1, "af1"),
        "getAf2": (1, "af2"), "getTgd": (1, "Tgd"), "getIODE": (2, "IODE"), "getAODO": (2, "AODO"), "getCus": (2, "Cus"), "getCrs": (2, "Crs"), "getCuc": (2, "Cuc"),
        "getM0": (2, "M0"), "getDn": (2, "dn"), "getEcc": (2, "ecc"), "getAhalf": (2, "Ahalf"), "getCis": (3, "Cis"), "getCrc": (3, "Crc"), "getCic": (3, "Cic"),
        "getOmega0": (3, "OMEGA0"), "getI0": (3, "i0"), "getW": (3, "w"), "getOmegaDot": (3, "OMEGAdot"), "getIDot": (3, "idot"), "getIODC": (1, "IODC"), "getFitInt": (2, "fit")}
LAYS = {1: SF1, 2: SF2, 3: SF3}
# (name, seconds of week of the start of subframe 1, Toc, Toe); seconds from the start of week 2000
WHEN = [("mid-week", 352800, 352800 + 7184, 352800 + 7184), ("start of week", 0, 7200, 7184), ("last frame of the week", FULLWEEK - 30, 0, 16),
        ("epoch in the next week", FULLWEEK - 3600, 0, 7200), ("epoch in the week before", 1800, FULLWEEK - 1600, FULLWEEK - 3200),
        ("epochs in different weeks", FULLWEEK - 3600, FULLWEEK - 16, 3600), ("ephemeris epoch in the week before", 3600, 3600, FULLWEEK - 16),
        ("clock epoch in the week before", 3600, FULLWEEK - 16, 3600), ("clock epoch in the next week", FULLWEEK - 3600, 3600, FULLWEEK - 16)]


def unwrap(x, tow):
    """second of week x, taken within half a week of tow"""
    return x + FULLWEEK if x - tow < -HALFWEEK else x - FULLWEEK if x - tow > HALFWEEK else x


def ephem(ctx, m):
    n = 0
    add_ = m.fn(EE + "::addSubframe", "int *", "int", "short", "short")
    nop = m.fn(EE + "::addSubframeNoParity", "int *", "int", "short", "short")
    inc = m.fn(EE + "::addIncompleteSF1Thru3", "int *", "int *", "int *", "long", "int", "short", "short")
    ts = dict((a, b) for a, b, _ in m.p.enum("gpstk::TimeSystem")["vals"])["GPS"]
    orders = [(1, 2, 3), (3, 2, 1), (2, 1, 3), (1, 3, 2), (2, 3, 1), (3, 1, 2)]
    for ci, (name, x, toc, toe) in enumerate(WHEN):
        for fit, iodc, hours in ((0, 10, 4), (1, 10, 6), (1, 0x1F8, 50)) if ci < 2 else ((0, 10, 4),):
            for how in ("add", "nopar", "incomplete"):
                if how != "add" and (ci > 1 or fit):
                    continue
                order = orders[(ci + fit) % 6]
                conc = {1: {(31, 17): (x // 6 + 1) % 100800, (50, 3): 1, (61, 10): WEEK % 1024, (83, 2): iodc >> 8, (211, 8): iodc & 255, (219, 16): toc // 16},
                        2: {(31, 17): (x // 6 + 2) % 100800, (50, 3): 2, (271, 16): toe // 16, (287, 1): fit},
                        3: {(31, 17): (x // 6 + 3) % 100800, (50, 3): 3}}
                if how == "incomplete":
                    # the first two words are not given: HOW time 0
                    for k in (1, 2, 3):
                        conc[k].pop((31, 17))
                tag = "%s, %s%s" % (name, {"add": "subframes %d %d %d" % order, "nopar": "words without parity", "incomplete": "words 3-10 only"}[how],
                                    ", fit flag %d IODC %d" % (fit, iodc) if (fit, iodc) != (0, 10) else "")
                key = "%s|%s|%d|%d" % (name, how, fit, iodc)
                st = m.base.copy()
                R = ("this",)
                ctor = m.fn(EE + "::EngEphemeris")
                r = m.interp().run(ctor, cls=EE, state=st)
                st = r["state"]
                ok = st is not None
                f = {"add": add_, "nopar": nop, "incomplete": inc}[how]
                rets = []
                if how == "incomplete":
                    for k in (1, 2, 3):
                        st.write(("S%d" % k,), (), T("arr", *words(k, conc[k])[2:]))
                    r = m.interp().run(f, cls=EE, state=st, args=[T("ptr", ("S%d" % k,), ()) for k in (1, 2, 3)] + [num(x), num(WEEK), num(7), num(5)])
                    ok, st = r["state"] is not None, r["state"]
                    rets.append(r["ret"])
                else:
                    for k in order:
                        if not ok:
                            break
                        ws = words(k, conc[k])
                        if how == "nopar":
                            ws = nowords(k, conc[k])
                        st.write(("S%d" % k,), (), T("arr", *ws))
                        r = m.interp().run(f, cls=EE, state=st, args=[T("ptr", ("S%d" % k,), ()), num(WEEK), num(7), num(5)])
                        ok, st = r["state"] is not None, r["state"]
                        rets.append(r["ret"])
                if not ok:
                    ctx.ob("ephemeris", False, where(f), "%s: ends in an exception" % tag, "ephemeris|%s|throws" % key)
                    continue
                n += rep(ctx, "ephemeris", None if all(q is not None and isnum(q) and val(q) for q in rets) else "unresolved" if any(q is None or not isnum(q) for q in rets) else "refused",
                         f, tag, "ephemeris|%s|accepted" % key)
                want = {g: (k, LAYS[k][q], conc[k]) for g, (k, q) in GETS.items()}
                first = ci == 0 and not fit

                def get(g, *args):
                    fs = [y for y in m.p.find(EE + "::" + g, need=False) if len(y["params"]) == len(args)]
                    ctx.need(len(fs) == 1, EE + "::" + g)
                    r = m.interp().run(fs[0], cls=EE, state=st.copy(), args=list(args))
                    return fs[0], r["ret"], r["state"]
                for g, (k, q, c) in sorted(want.items()):
                    ff, v, _ = get(g)
                    d = "unresolved" if v is None else differs(v, k, q, 1, c)
                    n += rep(ctx, "ephemeris", d, ff, "%s: %s is the quantity of subframe %d" % (tag, g, k), "ephemeris|%s|%s" % (how if not fit else key, g))
                for k in (1, 2, 3):
                    for g, q in (("getHOWTime", HEAD["HOW"]), ("getASAlert", HEAD["alert"]), ("getTLMMessage", HEAD["message"])):
                        ff, v, _ = get(g, num(k))
                        if how == "incomplete":
                            continue
                        d = "unresolved" if v is None else differs(v, k, q, 1, conc[k])
                        n += rep(ctx, "ephemeris", d, ff, "%s: %s of subframe %d" % (tag, g, k), "ephemeris|%s|%s|%d" % (how, g, k))
                    ff, v, _ = get("isData", num(k))
                    n += rep(ctx, "ephemeris", "unresolved" if v is None or not isnum(v) else None if val(v) else "is not there", ff, "%s: subframe %d" % (tag, k), "ephemeris|isData|%d" % k)
                tow = 0 if how == "incomplete" else x + 12
                if how == "incomplete":
                    continue
                for g, w in (("getPRNID", 7), ("getTracker", 5), ("getFullWeek", WEEK), ("getToc", toc % FULLWEEK), ("getToe", toe % FULLWEEK), ("getFitInterval", hours)):
                    ff, v, _ = get(g)
                    n += rep(ctx, "ephemeris", "unresolved" if v is None or not isnum(v) else None if val(v) == w else "is %s, not %s" % (show(v), w), ff, "%s: %s" % (tag, g),
                             "ephemeris|%s|%s" % (key, g))
                ff, v, _ = get("getA")
                a = st.read(R, ("orbit", "Ahalf"))
                n += rep(ctx, "ephemeris", None if v is mul(a, a) else "unresolved" if v is None or not definite(v) else "is not the square of its root", ff, tag + ": getA", "ephemeris|%s|getA" % key)
                for nm, path, sec in (("Toc", ("bcClock", "Toc"), unwrap(toc % FULLWEEK, tow)), ("Toe", ("orbit", "Toe"), unwrap(toe % FULLWEEK, tow)),
                                      ("begin of fit", ("orbit", "beginFit"), unwrap(toe % FULLWEEK, tow) - hours * 1800),
                                      ("end of fit", ("orbit", "endFit"), unwrap(toe % FULLWEEK, tow) + hours * 1800)):
                    got = getct(st, R, path)
                    d = "unresolved" if got is None else None if got == (sec, ts) else "is off by %s s" % (got[0] - sec)
                    n += rep(ctx, "ephemeris", d, add_, "%s: %s" % (tag, nm), "ephemeris|%s|%s" % (key, nm))
    # any one subframe missing: nothing is loaded
    for miss in (1, 2, 3):
        st = m.interp().run(m.fn(EE + "::EngEphemeris"), cls=EE, state=m.base.copy())["state"]
        for k in (1, 2, 3):
            if k == miss or st is None:
                continue
            c = {(50, 3): k}
            st.write(("S%d" % k,), (), T("arr", *words(k, c)))
            st = m.interp().run(add_, cls=EE, state=st, args=[T("ptr", ("S%d" % k,), ()), num(WEEK), num(7), num(5)])["state"]
        if st is None:
            ctx.unresolved("ephemeris", where(add_), "without subframe %d" % miss)
            continue
        for k in (1, 2, 3):
            fs = m.fn(EE + "::isData", "short")
            v = m.interp().run(fs, cls=EE, state=st.copy(), args=[num(k)])["ret"]
            n += rep(ctx, "ephemeris", "unresolved" if v is None or not isnum(v) else None if bool(val(v)) == (k != miss) else "is wrong", fs,
                     "without subframe %d: isData(%d)" % (miss, k), "ephemeris|missing|%d|%d" % (miss, k))
        for o in ("orbit", "bcClock"):
            v = st.read(("this",), (o, "dataLoaded"))
            n += rep(ctx, "ephemeris", "unresolved" if not isnum(v) else None if not val(v) else "is loaded", add_, "without subframe %d: %s" % (miss, o), "ephemeris|missing|%d|%s" % (miss, o))
    return n


def nowords(sf, conc):
    """the words shifted down by their six parity bits"""
    out = []
    fix = {}
    for (s, k), v in conc.items():
        for i in range(k):
            fix[s + i] = v >> (k - 1 - i) & 1
    for k in range(10):
        t = num(0)
        for j in range(30 * k + 1, 30 * k + 25):
            t = add(t, mul(num(2 ** (30 * k + 24 - j)), num(fix[j]) if j in fix else dbit(sf, j)))
        out.append(t)
    return out


def fitint(ctx, m):
    """IS-GPS-200 table 20-XII"""
    n = 0
    def want(iodc, flag):
        if not flag:
            return 4
        if 240 <= iodc <= 247:
            return 8
        if 248 <= iodc <= 255 or iodc == 496:
            return 14
        if 497 <= iodc <= 503 or 1021 <= iodc <= 1023:
            return 26
        if 504 <= iodc <= 510:
            return 50
        if iodc == 511 or 752 <= iodc <= 756:
            return 74
        if iodc == 757:
            return 98
        return 6 if iodc & 255 < 240 else None
    for q in (EE + "::getFitInterval", "gpstk::getLegacyFitInterval"):
        f = m.fn(q, "short", "short")
        for flag in (0, 1):
            bad, und = None, 0
            for iodc in range(1024):
                r = m.interp().run(f, state=m.base.copy(), args=[num(iodc), num(flag)])
                w = want(iodc, flag)
                if r["state"] is None:
                    if w is not None:
                        bad = bad or "IODC %d is refused" % iodc
                elif r["ret"] is None or not isnum(r["ret"]) or r["throws"]:
                    und += 1
                elif w is not None and val(r["ret"]) != w:
                    bad = bad or "IODC %d gives %s, not %s" % (iodc, show(r["ret"]), w)
            n += rep(ctx, "fit", bad or ("unresolved" if und else None), f, "%s, fit flag %d, all IODC" % (q, flag), "fit|%s|%d" % (q, flag))
    return n


def nmct(ctx, m):
    f = [g for g in m.p.find(EN + "::getNMCTValidity") if len(g["params"]) == 6]
    ctx.need(len(f) == 1, EN + "::getNMCTValidity")
    f = f[0]
    ts = dict((a, b) for a, b, _ in m.p.enum("gpstk::TimeSystem")["vals"])
    n = 0
    for tot, toe in ((6, 7200), (6, 7184), (352806, 360000), (352806, 359984), (FULLWEEK - 24, 0), (FULLWEEK - 24, 16), (1806, FULLWEEK - 3200), (1806, FULLWEEK - 3600),
                     (302406, 302400), (FULLWEEK - 54, 7184)):
        for aodo in (0, 1, 5, 30, 31):
            st = m.base.copy()
            tow = (tot + 6) // 6
            wk = WEEK + (tow * 6) // FULLWEEK
            ws = words(2, {(31, 17): tow % 100800, (50, 3): 2, (271, 16): toe // 16, (288, 5): aodo})
            st.write(ARR, (), T("arr", *ws))
            r = m.interp().run(f, state=st, args=[T("ptr", ARR, ()), num(wk)] + [T("ptr", ("o" + o,), ()) for o in "ABCD"])
            tag = "HOW %d, Toe %d, AODO %d" % (tow * 6 % FULLWEEK, toe, aodo)
            key = "nmct|%d|%d|%d" % (tot, toe, aodo)
            s = r["state"]
            if s is None or r["ret"] is None or not isnum(r["ret"]):
                n += rep(ctx, "nmct", "unresolved", f, tag, key)
                continue
            e = unwrap(toe, tow * 6 % FULLWEEK - 6) + (WEEK + (tow * 6 - 6) // FULLWEEK - WEEK) * FULLWEEK if tow * 6 < FULLWEEK else unwrap(toe, tow * 6 - 6)
            off = toe % 7200
            v = e - aodo * 900 if not off else e - off + 7200 - aodo * 900
            a = s.read(("oA",), ())
            got = [getct(s, ("o" + o,), ()) for o in "BCD"]
            d = "unresolved" if not isnum(a) or None in got else None
            if not d:
                if bool(val(r["ret"])) != (aodo != 31):
                    d = "valid is %s" % bool(val(r["ret"]))
                elif val(a) != aodo * 900:
                    d = "AODO is %s" % show(a)
                elif [g[0] for g in got] != [v, e, tow * 6 - 6]:
                    d = "times are off by %s s" % ", ".join(str(g[0] - y) for g, y in zip(got, (v, e, tow * 6 - 6)))
            n += rep(ctx, "nmct", d, f, tag, key)
    return n


ALMGET = {"getEcc": ("ecc", 1), "getIOffset": ("i_offset", 1), "getOmegadot": ("OMEGAdot", 1), "getSVHealth": ("health", 1), "getAhalf": ("Ahalf", 1), "getOmega0": ("OMEGA0", 1),
          "getW": ("w", 1), "getM0": ("M0", 1), "getAf0": ("af0", 1), "getAf1": ("af1", 1), "getToa": ("toa", 1), "getXmitTime": ("HOW", 1)}


def almanac(ctx, m):
    n = 0
    f = m.fn(EA + "::addSubframe", "int *", "short")
    gps = dict((a, b) for a, b, _ in m.p.enum("gpstk::SatelliteSystem")["vals"])["GPS"]

    def fresh():
        return m.interp().run(m.fn(EA + "::EngAlmanac"), cls=EA, state=m.base.copy())["state"]

    def put(st, sf, conc, wk=WEEK):
        c = {(1, 8): 0x8b, (50, 3): sf}
        c.update(conc)
        st = st.copy()
        st.write(ARR, (), T("arr", *words("s", c)))
        r = m.interp().run(f, cls=EA, state=st, args=[T("ptr", ARR, ()), num(wk)])
        return r, c

    def sat(st, prn):
        st.write(("SAT", prn), ("id",), num(prn))
        st.write(("SAT", prn), ("system",), num(gps))
        return T("ptr", ("SAT", prn), ())

    def get(st, g, *args):
        fs = [y for y in m.p.find(EA + "::" + g, need=False) if len(y["params"]) == len(args)]
        ctx.need(len(fs) == 1, EA + "::" + g)
        r = m.interp().run(fs[0], cls=EA, state=st, args=list(args))
        return fs[0], r["ret"] if r["state"] is not None else None
    # orbital pages; two satellites, one after the other
    for a, b, toa, tow, dw in ((1, 32, 99, 60000, 0), (25, 2, 10, 100000, -1), (14, 24, 145, 100, 1)):
        st, cs = fresh(), {}
        for prn in (a, b):
            r, cs[prn] = put(st, 5 if prn <= 24 else 4, {(63, 6): prn, (91, 8): toa, (31, 17): tow}, WEEK)
            st = r["state"]
            if st is None or r["ret"] is None:
                break
        if st is None or r["ret"] is None:
            ctx.unresolved("almanac", where(f), "pages %d and %d" % (a, b))
            continue
        prn = b
        for g, (q, sc) in sorted(ALMGET.items()):
            s2 = st.copy()
            ff, v = get(s2, g, sat(s2, prn))
            d = "unresolved" if v is None else differs(v, "s", HEAD.get(q) or ALM[q], sc, cs[prn])
            n += rep(ctx, "almanac", d, ff, "page %d after page %d: %s" % (b, a, g), "almanac|%d|%s" % (b, g))
        s2 = st.copy()
        ff, v = get(s2, "getFullWeek", sat(s2, prn))
        n += rep(ctx, "almanac", "unresolved" if v is None or not isnum(v) else None if val(v) == WEEK + dw else "is " + show(v), ff, "page %d: week of transmission" % prn, "almanac|%d|week" % prn)
        for q, there in ((a, True), (b, True), (7, False)):
            s2 = st.copy()
            ff, v = get(s2, "isData", sat(s2, q))
            n += rep(ctx, "almanac", "unresolved" if v is None or not isnum(v) else None if bool(val(v)) == there else "is wrong", ff, "pages %d, %d: isData(%d)" % (a, b, q), "almanac|isData|%d|%d" % (a, q))
    # a page without a satellite leaves nothing
    r, c = put(fresh(), 5, {(63, 6): 0})
    s2 = r["state"]
    if s2 is not None:
        ff, v = get(s2, "isData", sat(s2, 0))
        n += rep(ctx, "almanac", "unresolved" if v is None or not isnum(v) else None if not val(v) else "is stored", ff, "dummy satellite 0", "almanac|dummy")
    # health, configuration
    r1, c1 = put(fresh(), 5, {(63, 6): 51, (77, 8): (WEEK - 3) % 256})
    r2, c2 = put(r1["state"], 4, {(63, 6): 63}) if r1["state"] is not None else (r1, c1)
    st = r2["state"]
    if st is None:
        ctx.unresolved("almanac", where(f), "health pages")
    else:
        for i in range(1, 33):
            s2 = r1["state"].copy() if i <= 24 else st.copy()
            ff, v = get(s2, "get6bitHealth", sat(s2, i))
            d = "unresolved" if v is None else differs(v, "s", PAGE51["sv%d" % i] if i <= 24 else CONFIG["sv%d" % i], 1, c1 if i <= 24 else c2)
            n += rep(ctx, "almanac", d, ff, "health of satellite %d" % i, "almanac|health|%d" % i)
            s2 = st.copy()
            ff, v = get(s2, "getSVConfig", sat(s2, i))
            d = "unresolved" if v is None else differs(v, "s", CONFIG["cfg%d" % i], 1, c2)
            n += rep(ctx, "almanac", d, ff, "configuration of satellite %d" % i, "almanac|config|%d" % i)
        ff, v = get(st.copy(), "getToa")
        n += rep(ctx, "almanac", "unresolved" if v is None else differs(v, "s", PAGE51["toa"], 1, c1), ff, "reference time", "almanac|toa")
        ff, v = get(st.copy(), "getAlmWeek")
        n += rep(ctx, "almanac", "unresolved" if v is None or not isnum(v) else None if val(v) == WEEK - 3 else "is " + show(v), ff, "reference week", "almanac|wna")
    # ionosphere and UTC
    r, c = put(fresh(), 4, {(63, 6): 56, (227, 8): (WEEK + 2) % 256, (249, 8): (WEEK - 100) % 256})
    st = r["state"]
    if st is None:
        ctx.unresolved("almanac", where(f), "page 18")
    else:
        for o in "AB":
            st.write((o,), (), T("arr", *[num(0)] * 4))
        g = m.fn(EA + "::getIon", "double *", "double *")
        q = m.interp().run(g, cls=EA, state=st.copy(), args=[T("ptr", ("A",), ()), T("ptr", ("B",), ())])
        for o, l in (("A", "a"), ("B", "b")):
            for i in range(4):
                d = "unresolved" if q["state"] is None else differs(q["state"].read((o,), (num(i),)), "s", IONO["%s%d" % (l, i)], 1, c)
                n += rep(ctx, "almanac", d, g, "ionosphere %s%d" % (l, i), "almanac|ion|%s%d" % (l, i))
        g = [y for y in m.p.find(EA + "::getUTC") if len(y["params"]) == 8]
        ctx.need(len(g) == 1, EA + "::getUTC")
        g = g[0]
        names = ["UA0", "UA1", "Udtls", "Utot", "Uwnt", "Uwnlsf", "Udn", "Udtlsf"]
        q = m.interp().run(g, cls=EA, state=st.copy(), args=[T("ptr", (x,), ()) for x in names])
        for x, k in zip(names, ["A0", "A1", "dtls", "tot", WEEK + 2, WEEK - 100, "dn", "dtlsf"]):
            v = q["state"].read((x,), ()) if q["state"] is not None else None
            if isinstance(k, str):
                d = "unresolved" if v is None else differs(v, "s", IONO[k], 1, c)
            else:
                d = "unresolved" if v is None or not isnum(v) else None if val(v) == k else "is " + show(v)
            n += rep(ctx, "almanac", d, g, "UTC " + x[1:], "almanac|utc|" + x[1:])
    # special message
    r, c = put(fresh(), 4, {(63, 6): 55, **{(TEXT["ch%d" % i][0][0]): 65 + i for i in range(22)}})
    st = r["state"]
    if st is not None:
        v = st.read(("this",), ("special_msg",))
        d = "unresolved" if v.op != "str" else None if v.args[0] == "".join(chr(65 + i) for i in range(22)) else "is " + show(v)
        n += rep(ctx, "almanac", d, f, "special message", "almanac|text")
    return n
