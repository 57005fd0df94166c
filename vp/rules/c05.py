"""C05 time format characters: printed, error-printed, declared, documented and parsed consistently."""
from ..interp import Interp, State
from ..terms import *
from ..bits import bits, nbits, same
from ..prog import lib_sources, walk
from ..check import where

THIS = ("this",)


def F(*p):
    t = sym("this")
    for n in p:
        t = fld(t, n)
    return t


INTS = {"int": "", "unsigned int": "", "short": "", "unsigned short": "", "char": "", "long": "l", "unsigned long": "l",
        "long long": "ll", "unsigned long long": "ll", "long int": "l"}


def fits(conv, ty):
    ty = ty.replace("const ", "").strip()
    if ty.startswith("char *") or ty.startswith("char[") or ty.startswith("char ["):
        return conv == "s"
    if ty in ("double", "float"):
        return conv in ("f", "g", "e")
    if ty == "long double":
        return conv in ("Lf", "Lg", "Le")
    if ty in INTS:
        return conv in (INTS[ty] + "d", INTS[ty] + "u", INTS[ty] + "i")
    return False


# documented meaning (TimeString.hpp): class -> char -> (field path, bit slice) ; slice None = whole, (lo, n) bits
def wk(eb):
    return lambda e, f, m: {e: (("week",), (eb, None)), f: (("week",), None), m: (("week",), (0, eb))}


MEANING = {
    "ANSITime": {"K": (("time",), None)},
    "JulianDate": {"J": (("jd",), None)},
    "MJD": {"Q": (("mjd",), None)},
    "UnixTime": {"U": (("tv", "tv_sec"), None), "u": (("tv", "tv_usec"), None)},
    "PosixTime": {"W": (("ts", "tv_sec"), None), "N": (("ts", "tv_nsec"), None)},
    "YDSTime": {"Y": (("year",), None), "y": (("year",), "mod100"), "j": (("doy",), None), "s": (("sod",), None)},
    "CivilTime": {"Y": (("year",), None), "y": (("year",), "mod100"), "m": (("month",), None), "d": (("day",), None), "H": (("hour",), None),
                  "M": (("minute",), None), "S": (("second",), "trunc"), "f": (("second",), None), "b": (("month",), "names"), "B": (("month",), "names")},
    "GPSWeek": wk(10)("E", "F", "G"),
    "GPSWeekSecond": dict(wk(10)("E", "F", "G"), w=(("sow",), "day"), g=(("sow",), None)),
    "BDSWeekSecond": dict(wk(13)("R", "D", "e"), w=(("sow",), "day"), g=(("sow",), None)),
    "GALWeekSecond": dict(wk(12)("T", "L", "l"), w=(("sow",), "day"), g=(("sow",), None)),
    "QZSWeekSecond": dict(wk(16)("V", "h", "i"), w=(("sow",), "day"), g=(("sow",), None)),
    "IRNWeekSecond": dict(wk(10)("X", "O", "o"), w=(("sow",), "day"), g=(("sow",), None)),
    "GPSWeekZcount": dict(wk(10)("E", "F", "G"), w=(("zcount",), "zday"), z=(("zcount",), None), Z=(("zcount",), None), c=(None, "z29"), C=(None, "z32")),
}
MON = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]


def fwidth(t):
    """valid ranges of the week/Z-count members"""
    if t is F("zcount"):
        return 19, False
    if t is F("week"):
        return 31, False
    return None


def fp(I, e, st):
    v = []
    for a in e["a"]:
        x = I.ev(a, st)
        if x.op == "ptr":
            x = I.rd(x.args, st)
        v.append(x)
    return T("fp", v[0], v[1], v[2], v[3], e["a"][3].get("t") or "?")


MODELS = {"gpstk::StringUtils::formattedPrint": fp}


def lowermodel(I, e, st):
    v = I.ev(e["a"][0], st)
    l = None
    if v.op == "ptr":
        l = v.args
        v = I.rd(l, st)
    r = sstr(v.args[0].lower()) if v.op == "str" else T("call", "lower", v)
    if l is not None and "(const " not in e["f"]:
        st.write(l[0], l[1], r)
    return r


MODELS["gpstk::StringUtils::lowerCase"] = lowermodel


def chain(x):
    """the substitutions applied, first one first; None when the format does not pass through"""
    out = []
    while x is not None and x.op == "fp":
        out.append(x)
        x = x.args[0]
    return out[::-1], x


def runprint(p, f, c, st=None):
    r = Interp(p, models=MODELS).run(f, cls=c, args=[sym("fmt")], state=st)
    return r["ret"] if r["state"] is not None else None


def istext(x):
    return x.op == "call" and str(x.args[0]).split("#")[0] in ("strtol", "strtod", "strtold", "strtoul", "strtoll", "atoi", "atof", "atol", "std::stoi", "std::stod", "std::stol") and x.args[1] is sym("text") \
        or x.op == "token" and x.args[-1] is sym("text")


def check(ctx):
    ctx.rule("same-set", "getPrintChars, printf and printError of a class know the same identifier characters")
    ctx.rule("conversion", "the replacement's first character is the identifier and its conversion fits the type of the value passed; error values are passed as text; float conversions accept a precision")
    ctx.rule("meaning", "the value printed for an identifier is the documented quantity of the class")
    ctx.rule("reads-back", "setFromInfo with the text printed for an identifier leaves an object that prints the same value for it, whatever the object held before")
    ctx.rule("printTime", "printTime offers the format to every concrete time class")
    p = ctx.program([s for s in lib_sources() if "/TimeHandling/" in s or "/RefTime/TimeSystem" in s])
    en = p.enum("gpstk::TimeSystem")
    ctx.need(en, "enum gpstk::TimeSystem")
    ts = [(n, v) for n, v, _ in en["vals"] if n != "Last"]
    classes = [c for c in sorted(p.subclasses("gpstk::TimeTag")) if c + "::printf" in p.byqual]
    ctx.floor("printable time classes", len(classes), 14)
    nchar = 0
    for c in classes:
        K = c.replace("gpstk::", "")
        fpf, fpe, fgc, fsi = (p.one(c + "::" + m) for m in ("printf", "printError", "getPrintChars", "setFromInfo"))
        V = runprint(p, fpf, c)
        E = runprint(p, fpe, c)
        G = Interp(p).run(fgc, cls=c)["ret"]
        ctx.need(V is not None and E is not None and G is not None, "format functions of " + c)
        (pv, b1), (pe, b2) = chain(V), chain(E)
        for nm, b, f in (("printf", b1, fpf), ("printError", b2, fpe)):
            if b is not sym("fmt"):
                ctx.ob("same-set", False, where(f), "%s::%s does not return the substituted format" % (K, nm), key="%s %s base" % (K, nm))
        if G.op != "str":
            ctx.unresolved("same-set", where(fgc), "getPrintChars is not a constant")
            continue

        def table(ch, f, nm):
            out = {}
            for x in ch:
                pat, rep = x.args[1], x.args[2]
                if pat.op != "str" or rep.op != "str" or not rep.args[0]:
                    ctx.unresolved("same-set", where(f), "pattern not constant: " + show(pat))
                    continue
                k = pat.args[0][-1]
                ctx.ob("conversion", rep.args[0][0] == k, where(f), "%s::%s pattern for '%s' is replaced by \"%s\"" % (K, nm, k, rep.args[0]), key="%s %s %s id" % (K, nm, k))
                out.setdefault(k, (pat.args[0], rep.args[0][1:], x.args[3], x.args[4]))
            return out
        tv, te = table(pv, fpf, "printf"), table(pe, fpe, "printError")
        decl = set(G.args[0])
        for k in sorted(decl | set(tv) | set(te)):
            nchar += 1
            have = [n for n, s in (("getPrintChars", decl), ("printf", tv), ("printError", te)) if k in s]
            ctx.ob("same-set", len(have) == 3, where(fpf), "%s '%s' known to %s" % (K, k, ", ".join(have)), key="%s %s set" % (K, k))
            if k in te:
                pat, conv, val_, ty = te[k]
                ctx.ob("conversion", conv == "s" and fits("s", ty), where(fpe), "%s::printError '%s' formats %s with %%%s" % (K, k, ty, conv), key="%s printError %s conv" % (K, k))
                ctx.ob("conversion", val_.op == "str" and "%" not in val_.args[0], where(fpe), "%s::printError '%s' substitutes %s" % (K, k, show(val_)), key="%s printError %s text" % (K, k))
                if k in tv:
                    ctx.ob("conversion", tv[k][0] == pat, where(fpe), "%s '%s' is matched by the same pattern in printf and printError" % (K, k), key="%s printError %s pattern" % (K, k))
            if k in tv:
                pat, conv, val_, ty = tv[k]
                ctx.ob("conversion", fits(conv, ty), where(fpf), "%s::printf '%s' formats %s with %%%s" % (K, k, ty, conv), key="%s printf %s conv" % (K, k))
                if conv[-1] in "feg":
                    ctx.ob("conversion", "\\." in pat, where(fpf), "%s::printf '%s' pattern accepts a precision" % (K, k), key="%s printf %s precision" % (K, k))
        # ---- meaning and read-back
        spec = dict(MEANING.get(K, {}))
        spec["P"] = (("timeSystem",), "system")
        for k in tv:
            if k not in spec:
                ctx.unresolved("meaning", where(fpf), "%s '%s' is not in the documented list" % (K, k))
                continue
            meaning(ctx, p, K, c, k, tv[k], spec[k], fpf, fsi, ts)
        for k in spec:
            ctx.ob("meaning", k in tv, where(fpf), "%s::printf knows documented identifier '%s'" % (K, k), key="%s %s documented" % (K, k))
    ctx.floor("identifier characters", nchar, 71)
    # ---- printTime
    for f in p.find("gpstk::printTime", 2):
        used = set()
        for n in walk(f["body"]):
            fid = n.get("f") if n["k"] == "mcall" else None
            if fid and "::printf(" in fid:
                o = n.get("o") or {}
                t = (o.get("t") or "").replace("const ", "")
                used.add(t or fid.split("::printf")[0])
        for c in classes:
            if c in ("gpstk::GPSWeek",):
                continue
            ctx.ob("printTime", c in used, where(f), "printTime applies " + c, key="printTime " + c)


def meaning(ctx, p, K, c, k, ent, spec, fpf, fsi, ts):
    pat, conv, V, ty = ent
    path, kind = spec
    W = where(fpf)

    def once(st, text=None):
        """(returned, printed-again value) after setFromInfo"""
        t = text if text is not None else sym("text")
        info = T("arr", upd(upd(T("agg", "pair"), "first", num(ord(k))), "second", t))
        r = Interp(p, models=MODELS).run(fsi, cls=c, args=[info], state=st)
        if r["state"] is None:
            return None, None
        x = runprint(p, fpf, c, r["state"].copy())
        ch, b = chain(x)
        v2 = [y.args[3] for y in ch if y.args[1].op == "str" and y.args[1].args[0][-1:] == k]
        return r["ret"], (v2[0] if v2 else None)

    def at(fieldval):
        st = State()
        st.write(THIS, path, num(fieldval))
        ch, b = chain(runprint(p, fpf, c, st))
        return [y.args[3] for y in ch if y.args[1].op == "str" and y.args[1].args[0][-1:] == k][0]
    mk, rk = "%s %s meaning" % (K, k), "%s %s reads-back" % (K, k)
    if kind in ("system", "names"):
        dom = ts if kind == "system" else [(n, i + 1) for i, n in enumerate(MON)]
        seen = set()
        for n, v in dom:
            s = at(v)
            if s.op != "str":
                ctx.unresolved("meaning", W, "%s '%s' for %s is %s" % (K, k, n, show(s)[:100]))
                continue
            if kind == "names":
                ok = s.args[0] == (n if k == "B" else n[:3])
            else:
                ok = s.args[0] == ("UNK" if n == "Unknown" else n)
            ctx.ob("meaning", ok, W, "%s '%s' prints %s as \"%s\"" % (K, k, n, s.args[0]), key=mk + " " + n)
            r, v2 = once(State(), s)
            ctx.ob("reads-back", r is not None and r is TRUE and v2 is s, where(fsi), "%s reads \"%s\" for '%s' back as %s" % (K, s.args[0], k, show(v2) if v2 is not None else "a rejection"), key=rk + " " + n)
        return
    # numeric
    want = None
    if kind is None:
        want = F(*path)
        ok = V is want
    elif kind == "trunc":
        want = T("trunc", F(*path))
        ok = V is want or V.op == "call" and V.args[0] == "floor"
    elif kind == "mod100":
        want = imod(F(*path), num(100))
        ok = all(evaln(V, {F(*path): y}) == y % 100 for y in range(1900, 2100)) if True else False
    elif kind in ("day", "zday"):
        d = 86400 if kind == "day" else 57600
        try:
            ok = all(evaln(V, {F(*path): s}) == s // d for dd in range(7) for s in (dd * d, dd * d + 1, dd * d + d // 2, dd * d + d - 1))
        except Unknown:
            ctx.unresolved("meaning", W, "%s '%s' prints %s" % (K, k, show(V)[:120]))
            ok = True
    elif kind in ("z29", "z32"):
        wt = add(F("zcount"), mul(num(1 << 19), T("band", F("week"), num(1023)) if kind == "z29" else F("week")))
        ok = same(V, wt, fwidth)
    else:
        lo, n = kind
        x = bits(V, fwidth)
        w = bits(F(*path), fwidth)
        w = w[lo:lo + n] + [0] * (64 - n) if n else w[lo:] + [w[-1]] * lo
        ok = x == w
    ctx.ob("meaning", ok, W, "%s '%s' prints %s" % (K, k, show(V)[:120]), key=mk)
    r, V2 = once(State())
    if r is None or V2 is None:
        ctx.ob("reads-back", False, where(fsi), "%s '%s' is not accepted back" % (K, k), key=rk)
        return
    v = sym("printed")
    small = {"mod100": range(100), "day": range(7), "zday": range(7), "trunc": range(60)}.get(kind if isinstance(kind, str) else None)
    if small is not None:
        bad = None
        for x in small:
            def go(t):
                if istext(t):
                    return num(x)
                if t.op == "len" and t.args[0] is sym("text"):
                    return num(len(str(x)))
                return None
            try:
                y = evaln(subst(V2, go), {})
                rr = evaln(subst(r, go), {})
            except Unknown as ex:
                ctx.unresolved("reads-back", where(fsi), "%s '%s': %s" % (K, k, str(ex)[:100]))
                return
            if y != x or not rr:
                bad = (x, y, rr)
                break
        ctx.ob("reads-back", bad is None, where(fsi), "%s '%s' %s" % (K, k, "reads back every value" if bad is None else "reads %s back as %s" % (bad[0], bad[1])), key=rk)
        return
    V2s = subst(V2, lambda t: v if istext(t) else None)
    n = nbits(bits(V, fwidth))
    okr = V2s is v or same(V2s, v, lambda t: ((n, False) if t is v and n is not None else fwidth(t)))
    ctx.ob("reads-back", okr and r is not None and r is TRUE, where(fsi), "%s '%s' reads back as %s" % (K, k, show(V2s)[:160]), key=rk)
