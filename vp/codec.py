"""Runs a record writer and then the matching reader on the very text it wrote,
both abstractly, so that each stored member ends as the value that went in, as a
foreign value, or as an unreadable text."""
import re
from . import text
from .interp import Interp, State, strip as stript, isref, splitargs, argstart
from .terms import *

SU = "gpstk::StringUtils::"


def sv(I, a, st):
    v = I.ev(a, st)
    if v.op == "ptr":
        v = I.rd(v.args, st)
    return v


def inplace(e, i=0):
    """first parameter is a non-const reference"""
    fid = e["f"]
    ps = splitargs(fid[argstart(fid) + 1:fid.rindex(")")])
    return i < len(ps) and ps[i].rstrip().endswith("&") and not ps[i].startswith("const ")


def textfn(fn):
    """model of a string -> string helper, in-place or by value"""
    def m(I, e, st):
        a = e["a"]
        if inplace(e):
            l = I.lv(a[0], st)
            if l is None:
                v = I.ev(a[0], st)
                l = v.args if v.op == "ptr" else I.temp(v, st)
            s = I.rd(l, st)
        else:
            l = None
            s = sv(I, a[0], st)
        r = fn(s, *[sv(I, x, st) for x in a[1:]])
        if r is None:
            return None
        if l is not None:
            st.write(l[0], l[1], r)
            return T("ptr", *l)
        return r
    return m


def cst(v, d=None):
    if v is None:
        return d
    if v.op == "num":
        return int(val(v))
    if v.op == "str":
        return v.args[0]
    if v.op == "chr" and isnum(v.args[0]):
        return chr(int(val(v.args[0])))
    return None


def padchar(p):
    c = cst(p, " ")
    return chr(c) if isinstance(c, int) else c


def just(j):
    def f(s, n, p=None):
        w, c = cst(n), padchar(p)
        if w is None or c is None:
            return T("call", "justify." + j, s, n, p or sstr(" "))
        ws = text.width(s)
        if ws is not None:
            if ws > w:
                return text.sub_(s, ws - w if j == "r" else 0, w)
            return text.pad(s, w, j, c)
        if j == "r" and w < 4 and s.op == "txt" and s.args[0] == "int" and s.args[1].op == "tc" and s.args[1].args[0] == "Y":
            # a year has four digits, of which the last ones are kept
            return T("col", w, j, "0", T("txt", "int", imod(s.args[1], num(10 ** w))))
        return T("col", w, j, c, s)
    return textfn(f)


def stripm(lead, trail):
    def f(s, ch=None, n=None):
        c = cst(ch, " ")
        if isinstance(c, int):
            # a count (all there are) rather than a character
            c = chr(c) if c < 256 else " "
        if c is None or len(c) != 1:
            return T("call", "strip", s, *([ch] if ch is not None else []))
        if s.op == "ite":
            return ite(s.args[0], f(s.args[1], ch), f(s.args[2], ch))
        if s.op in ("str", "cat", "col", "txt", "chr", "part") or text.structured(s):
            return text.strip(s, lead, trail, c)
        return T("call", "strip%d%d" % (lead, trail), s)
    return textfn(f)


def parse(kind):
    def m(I, e, st):
        s = sv(I, e["a"][0], st)
        d = text.decode(kind, s)
        return d if d is not None else T("parse", kind, s)
    return m


def totext(I, e, st):
    a = e["a"][0]
    v = sv(I, a, st)
    t = stript(a.get("t", "")).replace("const ", "")
    if t in ("double", "float", "long double"):
        p = sv(I, e["a"][1], st) if len(e["a"]) > 1 else None
        return T("txt", "dbl", v, "fixed.%s" % cst(p) if p is not None else "")
    if t in ("int", "short", "long", "unsigned int", "unsigned short", "unsigned long", "long long", "unsigned long long", "unsigned"):
        return num2txt(v)
    if t in ("char", "signed char", "unsigned char"):
        return sstr(chr(int(val(v)))) if isnum(v) and 0 <= val(v) < 256 else T("chr", v)
    if "basic_string" in t:
        return v
    return None


def num2txt(v):
    if isnum(v):
        return sstr(str(int(val(v))))
    return T("txt", "int", v)


def floatformat(I, e, st):
    a = [sv(I, x, st) for x in e["a"]]
    w = cst(a[4]) if len(a) > 4 else 0
    al = cst(a[7]) if len(a) > 7 else 0
    x = T("txt", "dbl", a[0], "sci")
    if w is None:
        return T("call", "floatFormat", *a)
    return T("col", w, "r", " ", x) if w else x


def doub2for(I, e, st):
    a = [sv(I, x, st) for x in e["a"]]
    w = cst(a[1])
    return T("col", w, "r", " ", T("txt", "dbl", a[0], "sci")) if w else None


def fdassign(I, e, st):
    """FormattedDouble = text"""
    fid = e["f"]
    if "basic_string" not in fid[argstart(fid):]:
        return None
    l = I.olv(e, st)
    s = sv(I, e["a"][0], st)
    d = text.decode("dbl", s)
    st.write(l[0], l[1] + ("val",), d if d is not None else T("parse", "dbl", s))
    return T("ptr", *l)


def fdout(I, e, st):
    """ostream << FormattedDouble"""
    return None


# ---- times
TAGS = {
    "gpstk::CivilTime": {"year": "Y", "month": "m", "day": "d", "hour": "H", "minute": "M", "second": "f"},
    "gpstk::GPSWeekSecond": {"week": "F", "sow": "g"}, "gpstk::GALWeekSecond": {"week": "L", "sow": "g"},
    "gpstk::BDSWeekSecond": {"week": "D", "sow": "g"}, "gpstk::QZSWeekSecond": {"week": "h", "sow": "g"}, "gpstk::IRNWeekSecond": {"week": "O", "sow": "g"},
    "gpstk::YDSTime": {"year": "Y", "doy": "j", "sod": "s"}, "gpstk::MJD": {"mjd": "Q"}, "gpstk::JulianDate": {"jd": "J"},
}
CH = {"S": ("int", "second", True), "y": ("int", "year", False)}


def tc(ch, ct):
    if ct.op == "mktime":
        # a time made from calendar parts has those parts
        cls, parts = ct.args[0], dict(ct.args[1])
        if ch in parts:
            return parts[ch]
    return T("tc", ch, ct)


def ctval(I, st, v):
    if v.op == "ptr":
        v = I.rd(v.args, st)
    return v


def tag_from(I, e, st):
    """tag.convertFromCommonTime(ct)"""
    fid = e["f"]
    cls = I.rootcls.get(None)
    l = I.olv(e, st)
    q = fid.split("(")[0].rsplit("::", 1)[0]
    return settag(I, st, l, q, sv(I, e["a"][0], st))


def settag(I, st, l, cls, ct):
    fm = TAGS.get(cls)
    if not fm:
        return None
    for f, ch in fm.items():
        st.write(l[0], l[1] + (f,), tc(ch, ct))
    st.write(l[0], l[1] + ("timeSystem",), tc("P", ct))
    return T("void")


def tag_to(I, e, st):
    """tag.convertToCommonTime() / operator CommonTime()"""
    fid = e["f"]
    q = fid.split("(")[0].rsplit("::", 1)[0]
    l = I.olv(e, st)
    if q not in TAGS:
        q = tagclass(I, e, l)
    if q not in TAGS:
        v = I.rd(l, st)
        m = re.search(r"obj\d*\((gpstk::\w+)\)", show(v)[:200]) if v.op not in ("sym",) else None
        q = m.group(1) if m else q
    if q not in TAGS:
        q = stript((e.get("o") or {}).get("t", "")).replace("const ", "").rstrip("* ")
    return mktime(st, l, q)


def mktime(st, l, cls):
    fm = TAGS.get(cls)
    if not fm:
        return None
    parts = {ch: st.read(l[0], l[1] + (f,)) for f, ch in fm.items()}
    ts = st.read(l[0], l[1] + ("timeSystem",))
    src = {v.args[1] for v in parts.values() if v.op == "tc"}
    if len(src) == 1 and all(v.op == "tc" and v.args[0] == ch for ch, v in parts.items()):
        ct = src.pop()
        if ts is tc("P", ct):
            return ct
        return T("relabel", ct, ts)
    return T("mktime", cls, tuple(sorted(parts.items())) + (("P", ts),))


def fmtcols(fmt, get):
    """printf-style time format -> columns; get(ch) -> ("int"|"dbl"|"str", value)"""
    out = []
    i = 0
    for m in re.finditer(r"%([ 0-]?)(\d*)(\.\d+)?([A-Za-z])", fmt):
        if m.start() > i:
            out.append(sstr(fmt[i:m.start()]))
        i = m.end()
        fl, w, pr, ch = m.groups()
        k, v = get(ch)
        x = T("txt", k, v, "fixed" + pr) if k == "dbl" and pr else (T("txt", k, v) if not (isnum(v) and k == "int") else num2txt(v))
        if fl == "0" or w.startswith("0"):
            p, w = "0", w.lstrip("0") if fl != "0" else w
        else:
            p = " "
        w = int(w) if w else 0
        out.append(text.pad(x, w, "l" if fl == "-" else "r", p) if w else x)
    if i < len(fmt):
        out.append(sstr(fmt[i:]))
    return cat(*out)


KIND = {"f": "dbl", "g": "dbl", "s": "dbl", "J": "dbl", "Q": "dbl", "P": "str", "b": "str", "B": "str"}


def printtime(I, e, st):
    ct = sv(I, e["a"][0], st)
    fmt = sv(I, e["a"][1], st)
    if fmt.op != "str":
        return None
    # a TimeTag argument converts to CommonTime first
    return fmtcols(fmt.args[0], lambda ch: (KIND.get(ch, "int"), tcy(ch, ct)))


def tcy(ch, ct):
    if ch == "y":
        return imod(tc("Y", ct), num(100))
    if ch == "S":
        return T("trunc", tc("f", ct))
    return tc(ch, ct)


def tagprintf(I, e, st):
    fid = e["f"]
    if "printf(" not in fid or "gpstk::" not in fid:
        return None
    fmt = sv(I, e["a"][0], st)
    cls = stript((e.get("o") or {}).get("t", "")).replace("const ", "").rstrip("* ")
    if fmt.op != "str" or cls not in TAGS:
        return None
    l = I.olv(e, st)
    inv = {ch: f for f, ch in TAGS[cls].items()}
    rd = lambda f: st.read(l[0], l[1] + (f,))

    def get(ch):
        if ch in inv:
            return KIND.get(ch, "int"), rd(inv[ch])
        if ch == "y":
            return "int", imod(rd("year"), num(100))
        if ch == "S":
            return "int", T("trunc", rd("second"))
        if ch == "P":
            return "str", rd("timeSystem")
        return "int", T("call", "timefield", sstr(ch), st.read(*l))
    return fmtcols(fmt.args[0], get)


def relabel(ct, ts):
    if ct.op == "ite":
        return ite(ct.args[0], relabel(ct.args[1], ts), relabel(ct.args[2], ts))
    if ct.op == "mktime":
        return T("mktime", ct.args[0], tuple(kv for kv in ct.args[1] if kv[0] != "P") + (("P", ts),))
    if ct.op == "relabel":
        ct = ct.args[0]
    return T("relabel", ct, ts)


def settimesystem(I, e, st):
    l = I.olv(e, st)
    v = st.read(*l)
    st.write(l[0], l[1], relabel(v, sv(I, e["a"][0], st)))
    return T("ptr", *l)


def nextline(src):
    """model of formattedGetLine over the given lines"""
    def m(I, e, st):
        n = I.callseq("formattedGetLine", st)
        l = I.lv(e["a"][0], st)
        if l is None:
            v = I.ev(e["a"][0], st)
            l = v.args
        if n < len(src):
            st.write(l[0], l[1], src[n])
            return T("void")
        I.throw(st, "gpstk::EndOfFile", e.get("l", 0))
        from .interp import Dead
        raise Dead()
    return m


def atend(src):
    """model of eof() on the stream of the given lines: lines are left, so the end was not met"""
    def m(I, e, st):
        if I.callseq("formattedGetLine", st.copy()) < len(src):
            return FALSE
        return None
    return m


def splitm(I, e, st):
    """words of a text between delimiters, when they can be told apart"""
    s = sv(I, e["a"][0], st)
    d = sv(I, e["a"][1], st) if len(e["a"]) > 1 else sstr(" ")
    c = chr(int(val(d))) if isnum(d) else (d.args[0] if d.op == "str" else None)
    if len(e["a"]) > 2 or c is None or not (s.op == "str" or text.structured(s)):
        return None
    if s.op == "str":
        w = [x for x in s.args[0].split(c) if x] if len(c) == 1 else None
        return None if w is None else (T("arr", *[sstr(x) for x in w]) if w else T("empty", "std::vector"))
    if c != " ":
        return None
    w = []
    for _ in range(64):
        s = text.strip(s)
        if s is None:
            return None
        if s is sstr(""):
            break
        t = text.token(s)
        if t is None:
            return None
        w.append(t[0])
        s = t[1]
    return T("arr", *w) if w else T("empty", "std::vector")


BOT = "gpstk::CommonTime::BEGINNING_OF_TIME"


def timesame(neg):
    """comparison of a record's time with the 'no time' constant"""
    def m(I, e, st):
        a = ([e["o"]] if e.get("o") else []) + e["a"]
        if len(a) != 2:
            return None
        v = [sv(I, x, st) for x in a]
        none = [any(y.op == "sym" and y.args[-1] == BOT for y in subterms(x)) for x in v]
        own = [any(y.op == "sym" and y.args[0] == "o" for y in subterms(x)) for x in v]
        if none[0] != none[1] and own[0] != own[1] and none[0] == own[1]:
            return TRUE if neg else FALSE
        if all(none) and not any(own):
            return FALSE if neg else TRUE
        return None
    return m


def models(lns=None):
    M = {
        SU + "rightJustify": just("r"), SU + "leftJustify": just("l"),
        SU + "strip": stripm(True, True), SU + "stripLeading": stripm(True, False), SU + "stripTrailing": stripm(False, True),
        SU + "asInt": parse("int"), SU + "asUnsigned": parse("int"), SU + "asDouble": parse("dbl"), SU + "asLongDouble": parse("dbl"), SU + "asFloat": parse("dbl"),
        SU + "split": splitm, SU + "for2doub": parse("dbl"), SU + "asString": totext, SU + "floatFormat": floatformat, SU + "doub2for": doub2for,
        SU + "doubleToScientific": doub2for, SU + "doub2sci": doub2for,
        "gpstk::FormattedDouble::operator=": fdassign,
        "gpstk::CommonTime::operator==": timesame(False), "gpstk::CivilTime::operator==": timesame(False),
        "gpstk::CommonTime::operator!=": timesame(True), "gpstk::CivilTime::operator!=": timesame(True),
        "gpstk::printTime": printtime, ".printf": tagprintf,
        "gpstk::TimeTag::convertToCommonTime": tag_to, "gpstk::CommonTime::setTimeSystem": settimesystem,
    }
    for c in TAGS:
        M[c + "::convertFromCommonTime"] = tag_from
        M[c + "::convertToCommonTime"] = tag_to
    M["gpstk::Week::convertFromCommonTime"] = None
    M["gpstk::WeekSecond::convertFromCommonTime"] = weeksecond_from
    M["gpstk::WeekSecond::convertToCommonTime"] = weeksecond_to
    if lns is not None:
        M["gpstk::FFTextStream::formattedGetLine"] = nextline(lns)
        M[".eof"] = atend(lns)
    return {k: v for k, v in M.items() if v}


def dyncls(I, l):
    return I.rootcls.get(l[0]) if not l[1] else None


def tagclass(I, e, l):
    c = I.dynclass(l, e) or dyncls(I, l)
    if c in TAGS:
        return c
    return None


def weeksecond_from(I, e, st):
    l = I.olv(e, st)
    c = tagclass(I, e, l)
    return settag(I, st, l, c, sv(I, e["a"][0], st)) if c else None


def weeksecond_to(I, e, st):
    l = I.olv(e, st)
    c = tagclass(I, e, l) or stript((e.get("o") or {}).get("t", "")).replace("const ", "").rstrip("* ")
    return mktime(st, l, c)


# ---------------------------------------------------------------- round trip
def nostd(t):
    return stript(t).replace("const ", "")


def allfields(p, cls):
    rec = p.rec(cls)
    out = []
    if not rec:
        return out
    for b in rec.get("bases", []):
        out += allfields(p, b if isinstance(b, str) else b["n"])
    for f in rec["fields"]:
        if not f.get("static"):
            out.append((f["n"], f["t"]))
    return out


def isfd(p, t):
    return t == "gpstk::FormattedDouble" or bool(p.rec(t) and p.derives(t, "gpstk::FormattedDouble"))


def O(*path):
    return T("sym", "o", ".".join(str(x) for x in path))


REAL = set()        # symbols of members that hold fractions


def whole(t):
    """an integer by construction"""
    if t.op == "num":
        return val(t).denominator == 1
    if t.op == "sym":
        return t not in REAL
    if t.op == "tc":
        return t.args[0] not in "fgsJQ"
    if t.op == "trunc":
        return True
    if t.op == "sum":
        return Fraction(t.args[0]).denominator == 1 and all(Fraction(k).denominator == 1 and whole(x) for x, k in t.args[1])
    return False


def flatmembers(p, cls):
    """[(path, type)] of the object's scalar-like members"""
    out = []
    for n, t in allfields(p, cls):
        t0 = nostd(t)
        if isfd(p, t0):
            out.append(((n, "val"), "fd"))
            continue
        m = re.match(r"(.*)\[(\d+)\]$", t0)
        if m:
            for i in range(int(m.group(2))):
                out.append(((n, num(i)), m.group(1).strip()))
            continue
        if t0 in ("gpstk::SatID", "gpstk::RinexSatID", "gpstk::SP3SatID"):
            out += [((n, "id"), "int"), ((n, "system"), "gpstk::SatelliteSystem")]
            continue
        out.append(((n,), t0))
    for path, t in out:
        REAL.discard(O(*path))
        if t in ("fd", "double", "float", "long double"):
            REAL.add(O(*path))
    return out


def symobject(p, cls, st, root=("this",), fixed=None):
    for path, t in flatmembers(p, cls):
        if any(w in t for w in ("map<", "vector<", "list<", "set<")):
            continue
        if "basic_string" in t or t == "std::string":
            st.write(root, path, T("txt", "str", O(*path)))
        elif t == "char":
            st.write(root, path, O(*path))
        else:
            st.write(root, path, O(*path))
    for path, v in (fixed or {}).items():
        st.write(root, path, v)


class Unreadable(Exception):
    pass


def mk(p, lns=None, extra=None):
    I = Interp(p, models=dict(models(lns), **(extra or {})))
    I.textout = I.quietcalls = True
    return I


def defaultobj(p, cls, extra=None):
    base = cls.rsplit("::", 1)[1]
    cs = [f for f in p.find(cls + "::" + base, need=False) if f.get("ctor") and not [q for q in f["params"] if not q.get("d")]]
    cs = [f for f in cs if not f["params"]] or cs
    st = State()
    if not cs:
        return st
    I = mk(p, None, extra)
    r = I.run(cs[0], cls=cls, state=st)
    return r["state"] or State()


def write(p, cls, obj=None, strm=None, glob=None, extra=None, fn="reallyPutRecord", ffs="ffs"):
    """(lines, notes) the writer produces for a symbolic object"""
    st = defaultobj(p, cls, extra)
    symobject(p, cls, st, fixed=obj)
    for k, v in (strm or {}).items():
        st.write(("P", ffs), k, v)
    st.write(("P", ffs), ("$out",), sstr(""))
    for k, v in (glob or {}).items():
        st.write(("G", k), (), v)
    f = p.one(cls + "::" + fn)
    I = mk(p, None, extra)
    r = I.run(f, cls=cls, state=st)
    if r["state"] is None:
        return None, I, r, f
    o = r["state"].read(("P", ffs), ("$out",))
    return text.lines(o), I, r, f


def read(p, cls, lns, obj=None, strm=None, glob=None, extra=None, fn="reallyGetRecord", ffs="ffs"):
    st = defaultobj(p, cls, extra)
    for k, v in (obj or {}).items():
        st.write(("this",), k, v)
    for k, v in (strm or {}).items():
        st.write(("P", ffs), k, v)
    for k, v in (glob or {}).items():
        st.write(("G", k), (), v)
    f = p.one(cls + "::" + fn)
    J = mk(p, lns, extra)
    r = J.run(f, cls=cls, state=st)
    return J, r, f


DEF = {"num", "sym", "ite", "sum", "mul", "div", "idiv", "mod", "trunc", "lt", "eq", "not", "and", "or", "str", "cat", "col", "txt", "chr", "part",
       "parse", "substr", "len", "tc", "mktime", "cast", "fld", "ord", "relabel"}


def definite(t):
    """nothing in it that the analysis could not see into"""
    for x in subterms(t):
        if x.op not in DEF:
            return False
        if x.op == "sym" and x.args[0] != "o":
            return False
        if x.op == "parse" and not text.structured(x.args[1]) and x.args[1].op not in ("str", "substr"):
            return False
    return True


def mentions(t, s):
    return any(x is s for x in subterms(t))


def simp_time(t):
    def sec(x):
        while x.op == "trunc":
            x = x.args[0]
        return x.op == "tc" and x.args[0] == "f"

    def f(x):
        if x.op == "lt" and sec(x.args[0]) and isnum(x.args[1]) and val(x.args[1]) >= 60:
            return TRUE
        if x.op == "lt" and sec(x.args[1]) and isnum(x.args[0]) and val(x.args[0]) >= 60:
            return FALSE
        if x.op == "trunc" and x.args[0].op == "trunc":
            return subst(x.args[0], f)
        return None
    return subst(t, f)


YEARS = list(range(1980, 2080))


def sametime(v, o, ts=None):
    """v is the time o, to the resolution written; None or what differs"""
    v = simp_time(v)
    if v is o:
        return None
    if v.op == "relabel" and v.args[0] is o:
        return None if ts is None or v.args[1] is ts else "time system %s" % show(v.args[1])
    if v.op != "mktime":
        return "unresolved" if not definite(v) else "the time becomes " + show(v)[:160]
    cls, parts = v.args
    for ch, x in parts:
        if ch == "P":
            if ts is not None and x is not ts:
                return "time system becomes " + show(x)[:80]
            continue
        w = T("tc", ch, o)
        d = samenum(x, w, YEARS if ch == "Y" else range(0, 60))
        if d:
            return d if d == "unresolved" else "%s of the time becomes %s" % ({"Y": "year", "m": "month", "d": "day", "H": "hour", "M": "minute", "f": "second"}.get(ch, ch), show(x)[:160])
    return None


def dropcast(t):
    def f(x):
        if x.op == "trunc" and whole(x.args[0]):
            return dropcast(x.args[0])
        if x.op == "cast":
            return dropcast(x.args[1])
        if x.op == "call" and x.args[0] in ("abs", "std::abs"):
            return dropcast(x.args[1])
        return None
    return subst(t, f)


def samenum(v, o, dom=None, isint=True):
    """None when v equals o over the domain, else a description"""
    if v is o:
        return None
    if isint:
        v = dropcast(v)
        if v is o:
            return None
    lv = [x for x in subterms(v) if x.op in ("sym", "tc") and not any(x is not y and y.op == "tc" and mentions(y, x) for y in subterms(v))]
    if dom is not None and set(lv) <= {o}:
        try:
            for d in dom:
                d = Fraction(d)
                if evaln(v, {o: d}) != d:
                    return "is read back as " + show(v)[:200] + " (for %s)" % d
            return None
        except (Unknown, ZeroDivisionError, TypeError):
            pass
    if not definite(v):
        return "unresolved"
    return "is read back as " + show(v)[:200]


def same_under(v, w, leaf, dom):
    """v equals w for every value of the one leaf in dom"""
    if v is w:
        return None
    v = dropcast(v)
    try:
        for d in dom:
            a, b = evaln(v, {leaf: Fraction(d)}), evaln(w, {leaf: Fraction(d)})
            if a != b:
                return "%s is read back as %s" % (b, a)
        return None
    except (Unknown, ZeroDivisionError, TypeError):
        return "unresolved" if not definite(v) else "is read back as " + show(v)[:200]


def write_twice(p, cls, obj=None, strm=None, glob=None, extra=None, fn="reallyPutRecord", ffs="ffs"):
    """lines of the record written to a fresh stream and written again after it"""
    st = defaultobj(p, cls, extra)
    symobject(p, cls, st, fixed=obj)
    for k, v in (strm or {}).items():
        st.write(("P", ffs), k, v)
    st.write(("P", ffs), ("$out",), sstr(""))
    for k, v in (glob or {}).items():
        st.write(("G", k), (), v)
    f = p.one(cls + "::" + fn)
    first = None
    for _ in range(2):
        r = mk(p, None, extra).run(f, cls=cls, state=st)
        st = r["state"]
        if st is None:
            return None, None, f
        L = text.lines(st.read(("P", ffs), ("$out",)))
        if first is None:
            first = L
    return first, L[len(first):], f
