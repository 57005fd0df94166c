"""C06 names of identifiers and their text: what is printed is parsed back."""
import re
from ..codec import *
from ..check import where

# enumeration, printing function, parsing function, unit, value unknown text gives
ENUMS = [("gpstk::TimeSystem", "gpstk::StringUtils::asString", "gpstk::StringUtils::asTimeSystem", "core/lib/RefTime/TimeSystem.cpp"),
         ("gpstk::ReferenceFrame", "gpstk::StringUtils::asString", "gpstk::StringUtils::asReferenceFrame", "core/lib/RefTime/ReferenceFrame.cpp"),
         ("gpstk::SatelliteSystem", "gpstk::StringUtils::asString", "gpstk::StringUtils::asSatelliteSystem", "core/lib/GNSSCore/SatelliteSystem.cpp"),
         ("gpstk::CarrierBand", "gpstk::StringUtils::asString", "gpstk::StringUtils::asCarrierBand", "core/lib/GNSSCore/CarrierBand.cpp"),
         ("gpstk::TrackingCode", "gpstk::StringUtils::asString", "gpstk::StringUtils::asTrackingCode", "core/lib/GNSSCore/TrackingCode.cpp"),
         ("gpstk::ObservationType", "gpstk::StringUtils::asString", "gpstk::StringUtils::asObservationType", "core/lib/GNSSCore/ObservationType.cpp"),
         ("gpstk::NavType", "gpstk::StringUtils::asString", "gpstk::StringUtils::asNavType", "core/lib/GNSSEph/NavType.cpp"),
         ("gpstk::IERSConvention", "gpstk::StringUtils::asString", "gpstk::StringUtils::asIERSConvention", "ext/lib/Geomatics/IERSConvention.cpp"),
         ("gpstk::SatMetaData::Status", "gpstk::SatMetaData::asString", "gpstk::SatMetaData::asStatus", "core/lib/GNSSCore/SatMetaData.cpp"),
         ("gpstk::SatMetaData::ClockType", "gpstk::SatMetaData::asString", "gpstk::SatMetaData::asClockType", "core/lib/GNSSCore/SatMetaData.cpp")]
OTHER = ["", "?", "no such name", "gps"]

PLAIN = range(1, 100)
SATS = [("gpstk::RinexSatID", "core/lib/GNSSCore/RinexSatID.cpp",
         {"GPS": ("G", PLAIN, 0), "Galileo": ("E", PLAIN, 0), "Glonass": ("R", PLAIN, 0), "Geosync": ("S", range(101, 200), 100),
          "Transit": ("T", PLAIN, 0), "QZSS": ("J", list(range(183, 188)) + list(range(193, 203)), None), "BeiDou": ("C", PLAIN, 0), "IRNSS": ("I", PLAIN, 0)},
         "GERSTJCIM"),
        ("gpstk::SP3SatID", "core/lib/GNSSEph/SP3SatID.cpp",
         {"GPS": ("G", PLAIN, 0), "Galileo": ("E", PLAIN, 0), "Glonass": ("R", PLAIN, 0), "LEO": ("L", PLAIN, 0), "BeiDou": ("C", PLAIN, 0),
          "QZSS": ("J", range(193, 203), 192)}, "GERLCJM")]
MEANS = {"G": "GPS", "E": "Galileo", "R": "Glonass", "S": "Geosync", "T": "Transit", "J": "QZSS", "C": "BeiDou", "I": "IRNSS", "L": "LEO", "M": "Mixed"}
SYSNAME = {"GPS": "GPS", "Galileo": "GAL", "Glonass": "GLO", "Geosync": "GEO", "QZSS": "QZS", "BeiDou": "BDS", "IRNSS": "IRN", "Transit": "TRN"}


def check(ctx):
    ctx.rule("enum", "the text printed for an enumerator is distinct from every other's and parses back to it; text that names none parses to the unknown value")
    ctx.rule("print", "a satellite identifier prints as its system's letter and a two-digit zero-filled number")
    ctx.rule("parse", "a printed satellite identifier parses back to the same satellite; a letter means the same system in either case, a bare number means GPS, any other character is refused")
    ctx.rule("valid", "converting a generic satellite identifier keeps every system the format has a letter for and makes the rest unknown")
    n = 0
    p = ctx.program([e[3] for e in ENUMS])
    for e, pr, pa, tu in ENUMS:
        n += table(ctx, p, e, pr, pa)
    ctx.floor("enumerators", n, 190)
    m = 0
    for s in SATS:
        m += satid(ctx, *s)
    ctx.floor("satellite systems", m, 14)


def table(ctx, p, e, pr, pa):
    en = p.enum(e)
    ctx.need(en, "enum " + e)
    short = e.rsplit("::", 1)[1]
    nm = e.split("gpstk::")[1]

    def takes(f):
        return len(f["params"]) == 1 and re.sub(r"\bconst\b|gpstk::|enum|class|[ &]", "", f["params"][0]["t"]) in (nm, short)
    f = p.one(pr, pred=takes)
    g = p.one(pa)
    # placeholders that end the list are not names
    vals = [(n, v) for n, v, _ in en["vals"] if n not in ("Last", "count")]
    I = mk(p)

    def call(fn, arg):
        r = mk(p).run(fn, state=State(), args=[arg])
        return r["ret"]
    seen = {}
    for n, v in vals:
        t = call(f, num(v))
        if not (t is not None and t.op == "str"):
            ctx.unresolved("enum", where(f), "%s::%s prints as %s" % (short, n, show(t)[:80] if t is not None else None))
            continue
        s = t.args[0]
        o = seen.get(s)
        ctx.ob("enum", o is None, where(f), "%s::%s prints as \"%s\"%s" % (short, n, s, ", as does " + o if o else ""), "enum|%s::%s|text" % (short, n))
        seen.setdefault(s, n)
        r = call(g, t)
        if r is None or not isnum(r):
            ctx.unresolved("enum", where(g), "\"%s\" parses to %s" % (s, show(r)[:80] if r is not None else None))
            continue
        back = [a for a, b in vals if b == val(r)]
        if o is None:
            ctx.ob("enum", val(r) == v, where(g), "\"%s\" (%s::%s) parses to %s" % (s, short, n, back[0] if back else val(r)), "enum|%s::%s|back" % (short, n))
    unk = [v for n, v in vals if n == "Unknown"]
    ctx.need(unk, short + "::Unknown")
    for s in OTHER:
        if s in seen:
            continue
        r = call(g, sstr(s))
        if r is None or not isnum(r):
            ctx.unresolved("enum", where(g), "\"%s\" parses to %s" % (s, r))
            continue
        ctx.ob("enum", val(r) == unk[0], where(g), "\"%s\" names no %s and parses to %s" % (s, short, val(r)), "enum|%s|other" % short)
    return len(vals)


def satid(ctx, cls, tu, systems, letters):
    p = ctx.program([tu])
    en = dict((n, v) for n, v, _ in p.enum("gpstk::SatelliteSystem")["vals"])
    name = cls.rsplit("::", 1)[1]
    to, fr = p.one(cls + "::toString"), p.one(cls + "::fromString")
    fill = {("G", cls + "::fillchar"): num(48)}

    def run(f, ident, sysv, args=None):
        I = mk(p)
        st = State()
        st.write(("this",), ("id",), ident)
        st.write(("this",), ("system",), num(sysv))
        for k, v in fill.items():
            st.write(k, (), v)
        return I.run(f, cls=cls, state=st, args=args)
    n = 0
    for s in sorted(en):
        if s not in systems:
            continue
        ch, ids, off = systems[s]
        r = run(to, O("id"), en[s])
        try:
            ln = text.lines(r["ret"])
        except text.Layout as e:
            ctx.unresolved("print", where(to), "%s %s: %s" % (name, s, str(e)[:100]))
            continue
        if len(ln) != 1:
            ctx.ob("print", False, where(to), "%s %s prints %d lines" % (name, s, len(ln)), "print|%s|%s" % (name, s))
            continue
        n += 1
        t = ln[0]
        c0 = text.substr(t, num(0), num(1))
        ctx.ob("print", c0 is sstr(ch), where(to), "%s of a %s satellite starts with %s (%s expected)" % (name, s, show(c0), ch), "print|%s|%s|letter" % (name, s))
        w = text.length(t)
        ctx.ob("print", isnum(w) and val(w) == 3, where(to), "%s of a %s satellite is %s characters wide" % (name, s, show(w)), "print|%s|%s|width" % (name, s))
        rest = text.substr(t, num(1), num(2))
        fl = text.flat(rest) if rest is not None else []
        if len(fl) == 1 and fl[0].op == "col":
            zero = [a for a in fl[0].args if isinstance(a, str)]
            ctx.ob("print", "0" in zero, where(to), "%s of a %s satellite fills its number with %s" % (name, s, zero), "print|%s|%s|fill" % (name, s))
        if off is not None:
            v = text.decode("int", rest)
            d = same_under(v, sub(O("id"), num(off)), O("id"), ids) if v is not None else "unresolved"
            if d == "unresolved":
                ctx.unresolved("print", where(to), "%s %s: %s" % (name, s, show(rest)[:120] if rest is not None else None))
            else:
                ctx.ob("print", d is None, where(to), "%s of a %s satellite prints its number%s%s" % (name, s, " less %d" % off if off else "", "" if d is None else ": " + d), "print|%s|%s|number" % (name, s))
        q = run(fr, num(7), en["Unknown"], [t])
        end = q["state"]
        if end is None:
            ctx.ob("parse", False, where(fr), "%s \"%sNN\" is refused" % (name, ch), "parse|%s|%s" % (name, s))
            continue
        for m, want, dom in (("id", O("id"), ids), ("system", num(en[s]), ids)):
            d = same_under(end.read(("this",), (m,)), want, O("id"), dom)
            if d == "unresolved":
                ctx.unresolved("parse", where(fr), "%s %s %s = %s" % (name, s, m, show(end.read(("this",), (m,)))[:120]))
                continue
            ctx.ob("parse", d is None, where(fr), "%s: a printed %s identifier keeps its %s%s" % (name, s, m, "" if d is None else ": " + d), "parse|%s|%s|%s" % (name, s, m))
    # accepted characters
    for c in [chr(x) for x in range(33, 127)]:
        q = run(fr, num(7), en["Unknown"], [sstr(c + "05")])
        end = q["state"]
        up = c.upper()
        if c.isdigit():
            sysn, idn = "GPS", int(c + "05")
        elif up in letters:
            sysn = MEANS[up]
            off = systems.get(sysn, (0, 0, 0))[2]
            idn = 5 + (192 if off is None else off)
        else:
            sysn = None
        if end is None:
            ctx.ob("parse", sysn is None, where(fr), "%s refuses \"%s05\"" % (name, c), "parse|%s|char %s" % (name, c))
            continue
        if sysn is None:
            ctx.ob("parse", False, where(fr), "%s accepts \"%s05\", whose first character names no system" % (name, c), "parse|%s|char %s" % (name, c))
            continue
        gs, gi = end.read(("this",), ("system",)), end.read(("this",), ("id",))
        if not isnum(gs) or not isnum(gi):
            ctx.unresolved("parse", where(fr), "%s \"%s05\": %s %s" % (name, c, show(gs)[:60], show(gi)[:60]))
            continue
        ctx.ob("parse", val(gs) == en[sysn] and val(gi) == idn, where(fr), "%s reads \"%s05\" as system %s number %s (%s %d)" % (
            name, c, [a for a, b in en.items() if b == val(gs)], val(gi), sysn, idn), "parse|%s|char %s" % (name, c))
    for s, sysn, idn in (("   ", "GPS", -1), (" 5", "GPS", 5), ("G 5", "GPS", 5), ("G00", "GPS", -1), ("G-1", "GPS", -1)):
        q = run(fr, num(7), en["Unknown"], [sstr(s)])
        end = q["state"]
        gs, gi = (end.read(("this",), ("system",)), end.read(("this",), ("id",))) if end is not None else (None, None)
        if end is not None and not (isnum(gs) and isnum(gi)):
            ctx.unresolved("parse", where(fr), "%s \"%s\": %s %s" % (name, s, show(gs)[:60], show(gi)[:60]))
            continue
        ctx.ob("parse", end is not None and val(gs) == en[sysn] and val(gi) == idn, where(fr), "%s reads \"%s\" as %s" % (
            name, s, "refused" if end is None else "system %s number %s" % (val(gs), val(gi))), "parse|%s|text %s" % (name, s))
    # generic identifier converted
    va = p.one(cls + "::validate")
    for s in sorted(en):
        if s == "Mixed":
            continue
        st = State()
        st.write(("this",), ("id",), O("id"))
        st.write(("this",), ("system",), num(en[s]))
        q = mk(p).run(va, cls=cls, state=st)
        end = q["state"]
        if end is None:
            ctx.ob("valid", False, where(va), "%s::validate throws" % name, "valid|%s|%s" % (name, s))
            continue
        gs, gi = end.read(("this",), ("system",)), end.read(("this",), ("id",))
        ok = (gs is num(en[s]) and gi is O("id")) if s in systems else (gs is num(en["Unknown"]) and gi is num(-1))
        if not ok and not (isnum(gs) and (isnum(gi) or gi is O("id"))):
            ctx.unresolved("valid", where(va), "%s %s: %s %s" % (name, s, show(gs)[:60], show(gi)[:60]))
            continue
        ctx.ob("valid", ok, where(va), "%s converted from a %s satellite is %s" % (name, s, "kept" if gs is num(en[s]) else "system %s id %s" % (show(gs), show(gi))), "valid|%s|%s" % (name, s))
    return n
