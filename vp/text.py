"""Structured text values: fixed-width columns, number texts, and the string
operations on them.  A text is a cat of segments:

  str            constant
  txt(kind, v, fmt)        text of a value, no blanks, unknown length
  col(w, just, pad, text)  text justified to exactly w characters
  chr(v)         one character

Values are assumed to fit their columns (a wider value is outside the claim)."""
from .terms import *

NPOS = 2 ** 63
BLANK = " \t\r\n"


def flat(s):
    if s.op == "cat":
        out = []
        for x in s.args:
            out += flat(x)
        return out
    if s.op == "str":
        return [s] if s.args[0] else []
    return [s]


def structured(s):
    return any(x.op in ("col", "txt", "chr", "part") or (x.op == "ite" and width(x) is not None) for x in flat(s))


def width(x):
    if x.op == "str":
        return len(x.args[0])
    if x.op == "col":
        return int(x.args[0])
    if x.op == "chr":
        return 1
    if x.op == "part":
        return x.args[2]
    if x.op == "cat":
        ws = [width(y) for y in x.args]
        return None if None in ws else sum(ws)
    if x.op == "ite":
        a, b = width(x.args[1]), width(x.args[2])
        return a if a is not None and a == b else None
    return None


def length(s):
    r = num(0)
    for x in flat(s):
        w = width(x)
        r = add(r, num(w) if w is not None else T("len", x))
    return r


def maxwidth(x):
    """bound on the length of a text, None when there is none"""
    w = width(x)
    if w is not None:
        return w
    if x.op == "txt" and x.args[1].op == "tc":
        c = x.args[1].args[0]
        if x.args[0] == "int" and c in ("m", "d", "H", "M"):
            return 2
        if x.args[0] == "dbl" and c == "f" and len(x.args) > 2 and x.args[2].startswith("fixed."):
            k = x.args[2][6:]
            return 3 + int(k) if k.isdigit() else None
    return None


def part(x, i, n):
    if x.op == "str":
        return sstr(x.args[0][i:i + n])
    w = width(x)
    if i == 0 and n == w:
        return x
    if n == 0:
        return sstr("")
    if x.op == "ite":
        return ite(x.args[0], sub_(x.args[1], i, n), sub_(x.args[2], i, n))
    if x.op == "part":
        return T("part", x.args[0], x.args[1] + i, n)
    if x.op == "col":
        # cut off blanks a known-width content leaves
        iw = width(x.args[3])
        if iw is not None:
            c = pad(x.args[3], w, x.args[1], x.args[2])
            return sub_(c, i, n)
        mw = maxwidth(x.args[3])
        if mw is not None and mw < w:
            # these columns are padding whatever the content
            if (x.args[1][0] == "r" and i + n <= w - mw) or (x.args[1][0] == "l" and i >= mw):
                return sstr(x.args[2] * n)
    return T("part", x, i, n)


def pad(s, w, just, p):
    """justified to width w when the length is known"""
    n = width(s if s.op != "cat" else s)
    if n is None:
        return T("col", w, just, p, s)
    if n >= w:
        return sub_(s, n - w, w) if just == "r!" else (sub_(s, 0, w) if just in ("l!",) else s)
    b = sstr(p * (w - n))
    return cat(b, s) if just[0] == "r" else cat(s, b)


def locate(sg, off):
    """(segment index, offset inside) of a position, None when unknown"""
    pos = num(0)
    for i, x in enumerate(sg):
        d = sub(off, pos)
        w = width(x)
        if isnum(d):
            k = val(d)
            if k < 0:
                return None
            if k == 0:
                return i, 0
            if w is not None and k < w:
                return i, int(k)
        pos = add(pos, num(w) if w is not None else T("len", x))
    d = sub(off, pos)
    if isnum(d) and val(d) >= 0:
        return len(sg), 0
    return None


def sub_(s, a, n):
    return substr(s, num(a), num(n)) or T("substr", s, num(a), num(n))


def substr(s, a, n):
    sg = flat(s)
    p = locate(sg, a)
    if p is None:
        return None
    if n is None or (isnum(n) and val(n) >= NPOS):
        q = (len(sg), 0)
    else:
        q = locate(sg, add(a, n))
        if q is None:
            # a fixed count running past text of unknown length at the very end
            return None
    i, o = p
    j, r = q
    if (i, o) > (j, r):
        return None
    out = []
    for k in range(i, min(j + 1, len(sg))):
        x = sg[k]
        lo = o if k == i else 0
        if k == j:
            if r == 0:
                break
            out.append(part(x, lo, r - lo))
        elif lo:
            out.append(part(x, lo, width(x) - lo))
        else:
            out.append(x)
    return cat(*out)


def ord_(x):
    if x.op == "str" and len(x.args[0]) == 1:
        return num(ord(x.args[0]))
    if x.op == "chr":
        return x.args[0]
    if x.op == "ite":
        a, b = ord_(x.args[1]), ord_(x.args[2])
        return ite(x.args[0], a, b) if a is not None and b is not None else None
    if x.op == "part":
        return T("ord", x)
    if x.op == "col" and x.args[0] == 1 and x.args[3].op == "txt":
        return T("ord", x)
    return None


def at(s, i):
    x = substr(s, i, num(1))
    return ord_(x) if x is not None else None


def scan(s, start, stop, chars, want):
    """first position >= start whose character is (want) in chars; txt and col
    contents hold no blanks"""
    sg = flat(s)
    p = locate(sg, start)
    if p is None:
        return None
    pos = start
    for k in range(p[0], len(sg)):
        x = sg[k]
        o = p[1] if k == p[0] else 0
        if x.op == "str":
            for ch in x.args[0][o:]:
                if (ch in chars) == want:
                    return pos
                pos = add(pos, num(1))
        elif x.op == "txt" and set(chars) <= set(BLANK):
            if not want:
                return pos
            pos = add(pos, T("len", x))
        elif x.op == "txt" and set(chars) <= set(":*,;|") and x.args[0] in ("int", "dbl"):
            if not want:
                return pos
            pos = add(pos, T("len", x))
        elif x.op == "col" and o == 0 and want and set(chars) <= set(":*,;|"):
            pos = add(pos, num(width(x)))
        else:
            return None
    return num(2 ** 64 - 1)


def strip(s, lead=True, trail=True, chars=" "):
    """blanks removed; columns lose their padding"""
    sg = flat(s)
    if lead:
        while sg:
            x = sg[0]
            if x.op == "str":
                y = x.args[0].lstrip(chars)
                if y:
                    sg[0] = sstr(y)
                    break
                sg.pop(0)
            elif x.op == "col" and x.args[2] in chars and x.args[1][0] == "r":
                sg[0] = x.args[3]
                sg = flat(sg[0]) + sg[1:]
                if sg and sg[0].op == "str" and sg[0].args[0][:1] in chars:
                    continue
                break
            else:
                break
    if trail:
        while sg:
            x = sg[-1]
            if x.op == "str":
                y = x.args[0].rstrip(chars)
                if y:
                    sg[-1] = sstr(y)
                    break
                sg.pop()
            elif x.op == "col" and x.args[2] in chars and x.args[1][0] == "l":
                c = flat(x.args[3])
                sg = sg[:-1] + c
                if c and c[-1].op == "str" and c[-1].args[0][-1:] in chars:
                    continue
                break
            else:
                break
    return cat(*sg)


def conv(kind, x):
    """value read from the text of one value"""
    if x.op == "txt":
        k, v = x.args[0], x.args[1]
        if kind == "str":
            return v if k == "str" else None
        if kind == "int":
            return v if k == "int" else (T("trunc", v) if k == "dbl" else None)
        if kind == "dbl":
            return v if k in ("int", "dbl") else None
    return None


def decode(kind, s):
    """value a conversion yields from a text; None when not a single value's text"""
    if s.op == "ite":
        a, b = decode(kind, s.args[1]), decode(kind, s.args[2])
        return ite(s.args[0], a, b) if a is not None and b is not None else None
    x = s
    for _ in range(6):
        y = strip(x)
        sg = flat(y)
        if len(sg) == 1 and sg[0].op == "col":
            # blank or zero padding around a number
            if sg[0].args[2] in (" ",) or (sg[0].args[2] == "0" and sg[0].args[1][0] == "r" and kind != "str"):
                x = sg[0].args[3]
                continue
        if len(sg) == 1 and sg[0].op == "part":
            # the column without the separator blank in front of its value
            c, i, n = sg[0].args
            if c.op == "col" and c.args[1][0] == "r" and c.args[2] == " " and i == 1 and n == int(c.args[0]) - 1:
                x = c.args[3]
                continue
        x = y
        break
    sg = flat(x)
    if not sg:
        return num(0) if kind != "str" else sstr("")
    if kind == "str" and all(q.op == "str" for q in sg):
        return x
    if len(sg) == 1:
        if sg[0].op == "str":
            import re
            m = re.match(r"\s*[+-]?(\d+\.?\d*|\.\d+)([eEdD][+-]?\d+)?", sg[0].args[0])
            if not m:
                return num(0) if not sg[0].args[0][:1].isdigit() else None
            f = Fraction(m.group(0).replace("D", "e").replace("d", "e").strip())
            return num(int(f)) if kind == "int" else num(f)
        if sg[0].op == "ite":
            return decode(kind, sg[0])
        return conv(kind, sg[0])
    if len(sg) == 2 and sg[0].op == "str" and sg[0].args[0] == "-" and kind != "str":
        v = conv(kind, sg[1])
        return neg(v) if v is not None else None
    return None


def token(s):
    """(token text, rest) of whitespace-separated reading"""
    t = strip(s, True, False, BLANK)
    sg = flat(t)
    out = []
    while sg:
        x = sg[0]
        if x.op == "str":
            i = 0
            while i < len(x.args[0]) and x.args[0][i] not in BLANK:
                i += 1
            if i:
                out.append(sstr(x.args[0][:i]))
            if i < len(x.args[0]):
                sg[0] = sstr(x.args[0][i:])
                break
            sg.pop(0)
        elif x.op in ("txt", "chr") or (x.op == "col" and x.args[1][0] == "r" and x.args[2] == "0"):
            out.append(x)
            sg.pop(0)
        elif x.op == "col" and not out and x.args[1][0] == "l":
            out.append(x.args[3])
            sg.pop(0)
            break
        else:
            return None
    if not out:
        return None
    return cat(*out), cat(*sg)


def firstchar(s):
    """(first non-blank character, rest)"""
    t = strip(s, True, False, BLANK)
    c = at(t, num(0))
    if c is None:
        return None
    r = substr(t, num(1), None)
    return (c, r) if r is not None else None


# ---------------------------------------------------------------- stream output
SETF = {"std::ios_base::fixed": "fixed", "std::ios_base::scientific": "scientific", "std::ios_base::left": "l", "std::ios_base::right": "r"}


class Layout(Exception):
    pass


def lines(out):
    """the lines a stream's accumulated output consists of"""
    res, cur = [], []
    stt = {"w": 0, "just": "r", "fill": " ", "prec": 6, "fmt": ""}

    def put(x):
        w = stt["w"]
        stt["w"] = 0
        if w:
            x = pad(x, w, stt["just"], stt["fill"])
        for y in flat(x):
            if y.op == "str" and "\n" in y.args[0]:
                ps = y.args[0].split("\n")
                for i, q in enumerate(ps):
                    if q:
                        cur.append(sstr(q))
                    if i < len(ps) - 1:
                        res.append(cat(*cur))
                        cur.clear()
            else:
                cur.append(y)
    for g in flat(out):
        if g.op == "str" or g.op in ("col", "txt", "chr", "part"):
            put(g)
        elif g.op == "ostr":
            put(g.args[0])
        elif g.op == "put":
            k, v = g.args
            if k == "int" and isnum(v):
                put(sstr(str(int(val(v)))))
            elif k == "int":
                put(T("txt", "int", v))
            elif k == "dbl":
                put(T("txt", "dbl", v, "%s.%s" % (stt["fmt"], stt["prec"])))
            elif k == "char" and isnum(v) and 0 <= val(v) < 256:
                put(sstr(chr(int(val(v)))))
            elif k == "char":
                put(T("chr", v))
            else:
                put(T("txt", k, v))
        elif g.op == "manip":
            n = g.args[0]
            a = g.args[1] if len(g.args) > 1 else None
            if n in ("setw", "width"):
                if a is None or not isnum(a):
                    raise Layout("width " + show(g))
                stt["w"] = int(val(a))
            elif n in ("left", "right", "internal"):
                stt["just"] = n[0] if n != "internal" else "r"
            elif n in ("setfill", "fill"):
                if isnum(a):
                    stt["fill"] = chr(int(val(a)))
                elif a.op == "str":
                    stt["fill"] = a.args[0]
            elif n in ("setprecision", "precision"):
                stt["prec"] = int(val(a)) if isnum(a) else "?"
            elif n in ("fixed", "scientific"):
                stt["fmt"] = n
            elif n in ("endlpp",):
                put(sstr("\n"))
            elif n == "setf" and a.op == "sym" and a.args[-1] in SETF:
                k = SETF[a.args[-1]]
                masked = len(g.args) > 2 and g.args[2].op == "sym" and g.args[2].args[-1] in ("std::ios_base::floatfield", "std::ios_base::adjustfield")
                if k in ("fixed", "scientific"):
                    # without the mask the flags add up, and both together mean hexadecimal
                    stt["fmt"] = k if masked or stt["fmt"] in ("", k) else "hexfloat"
                elif masked or stt["just"] == k:
                    stt["just"] = k
            elif n in ("setf", "unsetf", "flags", "dec", "showpoint", "noshowpoint", "uppercase", "flush"):
                pass
            else:
                raise Layout("manipulator " + show(g))
        elif g.op == "ite":
            w = width(g)
            if w is not None:
                put(g)
            else:
                raise Layout("conditional output " + show(g)[:80])
        elif g.op == "sym" or g.op == "fld":
            if res or cur:
                raise Layout("output of " + show(g)[:80])
        else:
            raise Layout("output of " + show(g)[:80])
    if cur:
        res.append(cat(*cur))
    return res


def single(out):
    """text of a string stream's contents (newlines kept)"""
    if out.op in ("sym", "fld"):
        return None
    try:
        ls = lines(cat(out, sstr("\x00")))
    except Layout:
        return None
    r = []
    for i, x in enumerate(ls):
        if i:
            r.append(sstr("\n"))
        r.append(x)
    c = flat(cat(*r))
    c[-1] = sstr(c[-1].args[0][:-1])
    return cat(*c)
