"""Hash-consed value-numbering terms with a small algebra of normal forms."""
from fractions import Fraction

_tab = {}


class Term:
    __slots__ = ("op", "args", "id")

    def __repr__(self):
        return show(self)


def T(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = Term.__new__(Term)
        t.op = op
        t.args = args
        t.id = len(_tab)
        _tab[k] = t
    return t


def num(v):
    return T("num", v if isinstance(v, Fraction) else Fraction(v))


TRUE, FALSE, ZERO = num(1), num(0), num(0)


def sstr(s):
    return T("str", s)


def sym(*n):
    return T("sym", *n)


def isnum(t):
    return t.op == "num"


def val(t):
    return t.args[0]


# ---- linear normal form
def _lin(t):
    if t.op == "num":
        return val(t), {}
    if t.op == "sum":
        return t.args[0], dict(t.args[1])
    return Fraction(0), {t: Fraction(1)}


def _mklin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return num(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return T("sum", c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))


def add(a, b, sb=1):
    if a.op == "ite" and isnum(b):
        return ite(a.args[0], add(a.args[1], b, sb), add(a.args[2], b, sb))
    ca, da = _lin(a)
    cb, db = _lin(b)
    da = dict(da)
    for k, v in db.items():
        da[k] = da.get(k, 0) + sb * v
    return _mklin(ca + sb * cb, da)


def sub(a, b):
    if b.op == "ite" and isnum(a):
        return ite(b.args[0], sub(a, b.args[1]), sub(a, b.args[2]))
    return add(a, b, -1)


def neg(a):
    return sub(num(0), a)


def mul(a, b):
    if isnum(a):
        a, b = b, a
    if isnum(b):
        if a.op == "ite":
            return ite(a.args[0], mul(a.args[1], b), mul(a.args[2], b))
        c, d = _lin(a)
        k = val(b)
        return _mklin(c * k, {t: v * k for t, v in d.items()})
    # pull constant factors out
    ka, ta = _factor(a)
    kb, tb = _factor(b)
    fs = (list(ta.args) if ta.op == "mul" else [ta]) + (list(tb.args) if tb.op == "mul" else [tb])
    fs.sort(key=lambda x: x.id)
    return mul(T("mul", *fs), num(ka * kb)) if ka * kb != 1 else T("mul", *fs)


def _factor(t):
    if t.op == "sum" and t.args[0] == 0 and len(t.args[1]) == 1:
        (k, v), = t.args[1]
        return v, k
    return Fraction(1), t


def div(a, b):
    if isnum(b) and val(b) != 0:
        return mul(a, num(1 / val(b)))
    ka, ta = _factor(a)
    kb, tb = _factor(b)
    if isnum(ta):
        return mul(T("div", num(1), tb), num(val(ta) * ka / kb))
    if ta is tb:
        return num(ka / kb)
    return mul(T("div", ta, tb), num(ka / kb))


def idiv(a, b):
    if isnum(a) and isnum(b) and val(b) != 0:
        q = abs(int(val(a))) // abs(int(val(b)))
        return num(q if (val(a) >= 0) == (val(b) >= 0) else -q)
    if isnum(b) and val(b) == 1:
        return a
    return T("idiv", a, b)


def imod(a, b):
    if isnum(a) and isnum(b) and val(b) != 0:
        r = abs(int(val(a))) % abs(int(val(b)))
        return num(r if val(a) >= 0 else -r)
    return T("mod", a, b)


# ---- booleans
def not_(a):
    if isnum(a):
        return FALSE if val(a) != 0 else TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "ite":
        return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    if not isbool(a):
        return eq(a, num(0))
    return T("not", a)


BOOLOPS = {"lt", "eq", "and", "or", "not"}


def isbool(t):
    return t.op in BOOLOPS or (t.op == "num" and val(t) in (0, 1)) or (t.op == "ite" and isbool(t.args[1]) and isbool(t.args[2]))


def truth(t):
    """t as a condition"""
    if isnum(t):
        return TRUE if val(t) != 0 else FALSE
    if isbool(t):
        return t
    if t.op == "str" or t.op == "ptr":
        return TRUE
    if t.op == "ite":
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op in ("call", "pred", "sym", "mcall"):
        return not_(eq(t, num(0)))
    return not_(eq(t, num(0)))


def and_(*ts):
    out = []
    for t in ts:
        if t.op == "and":
            xs = t.args
        else:
            xs = (t,)
        for x in xs:
            if isnum(x):
                if val(x) == 0:
                    return FALSE
                continue
            if x not in out:
                if not_(x) in out:
                    return FALSE
                out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T("and", *sorted(out, key=lambda x: x.id))


def or_(*ts):
    return not_(and_(*[not_(t) for t in ts]))


def _differ(a, b):
    return sub(a, b) if a.op in ("sum", "num") or b.op in ("sum", "num") else None


TCMAX = {"m": (1, 12), "d": (1, 31), "H": (0, 23), "M": (0, 59), "f": (0, 60), "s": (0, 86400), "g": (0, 604800), "j": (1, 366), "w": (0, 6)}


def lt(a, b):
    if isnum(a) and isnum(b):
        return TRUE if val(a) < val(b) else FALSE
    if a is b:
        return FALSE
    if a.op == "str" and b.op == "str":
        return TRUE if a.args[0] < b.args[0] else FALSE
    if a.op == "tc" and isnum(b) and a.args[0] in TCMAX:
        # a broken-down time lies in its range
        lo, hi = TCMAX[a.args[0]]
        if val(b) > hi or (val(b) == hi and a.args[0] in ("f", "s", "g")):
            return TRUE
        if val(b) <= lo:
            return FALSE
    if b.op == "tc" and isnum(a) and b.args[0] in TCMAX:
        lo, hi = TCMAX[b.args[0]]
        if val(a) < lo:
            return TRUE
        if val(a) >= hi:
            return FALSE
    if a.op == "ite" and isnum(b):
        return ite(a.args[0], lt(a.args[1], b), lt(a.args[2], b))
    if b.op == "ite" and isnum(a):
        return ite(b.args[0], lt(a, b.args[1]), lt(a, b.args[2]))
    d = _differ(a, b)
    if d is not None:
        if isnum(d):
            return TRUE if val(d) < 0 else FALSE
        # canonical: scale so that first coefficient is +-1
        c, m = (d.args[0], d.args[1]) if d.op == "sum" else (Fraction(0), ((d, Fraction(1)),))
        k = abs(m[0][1])
        c, m = c / k, tuple((t, v / k) for t, v in m)
        if len(m) == 1:
            t, v = m[0]
            return T("lt", t, num(-c)) if v > 0 else T("lt", num(c), t)
        pos = _mklin(Fraction(0), {t: v for t, v in m if v > 0})
        ng = _mklin(-c, {t: -v for t, v in m if v < 0})
        return T("lt", pos, ng)
    return T("lt", a, b)


def blankless(x):
    """a piece of text that is never all blank"""
    if x.op == "str":
        return bool(x.args[0].strip())
    if x.op == "col":
        return blankless(x.args[3])
    return x.op == "txt" and x.args[0] in ("int", "dbl")


def eq(a, b):
    if a is b:
        return TRUE
    if isnum(a) and isnum(b):
        return TRUE if val(a) == val(b) else FALSE
    if a.op == "str" and b.op == "str":
        return TRUE if a.args[0] == b.args[0] else FALSE
    if {a.op, b.op} == {"str", "cat"}:
        s, c = (a, b) if a.op == "str" else (b, a)
        if not s.args[0].strip() and any(blankless(x) for x in c.args):
            return FALSE
        lits = sum(len(x.args[0]) for x in c.args if x.op == "str")
        if lits > len(s.args[0]):
            return FALSE
    if a.op == "ptr" and b.op == "ptr":
        return TRUE if a is b else FALSE
    if a.op == "iter" and b.op == "iter" and a.args[0] is b.args[0]:
        return eq(a.args[1], b.args[1])
    if (a.op == "ptr" and isnum(b)) or (b.op == "ptr" and isnum(a)):
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == "call" and x.args[0] in ("str.find_last_not_of", "str.find_first_not_of") and len(x.args) == 3 and x.args[2] is T("str", " ") \
                and isnum(y) and val(y) == 2 ** 64 - 1 and any(blankless(z) for z in (x.args[1].args if x.args[1].op == "cat" else (x.args[1],))):
            return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and y.op in ("num", "str"):
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
    for x, y in ((a, b), (b, a)):
        if isbool(x) and isnum(y) and not isnum(x):
            return x if val(y) == 1 else (not_(x) if val(y) == 0 else FALSE)
    d = _differ(a, b)
    if d is not None:
        if isnum(d):
            return TRUE if val(d) == 0 else FALSE
        c, m = (d.args[0], d.args[1]) if d.op == "sum" else (Fraction(0), ((d, Fraction(1)),))
        k = m[0][1]
        c, m = c / k, tuple((t, v / k) for t, v in m)
        if len(m) == 1:
            return T("eq", m[0][0], num(-c))
        pos = _mklin(Fraction(0), {t: v for t, v in m if v > 0})
        ng = _mklin(-c, {t: -v for t, v in m if v < 0})
        a, b = pos, ng
    if a.id > b.id:
        a, b = b, a
    return T("eq", a, b)


def ite(c, a, b):
    if isnum(c):
        return a if val(c) != 0 else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == "ite" and b.args[0] is c:
        return ite(c, a, b.args[2])
    if isnum(a) and isnum(b) and {val(a), val(b)} == {0, 1}:
        return c if val(a) == 1 else not_(c)
    if isbool(a) and isbool(b):
        if isnum(a):
            return or_(c, b) if val(a) else and_(not_(c), b)
        if isnum(b):
            return or_(not_(c), a) if val(b) else and_(c, a)
    return T("ite", c, a, b)


# ---- strings
def cat(*ts):
    out = []
    for t in ts:
        xs = t.args if t.op == "cat" else (t,)
        for x in xs:
            if x.op == "str":
                if x.args[0] == "":
                    continue
                if out and out[-1].op == "str":
                    out[-1] = sstr(out[-1].args[0] + x.args[0])
                    continue
            out.append(x)
    if not out:
        return sstr("")
    if len(out) == 1:
        return out[0]
    return T("cat", *out)


def segs(t):
    return list(t.args) if t.op == "cat" else ([] if t.op == "str" and t.args[0] == "" else [t])


# ---- structured values
def _numleaves(t):
    return isnum(t) or t.op == "ite" and _numleaves(t.args[1]) and _numleaves(t.args[2])


def fld(v, name):
    if v.op == "upd":
        for n, x in v.args[1]:
            if n == name:
                return x
        if isinstance(name, Term) and not isnum(name) and any(isinstance(n, Term) for n, _ in v.args[1]):
            if name.op == "ite" and _numleaves(name):
                return ite(name.args[0], fld(v, name.args[1]), fld(v, name.args[2]))
            return T("fld", v, name)
        return fld(v.args[0], name)
    if v.op == "ite":
        return ite(v.args[0], fld(v.args[1], name), fld(v.args[2], name))
    if v.op == "arr" and isinstance(name, Term) and isnum(name):
        i = int(val(name))
        return v.args[i] if 0 <= i < len(v.args) else T("oob", v, name)
    if v.op == "arr" and isinstance(name, Term) and name.op == "ite":
        return ite(name.args[0], fld(v, name.args[1]), fld(v, name.args[2]))
    if v.op == "str" and isinstance(name, Term) and isnum(name):
        i = int(val(name))
        if 0 <= i < len(v.args[0]):
            return num(ord(v.args[0][i]))
        if i == len(v.args[0]):
            return num(0)
    if v.op == "zero":
        return T("zero") if False else T("fld", v, name)
    return T("fld", v, name)


def upd(v, name, x):
    if v.op == "upd":
        items = [(n, y) for n, y in v.args[1] if n != name]
        base = v.args[0]
    else:
        items, base = [], v
    if base.op == "arr" and isinstance(name, Term) and isnum(name) and 0 <= int(val(name)) < len(base.args) and not items:
        l = list(base.args)
        l[int(val(name))] = x
        return T("arr", *l)
    if base.op == "str" and isinstance(name, Term) and isnum(name) and isnum(x) and not items and 0 <= val(name) < len(base.args[0]) and 0 <= val(x) < 256:
        i = int(val(name))
        return sstr(base.args[0][:i] + chr(int(val(x))) + base.args[0][i + 1:])
    if fld(base, name) is x:
        return T("upd", base, tuple(items)) if items else base
    items.append((name, x))
    items.sort(key=lambda nv: (0, nv[0], 0) if isinstance(nv[0], str) else (1, "", nv[0].id))
    return T("upd", base, tuple(items))


# ---- generic
def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, Term):
            if isinstance(x, tuple):
                st.extend(x)
            continue
        if x in seen:
            continue
        seen.add(x)
        st.extend(x.args)
    return seen


def leaves(t):
    return [x for x in subterms(t) if x.op in ("sym", "fld")]


def rebuild(op, args):
    f = {"not": not_, "and": and_, "or": or_, "lt": lt, "eq": eq, "ite": ite, "cat": cat, "div": div, "idiv": idiv,
         "mod": imod, "fld": fld}.get(op)
    if op == "trunc" and isnum(args[0]):
        return num(int(val(args[0])))
    if f:
        return f(*args)
    if op == "mul":
        r = num(1)
        for a in args:
            r = mul(r, a)
        return r
    if op == "upd":
        r = args[0]
        for n, x in args[1]:
            r = upd(r, n, x)
        return r
    return T(op, *args)


def subst(t, fn, memo=None):
    """bottom-up rewriting: fn(term) -> replacement or None"""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Term):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        r = fn(x)
        if r is None:
            if x.op == "sum":
                r = num(x.args[0])
                for s, k in x.args[1]:
                    r = add(r, mul(go(s), num(k)))
            elif x.args:
                na = tuple(go(a) for a in x.args)
                r = x if na == x.args else rebuild(x.op, na)
                if r is not x:
                    r2 = fn(r)
                    if r2 is not None:
                        r = r2
            else:
                r = x
        memo[x] = r
        return r
    return go(t)


def fnum(f):
    if f.denominator == 1:
        return str(f.numerator)
    x = float(f)
    return repr(x)


def show(t, depth=12):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth - 1) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "..."
    a = t.args
    if t.op == "num":
        return fnum(a[0])
    if t.op == "str":
        return '"%s"' % a[0].replace("\n", "\\n")
    if t.op == "sym":
        return ".".join(str(x) for x in a)
    if t.op == "fld":
        return "%s.%s" % (show(a[0], depth - 1), show(a[1], depth - 1)) if isinstance(a[1], str) else "%s[%s]" % (show(a[0], depth - 1), show(a[1], depth - 1))
    if t.op == "sum":
        s = []
        if a[0] != 0:
            s.append(fnum(a[0]))
        for x, k in a[1]:
            s.append(("" if k == 1 else "-" if k == -1 else fnum(k) + "*") + show(x, depth - 1))
        return "(" + " + ".join(s) + ")"
    if t.op in ("lt", "eq"):
        return "(%s %s %s)" % (show(a[0], depth - 1), "<" if t.op == "lt" else "==", show(a[1], depth - 1))
    if t.op == "not":
        return "!" + show(a[0], depth - 1)
    if t.op in ("and", "or"):
        return "(" + (" && " if t.op == "and" else " || ").join(show(x, depth - 1) for x in a) + ")"
    if t.op == "ite":
        return "(%s ? %s : %s)" % tuple(show(x, depth - 1) for x in a)
    if t.op == "cat":
        return "{" + " + ".join(show(x, depth - 1) for x in a) + "}"
    if t.op == "upd":
        return "%s{%s}" % (show(a[0], depth - 1), ", ".join("%s=%s" % (n if isinstance(n, str) else show(n), show(x, depth - 1)) for n, x in a[1]))
    return t.op + "(" + ", ".join(show(x, depth - 1) for x in a) + ")"


NUMF = {"floor": lambda v: Fraction(v.__floor__()), "ceil": lambda v: Fraction(v.__ceil__()), "fabs": abs, "abs": abs, "trunc": lambda v: Fraction(int(v))}


class Unknown(Exception):
    pass


def evaln(t, env, memo=None):
    """value of a term under an assignment of its leaves (lazy ite/and);
    numbers become Fractions, everything else its own term"""
    memo = {} if memo is None else memo

    def go(x):
        if x.op == "num":
            return x.args[0]
        if x in env:
            return env[x]
        r = memo.get(x)
        if r is not None:
            return r
        op, a = x.op, x.args
        if op == "ite":
            r = go(a[1]) if go(a[0]) else go(a[2])
        elif op == "and":
            r = Fraction(1)
            unk = None
            for y in a:
                try:
                    if not go(y):
                        r, unk = Fraction(0), None
                        break
                except Unknown as e:
                    unk = e
            if unk:
                raise unk
        elif op == "not":
            r = Fraction(0 if go(a[0]) else 1)
        elif op == "lt":
            r = Fraction(1 if go(a[0]) < go(a[1]) else 0)
        elif op == "eq":
            r = Fraction(1 if go(a[0]) == go(a[1]) else 0)
        elif op == "sum":
            r = a[0]
            for y, k in a[1]:
                r += k * go(y)
        elif op == "mul":
            r = Fraction(1)
            for y in a:
                r *= go(y)
        elif op == "div":
            r = go(a[0]) / go(a[1])
        elif op == "trunc":
            r = Fraction(int(go(a[0])))
        elif op == "idiv":
            r = val(idiv(num(go(a[0])), num(go(a[1]))))
        elif op == "mod":
            r = val(imod(num(go(a[0])), num(go(a[1]))))
        elif op == "str":
            r = a[0]
        elif op == "band":
            r = go(a[0])
            for y in a[1:]:
                r = Fraction(int(r) & int(go(y)))
        elif op == "bor":
            r = go(a[0])
            for y in a[1:]:
                r = Fraction(int(r) | int(go(y)))
        elif op == "shl":
            r = Fraction(int(go(a[0])) << int(go(a[1])))
        elif op == "shr":
            r = Fraction(int(go(a[0])) >> int(go(a[1])))
        elif op == "call" and a[0] in NUMF and len(a) == 2:
            r = NUMF[a[0]](go(a[1]))
        else:
            raise Unknown(x)
        memo[x] = r
        return r
    return go(t)


def sel(t, env, memo=None):
    """resolve the gates of a term under an assignment; the rest stays symbolic"""
    memo = {} if memo is None else memo

    def f(x):
        if x.op == "ite":
            try:
                return sel(x.args[1] if evaln(x.args[0], env, memo) else x.args[2], env, memo)
            except Unknown:
                return None
        return None
    return subst(t, f)


def constants_against(t, leaf):
    """numeric constants the leaf is compared with"""
    out = set()
    for x in subterms(t):
        if x.op in ("lt", "eq") and leaf in x.args:
            for y in x.args:
                if isnum(y):
                    out.add(val(y))
    return out
