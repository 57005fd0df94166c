"""Bit-slice normal form: an integer term as 64 bit sources (two's complement).

A bit is 0, 1, or (term, i) = bit i of an opaque term.  Returns None for a bit
that is not known to be a copy of one source bit."""
from .terms import *

W = 64
UNK = "?"


def const(v):
    v &= (1 << W) - 1
    return [(v >> i) & 1 for i in range(W)]


CASTW = {"unsigned char": 8, "unsigned short": 16, "unsigned int": 32, "unsigned long": 64, "unsigned long long": 64, "bool": 1}
CASTS = {"signed char": 8, "char": 8, "short": 16, "int": 32, "long": 64, "long long": 64}


def atom(t, width=None, signed=False):
    if width is None:
        return [(t, i) for i in range(W)]
    return [(t, i) if i < width else ((t, width - 1) if signed else 0) for i in range(W)]


def _and(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    return a if a == b else UNK


def _or(a, b):
    if a == 1 or b == 1:
        return 1
    if a == 0:
        return b
    if b == 0:
        return a
    return a if a == b else UNK


def _gf2(a):
    """bit as (set of source bits, constant) over GF(2)"""
    if a in (0, 1):
        return frozenset(), a
    if a[0] == "^":
        return a[1], a[2]
    return frozenset([a]), 0


def _xor(a, b):
    if a == UNK or b == UNK:
        return UNK
    (s, c), (t, d) = _gf2(a), _gf2(b)
    s, c = s ^ t, c ^ d
    if not s:
        return c
    return next(iter(s)) if len(s) == 1 and not c else ("^", s, c)


def xor(*bs):
    r = 0
    for b in bs:
        r = _xor(r, b)
    return r


def condbit(c, go):
    """the bit a condition tests, None if it tests more than one"""
    if c.op == "not":
        b = condbit(c.args[0], go)
        return None if b is None else _xor(b, 1)
    if isnum(c):
        return int(bool(val(c)))
    if c.op in ("eq", "lt") and any(_k(x) is not None for x in c.args):
        k, x = [(_k(q), r) for q, r in (c.args, c.args[::-1]) if _k(q) is not None][0]
        kb, xb = const(k), go(x)
        if UNK in xb:
            return None
        if c.op == "lt":
            if c.args[1] is not x or k != 0 or xb[-1] != 0:
                return None
            kb = const(0)
        open_ = [(q, r) for q, r in zip(xb, kb) if q not in (0, 1)]
        if any(q in (0, 1) and q != r for q, r in zip(xb, kb)):
            return 0 if c.op == "eq" else 1
        if len({q for q, r in open_}) != 1 or len({r for q, r in open_}) != 1:
            return None
        q, r = open_[0]
        return _xor(q, 1 ^ r) if c.op == "eq" else q
    if c.op not in ("eq", "lt", "not") and (isbool(c) or c.op in ("band", "shr")):
        xb = go(c)
        o = [q for q in xb if q != 0]
        return o[0] if len(o) == 1 and o[0] != UNK else None
    return None


def _sum0(parts):
    """bits of a sum of overlapping parts: only the lowest is known"""
    low = min(min([i for i in range(W) if q[i] != 0], default=W) for q in parts)
    return [0] * low + ([xor(*[q[low] for q in parts])] if low < W else []) + [UNK] * (W - low - 1)


def shl(x, k):
    return ([0] * k + x)[:W]


def shr(x, k):
    return x[k:] + [x[-1]] * min(k, W)


def bits(t, width=None, memo=None):
    """width: callable term -> (bits, signed) or None for an opaque term"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    r = _bits(t, width, memo)
    memo[t] = r
    return r


def _uncast(t):
    while t.op == "cast":
        t = t.args[1]
    return t


def _k(t):
    return int(val(t)) if isnum(t) and val(t).denominator == 1 else None


def _bits(t, width, memo):
    go = lambda x: bits(x, width, memo)
    if t.op == "num":
        return const(int(val(t))) if val(t).denominator == 1 else [UNK] * W
    w = width(t) if width else None
    if w:
        return atom(t, *w)
    if t.op in ("band", "bor", "bxor"):
        f = {"band": _and, "bor": _or, "bxor": _xor}[t.op]
        r = go(t.args[0])
        for x in t.args[1:]:
            r = [f(a, b) for a, b in zip(r, go(x))]
        return r
    if t.op == "shl" and _k(t.args[1]) is not None:
        return shl(go(t.args[0]), _k(t.args[1]))
    if t.op == "shr" and _k(t.args[1]) is not None:
        return shr(go(t.args[0]), _k(t.args[1]))
    if t.op == "sum":
        c, d = t.args
        if c < 0 and c.denominator == 1 and all(v < 0 and v.denominator == 1 for _, v in d):
            return [_xor(b, 1) for b in go(sub(num(-1), t))]
        if c > 0 and c.denominator == 1 and len(d) == 1 and d[0][1] == -1:
            x = go(d[0][0])
            kb = const(int(c))
            if all(a == 0 or b == 1 for a, b in zip(x, kb)):
                return [_xor(a, b) for a, b in zip(x, kb)]
        if c.denominator != 1 or any(v.denominator != 1 or v <= 0 for _, v in d):
            return atom(t)
        parts = [const(int(c))] if c else []
        for x, v in d:
            v = int(v)
            parts += [shl(go(x), i) for i in range(v.bit_length()) if v >> i & 1]
        r = parts[0]
        for q in parts[1:]:
            if any(a != 0 and b != 0 for a, b in zip(r, q)):
                return _sum0(parts) if any(_uncast(x).op == "popcount" for x, _ in d) else atom(t)
            r = [a if b == 0 else b for a, b in zip(r, q)]
        return r
    if t.op == "mul":
        ks = [x for x in t.args if _k(x) is not None]
        if len(t.args) == 2 and len(ks) == 1 and _k(ks[0]) > 0 and not _k(ks[0]) & (_k(ks[0]) - 1):
            o = [x for x in t.args if x is not ks[0]][0]
            return shl(go(o), _k(ks[0]).bit_length() - 1)
        return atom(t)
    if t.op in ("mod", "idiv") and _k(t.args[1]):
        k = _k(t.args[1])
        x = go(t.args[0])
        if k > 0 and not k & (k - 1) and x[-1] == 0:
            s = k.bit_length() - 1
            return x[:s] + [0] * (W - s) if t.op == "mod" else shr(x, s)
        return atom(t)
    if t.op == "cast":
        ty = str(t.args[0].args[0] if isinstance(t.args[0], Term) else t.args[0])
        ty = ty.replace("const ", "")
        x = go(t.args[1])
        if ty in CASTW:
            n = CASTW[ty]
            return x[:n] + [0] * (W - n)
        if ty in CASTS:
            n = CASTS[ty]
            return x[:n] + [x[n - 1]] * (W - n)
        return atom(t)
    if t.op == "trunc":
        return go(t.args[0]) if t.args[0].op != "trunc" else atom(t)
    if t.op == "ite":
        a, b = go(t.args[1]), go(t.args[2])
        if a == b:
            return a
        c = condbit(t.args[0], go)
        if c in (0, 1):
            return b if c == 0 else a
        return [x if x == y else UNK if c is None or _xor(x, y) != 1 else _xor(y, c) for x, y in zip(a, b)]
    if t.op == "bitnot":
        return [_xor(b, 1) for b in go(t.args[0])]
    if t.op == "popcount":
        return [xor(*go(t.args[0])[:32])] + [UNK] * 6 + [0] * (W - 7)
    if t.op in ("eq", "lt", "not"):
        c = condbit(t, go)
        return atom(t, 1) if c is None else [c] + [0] * (W - 1)
    return atom(t)


def same(a, b, width=None):
    x, y = bits(a, width), bits(b, width)
    return x == y and UNK not in x


def nbits(x):
    """number of low bits that may be non-zero, None if the sign is open"""
    if x[-1] != 0:
        return None
    n = W
    while n and x[n - 1] == 0:
        n -= 1
    return n


# ---- intervals: what a symbol's width says about a value
TYR = {t: (0, 2 ** n - 1) for t, n in CASTW.items()}
TYR.update({t: (-2 ** (n - 1), 2 ** (n - 1) - 1) for t, n in CASTS.items()})


def rng(t, width):
    """(lowest, highest, is integral) of a number; None if not known"""
    if isnum(t):
        v = val(t)
        return v, v, v.denominator == 1
    w = width(t)
    if w:
        n, sg = w
        return (-2 ** (n - 1), 2 ** (n - 1) - 1, True) if sg else (0, 2 ** n - 1, True)
    if t.op == "sum":
        c, d = t.args
        lo = hi = Fraction(c)
        it = Fraction(c).denominator == 1
        for x, v in d:
            r = rng(x, width)
            if r is None:
                return None
            lo, hi = lo + min(v * r[0], v * r[1]), hi + max(v * r[0], v * r[1])
            it = it and r[2] and Fraction(v).denominator == 1
        return lo, hi, it
    if t.op in ("cast", "trunc"):
        x = t.args[-1]
        r = rng(x, width)
        if t.op == "trunc":
            return r if r and r[2] else r and (int(r[0]), int(r[1]), True)
        ty = str(t.args[0].args[0] if isinstance(t.args[0], Term) else t.args[0]).replace("const ", "")
        q = TYR.get(ty)
        return r if r and q and r[2] and q[0] <= r[0] and r[1] <= q[1] else q and (q[0], q[1], True)
    if t.op == "idiv" and isnum(t.args[1]) and val(t.args[1]) > 0:
        r = rng(t.args[0], width)
        k = val(t.args[1])
        return r and r[2] and (int(Fraction(r[0]) / k), int(Fraction(r[1]) / k), True) or None
    if t.op == "ite":
        a, b = rng(t.args[1], width), rng(t.args[2], width)
        return (min(a[0], b[0]), max(a[1], b[1]), a[2] and b[2]) if a and b else None
    return None


def ranged(t, width):
    """t with comparisons decided and conversions dropped where the ranges allow it"""
    if t.op == "not":
        x = ranged(t.args[0], width)
        return not_(x) if x is not t.args[0] else t
    if t.op in ("lt", "eq"):
        a, b = (rng(x, width) for x in t.args)
        if a and b:
            if t.op == "lt":
                return num(1) if a[1] < b[0] else num(0) if a[0] >= b[1] else t
            return num(0) if a[1] < b[0] or b[1] < a[0] else t
        return t
    if t.op == "cast":
        ty = str(t.args[0].args[0] if isinstance(t.args[0], Term) else t.args[0]).replace("const ", "")
        r, q = rng(t.args[1], width), TYR.get(ty)
        return t.args[1] if r and q and r[2] and q[0] <= r[0] and r[1] <= q[1] else t
    if t.op == "trunc":
        x = t.args[0]
        r = rng(x, width)
        if r and r[2]:
            return x
        if r and x.op == "sum":
            c, d = x.args
            whole = sub(x, num(c))
            q = rng(whole, width)
            if q and q[2] and (r[0] >= 0 or r[1] <= 0):
                f = Fraction(c)
                k = f.numerator // f.denominator if r[0] >= 0 else -(-f.numerator // f.denominator)
                return add(whole, num(k))
        return t
    if t.op == "idiv" and isnum(t.args[1]) and val(t.args[1]) > 0:
        x = div(t.args[0], t.args[1])
        r = rng(x, width)
        if r and r[2]:
            return x
    return t
