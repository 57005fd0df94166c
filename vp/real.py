"""Real-valued reading of extracted expressions: arithmetic and elementary
functions evaluated with 30 digits at sample points, to compare an extracted
formula with a reference formula modulo the identities of the reals.  Loops the
extraction summarised are followed by their extracted recurrence."""
import mpmath
from mpmath import mp, mpf
from .terms import *

mp.dps = 30


class NoValue(Exception):
    pass


def path(t):
    """this.orbit.ecc -> 'this.orbit.ecc'; elements of arrays as name[i]"""
    if t.op == "sym":
        return str(t.args[-1]) if t.args[0] == "P" else ".".join(str(a) for a in t.args)
    if t.op == "deref":
        b = path(t.args[0])
        return None if b is None else "deref(%s)" % b
    if t.op == "fld":
        b = path(t.args[0])
        if b is None:
            return None
        n = t.args[1]
        if n == "theArray":
            return b
        return "%s[%d]" % (b, int(val(n))) if isinstance(n, Term) and isnum(n) else None if isinstance(n, Term) else "%s.%s" % (b, n)
    if t.op == "call" and t.args[0] in ("std::valarray<double>::operator[]", "std::vector<double>::operator[]") and len(t.args) == 3 and isnum(t.args[2]):
        b = path(t.args[1])
        return None if b is None else "%s[%d]" % (b, int(val(t.args[2])))
    return None


def q(x):
    if isinstance(x, Fraction):
        return mpf(x.numerator) / x.denominator
    return mpf(x)


F1 = {"sin": mpmath.sin, "cos": mpmath.cos, "tan": mpmath.tan, "sqrt": mpmath.sqrt, "exp": mpmath.exp, "log": mpmath.log, "log10": mpmath.log10, "abs": abs,
      "fabs": abs, "floor": mpmath.floor, "ceil": mpmath.ceil, "asin": mpmath.asin, "acos": mpmath.acos, "atan": mpmath.atan, "sinh": mpmath.sinh, "cosh": mpmath.cosh,
      "round": lambda x: mpmath.floor(abs(x) + mpf(1) / 2) * (1 if x >= 0 else -1), "cbrt": mpmath.cbrt,
      "trunc": lambda x: mpf(int(x))}


def fmod(a, b):
    r = abs(a) % abs(b)
    return r if a >= 0 else -r


F2 = {"atan2": mpmath.atan2, "fmod": fmod, "pow": lambda a, b: a ** b, "hypot": mpmath.hypot, "fmax": max, "fmin": min, "ldexp": lambda a, b: a * mpf(2) ** int(b)}


class Env:
    def __init__(self, marks=None):
        self.marks = dict(marks or {})
        self.memo = {}


class Real:
    TURNS = 400

    def __init__(self, I, leaf):
        self.leaf = leaf
        self.of = {}
        for L in I.loops:
            for k, m in L["marks"].items():
                self.of[m] = (L, k)
        self.turns = {}

    def ev(self, t, env=None):
        env = env or Env()
        if t.op == "num":
            return q(t.args[0])
        r = env.memo.get(t)
        if r is None:
            r = self.go(t, env)
            env.memo[t] = r
        return r

    def go(self, t, env):
        op, a = t.op, t.args
        ev = lambda x: self.ev(x, env)
        if op == "ite":
            return ev(a[1]) if ev(a[0]) else ev(a[2])
        if op == "and":
            unk = None
            for y in a:
                try:
                    if not ev(y):
                        return mpf(0)
                except NoValue as e:
                    unk = e
            if unk:
                raise unk
            return mpf(1)
        if op == "not":
            return mpf(0 if ev(a[0]) else 1)
        if op == "lt":
            return mpf(1 if ev(a[0]) < ev(a[1]) else 0)
        if op == "eq":
            return mpf(1 if ev(a[0]) == ev(a[1]) else 0)
        if op == "sum":
            r = q(a[0])
            for y, k in a[1]:
                r += q(k) * ev(y)
            return r
        if op == "mul":
            r = mpf(1)
            for y in a:
                r *= ev(y)
            return r
        if op == "div":
            d = ev(a[1])
            if d == 0:
                raise NoValue("division by zero: " + show(t, 4)[:80])
            return ev(a[0]) / d
        if op == "trunc":
            return mpf(int(ev(a[0])))
        if op == "idiv":
            n, d = int(ev(a[0])), int(ev(a[1]))
            s = abs(n) // abs(d)
            return mpf(s if (n < 0) == (d < 0) else -s)
        if op == "mod":
            n, d = int(ev(a[0])), int(ev(a[1]))
            s = abs(n) % abs(d)
            return mpf(s if n >= 0 else -s)
        if op == "call" and len(a) == 2 and a[0] in F1:
            return F1[a[0]](ev(a[1]))
        if op == "call" and len(a) == 3 and a[0] in F2:
            return F2[a[0]](ev(a[1]), ev(a[2]))
        if t in env.marks:
            if env.marks[t] is None:
                raise NoValue("read before it is assigned: " + show(t))
            return env.marks[t]
        if t in self.of:
            return self.solve(t, env)
        if op == "fld" and isinstance(a[1], Term) and not isnum(a[1]):
            return ev(fld(a[0], num(int(ev(a[1])))))
        p = path(t)
        if p is not None:
            v = self.leaf(p)
            if v is not None:
                return v if isinstance(v, mpf) else q(v)
        raise NoValue("no value for " + (p or show(t, 6)[:120]))

    def initial(self, L, k, env):
        v = L["base"].mem.get(k)
        if v is None:
            v = L["base"].raw(*k)
        return v

    def solve(self, mark, env):
        """value a loop variable has when the loop is left, in the terms of the turn in which it is left"""
        L, _ = self.of[mark]
        if L["next"] is None and not L["exits"]:
            raise NoValue("loop without exit: " + L["tag"])
        conds = [x.pc[len(L["base"].pc):] for x in L["exits"]]
        mine = {m: k for k, m in L["marks"].items()}
        need = set()
        todo = [mark] + [y for c in conds for x in c for y in subterms(x) if y in mine]
        while todo:
            m = todo.pop()
            if m in need or m not in mine:
                continue
            need.add(m)
            nx = L["next"].mem.get(mine[m]) if L["next"] is not None else None
            if nx is not None:
                todo += [y for y in subterms(nx) if y in mine]
        vals = {}
        for m in need:
            try:
                vals[m] = self.ev(self.initial(L, mine[m], env), env)
            except NoValue:
                vals[m] = None      # assigned before use in the body
        for turn in range(self.TURNS):
            e = Env(env.marks)
            e.marks.update(vals)
            for c in conds:
                if all(self.ev(x, e) for x in c):
                    self.turns[L["tag"]] = turn + 1
                    if e.marks[mark] is None:
                        raise NoValue("not assigned in the loop: " + show(mark))
                    return e.marks[mark]
            if L["next"] is None:
                raise NoValue("loop not left: " + L["tag"])
            vals = {m: self.ev(L["next"].mem.get(mine[m], m), e) for m in need}
        raise NoValue("loop not left after %d turns: %s" % (self.TURNS, L["tag"]))
