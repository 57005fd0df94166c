"""Decides whether a comparison, given as a value-numbering term over two
objects, is a strict weak ordering, over the abstract domain of key orderings."""
import itertools
from fractions import Fraction
import numpy as np
from .terms import *
from .prog import walk


class Undecided(Exception):
    pass


def roots(t, A, B):
    s = subterms(t)
    return (A in s, B in s)


def exactify(t):
    """|x-y| below a small constant counts as equality; strcmp is a three-way sign"""
    def f(x):
        if x.op in ("eq", "lt"):
            a, b = x.args
            if a.op == "call" and a.args[0] == "strcmp" and b is num(0):
                return (eq if x.op == "eq" else lt)(a.args[1], a.args[2])
            if b.op == "call" and b.args[0] == "strcmp" and a is num(0):
                return (eq if x.op == "eq" else lt)(b.args[2], b.args[1])
        if x.op == "lt" and x.args[1] is num(0) and x.args[0].op == "call" and x.args[0].args[0] == "abs":
            return FALSE
        if x.op == "lt" and isnum(x.args[1]) and 0 <= val(x.args[1]) <= Fraction(1, 100):
            a = x.args[0]
            if a.op == "call" and a.args[0] == "abs":
                return eq(subst(a.args[1], f), num(0))
        if x.op == "lt" and isnum(x.args[0]) and 0 <= val(x.args[0]) <= Fraction(1, 100):
            a = x.args[1]
            if a.op == "call" and a.args[0] == "abs":
                return not_(eq(subst(a.args[1], f), num(0)))
        return None
    return subst(t, f)


class Domain:
    def __init__(self, terms, A, B, keep=None):
        """terms: all terms to be evaluated together"""
        self.A, self.B = A, B
        self.exprs = {}      # expr in terms of A -> index
        self.parent = {}
        self.consts = {}
        self.ordered = set()
        for t in terms:
            self.scan(t)
        groups = {}
        for e in self.exprs:
            groups.setdefault(self.find(e), []).append(e)
        k = len(self.exprs)
        self.dom = {}
        for g, es in groups.items():
            cs = set().union(*[self.consts.get(e, set()) for e in es])
            isb = all(e in self.boolean for e in es) or (cs and cs <= {num(0), num(1)} and not any(e in self.ordered for e in es))
            strs = [c for c in cs if c.op == "str"]
            nums = sorted(val(c) for c in cs if c.op == "num")
            if isb:
                d = [0, 1]
            elif strs:
                d = sorted({"", "m", "q"} | {c.args[0] for c in strs})
                d = {s: i for i, s in enumerate(d)}
            elif nums:
                d = sorted(set(nums) | {nums[0] - 1, nums[-1] + 1, nums[-1] + 2} | {(a + b) / 2 for a, b in zip(nums, nums[1:])})
            else:
                d = None
            for e in es:
                self.dom[e] = d
        free = [e for e in self.exprs if self.dom[e] is None]
        fixed = 1
        for e in self.exprs:
            if self.dom[e] is not None:
                fixed *= len(self.dom[e])
        n = 3
        while n > 2 and fixed * n ** len(free) > 1300:
            n -= 1
        if fixed * n ** len(free) > 5000:
            raise Undecided("%d keys, domain too large" % k)
        for e in free:
            self.dom[e] = list(range(n))
        order = list(self.exprs)
        vals = [list(range(len(self.dom[e]))) if isinstance(self.dom[e], dict) else [float(x) for x in self.dom[e]] for e in order]
        objs = np.array(list(itertools.product(*vals)), dtype=float).reshape(-1, len(order)) if order else np.zeros((1, 0))
        self.n = objs.shape[0]
        self.col = {e: objs[:, i] for i, e in enumerate(order)}
        self.order = order
        self.objs = objs

    boolean = ()

    def find(self, e):
        while self.parent.get(e, e) is not e:
            e = self.parent[e]
        return e

    def toA(self, t):
        return subst(t, lambda x: self.A if x is self.B else None)

    def key(self, t):
        """register a one-sided expression"""
        a, b = roots(t, self.A, self.B)
        if a and b:
            raise Undecided("mixed expression " + show(t)[:200])
        if not (a or b):
            raise Undecided("loop or context value " + show(t)[:200])
        e = self.toA(t)
        self.exprs.setdefault(e, len(self.exprs))
        return e

    def scan(self, t):
        st, seen = [t], set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op in ("and", "not", "or"):
                st.extend(x.args)
            elif x.op == "ite":
                st.extend(x.args)
            elif x.op in ("lt", "eq"):
                a, b = x.args
                ks = []
                for y in (a, b):
                    if y.op == "ite":
                        st.append(y)
                    elif y.op not in ("num", "str"):
                        ks.append(self.key(y))
                if x.op == "lt":
                    self.ordered |= set(ks)
                if len(ks) == 2:
                    p, q = self.find(ks[0]), self.find(ks[1])
                    if p is not q:
                        self.parent[p] = q
                elif len(ks) == 1:
                    for y in (a, b):
                        if y.op in ("num", "str"):
                            self.consts.setdefault(ks[0], set()).add(y)
            elif x.op in ("num", "str"):
                pass
            else:
                self.key(x)

    def table(self, t):
        """n x n truth table of t over pairs (A=row, B=column)"""
        memo = {}

        def go(x, want=None):
            r = memo.get(x)
            if r is not None:
                return r
            op, a = x.op, x.args
            if op == "num":
                r = np.float64(float(a[0]))
            elif op == "not":
                r = ~(go(a[0]).astype(bool))
            elif op == "and":
                r = np.bool_(True)
                for y in a:
                    r = r & go(y).astype(bool)
            elif op == "ite":
                r = np.where(go(a[0]).astype(bool), go(a[1]), go(a[2]))
            elif op in ("lt", "eq"):
                l, rr = [self.strconst(y, x) if y.op == "str" else go(y) for y in a]
                r = (l < rr) if op == "lt" else (l == rr)
            else:
                hasA, hasB = roots(x, self.A, self.B)
                c = self.col[self.toA(x)]
                r = c[:, None] if hasA else c[None, :]
            memo[x] = r
            return r
        return np.broadcast_to(go(t).astype(bool), (self.n, self.n)).copy()

    def strconst(self, y, x):
        o = [z for z in x.args if z is not y][0]
        return np.float64(self.dom[self.toA(o)][y.args[0]])

    def describe(self, i):
        return "{" + ", ".join("%s=%s" % (show(e), self.objs[i, j]) for j, e in enumerate(self.order)) + "}"


def swo(dom, M, V=None):
    """list of (law, witness) that fail; V: mask of valid pairs"""
    n = dom.n
    out = []
    ok = np.ones((n, n), bool) if V is None else V
    d = np.diag(M) & np.diag(ok)
    if d.any():
        i = int(np.argmax(d))
        out.append(("irreflexive", "x<x at x=" + dom.describe(i)))
    a = M & M.T & ok & ok.T
    if a.any():
        i, j = np.unravel_index(int(np.argmax(a)), a.shape)
        out.append(("asymmetric", "x<y and y<x at x=%s y=%s" % (dom.describe(i), dom.describe(j))))
    if V is not None and not ok.all():
        return out
    Mf = M.astype(np.float32)
    MM = (Mf @ Mf) > 0
    bad = MM & ~M
    if bad.any() and not out:
        i, k = np.unravel_index(int(np.argmax(bad)), bad.shape)
        j = int(np.argmax(M[i] & M[:, k]))
        out.append(("transitive", "x<y, y<z but not x<z at x=%s y=%s z=%s" % tuple(dom.describe(q) for q in (i, j, k))))
    N = ~(M | M.T)
    Nf = N.astype(np.float32)
    bad = ((Nf @ Nf) > 0) & ~N
    if bad.any() and not out:
        i, k = np.unravel_index(int(np.argmax(bad)), bad.shape)
        j = int(np.argmax(N[i] & N[:, k]))
        out.append(("incomparability transitive", "x~y, y~z but x and z are ordered at x=%s y=%s z=%s" % tuple(dom.describe(q) for q in (i, j, k))))
    return out
