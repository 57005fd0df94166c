"""C14 a function declared not to throw, and a destructor, is never left by an exception."""
import sys
from ..effects import Effects, base
from ..interp import Interp, Dead, Stop
from ..order import Undecided
from ..prog import lib_sources, walk
from ..check import where

# throws that no argument can reach, for a reason outside the flow analysis
LEAF = {
    ("gpstk::StringUtils::formattedPrint", "gpstk::StringUtils::StringException"): "regcomp of the literal patterns does not fail",
    ("gpstk::StringUtils::formattedPrint", "std::out_of_range"): "offsets of a match lie inside the text matched",
    ("gpstk::StringUtils::floatFormat", "std::out_of_range"): "positions found in the text itself",
    ("gpstk::StringUtils::rightJustify", "std::out_of_range"): "length < size on that branch",
    ("gpstk::StringUtils::stripTrailing", "std::out_of_range"): "the length of the tail does not exceed that of the text on that branch",
    ("gpstk::Triple::operator=", "gpstk::GeometryException"): "only Triple's own valarrays of three are assigned from inside the library",
    ("Combinations::operator=", "gpstk::Exception"): "sizes taken from an object that was checked when it was made",
    ("gpstk::Combinations::operator=", "gpstk::Exception"): "sizes taken from an object that was checked when it was made",
    ("gpstk::TabularSatStore::getInitialTime", "gpstk::InvalidRequest"): "records enter the store only after checkTimeSystem",
    ("gpstk::TabularSatStore::getFinalTime", "gpstk::InvalidRequest"): "records enter the store only after checkTimeSystem",
    ("gpstk::TabularSatStore::nomTimeStep", "gpstk::InvalidRequest"): "records enter the store only after checkTimeSystem",
    ("gpstk::LinearClockModel::dump", "gpstk::InvalidRequest"): "the times compared are those compared with each other when the epochs were added",
    ("gpstk::SatPass::getLastGoodTime", "gpstk::Exception"): "the index runs down from size-1",
    ("gpstk::gdc::cfg_func", "gpstk::Exception"): "the names asked for are literals of the configuration table",
    ("gpstk::gdc::xtime", "gpstk::Exception"): "the indices are those of arcs, which are indices of the data",
}



class Flow(Interp):
    """paths on which an exception can leave: calls not followed may throw whatever they let out"""
    quietcalls = True
    MAXDEPTH = 12
    MAXUNROLL = 16

    def __init__(self, A):
        self.A = A
        Interp.__init__(self, A.p, inline=A.follow)
        self.maxsteps = 60000

    def may(self, e, st, cs):
        for t, c in cs.items():
            try:
                Interp.throw(self, st, t, e.get("l"), c)
            except Dead:
                pass

    def excused(self, t):
        return any((base(f.fn.get("qual", "")), t) in LEAF for f in self.frames)

    def throw(self, st, t, line, info=None):
        if self.excused(t):
            raise Dead()
        Interp.throw(self, st, t, line, info)

    def opaque(self, fid, name, objloc, e, st, objval=None):
        r = Interp.opaque(self, fid, name, objloc, e, st, objval)
        self.may(e, st, self.A.lets(e))
        return r

    def e_ctor(self, e, st):
        fn = self.prog.func(e["f"])
        if not e.get("copy") and not (fn is not None and self.may_inline(e["f"], fn)):
            self.may(e, st, self.A.lets(e))
        return Interp.e_ctor(self, e, st)

    def construct(self, e, st, loc, t):
        if e["k"] == "ctor" and not e.get("copy"):
            fn = self.prog.func(e["f"])
            if not (fn is not None and self.may_inline(e["f"], fn)):
                self.may(e, st, self.A.lets(e))
        return Interp.construct(self, e, st, loc, t)

    def std(self, e, st):
        t = self.A.E.stdthrows(e)
        if t and not self.excused(t):
            self.may(e, st, {t: e.get("n") or "dynamic_cast"})
        if e.get("f", "").startswith("std::"):
            self.may(e, st, {t: c for t, c in self.A.lets(e).items() if not self.excused(t)})

    def std_mcall(self, e, st):
        self.std(e, st)
        return Interp.std_mcall(self, e, st)

    def std_call(self, e, st):
        self.std(e, st)
        return Interp.std_call(self, e, st)

    def e_cast(self, e, st):
        self.std(e, st)
        return Interp.e_cast(self, e, st)


class Analysis:
    def __init__(self, p):
        self.p = p
        self.E = Effects(p, LEAF)
        self.memo = {}
        self.sizes = {}
        self.runs = 0
        self.gaveup = set()

    def size(self, i):
        if i not in self.sizes:
            self.sizes[i] = sum(1 for _ in walk(self.E.funcs[i]["body"]))
        return self.sizes[i]

    def silent(self, f):
        return f.get("nothrow") or f.get("dtor")

    def leaves(self, i):
        """exception -> (function, line) of a path that lets it out of function i, whatever its arguments"""
        if not self.E.eff.get(i):
            return {}
        if i in self.memo:
            return self.memo[i]
        f = self.E.funcs[i]
        coarse = {t: (f["qual"], l) for t, (l, _) in self.E.eff[i].items()}
        self.memo[i] = coarse          # recursion: everything
        I = Flow(self)
        self.runs += 1
        try:
            r = I.run(f)
            out = {}
            for t in r["throws"]:
                ty = t[1]
                if (base(f["qual"]), ty) in LEAF:
                    continue
                if ty is None:
                    out.update(coarse)
                elif not out.get(ty) or (t[3], t[2]) < out[ty]:
                    out[ty] = (t[3], t[2] or 0)
        except (Stop, Undecided, RecursionError):
            out = coarse
            self.gaveup.add(i)
        self.memo[i] = out
        return out

    def lets(self, n):
        out = {}
        ts = self.E.targets(n)
        for t in ts:
            if self.silent(self.E.funcs[t]):
                continue
            for e in self.leaves(t):
                out.setdefault(e, t)
        return out

    def follow(self, fid, fn):
        if fid not in self.E.funcs:
            return False
        if self.size(fid) < (200 if fn.get("ctor") else 60):
            return True
        return not self.silent(fn) and bool(self.leaves(fid))


def check(ctx):
    ctx.rule("escape", "no path through a function declared not to throw, or a destructor, is left by an exception of the library or by one of the checked accesses and conversions of the standard library")
    sys.setrecursionlimit(100000)
    p = ctx.program(lib_sources())
    A = Analysis(p)
    n = 0
    for i, f in sorted(A.E.funcs.items(), key=lambda x: (x[1]["file"], x[1]["line"], x[0])):
        if not A.silent(f):
            continue
        n += 1
        name = f["qual"].replace("gpstk::", "")
        lv = A.leaves(i)
        if not lv:
            ctx.ob("escape", True, where(f), "%s lets nothing out" % name, "escape|" + name)
        if lv and i in A.gaveup:
            ctx.unresolved("escape", where(f), "%s may let out %s" % (name, ", ".join(sorted(t.replace("gpstk::", "") for t in lv))))
            continue
        for t, (q, l) in sorted(lv.items()):
            ctx.ob("escape", False, where(f), "%s is declared not to throw and is left by %s (thrown in %s:%s; %s)" % (name, t.replace("gpstk::", ""), q.split("(")[0].replace("gpstk::", ""), l, A.E.chain(i, t)), "escape|%s|%s" % (name, t.replace("gpstk::", "")))
    ctx.count("call sites", A.E.sites)
    ctx.count("functions followed path by path", A.runs)
    ctx.floor("functions that must not throw", n, 900)
