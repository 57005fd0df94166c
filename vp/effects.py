"""Which exceptions can leave which function (interprocedural, path-insensitive).

The effect of a function is a map exception type -> (line, callee through which it comes, or None for a throw of its own).
Handlers remove what they catch and add what they throw; a handler that nothing in its try block can reach adds nothing.
Virtual calls take every overrider.  Functions declared not to throw pass nothing on (what would leave them ends the
program there, and is judged there).  Of the standard library only the checked accesses and conversions are taken to
throw; running out of memory is outside."""
import collections
import re
from .interp import strip

STREAMQUIET = ("rdbuf", "setf", "unsetf", "flags", "width", "precision", "fill", "good", "eof", "fail", "bad", "is_open", "operator!", "operator bool", "exceptions",
               "tellg", "rdstate", "gcount")
KEYED = re.compile(r"std::(?:multi)?(?:map|set)<([^<>,]+)[,>]")
KEYOPS = ("find", "insert", "emplace", "operator[]", "at", "lower_bound", "upper_bound", "equal_range", "count", "erase")
POSARG = {"substr": 0, "insert": 0, "erase": 0, "replace": 0, "compare": 0}


def const0(a):
    while a.get("k") == "cast":
        a = a["e"]
    return a.get("k") == "int" and int(a["v"]) == 0


def iterlike(a):
    return "__normal_iterator" in a.get("t", "") or a.get("t", "").endswith("*")


def base(q):
    """qualified name without template arguments"""
    while True:
        r = re.sub(r"(?<!operator)<[^<>]*>", "", q)
        if r == q:
            return q
        q = r


class Effects:
    def __init__(self, prog, leaf=()):
        self.leaf = leaf
        self.p = prog
        self.funcs = {i: prog.func(i) for i in prog.ids("func")}
        self.over = collections.defaultdict(set)
        for i, f in self.funcs.items():
            for o in f.get("over", ()):
                self.over[o].add(i)
        self.eff = {i: {} for i in self.funcs}
        self.clos = {}
        self.order = {}
        self.sup = {}
        self.callers = collections.defaultdict(set)
        self.sites = 0
        self.solve()

    def supers(self, t):
        r = self.sup.get(t)
        if r is None:
            r = self.sup[t] = {t} | set(self.p.bases(t))
        return r

    def targets(self, n):
        """definitions a call may reach"""
        f = n.get("f", "")
        if not f:
            return ()
        if f.startswith("std::"):
            return self.keyorder(n, f)
        if not n.get("virt"):
            return (f,) if f in self.funcs else ()
        r = self.clos.get(f)
        if r is None:
            out, st = set(), [f]
            while st:
                x = st.pop()
                if x not in out:
                    out.add(x)
                    st += self.over.get(x, ())
            r = self.clos[f] = tuple(sorted(x for x in out if x in self.funcs))
        return r

    def keyorder(self, n, f):
        """the ordering of a library class with which an associative container finds its keys"""
        m = KEYED.match(f)
        if not m or n["k"] != "mcall" or n["n"] not in KEYOPS or n["n"] in ("erase", "insert") and n["a"] and "_iterator" in n["a"][0].get("t", ""):
            return ()
        k = m[1]
        if k not in self.order:
            bs = {k} | set(self.p.bases(k))
            self.order[k] = tuple(i for i, g in self.funcs.items() if g["qual"].split("::")[-1] == "operator<" and
                                  any(i.startswith(b + "::operator<(") or "operator<(const %s &,const %s &)" % (b, b) in i for b in bs))
        return self.order[k]

    def stdthrows(self, n):
        f, nm = n.get("f", ""), n.get("n", "")
        if n.get("k") == "cast":
            return "std::bad_cast" if n.get("ck") == "Dynamic" and not n.get("t", "").endswith("*") else None
        if f.startswith("std::") and (n["k"] == "mcall" and nm not in STREAMQUIET or n["k"] == "call" and nm in ("operator<<", "operator>>", "getline")):
            o = n.get("o") or (n.get("a") or [None])[0]
            while o and o["k"] in ("cast", "un") and "FFStream" not in o.get("t", ""):
                o = o.get("e") or o.get("a")
            if o and self.p.derives(strip(o.get("t", "")).rstrip("* "), "gpstk::FFStream"):
                return "std::ios_base::failure"
        if not f.startswith("std::"):
            return None
        if nm == "at" and n["k"] == "mcall":
            return "std::out_of_range"
        if n["k"] == "mcall" and nm in POSARG and re.match(r"std::(__cxx11::)?basic_string<", f) and n["a"]:
            a = n["a"][0]
            if nm == "compare" and len(n["a"]) == 1 or iterlike(a) or const0(a):
                return None
            return "std::out_of_range"
        if n["k"] == "call" and re.match(r"sto(i|l|d|f|ul|ull|ll|ld)$", nm):
            return "std::invalid_argument"
        return None

    def callees(self, n):
        """(exception, callee or name) a call node lets out"""
        out = {}
        ts = self.targets(n)
        for t in ts:
            if self.funcs[t].get("nothrow") or self.funcs[t].get("dtor"):
                continue
            for e in self.eff[t]:
                out.setdefault(e, t)
        e = self.stdthrows(n)
        if e:
            out.setdefault(e, n.get("n") or n["k"])
        return out

    def visit(self, n, cur, out):
        if isinstance(n, list):
            for x in n:
                self.visit(x, cur, out)
            return
        if not isinstance(n, dict):
            return
        k = n.get("k")
        if k == "try":
            rest = {}
            self.visit(n["a"], cur, rest)
            for h in n["h"]:
                ct = h.get("ct")
                caught = {t: w for t, w in rest.items() if ct is None or ct in self.supers(t) or t in self.supers(ct)}
                for t in list(caught):
                    if ct is None or ct in self.supers(t):
                        rest.pop(t)
                if caught:
                    self.visit(h["a"], caught, out)
            for t, w in rest.items():
                out.setdefault(t, w)
            return
        if k == "throw":
            if "tt" in n:
                out.setdefault(n["tt"], (n.get("l"), None))
            else:
                for t, w in (cur or {}).items():
                    out.setdefault(t, w)
        elif k in ("call", "mcall", "ctor", "cast"):
            for t, c in self.callees(n).items():
                out.setdefault(t, (n.get("l"), c))
        for v in n.values():
            if isinstance(v, (dict, list)):
                self.visit(v, cur, out)

    def own(self, f):
        out = {}
        for x in f.get("inits", ()):
            self.visit(x, None, out)
        self.visit(f["body"], None, out)
        return out

    def solve(self):
        from .prog import walk
        deps = collections.defaultdict(set)
        for i, f in self.funcs.items():
            for n in walk([f.get("inits", []), f["body"]]):
                if n["k"] in ("call", "mcall", "ctor"):
                    self.sites += 1
                    for t in self.targets(n):
                        deps[t].add(i)
        work = collections.deque(self.funcs)
        inq = set(work)
        while work:
            i = work.popleft()
            inq.discard(i)
            q = base(self.funcs[i]["qual"])
            new = {t: w for t, w in self.own(self.funcs[i]).items() if t not in self.eff[i] and not ((q, t) in self.leaf)}
            if new:
                self.eff[i].update(new)
                for c in deps[i]:
                    if c not in inq:
                        inq.add(c)
                        work.append(c)

    def chain(self, i, t, n=10):
        s = []
        while i in self.eff and t in self.eff[i] and len(s) < n:
            l, v = self.eff[i][t]
            s.append("%s:%s" % (self.funcs[i]["qual"].replace("gpstk::", ""), l))
            if v is None:
                return " > ".join(s)
            i = v
        return " > ".join(s + [str(i).split("(")[0]])
