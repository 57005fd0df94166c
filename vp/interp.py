"""Flow-sensitive abstract interpretation of the type-checked syntax tree.

Abstract values are hash-consed value-numbering terms; control flow merges are
gated (ite) terms, loops over constant tables are unrolled, all other loops are
summarised with fresh loop symbols.  Repository helpers are inlined (so that a
refactoring that extracts one does not change the result); library calls have
models or stay uninterpreted.  There is no solver and no path enumeration."""
import re
from fractions import Fraction
from .terms import *
from . import text
from .prog import AnalysisBroken

STR = "std::basic_string<char>"


class Stop(Exception):
    pass


class State:
    __slots__ = ("mem", "pc", "facts", "eqc")

    def __init__(self):
        self.mem = {}
        self.pc = ()
        self.facts = {}
        self.eqc = {}

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.facts = dict(self.facts)
        s.eqc = dict(self.eqc)
        return s

    # memory ------------------------------------------------------------
    def raw(self, root, path):
        """value at a location without anything stored beneath it"""
        p = path
        for j, n in enumerate(path):
            if isinstance(n, Term) and not isnum(n):
                if (root, path[:j + 1]) in self.mem:
                    continue
                if not any(k[0] == root and len(k[1]) > j and k[1][:j] == path[:j] for k in self.mem):
                    break
                v = self.read(root, path[:j])
                for n in path[j:]:
                    v = fld(v, n)
                return v
        while True:
            v = self.mem.get((root, p))
            if v is not None:
                for n in path[len(p):]:
                    v = fld(v, n)
                return v
            if not p:
                break
            p = p[:-1]
        v = default(root)
        for n in path:
            v = fld(v, n)
        return v

    def read(self, root, path):
        if root[0] == "D" and root[1].op == "ite":
            p = notnull(root[1])
            if p.op == "ptr":
                return self.read(p.args[0], p.args[1] + path)
            if _allptr(p):
                def go(p):
                    return self.read(p.args[0], p.args[1] + path) if p.op == "ptr" else ite(p.args[0], go(p.args[1]), go(p.args[2]))
                return go(p)
        v = self.raw(root, path)
        deeper = [k for k in self.mem if k[0] == root and len(k[1]) > len(path) and k[1][:len(path)] == path]
        if deeper:
            v = compose(v, sorted(((k[1][len(path):], self.mem[k]) for k in deeper), key=lambda kv: len(kv[0])))
        return v

    def write(self, root, path, v):
        if root[0] == "D" and root[1].op == "ite":
            p = notnull(root[1])
            if p.op == "ptr":
                return self.write(p.args[0], p.args[1] + path, v)
            if _allptr(p):
                leaves = {}

                def collect(p, c):
                    if p.op == "ptr":
                        leaves[p.args] = or_(leaves.get(p.args, FALSE), c)
                    else:
                        collect(p.args[1], and_(c, p.args[0]))
                        collect(p.args[2], and_(c, not_(p.args[0])))
                collect(p, TRUE)
                for (r, q), c in leaves.items():
                    self.write(r, q + path, ite(c, v, self.read(r, q + path)))
                return
        if path and isinstance(path[-1], Term) and isnum(path[-1]):
            a = self.mem.get((root, path[:-1]))
            if a is not None and a.op == "arr" and len(a.args) > 64 and 0 <= val(path[-1]) < len(a.args) and a.args[0].op not in ("upd", "arr", "agg", "obj0", "new", "str", "zero", "ptr"):
                i = int(val(path[-1]))
                self.mem[(root, path[:-1])] = T("arr", *(a.args[:i] + (v,) + a.args[i + 1:]))
                return
        for k in [k for k in self.mem if k[0] == root and len(k[1]) >= len(path) and k[1][:len(path)] == path]:
            del self.mem[k]
        self.mem[(root, path)] = v

    def drop(self, pred):
        for k in [k for k in self.mem if pred(k[0])]:
            del self.mem[k]

    # conditions ----------------------------------------------------------
    def simp(self, c):
        if isnum(c):
            return c
        v = self.facts.get(c)
        if v is not None:
            return TRUE if v else FALSE
        if c.op == "not":
            return not_(self.simp(c.args[0]))
        if c.op == "and":
            return and_(*[self.simp(x) for x in c.args])
        if c.op == "or":
            return or_(*[self.simp(x) for x in c.args])
        if c.op == "eq":
            for a, b in (c.args, c.args[::-1]):
                if b.op in ("num", "str") and a in self.eqc:
                    return eq(self.eqc[a], b)
        if c.op == "lt":
            a, b = c.args
            if a in self.eqc or b in self.eqc:
                return lt(self.eqc.get(a, a), self.eqc.get(b, b))
        if c.op == "ite":
            g = self.simp(c.args[0])
            if isnum(g):
                return self.simp(c.args[1] if val(g) else c.args[2])
        return c

    def assume(self, c):
        """refine in place; False when infeasible"""
        c = self.simp(c)
        if isnum(c):
            return val(c) != 0
        self.pc = self.pc + (c,)
        self._fact(c, True)
        return True

    def _fact(self, c, v):
        if c.op == "not":
            return self._fact(c.args[0], not v)
        if c.op == "and" and v:
            for x in c.args:
                self._fact(x, True)
        if c.op == "or" and not v:
            for x in c.args:
                self._fact(x, False)
        self.facts[c] = v
        if c.op == "eq" and v:
            for a, b in (c.args, c.args[::-1]):
                if b.op in ("num", "str"):
                    self.eqc[a] = b
        if c.op == "lt" and v:
            self.facts[eq(*c.args)] = False
            self.facts[lt(c.args[1], c.args[0])] = False
        if c.op == "eq" and v:
            self.facts[lt(*c.args)] = False
            self.facts[lt(*c.args[::-1])] = False


def compose(v, deeper):
    # group by first path element
    groups = {}
    for p, x in deeper:
        groups.setdefault(p[0], []).append((p[1:], x))
    for n, items in groups.items():
        top = fld(v, n)
        rest = []
        for p, x in items:
            if not p:
                top = x
            else:
                rest.append((p, x))
        if rest:
            top = compose(top, rest)
        v = upd(v, n, top)
    return v


def default(root):
    if root[0] == "D":
        return T("deref", root[1])
    return T("sym", *[r for r in root])


def guard(pc):
    return and_(*pc)


def common(a, b):
    n = 0
    while n < len(a) and n < len(b) and a[n] is b[n]:
        n += 1
    return n


def join(a, b):
    """gated merge of two states (either may be None)"""
    if a is None:
        return b
    if b is None:
        return a
    n = common(a.pc, b.pc)
    ga = and_(*a.pc[n:])
    gb = and_(*b.pc[n:])
    # choose the simpler discriminator
    gate = ga if len(a.pc) - n else None
    if gate is None:
        gate = not_(gb)
    if len(a.pc) - n > 1 and len(b.pc) - n >= 1:
        # first differing conjunct usually decides
        if not_(a.pc[n]) is b.pc[n]:
            gate = a.pc[n]
    elif len(a.pc) - n == 0:
        gate = not_(gb)
    r = State()
    r.pc = a.pc[:n]
    o = or_(ga, gb)
    if not isnum(o):
        r.pc = r.pc + (o,)
    elif val(o) == 0:
        r.pc = a.pc[:n]
    r.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) is v}
    r.eqc = {k: v for k, v in a.eqc.items() if b.eqc.get(k) is v}
    if not isnum(o):
        r._fact(o, True)
    if a.mem == b.mem:
        r.mem = dict(a.mem)
        return r
    keys = set(a.mem) | set(b.mem)
    for k in keys:
        va = a.mem.get(k)
        vb = b.mem.get(k)
        if va is vb:
            r.mem[k] = va
            continue
        if k[0][0] == "L" and (va is None or vb is None) and not k[1]:
            # local declared on one side only
            r.mem[k] = va if va is not None else vb
            continue
        if va is None:
            va = a.raw(*k)
        if vb is None:
            vb = b.raw(*k)
        if va.op == "arr" and vb.op == "arr" and len(va.args) == len(vb.args) > 64:
            r.mem[k] = T("arr", *[x if x is y else ite(gate, x, y) for x, y in zip(va.args, vb.args)])
            continue
        r.mem[k] = ite(gate, va, vb)
    return r


def joinall(states):
    r = None
    for s in states:
        if s is not None:
            r = s if r is None else join(r, s)
    return r


class Event:
    __slots__ = ("pc", "fid", "args", "line", "file", "func", "node", "loop", "obj", "extra")

    def __repr__(self):
        return "%s:%d %s(%s)" % (self.file, self.line, self.fid, ", ".join(map(show, self.args)))


class Frame:
    def __init__(self, no, fn):
        self.no = no
        self.fn = fn
        self.rets = []
        self.breaks = []     # stack of lists
        self.conts = []
        self.this = None
        self.thiscls = None


PURE_STD = {"abs", "fabs", "floor", "ceil", "sqrt", "sin", "cos", "tan", "atan", "atan2", "asin", "acos", "exp", "log", "log10", "pow", "fmod",
            "rint", "round", "ldexp", "min", "max", "isdigit", "isalpha", "isspace", "toupper", "tolower", "isupper", "islower", "strlen"}


def strfind(name, h, nd, pos):
    """std::string's find family on known text"""
    n = len(h)
    if name in ("find", "find_first_of", "find_first_not_of"):
        pos = min(pos or 0, 2 ** 63)
        if name == "find":
            r = h.find(nd, pos) if pos <= n else -1
        else:
            r = next((i for i in range(pos, n) if (h[i] in nd) == (name == "find_first_of")), -1)
    else:
        last = n - 1 if pos is None else min(pos, n - 1)
        if name == "rfind":
            r = h.rfind(nd, 0, (n if pos is None else min(pos, n)) + len(nd))
        else:
            r = next((i for i in range(last, -1, -1) if (h[i] in nd) == (name == "find_last_of")), -1)
    return r if r >= 0 else 2 ** 64 - 1


class Interp:
    MAXDEPTH = 24
    MAXUNROLL = 600

    def __init__(self, prog, inline=None, models=None, const_globals=True):
        self.prog = prog
        self.inline_policy = inline
        self.models = models or {}
        self.const_globals = const_globals
        self.events = []
        self.record = lambda fid, name: False
        self.frames = []
        self.nfr = 0
        self.ntmp = 0
        self.seq = 0
        self.catchers = [[]]     # throws reaching the top: (state, type, line)
        self.loopdepth = 0
        self.rootcls = {}
        self.gcache = {}
        self.notes = []
        self.loops = []         # loops summarised: symbols, state before, after one turn, exits
        self.mutable_globals = set()
        self.steps = 0
        self.maxsteps = 400000

    # ------------------------------------------------------------------
    keymemo = {}

    def fresh(self, *tag):
        self.seq += 1
        return T("sym", *(tag + ("#%d" % self.seq,)))

    def note(self, n, what):
        self.notes.append((self.frames[-1].fn["file"] if self.frames else "?", n.get("l", 0), what))

    # entry point -------------------------------------------------------
    def run(self, fn, this=None, args=None, state=None, cls=None, thisval=None):
        """Summarise fn. args: list of Terms (values; for reference parameters a
        value is placed in a root ('P', name) unless it is a ptr term).
        Returns dict(ret=Term|None, state=State|None, throws=[...])."""
        st = state or State()
        f = self.push(fn)
        if this is None:
            this = T("ptr", ("this",), ())
        f.this = this
        if fn.get("cls"):
            f.thiscls = cls or fn["cls"]
            self.rootcls[this.args[0]] = f.thiscls
        if thisval is not None:
            st.write(this.args[0], this.args[1], thisval)
        args = args or [None] * len(fn["params"])
        for p, a in zip(fn["params"], args):
            self.bindparam(st, f, p, a)
        self.catchers.append([])
        end = self.runbody(fn, f, st)
        throws = self.catchers.pop()
        self.frames.pop()
        return self.finish(fn, f, end, throws)

    def bindparam(self, st, f, p, a):
        slot = ("L", f.no, p["i"])
        t = p["t"]
        if isref(t):
            if a is None:
                root = ("P", p["n"] or str(p["i"]))
                self.rootcls.setdefault(root, strip(t))
                a = T("ptr", root, ())
            elif a.op != "ptr":
                root = ("P", p["n"] or str(p["i"]))
                st.write(root, (), a)
                a = T("ptr", root, ())
        elif isptr(t):
            if a is None:
                root = ("P", p["n"] or str(p["i"]))
                a = T("ptr", root, ())
        elif a is None:
            a = T("sym", "P", p["n"] or str(p["i"]))
        st.write(slot, (), a)

    def finish(self, fn, f, end, throws):
        rets = list(f.rets)
        states = [s for s, v in rets]
        val_ = None
        final = None
        for s, v in rets:
            if final is None:
                final, val_ = s, v
            else:
                if v is not None:
                    s2 = s.copy()
                    final = final.copy()
                    final.mem[(("RET",), ())] = val_
                    s2.mem[(("RET",), ())] = v
                    final = join(final, s2)
                    val_ = final.mem.pop((("RET",), ()))
                else:
                    final = join(final, s)
        if end is not None:
            final = end if final is None else join(final, end)
        return {"ret": val_, "state": final, "throws": throws, "nrets": len(rets), "fallsoff": end is not None}

    def push(self, fn):
        self.nfr += 1
        f = Frame(self.nfr, fn)
        self.frames.append(f)
        return f

    def runbody(self, fn, f, st):
        if fn.get("ctor"):
            st = self.ctorinits(fn, f, st)
            if st is None:
                return None
        return self.stmt(fn["body"], st)

    def ctorinits(self, fn, f, st):
        rec = self.prog.rec(fn["cls"])
        written = set()
        root, path = f.this.args
        for i in fn["inits"]:
            if "deleg" in i or "base" in i:
                e = i["e"]
                if e and e["k"] == "ctor":
                    self.construct(e, st, (root, path), i.get("base") or fn["cls"])
                continue
            if "m" in i:
                e = i["e"]
                if e is None:
                    continue
                if e["k"] == "ctor" and not e.get("copy") and ("func", e["f"]) in self.prog.raw:
                    self.construct(e, st, (root, path + (i["m"],)), e.get("t"))
                else:
                    fldt = None
                    if rec:
                        for fd in rec["fields"]:
                            if fd["n"] == i["m"]:
                                fldt = fd["t"]
                    if fldt and isref(fldt):
                        l = self.lv(e, st)
                        v = T("ptr", *l) if l else self.ev(e, st)
                    else:
                        v = self.ev(e, st)
                    st.write(root, path + (i["m"],), v)
                written.add(i["m"])
        return st

    def construct(self, e, st, loc, t):
        """run constructor expression e on the object at loc"""
        fn = self.prog.func(e["f"])
        root, path = loc
        if e.get("copy"):
            v = self.ev(e["a"][0], st)
            if path == () and self.prog.rec(t or "") and self.rootcls.get(root) not in (None, t):
                for fd in self.prog.fields(t):
                    st.write(root, path + (fd["n"],), fld(v, fd["n"]))
            else:
                st.write(root, path, v)
            return
        if fn is None or not self.may_inline(e["f"], fn):
            vals = [self.ev(a, st) for a in e["a"]]
            m = self.model_ctor(e, vals, st)
            if m is None:
                m = T("new", t or e.get("t"), *vals)
            if root[0] != "T" and (root == ("this",) or (self.frames and self.frames[-1].this is not None and self.frames[-1].this.args[0] == root and not path)) :
                # opaque base constructor: leaves other members alone
                st.mem[(root, path)] = st.mem.get((root, path), default(root) if not path else T("ctor", m))
            else:
                st.write(root, path, m)
            return
        self.callfn(fn, st, T("ptr", root, path), e["a"], e, cls=t)

    def may_inline(self, fid, fn):
        if len(self.frames) > self.MAXDEPTH:
            return False
        if sum(1 for f in self.frames if f.fn["id"] == fid) >= 2:
            return False
        if self.inline_policy is not None:
            return self.inline_policy(fid, fn)
        return True

    # calls --------------------------------------------------------------
    def callfn(self, fn, st, this, argexprs, node, cls=None, argvals=None):
        """inline fn on state st (mutated); returns the value"""
        bound = []
        if argvals is None:
            for p, a in zip(fn["params"], argexprs):
                bound.append(self.arg(p["t"], a, st))
        else:
            bound = argvals
        f = self.push(fn)
        f.this = this
        f.thiscls = cls or fn.get("cls")
        if this is not None and fn.get("cls") and this.args[0] not in self.rootcls and not this.args[1]:
            self.rootcls[this.args[0]] = f.thiscls
        for p, a in zip(fn["params"], bound):
            st.write(("L", f.no, p["i"]), (), a)
        inner = st.copy()
        end = self.runbody(fn, f, inner)
        self.frames.pop()
        r = self.finish(fn, f, end, [])
        fs = r["state"]
        if fs is None:
            raise Dead()
        no = f.no
        fs.drop(lambda root: root[0] == "L" and root[1] == no)
        st.mem, st.pc, st.facts, st.eqc = fs.mem, fs.pc, fs.facts, fs.eqc
        v = r["ret"]
        if v is not None and isref(fn["ret"]) and v.op != "ptr":
            v = v
        return v if v is not None else T("void")

    def arg(self, ptype, a, st):
        if isref(ptype):
            l = self.lv(a, st)
            if l is None:
                v = self.ev(a, st)
                if v.op == "ptr" and isref_expr(a):
                    return v
                l = self.temp(v, st, uncast(a).get("t") if "(" not in uncast(a).get("t", "(") else a.get("t"))
            return T("ptr", l[0], l[1])
        return self.decay(ptype, a, st) or self.ev(a, st)

    def decay(self, t, a, st):
        """an array given where a pointer is wanted"""
        if isptr(t) and a.get("t", "").endswith("]") and a["k"] in ("var", "mem", "idx"):
            l = self.lv(a, st)
            if l is not None:
                # an array that is itself an element: point to its first element
                return T("ptr", l[0], l[1] + (num(0),) if l[1] and isinstance(l[1][-1], Term) else l[1])
        return None

    def temp(self, v, st, t=None):
        self.ntmp += 1
        root = ("T", self.ntmp)
        st.write(root, (), v)
        if t:
            self.rootcls[root] = strip(t)
        return (root, ())

    # statements ----------------------------------------------------------
    def stmt(self, n, st):
        """returns the fall-through state or None"""
        if n is None or st is None:
            return st
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Stop("step budget")
        k = n["k"]
        try:
            return getattr(self, "s_" + k)(n, st)
        except Dead:
            return None

    def s_block(self, n, st):
        for s in n["b"]:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def s_nop(self, n, st):
        return st

    def s_expr(self, n, st):
        self.ev(n["e"], st, discard=True)
        return st

    def s_decl(self, n, st):
        for v in n["v"]:
            self.declvar(v, st)
        return st

    def declvar(self, v, st):
        if "static" in v:
            return
        f = self.frames[-1]
        slot = ("L", f.no, v["i"])
        t = v["t"]
        e = v.get("e")
        if e is None:
            st.write(slot, (), T("uninit", v["n"]))
            return
        if isref(t):
            l = self.lv(e, st)
            if l is None:
                x = self.ev(e, st)
                if x.op == "ptr" and isref_expr(e):
                    l = x.args
                else:
                    l = self.temp(x, st, t)
            st.write(slot, (), T("ptr", l[0], l[1]))
            return
        if e["k"] == "ctor" and not e.get("copy") and ("func", e["f"]) in self.prog.raw:
            self.rootcls[slot] = strip(t)
            st.write(slot, (), T("obj0", strip(t)))
            self.construct(e, st, (slot, ()), strip(t))
            return
        self.rootcls[slot] = strip(t)
        st.write(slot, (), self.decay(t, e, st) or self.loaded(e, self.ev(e, st), st))

    def loaded(self, e, v, st):
        """a call that returned a reference, used as a value of scalar type"""
        if v.op == "ptr" and e["k"] in ("mcall", "call", "opcall") and (isint(e.get("t", "")) or strip(e.get("t", "")) in ("double", "float", "long double")):
            return self.rd(v.args, st)
        return v

    def branch(self, c, st):
        """(true-state, false-state)"""
        c = st.simp(truth(c))
        if isnum(c):
            return (st, None) if val(c) else (None, st)
        a = st.copy()
        b = st.copy()
        ta = a.assume(c)
        tb = b.assume(not_(c))
        return (a if ta else None, b if tb else None)

    def cond(self, e, st):
        """evaluate a condition with short-circuit; returns (T state, F state)"""
        if e["k"] == "bin" and e["op"] in ("&&", "||"):
            if pure(e["b"], self.prog):
                c = self.ev(e, st)
                return self.branch(c, st)
            t1, f1 = self.cond(e["a"], st)
            if e["op"] == "&&":
                if t1 is None:
                    return None, f1
                t2, f2 = self.cond(e["b"], t1)
                return t2, join(f1, f2)
            if f1 is None:
                return t1, None
            t2, f2 = self.cond(e["b"], f1)
            return join(t1, t2), f2
        if e["k"] == "un" and e["op"] == "!":
            t, f = self.cond(e["a"], st)
            return f, t
        c = self.ev(e, st)
        return self.branch(c, st)

    def s_if(self, n, st):
        if n.get("init"):
            st = self.stmt(n["init"], st)
        if n.get("cv"):
            self.declvar(n["cv"], st)
        a, b = self.cond(n["c"], st)
        if a is not None:
            a = self.stmt(n["a"], a)
        if b is not None and n.get("b"):
            b = self.stmt(n["b"], b)
        return join(a, b)

    def s_return(self, n, st):
        f = self.frames[-1]
        v = None
        if n.get("e") is not None:
            e = n["e"]
            if isref(f.fn["ret"]):
                l = self.lv(e, st)
                v = T("ptr", l[0], l[1]) if l else self.ev(e, st)
            else:
                v = self.ev(e, st)
        f.rets.append((st, v))
        return None

    def s_break(self, n, st):
        self.frames[-1].breaks[-1].append(st)
        return None

    def s_continue(self, n, st):
        self.frames[-1].conts[-1].append(st)
        return None

    def s_goto(self, n, st):
        self.note(n, "goto")
        return None

    def s_label(self, n, st):
        return self.stmt(n["a"], st)

    def s_otherstmt(self, n, st):
        self.note(n, "statement " + n["c"])
        return st

    def s_case(self, n, st):
        return self.stmt(n["a"], st)
    s_default = s_case

    def s_switch(self, n, st):
        v = self.ev(n["c"], st)
        f = self.frames[-1]
        body = n["a"]["b"] if n["a"]["k"] == "block" else [n["a"]]
        # labels in order
        labels = []

        def collect(s):
            while s and s["k"] in ("case", "default"):
                labels.append(s)
                s = s["a"]
        for s in body:
            collect(s)
        conds = {}
        alls = []
        for l in labels:
            if l["k"] == "case":
                cv = self.ev(l["c"], st)
                if l.get("c2"):
                    c2 = self.ev(l["c2"], st)
                    c = and_(not_(lt(v, cv)), not_(lt(c2, v)))
                else:
                    c = eq(v, cv)
                conds[id(l)] = c
                alls.append(c)
        nomatch = and_(*[not_(c) for c in alls])
        hasdef = any(l["k"] == "default" for l in labels)
        f.breaks.append([])
        active = None
        for s in body:
            inner = s
            cs = []
            while inner and inner["k"] in ("case", "default"):
                cs.append(nomatch if inner["k"] == "default" else conds[id(inner)])
                inner = inner["a"]
            if cs:
                e = st.copy()
                if e.assume(or_(*cs)):
                    active = e if active is None else join(e, active)
            if active is not None:
                active = self.stmt(inner, active)
        brk = f.breaks.pop()
        outs = list(brk)
        if active is not None:
            outs.append(active)
        if not hasdef:
            e = st.copy()
            if e.assume(nomatch):
                outs.append(e)
        return joinall(outs)

    # loops -------------------------------------------------------------
    def s_while(self, n, st):
        return self.loop(n, st, n["c"], n["a"], None, True)

    def s_do(self, n, st):
        return self.loop(n, st, n["c"], n["a"], None, False)

    def s_for(self, n, st):
        if n.get("init"):
            st = self.stmt(n["init"], st)
            if st is None:
                return None
        return self.loop(n, st, n.get("c"), n["a"], n.get("inc"), True)

    def s_rangefor(self, n, st):
        sl = self.lv(n["e"], st)
        seqv = self.rd(sl, st) if sl is not None else self.ev(n["e"], st)
        f = self.frames[-1]
        if seqv.op == "empty":
            return st
        if seqv.op == "arr" and len(seqv.args) <= self.MAXUNROLL:
            f.breaks.append([])
            for i, x in enumerate(seqv.args):
                if st is None:
                    break
                f.conts.append([])
                if sl is not None and isref(n["v"]["t"]):
                    st.write(("L", f.no, n["v"]["i"]), (), T("ptr", sl[0], sl[1] + (num(i),)))
                else:
                    self.bindloopvar(n["v"], x, st)
                st = self.stmt(n["a"], st)
                st = joinall([st] + f.conts.pop())
            return joinall([st] + f.breaks.pop())
        elem = T("elemof", seqv, T("sym", "loop", "%s:%d" % (self.frames[-1].fn["id"], n["l"])))
        return self.havocloop(n, st, None, n["a"], None, pre=lambda s: self.bindloopvar(n["v"], elem, s))

    def bindloopvar(self, v, x, st):
        slot = ("L", self.frames[-1].no, v["i"])
        if isref(v["t"]):
            l = self.temp(x, st, v["t"])
            st.write(slot, (), T("ptr", *l))
        else:
            st.write(slot, (), x)

    def loop(self, n, st, c, body, inc, pretest):
        f = self.frames[-1]
        outs = []
        cur = st
        it = 0
        # try to unroll while the condition stays decided
        entry = st.copy()
        nev, nthrow, nret = len(self.events), [len(x) for x in self.catchers], len(f.rets)
        notes = len(self.notes)
        ok = True
        while True:
            if pretest or it > 0:
                if c is not None:
                    probe = cur.copy()
                    try:
                        a, b = self.cond(c, probe)
                    except Dead:
                        return joinall(outs)
                    if a is not None and b is not None:
                        ok = False
                        break
                    if a is None:
                        outs.append(b)
                        break
                    cur = a
            elif c is None and not pretest:
                pass
            if it >= self.MAXUNROLL or (c is None and it >= 1):
                ok = False
                break
            f.breaks.append([])
            f.conts.append([])
            cur = self.stmt(body, cur)
            conts = f.conts.pop()
            outs += f.breaks.pop()
            cur = joinall([cur] + conts)
            if cur is None:
                break
            if inc is not None:
                try:
                    self.ev(inc, cur, discard=True)
                except Dead:
                    cur = None
                    break
            it += 1
        if ok:
            return joinall(outs)
        # summarise
        del self.events[nev:]
        del self.notes[notes:]
        for x, m in zip(self.catchers, nthrow):
            del x[m:]
        del f.rets[nret:]
        return self.havocloop(n, entry, c, body, inc, pretest=pretest)

    def havocloop(self, n, st, c, body, inc, pre=None, pretest=True):
        f = self.frames[-1]
        tag = "%s:%d" % (f.fn["id"].split("(")[0], n["l"])
        base = st
        changed = set()
        self.loopdepth += 1
        try:
            for rnd in range(5):
                s = base.copy()
                marks = {}
                for k in changed:
                    m = T("sym", "loop", tag, keyname(k))
                    marks[k] = m
                    s.mem[k] = m
                    # forget anything known beneath
                    for k2 in [k2 for k2 in s.mem if k2[0] == k[0] and len(k2[1]) > len(k[1]) and k2[1][:len(k[1])] == k[1]]:
                        if k2 not in changed:
                            del s.mem[k2]
                nev, nthrow, nret, nn = len(self.events), [len(x) for x in self.catchers], len(f.rets), len(self.notes)
                outs = []
                f.breaks.append([])
                f.conts.append([])
                sf = None
                try:
                    if pre:
                        pre(s)
                        sf = s.copy()
                        cur = s
                    elif c is not None and pretest:
                        cur, sf = self.cond(c, s)
                    else:
                        cur = s
                    if cur is not None:
                        cur = self.stmt(body, cur)
                except Dead:
                    cur = None
                conts = f.conts.pop()
                brk = f.breaks.pop()
                cur = joinall([cur] + conts)
                if cur is not None:
                    try:
                        if inc is not None:
                            self.ev(inc, cur, discard=True)
                        if c is not None and not pretest:
                            _, sf = self.cond(c, cur.copy())
                    except Dead:
                        cur = None
                new = set()
                if cur is not None:
                    for k, v in cur.mem.items():
                        if k[0][0] in ("T",) and k not in base.mem:
                            continue
                        if k in changed:
                            continue
                        if k[0][0] == "L" and k[0][1] == f.no and k not in base.mem and not any(kb[0] == k[0] for kb in base.mem):
                            continue   # declared inside
                        old = base.mem.get(k)
                        if old is None:
                            old = base.raw(*k)
                        if old is not v:
                            new.add(k)
                if not new or rnd == 4:
                    # finalise
                    repd = {}
                    if cur is not None:
                        for k, m in marks.items():
                            v = cur.mem.get(k)
                            if v is None:
                                continue
                            if v.op == "cat" and v.args[0] is m:
                                b0 = base.raw(*k)
                                repd[k] = cat(b0, T("rep", tag, cat(*v.args[1:])))
                    exits = []
                    if sf is not None:
                        exits.append(sf)
                    exits += brk
                    self.loops.append(dict(fn=f.fn, line=n["l"], tag=tag, marks=marks, base=base, next=cur, exits=exits))
                    out = []
                    for x in exits:
                        x2 = x.copy()
                        # conditions gathered inside the body are per-iteration facts
                        extra = x.pc[len(base.pc):]
                        x2.pc = base.pc + tuple(extra)
                        for k, r in repd.items():
                            v = x2.mem.get(k)
                            if v is marks[k]:
                                x2.mem[k] = r
                            elif v is not None and v.op == "cat" and v.args[0] is marks[k]:
                                x2.mem[k] = cat(r, *v.args[1:])
                        out.append(x2)
                    return joinall(out)
                del self.events[nev:]
                del self.notes[nn:]
                for x, m in zip(self.catchers, nthrow):
                    del x[m:]
                del f.rets[nret:]
                changed |= new
        finally:
            self.loopdepth -= 1

    # exceptions ----------------------------------------------------------
    def s_try(self, n, st):
        entry = st.copy()
        self.catchers.append([])
        end = self.stmt(n["a"], st)
        thrown = self.catchers.pop()
        outs = [end]
        for h in n["h"]:
            ct = h.get("ct")
            mine, rest = [], []
            for t in thrown:
                (mine if self.catches(ct, t[1]) else rest).append(t)
            thrown = rest
            # unknown calls may throw: the handler is reachable with havoced state
            if mine:
                s = joinall([x[0] for x in mine])
                s = s.copy()
            elif self.quietcalls:
                continue
            else:
                s = entry.copy()
                s.pc = s.pc + (T("pred", "throws", "%s:%d" % (self.frames[-1].fn["id"], h["l"])),)
                havockeys = end.mem.keys() if end is not None else ()
                for k in havockeys:
                    if entry.mem.get(k) is not end.mem[k] and k[0][0] not in ("T",):
                        if k in entry.mem or k[0][0] != "L":
                            s.mem[k] = T("sym", "caught", h["l"], keyname(k))
            if h.get("v"):
                slot = ("L", self.frames[-1].no, h["v"]["i"])
                v = self.fresh("exc")
                if isref(h["v"]["t"]):
                    s.write(slot, (), T("ptr", ("EXC", h["l"]), ()))
                else:
                    s.write(slot, (), v)
            self.catchstack.append((ct, mine))
            outs.append(self.stmt(h["a"], s))
            self.catchstack.pop()
        self.catchers[-1].extend(thrown)
        # handler states first so that the gate is the throw condition
        r = None
        for o in reversed(outs):
            if o is not None:
                r = o if r is None else join(r, o)
        return r
    catchstack = []
    quietcalls = False     # calls that cannot be seen into are taken not to throw
    textout = False        # stream contents become laid-out text

    def catches(self, ct, tt):
        if ct is None or tt is None:
            return True
        return strip(ct) == strip(tt) or strip(ct) in self.prog.bases(strip(tt))

    def throw(self, st, t, line, info=None):
        self.catchers[-1].append((st.copy(), t, line, self.frames[-1].fn["id"], info))
        raise Dead()

    # lvalues --------------------------------------------------------------
    def lv(self, e, st):
        k = e["k"]
        if k == "var":
            slot = ("L", self.frames[-1].no, e["i"])
            v = st.mem.get((slot, ()))
            if v is not None and v.op == "ptr" and not isptr(e["t"]):
                return v.args
            if v is not None and v.op == "ite" and not isptr(e["t"]) and _allptr(v):
                return (("D", v), ())
            if v is None and (slot, ()) not in st.mem:
                # captured or enclosing frame variable (lambda)
                for f in reversed(self.frames[:-1]):
                    if (("L", f.no, e["i"]), ()) in st.mem and f.fn is self.frames[-1].fn:
                        return (("L", f.no, e["i"]), ())
            return (slot, ())
        if k == "gvar":
            return (("G", e["q"]), ())
        if k == "mem":
            o = e["o"]
            if o["k"] == "this":
                r, p = self.frames[-1].this.args
                return self.refmember(r, p + (e.get("un") or e["n"],), e, st)
            if e.get("arrow"):
                v = self.ev(o, st)
                l = self.deref(v)
            else:
                l = self.lv(o, st)
                if l is None:
                    v = self.ev(o, st)
                    if v.op == "ptr":
                        l = v.args
                    else:
                        l = self.temp(v, st, o.get("t"))
            return self.refmember(l[0], l[1] + (e.get("un") or e["n"],), e, st)
        if k == "idx":
            at = e["a"].get("t", "")
            i = self.ev(e["b"], st)
            if isptr(at):
                v = self.ev(e["a"], st)
                l = self.deref(v)
                if v.op == "ptr" and l[1] and isinstance(l[1][-1], Term):
                    return (l[0], l[1][:-1] + (add(l[1][-1], i),))
                return (l[0], l[1] + (i,))
            l = self.lv(e["a"], st)
            if l is None:
                l = self.temp(self.ev(e["a"], st), st)
            self.inside(l, i, e, st)
            return (l[0], l[1] + (i,))
        if k == "un" and e["op"] == "*":
            return self.deref(self.ev(e["a"], st))
        if k == "un" and e["op"] in ("++", "--"):
            self.ev(e, st)
            return self.lv(e["a"], st)
        if k == "asg":
            self.ev(e, st)
            return self.lv(e["a"], st)
        if k == "cast":
            if e["ck"] in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived"):
                return self.lv(e["e"], st)
            if e["ck"] == "Dynamic" and not isptr(e["t"]):
                return self.lv(e["e"], st)
            return None
        if k == "cond":
            c = st.simp(truth(self.ev(e["c"], st)))
            if isnum(c):
                return self.lv(e["a"] if val(c) else e["b"], st)
            return None
        if k == "mcall":
            # element access yields a location
            n = e["n"]
            if n in ("operator[]", "at") and e["o"]["t"].startswith(("std::vector", "const std::vector", "std::map", "const std::map", "std::basic_string", "const std::basic_string", "std::array", "std::valarray", "const std::valarray")):
                l = self.lv(e["o"], st)
                if l is None:
                    l = self.temp(self.ev(e["o"], st), st)
                if re.match(r"(const )?std::map", e["o"]["t"]):
                    m = self.mapslot(l, strip(e["o"]["t"]), self.sval(e["a"][0], st), st)
                    if m is not None:
                        return m
                i = self.ev(e["a"][0], st)
                self.inside(l, i, e, st)
                return (l[0], l[1] + (i,))
            if n in ("operator*", "operator->"):
                v = self.ev(e, st)
                if v.op == "ptr":
                    return v.args
                return None
            v = self.ev(e, st)
            if v.op == "ptr":
                return v.args
            return self.temp(v, st, e.get("t"))
        if k == "call":
            v = self.ev(e, st)
            if v.op == "ptr":
                return v.args
            return self.temp(v, st, e.get("t"))
        return None

    def refmember(self, root, path, e, st):
        v = st.mem.get((root, path))
        if v is not None and v.op == "ptr" and not isptr(e["t"]):
            return v.args
        return (root, path)

    def deref(self, v):
        if v.op == "ite":
            v = notnull(v)
        if v.op == "ptr":
            return v.args
        return (("D", v), ())

    # rvalues ---------------------------------------------------------------
    def ev(self, e, st, discard=False):
        if e is None:
            return T("void")
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Stop("step budget")
        return getattr(self, "e_" + e["k"])(e, st)

    def e_int(self, e, st):
        return num(e["v"])

    def e_chr(self, e, st):
        return num(e["v"])

    def e_bool(self, e, st):
        return TRUE if e["v"] else FALSE

    def e_null(self, e, st):
        return num(0)

    def e_flt(self, e, st):
        sp = e.get("sp", "").rstrip("fFlL")
        try:
            if re.match(r"^[0-9.]+([eE][-+]?[0-9]+)?$", sp):
                return num(Fraction(sp))
            return num(Fraction(repr(float(e["v"]))))
        except (ValueError, OverflowError):
            return T("sym", "inf")

    def e_str(self, e, st):
        return sstr(e["v"])

    def e_enum(self, e, st):
        return num(e["v"])

    def e_fn(self, e, st):
        return T("fn", e["f"])

    def e_mfn(self, e, st):
        return T("fn", e["f"])

    def e_this(self, e, st):
        return self.frames[-1].this

    def e_zero(self, e, st):
        t = e.get("t", "")
        if t.endswith("*") or not ("::" in t or "[" in t):
            return num(0)
        return T("zero", t)

    def e_typeid(self, e, st):
        return self.fresh("typeid")

    def e_var(self, e, st):
        l = self.lv(e, st)
        if l[0][0] == "D" and not l[1] and l[0][1].op == "ite" and _allptr(l[0][1]):
            return self.readptr(l[0][1], st)
        return st.read(*l)

    def readptr(self, p, st):
        if p.op == "ptr":
            return st.read(*p.args)
        if p.op == "ite":
            return ite(p.args[0], self.readptr(p.args[1], st), self.readptr(p.args[2], st))
        return st.read(("D", p), ())

    def e_gvar(self, e, st):
        q = e["q"]
        root = ("G", q)
        if q.endswith("::npos"):
            return num(2 ** 64 - 1)
        if any(k[0] == root for k in st.mem):
            return st.read(root, ())
        return self.gval(q)

    def gval(self, q):
        if q in self.gcache:
            return self.gcache[q]
        self.gcache[q] = T("sym", "G", q)
        v = self.prog.var(q)
        if v is not None and v.get("e") is not None and q not in self.mutable_globals and self.const_globals and (v.get("const") or q not in self.written_globals()):
            s = State()
            fr = self.push({"id": "<init>", "file": v["file"], "ret": "void", "params": []})
            fr.this = T("ptr", ("nothis",), ())
            fr.rets = []
            try:
                self.gcache[q] = self.ev(v["e"], s)
            except Dead:
                pass
            self.frames.pop()
        return self.gcache[q]

    _wg = {}

    def written_globals(self):
        """globals assigned anywhere in the parsed program (syntactic, resolved)"""
        key = id(self.prog)
        if key in self._wg:
            return self._wg[key]
        out = set()
        for f in self.prog.all("func"):
            for n in walkbody(f):
                tgt = None
                if n["k"] == "asg":
                    tgt = n["a"]
                elif n["k"] == "un" and n["op"] in ("++", "--", "post++", "post--"):
                    tgt = n["a"]
                elif n["k"] == "un" and n["op"] == "&":
                    tgt = n["a"]
                elif n["k"] == "mcall" and not n["f"].endswith(" const") and n["n"] not in ("find", "begin", "end", "size", "operator[]", "at"):
                    tgt = n["o"]
                elif n["k"] == "mcall" and n["n"] == "operator[]" and not n["f"].endswith(" const"):
                    tgt = None
                while tgt is not None and tgt["k"] in ("mem", "idx", "mcall"):
                    tgt = tgt.get("o") or tgt.get("a")
                    if isinstance(tgt, list):
                        tgt = None
                if tgt is not None and tgt["k"] == "gvar":
                    out.add(tgt["q"])
        self._wg[key] = out
        return out

    def e_mem(self, e, st):
        o = e["o"]
        l = self.lv(e, st)
        if l[0][0] == "G" and not any(k[0] == l[0] for k in st.mem):
            v = self.gval(l[0][1])
            for n in l[1]:
                v = fld(v, n)
            return v
        return self.unionview(e, self.rd(l, st))

    def unionview(self, e, v):
        """the members of a union are views of the same bits"""
        if e["k"] == "mem" and e.get("un") and isint(e["t"]):
            v = num(wrap(int(val(v)), e["t"])) if isnum(v) and val(v).denominator == 1 else self.ranged(T("cast", e["t"], v))
        return v

    def rd(self, l, st):
        if l[0][0] == "D" and l[0][1].op == "ite" and _allptr(l[0][1]):
            p = l[0][1]

            def go(p):
                if p.op == "ptr":
                    return st.read(p.args[0], p.args[1] + l[1])
                return ite(p.args[0], go(p.args[1]), go(p.args[2]))
            return go(p)
        if l[0][0] == "G" and not any(k[0] == l[0] for k in st.mem):
            v = self.gval(l[0][1])
            for n in l[1]:
                v = fld(v, n)
            return v
        return st.read(*l)

    def e_idx(self, e, st):
        l = self.lv(e, st)
        return self.rd(l, st)

    def e_cond(self, e, st):
        c = st.simp(truth(self.ev(e["c"], st)))
        if isnum(c):
            return self.ev(e["a"] if val(c) else e["b"], st)
        a, b = st.copy(), st.copy()
        fa, fb = a.assume(c), b.assume(not_(c))
        va = vb = None
        try:
            va = self.ev(e["a"], a) if fa else None
        except Dead:
            a = None
        try:
            vb = self.ev(e["b"], b) if fb else None
        except Dead:
            b = None
        if va is None and vb is None:
            raise Dead()
        a2 = a if va is not None else None
        b2 = b if vb is not None else None
        j = join(a2, b2)
        st.mem, st.pc, st.facts, st.eqc = j.mem, j.pc, j.facts, j.eqc
        if va is None:
            return vb
        if vb is None:
            return va
        return ite(c, va, vb)

    def e_cast(self, e, st):
        ck = e["ck"]
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived"):
            v = self.ev(e["e"], st)
            return v
        v = self.ev(e["e"], st)
        if v.op == "ptr" and ck in ("FloatingToIntegral", "IntegralToFloating", "FloatingCast", "IntegralCast", "FloatingToBoolean", "IntegralToBoolean"):
            v = self.rd(v.args, st)
        t = e["t"]
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return truth(v)
        if ck == "FloatingToIntegral":
            if isnum(v):
                f = val(v)
                return num(int(f))
            return self.ranged(T("trunc", v))
        if ck == "IntegralCast":
            if isnum(v):
                return num(wrap(int(val(v)), t))
            if self.bitwidth and strip(e["e"].get("t", "")) != strip(t) and v.op != "ptr":
                return self.bitfold(self.ranged(T("cast", t, v)))
            if self.keepcasts and narrows(e["e"].get("t", ""), t):
                return T("cast", t, v)
            return v
        if ck == "FloatingCast":
            if t == "float" and not isnum(v) and self.keepcasts:
                return T("cast", t, v)
            return v
        if ck == "Dynamic":
            if isptr(t):
                if v.op == "ptr":
                    return v
                return T("dyncast", t, v)
            return v
        if ck == "ToVoid":
            return T("void")
        return v
    keepcasts = False

    def e_un(self, e, st):
        op = e["op"]
        if op == "!":
            return not_(truth(self.ev(e["a"], st)))
        if op == "-":
            return neg(self.valueof(self.ev(e["a"], st), st))
        if op == "+":
            return self.valueof(self.ev(e["a"], st), st)
        if op == "*":
            return self.rd(self.deref(self.ev(e["a"], st)), st)
        if op == "&":
            if e["a"]["k"] == "fn":
                return self.ev(e["a"], st)
            l = self.lv(e["a"], st)
            return T("ptr", *l) if l else self.fresh("addr")
        if op in ("++", "--", "post++", "post--"):
            l = self.lv(e["a"], st)
            old = self.rd(l, st)
            if old.op == "ptr":
                p = old.args[1]
                d = 1 if "+" in op else -1
                if p and isinstance(p[-1], Term):
                    new = T("ptr", old.args[0], p[:-1] + (add(p[-1], num(d)),))
                else:
                    new = T("ptr", old.args[0], p + (num(d),))
            else:
                new = self.binop(op[-1], old, num(1), e["a"]["t"], "", st) if self.bitwidth and isint(e["a"].get("t", "")) else add(old, num(1 if "+" in op else -1))
            st.write(l[0], l[1], new)
            return old if op.startswith("post") else new
        if op == "~":
            v = self.ev(e["a"], st)
            if isnum(v):
                return num(wrap(~int(val(v)), e["t"]))
            return T("cast", e["t"], T("bitnot", v)) if self.bitwidth else T("bitnot", v)
        return T("un" + op, self.ev(e["a"], st))

    def e_bin(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            a = truth(self.ev(e["a"], st))
            a = st.simp(a)
            if isnum(a):
                if (val(a) != 0) == (op == "||"):
                    return a
                return truth(self.ev(e["b"], st))
            s2 = st.copy()
            ok = s2.assume(a if op == "&&" else not_(a))
            if not ok:
                return a
            if pure(e["b"], self.prog):
                b = st.simp(truth(self.ev(e["b"], s2)))
                return and_(a, b) if op == "&&" else or_(a, b)
            try:
                b = truth(self.ev(e["b"], s2))
            except Dead:
                # right operand never completes
                if not st.assume(not_(a) if op == "&&" else a):
                    raise
                return FALSE if op == "&&" else TRUE
            s1 = st.copy()
            s1.assume(not_(a) if op == "&&" else a)
            j = join(s1, s2)
            st.mem, st.pc, st.facts, st.eqc = j.mem, j.pc, j.facts, j.eqc
            return and_(a, b) if op == "&&" else or_(a, b)
        if op == ",":
            self.ev(e["a"], st)
            return self.ev(e["b"], st)
        a = self.ev(e["a"], st)
        b = self.ev(e["b"], st)
        if a.op == "ptr" and (isarith(e["a"].get("t", "")) or self.prog.enum(strip(e["a"].get("t", "")))):
            a = self.rd(a.args, st)
        if b.op == "ptr" and (isarith(e["b"].get("t", "")) or self.prog.enum(strip(e["b"].get("t", "")))):
            b = self.rd(b.args, st)
        return self.binop(op, a, b, e["t"], e["a"].get("t", ""), st)

    def binop(self, op, a, b, t, ta, st):
        if op == "==":
            return st.simp(self.ranged(eq(a, b)))
        if op == "!=":
            return st.simp(self.ranged(not_(eq(a, b))))
        if op == "<":
            return st.simp(self.ranged(lt(a, b)))
        if op == ">":
            return st.simp(self.ranged(lt(b, a)))
        if op == "<=":
            return st.simp(self.ranged(not_(lt(b, a))))
        if op == ">=":
            return st.simp(self.ranged(not_(lt(a, b))))
        if a.op == "ptr" and op in ("+", "-") and b.op != "ptr":
            p = a.args[1]
            o = b if op == "+" else neg(b)
            if p and isinstance(p[-1], Term):
                return T("ptr", a.args[0], p[:-1] + (add(p[-1], o),))
            return T("ptr", a.args[0], p + (o,))
        if a.op == "ptr" and b.op == "ptr" and op == "-":
            if a.args[0] == b.args[0]:
                pa, pb = a.args[1], b.args[1]
                x = pa[-1] if pa and isinstance(pa[-1], Term) else num(0)
                y = pb[-1] if pb and isinstance(pb[-1], Term) else num(0)
                return sub(x, y)
        if a.op in ("str",) and op == "+" and isnum(b):
            return sstr(a.args[0][int(val(b)):])
        if op == "+":
            r = add(a, b)
        elif op == "-":
            r = sub(a, b)
        elif op == "*":
            r = mul(a, b)
        elif op == "/":
            r = idiv(a, b) if isint(t) else div(a, b)
        elif op == "%":
            r = imod(a, b)
        elif op == "<<":
            r = num(wrap(int(val(a)) << int(val(b)), t)) if isnum(a) and isnum(b) else (mul(a, num(2 ** int(val(b)))) if isnum(b) and not self.keepcasts else T("shl", a, b))
        elif op == ">>":
            r = num(int(val(a)) >> int(val(b))) if isnum(a) and isnum(b) else T("shr", a, b)
        elif op in ("&", "|", "^"):
            if isnum(a) and isnum(b):
                x, y = int(val(a)), int(val(b))
                r = num({"&": x & y, "|": x | y, "^": x ^ y}[op])
            else:
                if a.id > b.id:
                    a, b = b, a
                if op == "|" and isnum(a) and val(a) == 0:
                    return b
                if op == "|" and isnum(b) and val(b) == 0:
                    return a
                r = T({"&": "band", "|": "bor", "^": "bxor"}[op], a, b)
        else:
            r = T("bin" + op, a, b)
        if isnum(r) and isint(t):
            r = num(wrap(int(val(r)), t))
        elif self.bitwidth and isint(t) and op in ("<<", "+", "-", "*", ">>", "&", "|", "^", "%", "/"):
            r = self.bitfold(self.ranged(r if op in (">>", "&", "%", "/") else T("cast", t, r)))
        return r

    outside = None      # list: accesses of a sequence of known length at a known index beyond it

    def inside(self, l, i, e, st):
        if self.outside is None or not isnum(i):
            return
        v = st.raw(*l)
        n = len(v.args) if v.op == "arr" else 0 if v.op == "empty" else None
        if n is not None and not 0 <= val(i) < n:
            self.outside.append((self.frames[-1].fn, e.get("l", 0), int(val(i)), n))

    ranges = False      # with bitwidth: comparisons and conversions are decided by the ranges the widths give

    def ranged(self, t):
        if not (self.ranges and self.bitwidth):
            return t
        from . import bits
        return bits.ranged(t, self.bitwidth)

    bitwidth = None     # term -> (bits, signed): integer arithmetic keeps its widths, and terms whose bits are known fold

    def bitfold(self, r):
        from . import bits
        if not hasattr(self, "bitmemo"):
            self.bitmemo = {}
        b = bits.bits(r, self.bitwidth, self.bitmemo)
        if all(x in (0, 1) for x in b):
            v = sum(x << i for i, x in enumerate(b))
            return num(v - (1 << bits.W) if b[-1] else v)
        return r

    def initglobal(self, q, st):
        """writes a global's static initial value into the state"""
        v = self.prog.var(q)
        fr = self.push({"id": "<init>", "file": v["file"], "ret": "void", "params": []})
        fr.this, fr.rets = T("ptr", ("nothis",), ()), []
        st.write(("G", q), (), self.ev(v["e"], st) if v.get("e") is not None else T("zero"))
        self.frames.pop()

    def e_asg(self, e, st):
        op = e["op"]
        if op == "=":
            v = self.loaded(e["b"], self.ev(e["b"], st), st)
            l = self.lv(e["a"], st)
            if l is None:
                self.note(e, "assignment to unknown location")
                return v
            st.write(l[0], l[1], v)
            return v
        l = self.lv(e["a"], st)
        b = self.ev(e["b"], st)
        a = self.unionview(e["a"], self.rd(l, st))
        ct = e.get("ct") or e["t"]
        r = self.binop(op[:-1], a, b, ct, e["a"].get("t", ""), st)
        if isint(e["t"]) and not isint(ct):
            r = num(int(val(r))) if isnum(r) else self.ranged(T("trunc", r))
        if isint(e["t"]) and isnum(r):
            r = num(wrap(int(val(r)), e["t"]))
        st.write(l[0], l[1], r)
        return r

    def e_ilist(self, e, st):
        return T("arr", *[self.ev(a, st) for a in e["a"]]) if not self.isrecord(e.get("t", "")) else self.aggregate(e, st)

    def isrecord(self, t):
        return self.prog.rec(strip(t)) is not None

    def aggregate(self, e, st):
        r = self.prog.rec(strip(e["t"]))
        v = T("agg", strip(e["t"]))
        for f, a in zip(r["fields"], e["a"]):
            v = upd(v, f["n"], self.ev(a, st))
        return v

    def e_new(self, e, st):
        self.ntmp += 1
        root = ("H", self.ntmp)
        self.rootcls[root] = strip(e["at"])
        st.write(root, (), T("obj0", strip(e["at"])))
        i = e.get("e")
        if i is not None and e.get("n") is None:
            if i["k"] == "ctor":
                self.construct(i, st, (root, ()), strip(e["at"]))
            else:
                st.write(root, (), self.ev(i, st))
        elif e.get("n") is not None:
            st.write(root, (), T("newarr", self.ev(e["n"], st)))
        return T("ptr", root, ())

    def e_del(self, e, st):
        v = self.ev(e["e"], st)
        self.event("delete", [v], e, st)
        return T("void")

    def e_throw(self, e, st):
        v = None
        if e.get("e") is not None:
            v = self.ev(e["e"], st)
            tt = e.get("tt")
        else:
            tt = self.catchstack[-1][0] if self.catchstack else None
            if tt is None and self.catchstack and self.catchstack[-1][1]:
                tt = self.catchstack[-1][1][0][1]
        self.throw(st, tt, e["l"], v)

    def e_lambda(self, e, st):
        return T("lambda", e["f"])

    def e_other(self, e, st):
        self.note(e, "expression " + e["c"])
        return self.fresh("other", e["c"])

    def e_ctor(self, e, st):
        if e.get("copy"):
            l = self.lv(e["a"][0], st)
            return self.rd(l, st) if l else self.ev(e["a"][0], st)
        fn = self.prog.func(e["f"])
        if fn is not None and self.may_inline(e["f"], fn) and not any(e["f"].startswith(p) for p in self.models.get("$opaque_ctor", ())):
            self.ntmp += 1
            root = ("T", self.ntmp)
            self.rootcls[root] = strip(e["t"])
            st.write(root, (), T("obj0", strip(e["t"])))
            self.callfn(fn, st, T("ptr", root, ()), e["a"], e, cls=strip(e["t"]))
            return st.read(root, ())
        vals = [self.ev(a, st) for a in e["a"]]
        m = self.model_ctor(e, vals, st)
        if m is not None:
            return m
        t = strip(e["t"])
        if e.get("impl") and not vals:
            return T("obj0", t)
        if self.record(e["f"], e["f"].split("(")[0].split("::")[-1]):
            self.event(e["f"], vals, e, st)
        return T("new", t, *vals)

    def model_ctor(self, e, vals, st):
        f = e["f"]
        t = strip(e.get("t", ""))
        vals = [v for v, a in zip(vals, e["a"]) if not re.search(r"(^|\s)std::allocator<|allocator_type", a.get("t", ""))]
        if f.startswith(STR + "::") or t == STR:
            ps = f[f.index("("):]
            if not vals:
                return sstr("")
            if ps.startswith("(unsigned long,char") or ps.startswith("(std::basic_string<char>::size_type,char"):
                n, c = vals[0], vals[1]
                if isnum(n) and isnum(c) and 0 <= val(n) < 5000:
                    return sstr(chr(int(val(c))) * int(val(n)))
                return T("fill", n, c)
            if ps.startswith("(const char *,unsigned long"):
                v = vals[0]
                if v.op == "ptr":
                    v = st.read(*v.args)
                if v.op == "str" and isnum(vals[1]):
                    return sstr(v.args[0][:int(val(vals[1]))])
                return T("call", "cstrn", v, vals[1])
            if ps.startswith("(const std::basic_string<char> &,unsigned long"):
                return substr(vals[0], vals[1], vals[2] if len(vals) > 2 else None)
            if len(vals) == 1 or ps.startswith("(const char *"):
                v = vals[0]
                if v.op == "ptr":
                    v = T("cstr", st.read(*v.args))
                return v
        if re.match(r"std::(initializer_list|vector|set|list|map|multimap|multiset|deque|valarray)<", t):
            if len(vals) >= 1 and vals[0].op == "arr":
                return vals[0]
            if not vals:
                return T("empty", t.split("<")[0])
            if t.startswith("std::valarray<"):
                n, d = (vals[1], vals[0]) if len(vals) > 1 else (vals[0], num(0))
                if isnum(n) and 0 < val(n) <= 256 and not (len(vals) == 1 and n.op == "arr"):
                    return T("arr", *([d] * int(val(n))))
            while len(vals) > 1 and vals[-1].op == "new" and "std::allocator<" in str(vals[-1].args[0]):
                vals = vals[:-1]
            if t.startswith("std::vector<") and isnum(vals[0]) and 0 < val(vals[0]) <= 4096 and len(vals) <= 2:
                d = vals[1] if len(vals) > 1 else self.defval(splitargs(t[t.index("<") + 1:-1])[0], st)
                if d is not None:
                    return T("arr", *([d] * int(val(vals[0]))))
        if t.startswith("std::pair<") and len(vals) == 2:
            return upd(upd(T("agg", "pair"), "first", vals[0]), "second", vals[1])
        if t.startswith(("std::basic_ostringstream", "std::basic_stringstream")):
            return upd(T("obj0", "stream"), "$out", sstr("") if not vals or vals[0].op == "num" else vals[0])
        if t.startswith("std::basic_istringstream"):
            return upd(T("obj0", "stream"), "$in", vals[0] if vals else sstr(""))
        if len(vals) == 1 and re.match(r"(__gnu_cxx|std)::__normal_iterator|std::_Rb_tree_(const_)?iterator|std::_List_(const_)?iterator|std::_Bit", t):
            return vals[0]
        return None

    def event(self, fid, args, node, st, obj=None, extra=None):
        ev = Event()
        ev.pc = st.pc
        ev.fid = fid
        ev.args = args
        ev.line = node.get("l", 0)
        ev.file = self.frames[-1].fn["file"] if self.frames else "?"
        ev.func = self.frames[-1].fn["id"] if self.frames else "?"
        ev.node = node
        ev.loop = self.loopdepth
        ev.obj = obj
        ev.extra = extra
        self.events.append(ev)

    def valueof(self, v, st):
        """value of an argument given as reference pointer"""
        if v.op == "ptr":
            return self.rd(v.args, st)
        return v

    def e_call(self, e, st):
        fid, name = e["f"], e["n"]
        if not fid:
            fe = self.ev(e["fe"], st)
            if fe.op == "fn" and ("func", fe.args[0]) in self.prog.raw:
                fn = self.prog.func(fe.args[0])
                return self.rvalue(fn["ret"], self.callfn(fn, st, None, e["a"], e), st, e)
            vals = [self.ev(a, st) for a in e["a"]]
            return T("call", "indirect", fe, *vals)
        m = self.model_for(fid) or self.models.get("::" + name)
        if m:
            r = m(self, e, st)
            if r is not None:
                return r
        r = self.std_call(e, st)
        if r is not None:
            return r
        fn = self.prog.func(fid)
        if self.record(fid, name):
            s2 = st.copy()
            self.event(fid, [self.ev(a, s2) for a in e["a"]], e, st)
        if fn is not None and self.may_inline(fid, fn):
            v = self.callfn(fn, st, None, e["a"], e)
            return self.rvalue(fn["ret"], v, st, e)
        return self.opaque(fid, name, None, e, st)

    def model_for(self, fid):
        q = fid.split("(")[0]
        m = self.models.get(q)
        if m is None and "<" in q and self.models:
            q = fid[:argstart(fid)]
            if q.endswith(">") and not q.endswith("operator>"):
                d = 0
                for i in range(len(q) - 1, -1, -1):
                    d += (q[i] == ">") - (q[i] == "<")
                    if d == 0:
                        m = self.models.get(q[:i])
                        break
        return m

    def rvalue(self, rett, v, st, e):
        """a call that returns a reference yields a ptr; as an rvalue, read it
        unless the consumer wants the location (lv handles ptr results)"""
        return v

    def paramtypes(self, fid):
        i = argstart(fid)
        s = fid[i + 1:fid.rindex(")")]
        return splitargs(s)

    def opaque(self, fid, name, objloc, e, st, objval=None):
        pts = self.paramtypes(fid)
        vals, outs = [], []
        for i, a in enumerate(e["a"]):
            pt = pts[i] if i < len(pts) else ""
            if isref(pt) or (isptr(pt) and a["k"] == "un" and a.get("op") == "&"):
                l = self.lv(a if isref(pt) else a["a"], st)
                if l is None:
                    v = self.ev(a, st)
                    if v.op == "ptr":
                        l = v.args
                if l is not None:
                    vals.append(self.rd(l, st))
                    if not pt.startswith("const ") or isptr(pt) and not pt.startswith("const "):
                        outs.append((i, l))
                else:
                    vals.append(v)
            else:
                v = self.ev(a, st)
                if v.op == "ptr" and isptr(pt) :
                    l = v.args
                    if not pt.startswith("const "):
                        outs.append((i, l))
                    v = self.rd(l, st) if pt.startswith("const ") else v
                elif v.op == "ptr":
                    v = self.rd(v.args, st)
                vals.append(v)
        head = [objval] if objval is not None else []
        q = fid.split("(")[0]
        if name == "operator=" and objloc is not None and len(pts) == 1:
            # copy assignment that cannot be seen into: the object becomes a copy
            c = q.rsplit("::", 1)[0]
            if pts[0] in ("const %s &" % c, "%s &&" % c):
                st.write(objloc[0], objloc[1], vals[0])
                return T("ptr", *objloc)
        if outs or (objloc is not None and not fid.endswith(" const")):
            self.seq += 1
            tag = "%s#%d" % (q, self.callseq(q, st))
            res = T("call", tag, *(head + vals))
            for i, l in outs:
                st.write(l[0], l[1], T("out", tag, i, *(head + vals)))
            if objloc is not None and not fid.endswith(" const"):
                st.write(objloc[0], objloc[1], T("out", tag, "this", *(head + vals)))
            return res
        return T("call", q, *(head + vals))

    def callseq(self, q, st):
        k = (("SEQ", q), ())
        v = st.mem.get(k)
        n = int(val(v)) if v is not None and isnum(v) else 0
        if v is not None and not isnum(v):
            self.seq += 1
            n = 1000 + self.seq
        st.mem[k] = num(n + 1)
        return n

    # ---- member calls ----------------------------------------------------
    def e_mcall(self, e, st):
        fid, name = e["f"], e["n"]
        m = self.model_for(fid) or self.models.get("." + name)
        if m:
            r = m(self, e, st)
            if r is not None:
                return r
        r = self.std_mcall(e, st)
        if r is not None:
            return r
        # object location
        o = e["o"]
        if o["k"] == "this":
            loc = self.frames[-1].this.args
        elif isptr(o.get("t", "")) and e.get("arrow"):
            loc = self.deref(self.ev(o, st))
        else:
            loc = self.lv(o, st)
            if loc is None:
                v = self.ev(o, st)
                loc = v.args if v.op == "ptr" else self.temp(v, st, uncast(o).get("t"))
        fn = self.prog.func(fid)
        cls = self.rootcls.get(loc[0]) if not loc[1] else None
        if e.get("virt"):
            known = self.dynclass(loc, e)
            if known:
                fn2 = self.prog.resolve_virtual(fid, known)
                if fn2 is not None:
                    fn = fn2
            elif self.overridden(fid):
                fn = None
        if self.record(fid, name):
            s2 = st.copy()
            self.event(fn["id"] if fn else fid, [self.ev(a, s2) for a in e["a"]], e, st, obj=loc)
        if fn is not None and fn.get("body") and self.may_inline(fn["id"], fn):
            v = self.callfn(fn, st, T("ptr", loc[0], loc[1]), e["a"], e, cls=cls)
            return v
        return self.opaque(fid, name, loc, e, st, objval=self.rd(loc, st))

    dyn = None   # root -> dynamic class, set by rules

    def dynclass(self, loc, e):
        if self.dyn and loc in self.dyn:
            return self.dyn[loc]
        r = loc[0]
        if not loc[1] and r[0] in ("L", "T", "H"):
            return self.rootcls.get(r)
        if not loc[1] and r == ("this",):
            return self.rootcls.get(r)
        if r[0] == "G" and not loc[1]:
            v = self.prog.var(r[1])
            t = v and v.get("t", "")
            return strip(t) if t and not isref(t) and not isptr(t) else None
        if loc[1] and r[0] in ("L", "T", "H", "this"):
            t = strip(e["o"].get("t", ""))
            if not e.get("arrow"):
                return t
        if e["o"]["k"] == "var" and not isptr(e["o"]["t"]) and r[0] in ("L", "T"):
            return strip(e["o"]["t"])
        if r[0] == "P" and not loc[1]:
            return None
        return None

    def overridden(self, fid):
        key = ("ovr", id(self.prog))
        if key not in self._wg:
            s = set()
            for r in self.prog.all("rec"):
                for m in r["methods"]:
                    for o in m.get("over", []):
                        s.add(o)
            self._wg[key] = s
        return fid in self._wg[key]

    # ---- std library models -----------------------------------------------
    def std_mcall(self, e, st):
        ot = strip(e["o"].get("t", "")) if e.get("o") else ""
        if isptr(ot):
            ot = ot.rstrip("* ")
        fid = e["f"]
        name = e["n"]
        if fid.startswith(STR + "::"):
            return self.m_string(e, st, name)
        if re.match(r"std::basic_(o|i|io|f|if|of)?(string)?stream<|std::basic_ios|std::ios_base", fid):
            return self.m_stream(e, st, name)
        if fid.startswith("std::_Bit_reference::operator bool"):
            return truth(self.sval(e["o"], st))
        if fid.startswith("std::valarray<"):
            return self.m_valarray(e, st, name)
        if re.match(r"std::(vector|list|deque|set|map|multimap|multiset|pair|array|_Rb_tree|_List|__cxx11::list|_Bit)", fid) or fid.startswith("__gnu_cxx::__normal_iterator"):
            return self.m_container(e, st, name)
        return None

    # a Triple holds three elements: every constructor of it makes theArray(3)
    def valems(self, e, st):
        v = self.ev(e, st)
        if v.op == "ptr":
            if "valarray" in strip(e.get("t", "")):
                r = self.rd(v.args, st)
                a = self.elems3(r)
                if a is not None:
                    return a
                if v.args[1] and v.args[1][-1] == "theArray":
                    return [self.rd((v.args[0], v.args[1] + (num(i),)), st) for i in range(3)]
            return None
        return self.elems3(v)

    def elems3(self, v):
        if v.op == "arr":
            return list(v.args)
        if v.op == "ite":
            a, b = self.elems3(v.args[1]), self.elems3(v.args[2])
            if a is None or b is None or len(a) != len(b):
                return None
            return [ite(v.args[0], x, y) for x, y in zip(a, b)]
        b = v
        while b.op == "upd":
            b = b.args[0]
        if b.op == "ite" and b is not v:
            a = self.elems3(b)
            if a is None:
                return None
            u = []
            while v.op == "upd":
                u.append(v.args[1:])
                v = v.args[0]
            for k, x in reversed(u):
                if not isnum(k) or int(val(k)) >= len(a):
                    return None
                a[int(val(k))] = x
            return a
        if (b.op == "fld" and b.args[1] == "theArray") or (b.op == "arr" and len(b.args) == 3):
            s2 = State()
            s2.write(("VA",), (), v)
            return [s2.read(("VA",), (num(i),)) for i in range(len(b.args) if b.op == "arr" else 3)]
        return None

    def m_valarray(self, e, st, name):
        if name == "operator[]" and isint(strip(e["a"][0].get("t", ""))):
            l = self.olv(e, st)
            i = self.ev(e["a"][0], st)
            self.inside(l, i, e, st)
            return self.rd((l[0], l[1] + (i,)), st)
        if name == "operator=":
            l = self.olv(e, st)
            v = self.sval(e["a"][0], st)
            st.write(l[0], l[1], v)
            return T("ptr", *l)
        if name in ("operator+=", "operator-=", "operator*=", "operator/="):
            l = self.olv(e, st)
            a = self.valems(e["o"], st)
            if a is None:
                return None
            if isfloat(strip(e["a"][0].get("t", ""))):
                b = [self.sval(e["a"][0], st)] * len(a)
            else:
                b = self.valems(e["a"][0], st)
            if b is None or len(a) != len(b):
                return None
            st.write(l[0], l[1], T("arr", *[self.binop(name[8], x, y, "double", "double", st) for x, y in zip(a, b)]))
            return T("ptr", *l)
        if name in ("sum", "size", "min", "max"):
            a = self.valems(e["o"], st)
            if a is None:
                return None
            if name == "size":
                return num(len(a))
            r = a[0]
            for x in a[1:]:
                if name == "sum":
                    r = self.binop("+", r, x, "double", "double", st)
                else:
                    r = ite(lt(x, r) if name == "min" else lt(r, x), x, r)
            return r
        return None

    def olv(self, e, st):
        o = e["o"]
        if e.get("arrow") or isptr(o.get("t", "")):
            return self.deref(self.ev(o, st))
        l = self.lv(o, st)
        if l is None:
            v = self.ev(o, st)
            l = v.args if v.op == "ptr" else self.temp(v, st, o.get("t"))
        return l

    def sval(self, a, st):
        v = self.ev(a, st)
        if v.op == "ptr":
            v = self.rd(v.args, st)
        return v

    def m_string(self, e, st, name):
        l = self.olv(e, st)
        s = self.rd(l, st)
        A = [self.sval(a, st) for a in e["a"]]
        ats = [a.get("t", "") for a in e["a"]]
        W = lambda v: (st.write(l[0], l[1], v), T("ptr", *l))[1]
        ch = lambda v, t: T("chr", v) if isint(t) and not isnum(v) else (sstr(chr(int(val(v)) & 255)) if isint(t) and isnum(v) else v)
        if name == "operator=":
            return W(ch(A[0], strip(ats[0])))
        if name == "assign" and len(A) == 1:
            return W(A[0])
        if name in ("operator+=", "append", "push_back"):
            if len(A) == 1:
                return W(cat(s, ch(A[0], strip(ats[0]))))
            if name == "append" and len(A) == 2 and isint(strip(ats[0])):
                if isnum(A[0]) and isnum(A[1]):
                    return W(cat(s, sstr(chr(int(val(A[1]))) * int(val(A[0])))))
                return W(cat(s, T("fill", A[0], A[1])))
            if len(A) == 3 and isnum(A[1]) and isnum(A[2]):
                x = substr(A[0], A[1], A[2])
                return W(cat(s, x))
            return W(T("call", "str." + name, s, *A))
        if name == "assign":
            if len(A) == 2 and isint(strip(ats[0])):
                if isnum(A[0]) and isnum(A[1]):
                    return W(sstr(chr(int(val(A[1]))) * int(val(A[0]))))
                return W(T("fill", A[0], A[1]))
            if len(A) == 3:
                return W(substr(A[0], A[1], A[2]))
            return W(T("call", "str.assign", *A))
        if text.structured(s):
            r = self.m_text(s, A, ats, name)
            if r is not None:
                return r
        if name == "substr":
            return substr(s, A[0] if A else num(0), A[1] if len(A) > 1 else None)
        if name in ("size", "length"):
            return slen(s)
        if name == "empty":
            return eq(slen(s), num(0)) if s.op != "str" else (TRUE if s.args[0] == "" else FALSE)
        if name in ("c_str", "data"):
            return s
        if name in ("operator[]", "at"):
            return fld(s, A[0])
        if name == "clear":
            return W(sstr(""))
        if name == "compare" and len(A) == 1:
            if s.op == "str" and A[0].op == "str":
                return num((s.args[0] > A[0].args[0]) - (s.args[0] < A[0].args[0]))
            return T("call", "strcmp", s, A[0])
        if name in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
            nd = A[0].args[0] if A[0].op == "str" else (chr(int(val(A[0]))) if isnum(A[0]) and isint(strip(ats[0])) and 0 <= val(A[0]) < 256 else None)
            if s.op == "str" and nd is not None and len(A) <= 2 and (len(A) == 1 or isnum(A[1])):
                return num(strfind(name, s.args[0], nd, int(val(A[1])) if len(A) > 1 else None))
            A2 = [sstr(chr(int(val(A[0])))) if isint(strip(ats[0])) and isnum(A[0]) else A[0]] + A[1:]
            if len(A2) > 1 and isnum(A2[-1]) and val(A2[-1]) in (0, 2 ** 64 - 1):
                A2 = A2[:-1]
            if name in ("find_last_not_of", "find_first_not_of") and len(A2) == 1 and A2[0] is sstr(" "):
                w = slen(s)
                if isnum(w) and isnum(eq(s, sstr(" " * int(val(w))))) and val(eq(s, sstr(" " * int(val(w))))):
                    return num(2 ** 64 - 1)
            return T("call", "str." + name, s, *A2)
        if name in ("resize", "erase", "insert", "replace"):
            if name == "resize" and len(A) == 2:
                ln = slen(s)
                if isnum(ln) and isnum(A[0]) and isnum(A[1]) and 0 <= val(A[1]) < 256 and val(A[0]) < 4096:
                    k = int(val(A[0]) - val(ln))
                    return W(cat(s, sstr(chr(int(val(A[1]))) * k)) if k > 0 else (s if k == 0 else substr(s, num(0), A[0])))
                return W(T("call", "str.resize", s, *A))
            if name == "erase":
                if not A or (isnum(A[0]) and val(A[0]) == 0 and (len(A) == 1 or (isnum(A[1]) and val(A[1]) >= 2 ** 63))):
                    return W(sstr(""))
                if len(A) == 1 or (isnum(A[1]) and val(A[1]) >= 2 ** 63):
                    return W(substr(s, num(0), A[0]))
                if isnum(A[0]) and val(A[0]) == 0:
                    return W(substr(s, A[1], None))
            if name == "insert" and isnum(A[0]) and val(A[0]) == 0 and len(A) == 2:
                return W(cat(A[1], s))
            if name == "insert" and isnum(A[0]) and val(A[0]) == 0 and len(A) == 3 and isnum(A[1]) and isnum(A[2]):
                return W(cat(sstr(chr(int(val(A[2]))) * int(val(A[1]))), s))
            return W(T("call", "str." + name, s, *A))
        if name in ("begin", "end"):
            return T("call", "str." + name, s)
        if name == "swap":
            return None
        if name == "pop_back":
            n = slen(s)
            return W(substr(s, num(0), sub(n, num(1))))
        return T("call", "str." + name, s, *A)

    def m_text(self, s, A, ats, name):
        """string operations on columns and value texts"""
        if name == "substr":
            return text.substr(s, A[0] if A else num(0), A[1] if len(A) > 1 else None)
        if name in ("size", "length"):
            return text.length(s)
        if name == "empty":
            w = text.width(s)
            if w is None and any(x.op in ("txt", "col", "chr") for x in text.flat(s)):
                return FALSE
            return None if w is None else (TRUE if w == 0 else FALSE)
        if name in ("operator[]", "at"):
            return text.at(s, A[0])
        if name in ("find_first_of", "find_first_not_of", "find") and A:
            c = A[0].args[0] if A[0].op == "str" else (chr(int(val(A[0]))) if isnum(A[0]) else None)
            if c is None or (name == "find" and len(c) != 1):
                return None
            return text.scan(s, A[1] if len(A) > 1 else num(0), None, c, name != "find_first_not_of")
        if name == "erase" and A and (len(A) == 1 or isnum(A[1])):
            a = text.substr(s, num(0), A[0])
            b = sstr("") if len(A) == 1 or val(A[1]) >= text.NPOS else text.substr(s, add(A[0], A[1]), None)
            return None
        return None

    def m_stream(self, e, st, name):
        l = self.olv(e, st)
        if name == "str":
            if not e["a"]:
                o = st.read(l[0], l[1] + ("$out",))
                if self.textout:
                    x = text.single(o)
                    if x is not None:
                        return x
                return o
            v = self.sval(e["a"][0], st)
            st.write(l[0], l[1] + ("$out",), v)
            st.write(l[0], l[1] + ("$in",), v)
            return T("void")
        if name == "operator<<":
            a = e["a"][0]
            v = self.ev(a, st)
            if v.op == "ptr" and not isptr(a.get("t", "")):
                v = self.rd(v.args, st)
            self.emit(l, v, a.get("t", ""), st)
            return T("ptr", *l)
        if name == "operator>>":
            return self.extractto(l, e["a"][0], st)
        if name == "putback":
            v = self.ev(e["a"][0], st)
            v = sstr(chr(int(val(v)))) if isnum(v) else T("chr", v)
            st.write(l[0], l[1] + ("$in",), cat(v, st.read(l[0], l[1] + ("$in",))))
            return T("ptr", *l)
        if name in ("width", "precision", "fill", "setf", "flags", "unsetf"):
            if e["a"]:
                v = self.ev(e["a"][0], st)
                o = st.read(l[0], l[1] + ("$out",))
                more = [self.ev(x, st) for x in e["a"][1:]]
                st.write(l[0], l[1] + ("$out",), cat(o, T("manip", name, v, *more)))
            return T("sym", "ios", name)
        if name == "put":
            v = self.ev(e["a"][0], st)
            self.emit(l, v, "char", st)
            return T("ptr", *l)
        if name in ("good", "eof", "fail", "bad", "operator!", "operator bool", "rdstate", "is_open"):
            return T("call", "ios." + name, st.read(l[0], l[1] + ("$io",)), st.read(l[0], l[1] + ("$in",)))
        if name in ("tellg", "tellp"):
            return T("call", "ios." + name, st.read(l[0], l[1] + ("$io",)))
        vals = [self.ev(a, st) for a in e["a"]]
        outs = []
        if self.record(e["f"], name):
            self.event(e["f"], vals, e, st, obj=l)
        n = self.callseq("ios." + name, st)
        for a, v in zip(e["a"], vals):
            if v.op == "ptr":
                st.write(v.args[0], v.args[1], T("out", "ios." + name, n))
        st.write(l[0], l[1] + ("$io",), T("out", "ios." + name, n, st.read(l[0], l[1] + ("$io",)), *[x for x in vals if x.op != "ptr"]))
        return T("call", "ios." + name, num(n))

    def emit(self, l, v, t, st):
        o = st.read(l[0], l[1] + ("$out",))
        t = strip(t)
        if v.op == "manip":
            seg = v
        elif v.op == "fn":
            n = v.args[0].split("(")[0].split("<")[0]
            if n in ("std::endl",):
                seg = sstr("\n")
            else:
                seg = T("manip", n.replace("std::", ""))
        elif t in ("char", "unsigned char", "signed char"):
            seg = sstr(chr(int(val(v)) & 255)) if isnum(v) else T("put", "char", v)
        elif t == STR or t.startswith(("char[", "const char[", "char *", "const char *")) or v.op in ("str", "cat"):
            seg = v if not self.rawstr else v
            if v.op in ("str", "cat"):
                seg = T("ostr", v)
            else:
                seg = T("ostr", v)
        elif isint(t):
            seg = T("put", "int", v)
        elif t in ("double", "float", "long double"):
            seg = T("put", "dbl", v)
        else:
            seg = T("put", t, v)
        st.write(l[0], l[1] + ("$out",), cat(o, seg))
    rawstr = False

    def extractto(self, l, a, st):
        n = self.callseq("extract", st)
        tgt = self.lv(a, st)
        cur = st.read(l[0], l[1] + ("$in",))
        if tgt is not None:
            if strip(a.get("t", "")).startswith("std::_Set"):
                return T("ptr", *l)
            tt = strip(a.get("t", ""))
            if tt == "char":
                c = text.firstchar(cur)
                if c is not None:
                    st.write(tgt[0], tgt[1], c[0])
                    st.write(l[0], l[1] + ("$in",), c[1])
                    return T("ptr", *l)
            if cur.op == "str" and not cur.args[0].strip():
                return T("ptr", *l)         # nothing to extract: the target keeps its value
            tk = text.token(cur)
            if tk is not None:
                kind = "str" if "basic_string" in tt or tt == STR else ("dbl" if tt in ("double", "float", "long double") else ("int" if isint(tt) and "char" not in tt else None))
                d = tk[0] if kind == "str" else (text.decode(kind, tk[0]) if kind else None)
                if d is not None:
                    st.write(tgt[0], tgt[1], d)
                    st.write(l[0], l[1] + ("$in",), tk[1])
                    return T("ptr", *l)
            st.write(tgt[0], tgt[1], T("token", tt, cur))
            st.write(l[0], l[1] + ("$in",), T("rest", cur))
        return T("ptr", *l)

    def m_container(self, e, st, name):
        l = None
        ot = strip(e["o"].get("t", ""))
        if name in ("operator*", "operator->"):
            v = self.sval_it(e["o"], st)
            if v.op == "iter":
                c, k = v.args
                if c.op == "ptr":
                    return T("ptr", c.args[0], c.args[1] + (k,))
            return T("ptr", ("D", v), ())
        l = self.olv(e, st)
        if name in ("operator++", "operator--", "operator+=", "operator-="):
            v = self.rd(l, st)
            if v.op == "iter":
                d = self.sval(e["a"][0], st) if name in ("operator+=", "operator-=") else num(1)
                nv = T("iter", v.args[0], add(v.args[1], d, 1 if "+" in name else -1))
                st.write(l[0], l[1], nv)
                return v if name in ("operator++", "operator--") and e["a"] else T("ptr", *l)
        if name in ("operator[]", "at") and ot.startswith("std::map"):
            m = self.mapslot(l, ot, self.sval(e["a"][0], st), st)
            if m is not None:
                return T("ptr", *m)
        if name in ("operator[]", "at"):
            k = self.sval(e["a"][0], st)
            self.inside(l, k, e, st)
            if "vector<bool>" in e["f"] and e["f"].endswith(" const"):
                return self.rd((l[0], l[1] + (k,)), st)
            return T("ptr", l[0], l[1] + (k,))
        v = self.rd(l, st)
        if v.op in ("arr", "empty"):
            r = self.m_known(l, ot, v, name, e, st)
            if r is not None:
                return r
        if name in ("size",):
            if v.op == "arr":
                return num(len(v.args))
            if v.op == "empty":
                return num(0)
            return T("call", "size", v)
        if name == "empty":
            if v.op == "arr":
                return FALSE if v.args else TRUE
            if v.op == "empty":
                return TRUE
            return eq(T("call", "size", v), num(0))
        if name == "operator=":
            x = self.sval(e["a"][0], st)
            st.write(l[0], l[1], x)
            return T("ptr", *l)
        if name in ("push_back", "emplace_back"):
            x = self.sval(e["a"][0], st) if e["a"] else T("void")
            if v.op == "arr":
                st.write(l[0], l[1], T("arr", *(v.args + (x,))))
            elif v.op == "empty":
                st.write(l[0], l[1], T("arr", x))
            else:
                st.write(l[0], l[1], cat(v, T("item", x)))
            return T("void")
        if name == "clear":
            st.write(l[0], l[1], T("empty", ot.split("<")[0]))
            return T("void")
        if name in ("begin", "end", "rbegin", "rend", "find", "count", "lower_bound", "upper_bound", "cbegin", "cend", "front", "back"):
            args = [self.sval(a, st) for a in e["a"]]
            if name in ("begin", "end", "cbegin", "cend") and v.op in ("arr", "empty"):
                return T("iter", T("ptr", *l), num(0 if "begin" in name or v.op == "empty" else len(v.args)))
            if name == "front" and not args:
                return T("ptr", l[0], l[1] + (num(0),)) if v.op == "arr" else T("call", "front", v)
            return T("call", name, v, *args)
        args = [self.sval(a, st) for a in e["a"]]
        if self.record(e["f"], name):
            self.event(e["f"], args, e, st, obj=l)
        if e["f"].endswith(" const") or ot.startswith(("std::_Rb_tree_", "__gnu_cxx::__normal")) and name not in ("operator++", "operator--", "operator+=", "operator-="):
            return T("call", name, v, *args)
        st.write(l[0], l[1], T("call", "cont." + name, v, *args))
        return T("call", "r." + name, v, *args)

    def defval(self, t, st):
        """value-initialised object of a type, None when not known"""
        t = strip(t)
        if isint(t) or isarith(t) or isptr(t) or self.prog.enum(t):
            return num(0)
        if t == "std::string" or "basic_string<" in t.split(",")[0] and t.startswith("std::"):
            return sstr("")
        if re.match(r"std::(vector|set|list|map|multimap|multiset|deque)<", t):
            return T("empty", t.split("<")[0])
        if self.prog.rec(t):
            base = t.rsplit("::", 1)[-1]
            cs = [f for f in self.prog.find(t + "::" + base, need=False) if f.get("ctor") and not [q for q in f["params"] if not q.get("d")]]
            cs = [f for f in cs if not f["params"]]
            if len(cs) == 1 and self.may_inline(cs[0]["id"], cs[0]):
                l = self.temp(T("obj0", t), st, t)
                self.callfn(cs[0], st, T("ptr", *l), [], {"l": 0}, cls=t, argvals=[])
                return st.read(*l)
            return T("obj0", t)
        return None

    def keycmp(self, a, b, kt, st):
        """-1, 0, 1 as the keys order; None when it is not known"""
        if a is b:
            return 0
        if isnum(a) and isnum(b):
            return (val(a) > val(b)) - (val(a) < val(b))
        if a.op == "str" and b.op == "str":
            return (a.args[0] > b.args[0]) - (a.args[0] < b.args[0])
        kt = strip(kt)
        if kt.startswith("std::pair<"):
            ts = splitargs(kt[len("std::pair<"):-1])
            for n, t in zip(("first", "second"), ts):
                r = self.keycmp(fld(a, n), fld(b, n), t, st)
                if r != 0:
                    return r
            return 0
        if self.prog.rec(kt):
            for c in [kt] + self.prog.bases(kt):
                fs = self.prog.find(c + "::operator<", need=False)
                free = not fs
                if free:
                    fs = [g for g in self.prog.find("gpstk::operator<", need=False)
                          if len(g["params"]) == 2 and all(strip(q["t"]) == c for q in g["params"])]
                if fs:
                    memo = self.keymemo.get((a, b, kt))
                    if memo is not None:
                        return memo
                    out = []
                    for x, y in ((a, b), (b, a)):
                        s2 = State()
                        lx, ly = self.temp(x, s2, kt), self.temp(y, s2, kt)
                        try:
                            if free:
                                r = self.callfn(fs[0], s2, None, [], {"l": 0}, argvals=[T("ptr", *lx), T("ptr", *ly)])
                            else:
                                r = self.callfn(fs[0], s2, T("ptr", *lx), [], {"l": 0}, cls=kt, argvals=[T("ptr", *ly)])
                        except Dead:
                            return None
                        r = truth(r)
                        if not isnum(r):
                            return None
                        out.append(val(r))
                    r = -1 if out[0] else (1 if out[1] else 0)
                    self.keymemo[(a, b, kt)] = r
                    return r
        return None

    def keypos(self, v, ot, k, st):
        """(index, found) of a key in a known sorted container"""
        kt = splitargs(ot[ot.index("<") + 1:-1])[0]
        ismap = "map" in ot.split("<")[0]
        if v.op == "empty":
            return 0, False
        for i, x in enumerate(v.args):
            c = self.keycmp(fld(x, "first") if ismap else x, k, kt, st)
            if c is None:
                return None
            if c == 0:
                return i, True
            if c > 0:
                return i, False
        return len(v.args), False

    def mapslot(self, l, ot, k, st):
        v = self.rd(l, st)
        if v.op not in ("arr", "empty"):
            return None
        q = self.keypos(v, ot, k, st)
        if q is None:
            return None
        i, found = q
        if not found:
            d = self.defval(splitargs(ot[ot.index("<") + 1:-1])[1], st)
            if d is None:
                return None
            x = upd(upd(T("agg", "pair"), "first", k), "second", d)
            a = v.args if v.op == "arr" else ()
            st.write(l[0], l[1], T("arr", *(a[:i] + (x,) + a[i:])))
        return (l[0], l[1] + (num(i), "second"))

    def m_known(self, l, ot, v, name, e, st):
        """operations on containers whose elements are known"""
        kind = ot.split("<")[0]
        a = v.args if v.op == "arr" else ()
        P = T("ptr", *l)
        put = lambda xs: st.write(l[0], l[1], T("arr", *xs) if xs else T("empty", kind))
        A = e["a"]
        if kind in ("std::map", "std::set", "std::multimap", "std::multiset"):
            multi = "multi" in kind
            if name in ("find", "count", "lower_bound", "upper_bound") and len(A) == 1 and not multi:
                q = self.keypos(v, ot, self.sval(A[0], st), st)
                if q is None:
                    return None
                i, found = q
                if name == "count":
                    return num(1 if found else 0)
                if name == "find":
                    return T("iter", P, num(i if found else len(a)))
                return T("iter", P, num(i + 1 if found and name == "upper_bound" else i))
            if name == "insert" and len(A) == 1:
                x = self.sval(A[0], st)
                k = fld(x, "first") if "map" in kind else x
                q = self.keypos(v, ot, k, st)
                if q is None:
                    return None
                i, found = q
                if multi:
                    while found:
                        i += 1
                        found = i < len(a) and self.keycmp(fld(a[i], "first") if "map" in kind else a[i], k, splitargs(ot[ot.index("<") + 1:-1])[0], st) == 0
                if not found:
                    put(a[:i] + (x,) + a[i:])
                return upd(upd(T("agg", "pair"), "first", T("iter", P, num(i))), "second", num(0 if found else 1))
            if name == "erase" and len(A) == 1:
                x = self.sval(A[0], st)
                if x.op == "iter":
                    if not isnum(x.args[1]) or x.args[0] is not P:
                        return None
                    i = int(val(x.args[1]))
                    put(a[:i] + a[i + 1:])
                    return T("iter", P, num(i))
                q = self.keypos(v, ot, x, st) if not multi else None
                if q is None:
                    return None
                if q[1]:
                    put(a[:q[0]] + a[q[0] + 1:])
                return num(1 if q[1] else 0)
        if kind in ("std::vector", "std::list", "std::deque"):
            et = splitargs(ot[ot.index("<") + 1:-1])[0]
            if name == "resize" and A:
                n = self.sval(A[0], st)
                if not isnum(n) or val(n) > 4096:
                    return None
                n = int(val(n))
                d = self.sval(A[1], st) if len(A) > 1 else (self.defval(et, st) if n > len(a) else T("void"))
                if d is None:
                    return None
                put(a[:n] + (d,) * (n - len(a)))
                return T("void")
            if name == "reserve":
                return T("void")
            if name == "back" and a:
                return T("ptr", l[0], l[1] + (num(len(a) - 1),))
            if name == "pop_back" and a:
                put(a[:-1])
                return T("void")
            if name == "push_front":
                put((self.sval(A[0], st),) + a)
                return T("void")
            if name == "pop_front" and a:
                put(a[1:])
                return T("void")
            if name == "erase" and len(A) == 1:
                x = self.sval(A[0], st)
                if x.op == "iter" and isnum(x.args[1]) and x.args[0] is P:
                    i = int(val(x.args[1]))
                    put(a[:i] + a[i + 1:])
                    return T("iter", P, num(i))
        return None

    def keyeq(self, a, b, kt, st):
        """truth value of a == b when it is known"""
        r = self.keycmp(a, b, "", st)
        if r is not None:
            return r == 0
        kt = strip(kt)
        if not self.prog.rec(kt):
            return None
        for c in [kt] + self.prog.bases(kt):
            for fs in self.prog.find(c + "::operator==", need=False)[:1]:
                s2 = State()
                lx, ly = self.temp(a, s2, kt), self.temp(b, s2, kt)
                try:
                    r = truth(self.callfn(fs, s2, T("ptr", *lx), [], {"l": 0}, cls=kt, argvals=[T("ptr", *ly)]))
                except Dead:
                    return None
                return bool(val(r)) if isnum(r) else None
        return None

    def findm(self, e, st):
        """std::find over a container whose elements are known"""
        A = e["a"]
        i, j = self.sval_it(A[0], st), self.sval_it(A[1], st)
        if i.op != "iter" or j.op != "iter" or i.args[0] is not j.args[0] or not (isnum(i.args[1]) and isnum(j.args[1])):
            return None
        v = self.sval(A[2], st)
        seq = self.rd(i.args[0].args, st)
        if seq.op == "empty":
            return j
        if seq.op != "arr":
            return None
        for k in range(int(val(i.args[1])), int(val(j.args[1]))):
            q = self.keyeq(seq.args[k], v, A[2].get("t", ""), st)
            if q is None:
                return None
            if q:
                return T("iter", i.args[0], num(k))
        return j

    def sval_it(self, o, st):
        v = self.ev(o, st)
        if v.op == "ptr" and not isptr(o.get("t", "")):
            v = self.rd(v.args, st)
        return v

    def std_call(self, e, st):
        fid, name = e["f"], e["n"]
        A = e["a"]
        if name == "operator<<" and fid.startswith("std::") and A and "stream<" in A[0].get("t", ""):
            l = self.lv(A[0], st)
            if l is None:
                l = self.temp(self.ev(A[0], st), st)
            v = self.ev(A[1], st)
            if v.op == "ptr":
                v = self.rd(v.args, st)
            t = A[1].get("t", "")
            self.emit(l, v, t, st)
            return T("ptr", *l)
        if name == "operator>>" and fid.startswith("std::") and A and "stream<" in A[0].get("t", ""):
            l = self.lv(A[0], st)
            if l is not None:
                return self.extractto(l, A[1], st)
        if fid.startswith(("std::setw", "std::setprecision", "std::setfill")):
            return T("manip", name, self.ev(A[0], st))
        if fid.startswith(("std::operator+", "operator+")) and "basic_string" in fid:
            a, b = self.sval(A[0], st), self.sval(A[1], st)
            ta, tb = strip(A[0]["t"]), strip(A[1]["t"])
            f = lambda v, t: (sstr(chr(int(val(v)) & 255)) if isnum(v) else T("chr", v)) if t == "char" else v
            return cat(f(a, ta), f(b, tb))
        if re.match(r"std::operator[-+*/]<double>\(", fid) and "valarray" in fid and len(A) == 2:
            sc = [isfloat(strip(a.get("t", ""))) for a in A]
            v = [self.sval(a, st) if s else self.valems(a, st) for a, s in zip(A, sc)]
            n = [len(x) for x, s in zip(v, sc) if not s and x is not None]
            if None not in v and len(set(n)) == 1:
                v = [[x] * n[0] if s else x for x, s in zip(v, sc)]
                return T("arr", *[self.binop(name[8], x, y, "double", "double", st) for x, y in zip(*v)])
            return None
        if re.match(r"std::operator(==|!=|<|>|<=|>=)", fid) and len(A) == 2:
            a, b = self.sval_it(A[0], st), self.sval_it(A[1], st)
            return self.binop(e.get("op") or name[8:], a, b, "bool", "", st)
        if fid.startswith("__gnu_cxx::operator") and len(A) == 2:
            a, b = self.sval_it(A[0], st), self.sval_it(A[1], st)
            if name[8:] in ("==", "!=", "<", ">", "<=", ">="):
                return self.binop(name[8:], a, b, "bool", "", st)
            if name == "operator-" and a.op == "iter" and b.op == "iter" and a.args[0] is b.args[0]:
                return sub(a.args[1], b.args[1])
            return T("call", name, a, b)
        if fid.startswith("std::find<") and len(A) == 3:
            r = self.findm(e, st)
            if r is not None:
                return r
        if fid.startswith("std::numeric_limits<") and name == "epsilon":
            return num(Fraction(1, 2 ** 52) if "<double>" in fid else Fraction(1, 2 ** 23) if "<float>" in fid else 0)
        if fid.startswith("std::make_pair"):
            return upd(upd(T("agg", "pair"), "first", self.sval(A[0], st)), "second", self.sval(A[1], st))
        if fid.startswith("std::getline"):
            n = self.callseq("getline", st)
            l = self.lv(A[1], st)
            if l is not None:
                st.write(l[0], l[1], T("line", n))
            return self.ev(A[0], st)
        base = name
        if fn_is_c(fid) or fid.startswith("std::"):
            if base in ("fabs", "abs"):
                v = self.sval(A[0], st)
                return num(abs(val(v))) if isnum(v) else T("call", "abs", v)
            if base in ("floor", "ceil") and A:
                v = self.sval(A[0], st)
                if isnum(v):
                    import math
                    return num(math.floor(val(v)) if base == "floor" else math.ceil(val(v)))
                return T("call", base, v)
            if base in ("min", "max"):
                a, b = self.sval(A[0], st), self.sval(A[1], st)
                return ite(lt(b, a), b, a) if base == "min" else ite(lt(a, b), b, a)
            if base == "pow" and len(A) == 2:
                a, b = self.sval(A[0], st), self.sval(A[1], st)
                if isnum(a) and isnum(b) and val(b).denominator == 1 and abs(val(b)) < 200 and val(a) != 0:
                    return num(val(a) ** int(val(b)))
                return T("call", "pow", a, b)
            if base == "ldexp" and len(A) == 2:
                a, b = self.sval(A[0], st), self.sval(A[1], st)
                if isnum(b):
                    return mul(a, num(Fraction(2) ** int(val(b))))
                return T("call", "ldexp", a, b)
            if base == "sqrt" and isnum(self.ev(A[0], st.copy())):
                v = self.ev(A[0], st)
                return T("call", "sqrt", v)
            if base in ("strlen",):
                v = self.sval(A[0], st)
                return slen(v)
            if base in ("toupper", "tolower"):
                v = self.sval(A[0], st)
                if isnum(v) and 0 <= val(v) < 128:
                    c = chr(int(val(v)))
                    return num(ord(c.upper() if base == "toupper" else c.lower()))
                return T("call", base, v)
            if base in ("isgraph", "isprint"):
                v = self.sval(A[0], st)
                if isnum(v):
                    return num(int((33 if base == "isgraph" else 32) <= val(v) < 127))
                return T("call", base, v)
            if base in PURE_STD:
                return T("call", base, *[self.sval(a, st) for a in A])
            if base == "swap" and len(A) == 2:
                a, b = self.lv(A[0], st), self.lv(A[1], st)
                va, vb = self.rd(a, st), self.rd(b, st)
                st.write(a[0], a[1], vb)
                st.write(b[0], b[1], va)
                return T("void")
            if base in ("move", "forward"):
                l = self.lv(A[0], st)
                return T("ptr", *l) if l else self.ev(A[0], st)
        return None


class Dead(Exception):
    pass


def notnull(v):
    """a pointer that is dereferenced is not null"""
    if v.op != "ite":
        return v
    a, b = notnull(v.args[1]), notnull(v.args[2])
    if a == ZERO and b != ZERO:
        return b
    if b == ZERO and a != ZERO:
        return a
    return ite(v.args[0], a, b)


def _allptr(v):
    if v.op == "ptr":
        return True
    return v.op == "ite" and _allptr(v.args[1]) and _allptr(v.args[2])


def fn_is_c(fid):
    return "::" not in fid.split("(")[0]


def argstart(fid):
    """index of the parameter list's opening parenthesis"""
    s = fid
    i = s.find("operator()")
    if i >= 0:
        return i + len("operator()")
    # skip template angle brackets
    depth = 0
    j = 0
    m = s.find("operator")
    while j < len(s):
        if m >= 0 and j == m:
            k = s.find("(", j)
            return k
        c = s[j]
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif c == "(" and depth == 0:
            return j
        j += 1
    return len(s) - 1


def splitargs(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<([":
            d += 1
        if c in ">)]":
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur:
        out.append(cur)
    return out


def keyname(k):
    return "%s/%s" % (":".join(str(x) if not isinstance(x, Term) else show(x) for x in k[0]), ".".join(p if isinstance(p, str) else show(p) for p in k[1]))


def strip(t):
    t = t.strip()
    while True:
        if t.startswith("const "):
            t = t[6:]
        elif t.endswith("&"):
            t = t.rstrip("& ").strip()
        elif t.endswith(" const"):
            t = t[:-6]
        else:
            return t


def isref(t):
    return t.endswith("&")


def uncast(e):
    """the expression under conversions to a base class"""
    while e["k"] == "cast" and e.get("ck", "").endswith("DerivedToBase") and not isptr(e.get("t", "")):
        e = e["e"]
    return e


def isref_expr(a):
    return True


def isptr(t):
    return t.rstrip().endswith("*") or t.rstrip().endswith("*const") or t.endswith("* const") or t.endswith("*restrict")


INTS = {"int": (32, 1), "unsigned int": (32, 0), "short": (16, 1), "unsigned short": (16, 0), "long": (64, 1), "unsigned long": (64, 0),
        "long long": (64, 1), "unsigned long long": (64, 0), "char": (8, 1), "signed char": (8, 1), "unsigned char": (8, 0), "bool": (1, 0), "wchar_t": (32, 1)}


def isarith(t):
    return strip(t) in ("double", "float", "long double", "bool") or isint(strip(t))


def isfloat(t):
    return t in ("double", "float", "long double", "const double")


def isint(t):
    return strip(t) in INTS


def wrap(v, t):
    t = strip(t)
    if t not in INTS:
        return v
    b, s = INTS[t]
    if t == "bool":
        return 1 if v else 0
    v &= (1 << b) - 1
    if s and v >> (b - 1):
        v -= 1 << b
    return v


def narrows(a, b):
    a, b = strip(a), strip(b)
    if a not in INTS or b not in INTS:
        return False
    (x, sx), (y, sy) = INTS[a], INTS[b]
    return y < x or (sx and not sy) or (x == y and sx != sy)


def slen(s):
    if text.structured(s):
        return text.length(s)
    if s.op == "str":
        return num(len(s.args[0]))
    if s.op == "cat":
        r = num(0)
        for x in s.args:
            r = add(r, slen(x))
        return r
    if s.op == "chr":
        return num(1)
    if s.op == "ite":
        return ite(s.args[0], slen(s.args[1]), slen(s.args[2]))
    return T("len", s)


def substr(s, a, n):
    if text.structured(s):
        r = text.substr(s, a, n)
        if r is not None:
            return r
    if s.op == "str" and isnum(a) and (n is None or isnum(n)):
        x = s.args[0]
        i = int(val(a))
        return sstr(x[i:] if n is None or val(n) >= 2 ** 63 else x[i:i + int(val(n))])
    if n is not None and isnum(n) and val(n) >= 2 ** 63:
        n = None
    if s.op == "substr" and isnum(a) and isnum(s.args[1]):
        # substr of substr
        o = add(s.args[1], a)
        if s.args[2].op == "void":
            return T("substr", s.args[0], o, n if n is not None else T("void"))
        if isnum(s.args[2]):
            rem = val(s.args[2]) - val(a)
            if n is None or (isnum(n) and val(n) >= rem):
                return T("substr", s.args[0], o, num(max(rem, 0)))
            if isnum(n):
                return T("substr", s.args[0], o, n)
    return T("substr", s, a, n if n is not None else T("void"))


_purecache = {}


def pure(e, prog):
    """no side effects the analysis needs to sequence"""
    for n in walkexpr(e):
        k = n["k"]
        if k == "asg" or k == "new" or k == "del" or k == "throw" or (k == "un" and n["op"] in ("++", "--", "post++", "post--")):
            return False
        if k == "call" and ("func", n["f"]) in prog.raw:
            return False
        if k == "mcall" and ("func", n["f"]) in prog.raw:
            f = prog.func(n["f"])
            if not f.get("const"):
                return False
            # const accessor without control flow
            if not simplefn(f):
                return False
    return True


def simplefn(f):
    if f["id"] not in _purecache:
        ok = True
        for n in walkexpr(f["body"]):
            if n["k"] in ("throw", "asg", "if", "while", "for", "switch", "call", "mcall"):
                ok = False
        _purecache[f["id"]] = ok
    return _purecache[f["id"]]


def walkexpr(e):
    from .prog import walk
    return walk(e)


def walkbody(f):
    from .prog import walk
    yield from walk(f["body"])
    for i in f.get("inits", []):
        if i.get("e"):
            yield from walk(i["e"])
