"""C04 every ordering used for sorting or as a map key is a strict weak ordering and the
relational operators of a class agree with each other."""
import glob
import os
import tempfile
import shutil
from ..interp import Interp, State, Stop, strip
from ..terms import *
from ..prog import lib_sources, REPO, walk, AnalysisBroken
from ..order import Domain, Undecided, swo, exactify
from ..check import where

REL = ["<", ">", "<=", ">=", "==", "!="]
NOTORDER = {}


def comparators(p):
    """(class, op, func, mode) for every relational operator on two objects of one class, and functors"""
    rel, fun = [], []
    for fid in p.ids("func"):
        if "operator" not in fid:
            continue
        f = p.func(fid)
        n = f["name"]
        if n.startswith("operator") and n[8:] in REL:
            cls = f.get("cls")
            if cls and len(f["params"]) == 1 and strip(f["params"][0]["t"]) == cls:
                rel.append((cls, n[8:], f))
            elif not cls and len(f["params"]) == 2:
                a, b = (strip(q["t"]) for q in f["params"])
                if a == b and a.startswith("gpstk::") and p.rec(a):
                    rel.append((a, n[8:], f))
        elif n == "operator()" and len(f["params"]) == 2 and f["ret"] == "bool" and f.get("cls"):
            a, b = (strip(q["t"]) for q in f["params"])
            if a == b:
                fun.append((f["cls"], "()", f))
    return rel, fun


def comparator_types(p):
    """functor classes that appear as the ordering of a sorted container or sort call"""
    import re
    used = set()
    for kind in ("rec", "func"):
        for (k, q), (ln, T_) in list(p.raw.items()):
            if k != kind:
                continue
    return used


def summarise(p, f, cls, ordered, fixed=None):
    A, B = sym("A"), sym("B")
    byval = {}

    def rel(opn):
        def m(I, e, st):
            args = ([e["o"]] if e.get("o") else []) + e["a"]
            if len(args) != 2:
                return None
            vs = []
            for x in args:
                if x["k"] == "this":
                    v = I.rd(I.frames[-1].this.args, st)
                else:
                    v = I.ev(x, st)
                if v.op == "ptr":
                    v = I.rd(v.args, st)
                vs.append(v)
            a, b = vs
            # the objects' own members are compared as wholes
            return {"<": lambda: lt(a, b), ">": lambda: lt(b, a), "<=": lambda: not_(lt(b, a)), ">=": lambda: not_(lt(a, b)),
                    "==": lambda: eq(a, b), "!=": lambda: not_(eq(a, b))}[opn]()
        return m
    own = {cls} | set(p.bases(cls)) | set(p.subclasses(cls))
    models = {}
    for c, op, g in ordered:
        if c not in own and g.get("cls"):
            models[g["qual"]] = rel(op)
    models["gpstk::CommonTime::setTimeSystem"] = lambda I, e, st: T("void")
    A, B = (objval(p, f, cls, x) for x in (A, B))
    I = Interp(p, models=models)
    st = State()
    I.dyn = {}
    if f["name"] == "operator()" or not f.get("cls"):
        args = []
        for q in f["params"]:
            pass
        vals = []
        for q, v in zip(f["params"], (A, B)):
            t = q["t"].replace("const ", "").replace("const", "").strip(" &")
            root = ("P", "A" if v is A else "B")
            v = objval(p, f, t.rstrip(" *"), v)
            st.write(root, (), v)
            I.rootcls[root] = t.rstrip(" *")
            I.dyn[(root, ())] = t.rstrip(" *")
            vals.append(T("ptr", root, ()))
            if t.endswith("*") and q["t"].rstrip().endswith("&"):
                # reference to a pointer
                cell = ("P", "cell" + root[1])
                st.write(cell, (), vals[-1])
                vals[-1] = T("ptr", cell, ())
        I.dyn[(("this",), ())] = f.get("cls")
        r = I.run(f, args=vals, state=st)
    else:
        rb = ("P", "B")
        st.write(rb, (), B)
        st.write(("this",), (), A)
        if any(x["n"] == "tolerance" for x in p.fields(cls)):
            fixed = dict(fixed or {}, tolerance=0)
        I.dyn[(("this",), ())] = cls
        I.dyn[(rb, ())] = cls
        I.rootcls[rb] = cls
        for fl in fixed or []:
            st.write(("this",), (fl,), num(fixed[fl]))
            st.write(rb, (fl,), num(fixed[fl]))
        r = I.run(f, args=[T("ptr", rb, ())], state=st, cls=cls)
    if r["state"] is None or r["ret"] is None:
        raise Undecided("no normal exit")
    def addr(x):
        if x.op == "ptr" and x.args[0] in (("P", "A"), ("P", "B")) and not x.args[1]:
            return fld(sym(x.args[0][1]), "$address")
        return None
    t = exactify(subst(truth(r["ret"]), addr))
    if any(x.op == "sym" and x.args and isinstance(x.args[0], str) and x.args[0].startswith("loop.") or x.op == "call" and x.args[0] in ("begin", "end", "find") for x in subterms(t)):
        raise Undecided("depends on a loop over run-time data")
    return t


def objval(p, f, cls, v):
    """symbolic object; vectors are instantiated with three elements"""
    out = v
    for fl in p.fields(cls):
        if fl["t"].startswith("std::vector<"):
            base = fld(v, fl["n"])
            out = upd(out, fl["n"], T("arr", *[fld(base, num(i)) for i in range(3)]))
    return out


def check(ctx):
    ctx.rule("swo", "the comparison, as a term over the two objects' keys, is irreflexive, asymmetric, transitive and has transitive incomparability on every combination of key orderings")
    ctx.rule("agree", ">, <=, >=, == and != of the class are the ones < determines, on every combination of key orderings; == holds exactly when neither object precedes the other")
    tmp = tempfile.mkdtemp(prefix="vpo")
    try:
        hs = []
        for base in ("core/lib", "ext/lib"):
            for r, ds, fs in os.walk(os.path.join(REPO, base)):
                for fn in sorted(fs):
                    if fn.endswith(("FilterOperators.hpp", "Sort.hpp")) and "operator" in open(os.path.join(r, fn), errors="replace").read():
                        hs.append(os.path.join(r, fn))
        srcs = []
        for s in lib_sources():
            tx = open(os.path.join(REPO, s), errors="replace").read()
            if "operator<(" in tx.replace(" ", "") or "operator==(" in tx.replace(" ", "") or "operator()(" in tx.replace(" ", ""):
                srcs.append(s)
        units = []
        for h in hs:
            tx = open(h, errors="replace").read().replace(" ", "")
            if "operator<(" in tx or "booloperator()(" in tx or "operator==(" in tx:
                u = os.path.join(tmp, "u%d.cpp" % len(units))
                open(u, "w").write('#include "%s"\n' % h)
                units.append(u)
        p = ctx.program(srcs + units)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    rel, fun = comparators(p)
    ordered = rel
    classes = {}
    for c, op, f in rel:
        classes.setdefault(c, {})[op] = f
    ctx.floor("classes with an ordering", sum(1 for c in classes if "<" in classes[c]), 30)
    ctx.floor("ordering functors", len(fun), 12)
    for c, op, f in sorted(fun, key=lambda x: x[0]):
        one(ctx, p, c, {"()": f}, ordered)
    for c in sorted(classes):
        one(ctx, p, c, classes[c], ordered)
    ctx.floor("orderings decided", ctx.counts.get("orderings decided", 0), 42)


def inherit(p, c, ops, classes=None):
    return ops


# == deliberately looks at more (or, with wildcards, less) than the ordering does
PARTIAL = {"gpstk::TimeRange": "== also compares the end of the range", "gpstk::PackedNavBits": "== also compares the transmission metadata"}


def equivalence(M):
    import numpy as np
    F = M.astype(np.float32)
    return bool(np.diag(M).all() and (M == M.T).all() and not (((F @ F) > 0) & ~M).any())


def one(ctx, p, c, ops, ordered):
    first = ops.get("<") or ops.get("()")
    W = where(first or list(ops.values())[0])
    name = c.replace("gpstk::", "")
    fixed = {}
    for fl in p.fields(c):
        if fl["t"].replace("const ", "") == "gpstk::TimeSystem":
            fixed[fl["n"]] = dict((n, v) for n, v, _ in p.enum("gpstk::TimeSystem")["vals"])["GPS"]
    terms = {}
    for op, f in ops.items():
        try:
            terms[op] = summarise(p, f, c, ordered, fixed)
        except (Undecided, Stop) as e:
            ctx.unresolved("swo", where(f), "%s %s: %s" % (name, op, e))
    base = "<" if "<" in terms else "()"
    if base not in terms:
        if "==" in terms and "!=" in terms:
            bad = terms["!="] is not not_(terms["=="])
            if not bad:
                ctx.ob("agree", True, where(ops["!="]), "%s != is the negation of ==" % name, key="agree|%s|!=" % name)
            else:
                ctx.unresolved("agree", where(ops["!="]), name + " != and ==")
        return
    try:
        D = Domain(list(terms.values()), sym("A"), sym("B"))
        tab = {op: D.table(t) for op, t in terms.items()}
    except (Undecided, KeyError, AttributeError) as e:
        try:
            D = Domain([terms[base]], sym("A"), sym("B"))
            tab = {base: D.table(terms[base])}
            ctx.unresolved("agree", W, "%s: %s %s" % (name, type(e).__name__, e))
        except (Undecided, KeyError, AttributeError) as e:
            ctx.unresolved("swo", W, "%s: %s %s" % (name, type(e).__name__, e))
            return
    ctx.count("orderings decided")
    bad = swo(D, tab[base])
    eqv = bad and base == "()" and equivalence(tab[base])
    keys = ", ".join(show(k)[:40] for k in D.order)
    ctx.ob("swo", not bad or eqv, W, "%s: %s over keys %s" % (name, "equivalence relation" if eqv else "; ".join("not %s: %s" % b for b in bad) if bad else "strict weak ordering", keys), key="swo|%s" % name)
    if base != "<":
        return
    import numpy as np
    M = tab["<"]
    want = {">": M.T, "<=": ~M.T, ">=": ~M, "==": ~(M | M.T), "!=": M | M.T}
    # wildcard values (ObsID fields equal to Any) are outside the agreement
    mask = np.ones_like(M)
    if "==" in terms:
        wild = {(e, v) for e in D.order for v in D.consts.get(e, ()) if v.op == "num" and not isnum(e) and D.dom[e] != [0, 1]}
        for e, v in wild:
            w = D.col[e] == float(val(v))
            mask &= ~(w[:, None] | w[None, :])
    for op in want:
        if op not in tab:
            continue
        if c == "gpstk::RinexMetHeader::sensorPosType":
            ctx.unresolved("agree", where(ops[op]), name + " %s compares positions as points within a tolerance, < by coordinate" % op)
            continue
        bad = (tab[op] != want[op]) & mask
        if c in PARTIAL and op in ("==", "!="):
            bad = (tab[op] if op == "==" else ~tab[op]) & (M | M.T) & mask
        i, j = np.unravel_index(int(np.argmax(bad)), bad.shape)
        ctx.ob("agree", not bad.any(), where(ops[op]), "%s %s %s" % (name, op, "agrees with <" if not bad.any() else "is %s but < implies %s at x=%s y=%s" % (bool(tab[op][i, j]), bool(want[op][i, j]), D.describe(i), D.describe(j))), key="agree|%s|%s" % (name, op))
