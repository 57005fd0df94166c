"""Front end: builds the extractor, runs it over translation units of /repo's
current working tree and offers the type-checked program to the rules."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"
LIBDIR = "/usr/lib/x86_64-linux-gnu"


STDBASE = {"std::out_of_range": ("std::logic_error", "std::exception"), "std::invalid_argument": ("std::logic_error", "std::exception"),
           "std::ios_base::failure": ("std::exception",), "std::bad_cast": ("std::exception",)}


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (vanished anchor, parse failure...)."""


def tool():
    src = os.path.join(VERIF, "tool", "extract.cpp")
    out = os.path.join(VERIF, ".build", "extract")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    cmd = ["clang++-18" if shutil.which("clang++-18") else "clang++", "-std=c++17", "-O0", "-fno-rtti", "-w",
           "-I" + LLVM + "/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
           "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp,
           LIBDIR + "/libclang-cpp.so.18.1", LIBDIR + "/libLLVM.so.18.1"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise AnalysisBroken("extractor does not build: " + p.stdout[-2000:])
    os.rename(tmp, out)
    return out


def include_flags(gen):
    dirs = []
    for base in ("core/lib", "ext/lib"):
        for root, ds, _ in os.walk(os.path.join(REPO, base)):
            ds.sort()
            if root != os.path.join(REPO, base):
                dirs.append(root)
    fl = ["-xc++", "-std=c++11", "-w", "-Dgpstk_EXPORTS"]
    fl += ["-I" + d for d in dirs] + ["-I" + gen]
    for d in ("core/apps", "ext/apps"):
        for root, ds, _ in os.walk(os.path.join(REPO, d)):
            fl.append("-I" + root)
    return fl


def lib_sources(apps=False):
    out = []
    for base in ["core/lib", "ext/lib"] + (["core/apps", "ext/apps"] if apps else []):
        for root, ds, fs in os.walk(os.path.join(REPO, base)):
            ds.sort()
            out += [os.path.join(root, f) for f in sorted(fs) if f.endswith(".cpp")]
    return [os.path.relpath(p, REPO) for p in out]


def walk(n):
    """Every dict node below n (n included), in source order."""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x
            st.extend(reversed([v for v in x.values() if isinstance(v, (dict, list))]))
        elif isinstance(x, list):
            st.extend(reversed(x))


class Program:
    def __init__(self):
        self.raw = {}      # ('func', id) -> (line, types)
        self.cache = {}
        self.byqual = {}
        self.byname = {}
        self.tus = []
        self.badtus = []
        self.info = {"units": 0, "functions": 0}

    # -- loading
    def _types(self, n, T):
        st = [n]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                for k in ("t", "tt", "ct", "at", "ret", "base", "sizeof"):
                    v = x.get(k)
                    if type(v) is int:
                        x[k] = T[v] if v >= 0 else ""
                if "bases" in x:
                    x["bases"] = [T[i] if type(i) is int else i for i in x["bases"]]
                if "throws" in x:
                    x["throws"] = [T[i] if type(i) is int else i for i in x["throws"]]
                st.extend(v for v in x.values() if isinstance(v, (dict, list)))
            elif isinstance(x, list):
                st.extend(x)
        return n

    def load(self, path):
        T = []
        with open(path) as fh:
            for ln in fh:
                m = re.match(r'\{"D":"(\w+)",', ln)
                if not m:
                    continue
                kind = m.group(1)
                if kind == "type":
                    T.append(json.loads(ln)["s"])
                elif kind == "tu":
                    d = json.loads(ln)
                    self.tus.append(d["file"])
                    if d["err"]:
                        self.badtus.append(d["file"])
                elif kind == "func":
                    m = re.match(r'\{"D":"func","id":("(?:[^"\\]|\\.)*"),"name":("(?:[^"\\]|\\.)*"),"qual":("(?:[^"\\]|\\.)*"),"file":("(?:[^"\\]|\\.)*")', ln)
                    i, n, q = (json.loads(m.group(j)) for j in (1, 2, 3))
                    if ("func", i) not in self.raw:
                        self.raw[("func", i)] = (ln, T)
                        self.byqual.setdefault(q, []).append(i)
                        self.byname.setdefault(n, []).append(i)
                else:
                    m = re.match(r'\{"D":"\w+","q":("(?:[^"\\]|\\.)*")', ln)
                    q = json.loads(m.group(1))
                    key = (kind, q)
                    if key not in self.raw or (kind == "var" and '"e":' in ln):
                        self.raw[key] = (ln, T)

    def get(self, kind, q):
        key = (kind, q)
        if key in self.cache:
            return self.cache[key]
        r = self.raw.get(key)
        if r is None:
            return None
        d = self._types(json.loads(r[0]), r[1])
        self.cache[key] = d
        return d

    def func(self, i):
        return self.get("func", i)

    def rec(self, q):
        return self.get("rec", q)

    def enum(self, q):
        return self.get("enum", q)

    def var(self, q):
        return self.get("var", q)

    def all(self, kind):
        for k in list(self.raw):
            if k[0] == kind:
                yield self.get(*k)

    def ids(self, kind):
        return [k[1] for k in self.raw if k[0] == kind]

    # -- lookup
    def find(self, qual, nparams=None, pred=None, need=True):
        """the definitions of a qualified name"""
        fs = [self.func(i) for i in self.byqual.get(qual, [])]
        if nparams is not None:
            fs = [f for f in fs if len(f["params"]) == nparams]
        if pred:
            fs = [f for f in fs if pred(f)]
        if need and not fs:
            raise AnalysisBroken("anchor vanished: no definition of %s%s" % (qual, "" if nparams is None else "/%d" % nparams))
        return fs

    def one(self, qual, nparams=None, pred=None):
        fs = self.find(qual, nparams, pred)
        if len(fs) != 1:
            raise AnalysisBroken("anchor ambiguous: %d definitions of %s" % (len(fs), qual))
        return fs[0]

    # -- classes
    def bases(self, q, seen=None):
        out = []
        r = self.rec(q)
        if q in STDBASE:
            out += STDBASE[q]
        elif r:
            for b in r["bases"]:
                out.append(b)
                out += self.bases(b)
        return out

    def derives(self, q, b):
        return q == b or b in self.bases(q)

    def subclasses(self, q):
        return [r for r in self.ids("rec") if r != q and q in self.bases(r)]

    def fields(self, q):
        r = self.rec(q)
        out = []
        if r:
            for b in r["bases"]:
                out += self.fields(b)
            out += r["fields"]
        return out

    def resolve_virtual(self, fid, cls):
        """definition that a virtual call to fid reaches for dynamic class cls"""
        m = re.match(r"^(.*)::([^:(]+)(\(.*)$", fid)
        f = self.get("func", fid)
        if not m:
            return f
        q, name, sig = m.groups()
        for c in [cls] + self.bases(cls):
            cand = c + "::" + name + sig
            if ("func", cand) in self.raw:
                return self.func(cand)
            if c == q:
                break
        return f


def extract(tus, extra=None, jobs=None):
    """tus: paths relative to /repo (or absolute for our own instantiation units)"""
    t = tool()
    tus = list(dict.fromkeys(tus))
    absu = []
    for u in tus:
        p = u if os.path.isabs(u) else os.path.join(REPO, u)
        if not os.path.exists(p):
            raise AnalysisBroken("anchor vanished: no source file " + u)
        absu.append(p)
    jobs = jobs or min(8, len(absu)) or 1
    absu.sort(key=lambda p: -os.path.getsize(p))
    parts = [absu[i::jobs] for i in range(jobs)]
    tmp = tempfile.mkdtemp(prefix="vpx")
    try:
        gen = os.path.join(tmp, "gen")
        os.mkdir(gen)
        cfg = open(os.path.join(REPO, "build_config.h.in")).read()
        cfg = re.sub(r"@\w+@", "/nonexistent", cfg)
        open(os.path.join(gen, "build_config.h"), "w").write(cfg)
        fl = include_flags(gen) + (extra or [])
        ps = []
        for i, part in enumerate(parts):
            o = open(os.path.join(tmp, "o%d" % i), "w")
            e = open(os.path.join(tmp, "e%d" % i), "w")
            ps.append((subprocess.Popen([t, REPO] + part + ["--"] + fl, stdout=o, stderr=e), o, e))
        for p, o, e in ps:
            p.wait()
            o.close()
            e.close()
        prog = Program()
        for i in range(len(parts)):
            prog.load(os.path.join(tmp, "o%d" % i))
        if prog.badtus or len(prog.tus) != len(absu):
            errs = "".join(open(os.path.join(tmp, "e%d" % i)).read() for i in range(len(parts)))
            errs = "\n".join(l for l in errs.splitlines() if "error:" in l)[:1500]
            raise AnalysisBroken("units not parsed: %s %s" % (prog.badtus or (set(absu) - set(prog.tus)), errs))
        prog.info["units"] = len(absu)
        prog.info["functions"] = len(prog.ids("func"))
        return prog
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
