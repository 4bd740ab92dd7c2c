"""Builds LLVM IR of /repo's current sources and loads it."""
import json, os, re, subprocess, sys, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ENGINE = os.path.dirname(HERE)
VERIF = os.path.dirname(ENGINE)
REPO = os.environ.get("CADSA_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin/"
CXXFLAGS = ["-std=gnu++17", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-exceptions",
            "-fno-threadsafe-statics", "-ffp-contract=off", "-fno-discard-value-names", "-w"]

# units that make clang emit inline members no source file of the library uses
INLINES = [("inline_%s.cpp" % n, '#include "Image.h"\nauto inline_anchor_%s = static_cast<%s>(&Image::%s);\n' % (n, t, n)) for n, t in (
    ("to_double", "void (Image::*)(std::vector<double>&)"), ("size", "int (Image::*)() const"), ("data", "unsigned char* (Image::*)()"))]

class AnalysisError(Exception): pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise AnalysisError("command failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
    return r.stdout

def plugin():
    """path of the dump plugin, built on demand from the committed source"""
    src = os.path.join(ENGINE, "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    bd = os.path.join(VERIF, "build")
    so = os.path.join(bd, "irdump-%s.so" % h)
    if os.path.exists(so): return so
    try: os.makedirs(bd, exist_ok=True)
    except OSError: bd = tempfile.mkdtemp(prefix="cadsa"); so = os.path.join(bd, "irdump-%s.so" % h)
    tmp = so + ".%d.tmp" % os.getpid()
    sh([LLVM + "clang++", "-std=c++17", "-O1", "-fPIC", "-shared", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", tmp])
    os.replace(tmp, so)
    return so

def source_files(repo=None):
    repo = repo or REPO
    txt = open(os.path.join(repo, "src/CMakeLists.txt")).read()
    fs = []
    for f in re.findall(r"[A-Za-z0-9_./]+\.(?:cpp|cc|cxx)\b", txt):
        if f not in fs: fs.append(f)
    fs = [f for f in fs if os.path.exists(os.path.join(repo, "src", f))]
    if not fs: raise AnalysisError("no source files found")
    return fs

def build(defines=("NDEBUG",), passes="sroa,simplifycfg,loop-simplify", repo=None, extra=None, only=None):
    """returns the parsed module dict.  extra: list of (name, source text) analysed together with the repo"""
    repo = repo or REPO
    src = os.path.join(repo, "src")
    files = [os.path.join(src, f) for f in source_files(repo) if only is None or f in only]
    tmp = tempfile.mkdtemp(prefix="cadsa")
    try:
        opt = set()
        for n, t in (extra or []) + INLINES:
            p = os.path.join(tmp, n); open(p, "w").write(t); files.append(p); opt.add(p)
        def one(i):
            out = os.path.join(tmp, "%d.bc" % i)
            try: sh([LLVM + "clang++"] + CXXFLAGS + ["-D" + d for d in defines] + ["-I" + src, "-emit-llvm", "-c", files[i], "-o", out])
            except AnalysisError:
                if files[i] in opt: return None         # a member does not exist (any more): its anchor is reported by the check that needs it
                raise
            return out
        with ThreadPoolExecutor(8) as ex: bcs = list(ex.map(one, range(len(files))))
        bcs = [b for b in bcs if b]
        all_ = os.path.join(tmp, "all.bc"); n = os.path.join(tmp, "n.bc"); js = os.path.join(tmp, "n.json")
        sh([LLVM + "llvm-link"] + bcs + ["-o", all_])
        so = plugin()
        sh([LLVM + "opt", "-passes=" + passes, all_, "-o", n])
        with open(js, "w") as f:
            r = subprocess.run([LLVM + "opt", "-load-pass-plugin", so, "-passes=irdump", "-disable-output", n], stdout=f, stderr=subprocess.PIPE, text=True)
        if r.returncode: raise AnalysisError("irdump failed: " + r.stderr)
        m = Module(json.load(open(js)))
        m.units = [os.path.relpath(f, repo) for f in files if f.startswith(src)]
        m.repo = repo
        return m
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

class Func:
    def __init__(s, d):
        s.name = d["n"]; s.dn = d["dn"]; s.decl = d["decl"]; s.rt = d["rt"]
        s.file = d.get("f", ""); s.line = d.get("l", 0); s.args = d["args"]; s.nr = d.get("nr", False)
        s.dt = d.get("dt"); s.virt = d.get("virt", False); s.spn = d.get("spn")
        s.blocks = {}; s.order = []
        s._cfg = None
        if not s.decl:
            for b in d["blocks"]: s.blocks[b["i"]] = b["in"]; s.order.append(b["i"])
    def cfg(s):
        if s._cfg is None: s._cfg = Cfg(s)
        return s._cfg
    def __repr__(s): return s.dn

def succs(term):
    op = term["op"]
    if op == "br":
        a = term["a"]
        if len(a) == 1: return [a[0]["v"]]
        return [a[2]["v"], a[1]["v"]]       # LLVM operand order: cond, false, true
    if op == "switch":
        return [term["a"][1]["v"]] + [c[1] for c in term["cases"]]
    return []

class Loop:
    def __init__(s, h): s.header = h; s.blocks = {h}; s.latches = []; s.parent = None; s.children = []

class Cfg:
    def __init__(s, f):
        s.f = f
        s.entry = f.order[0]
        s.succ = {}; s.pred = {b: [] for b in f.order}
        for b in f.order:
            ss = []
            for x in succs(f.blocks[b][-1]):
                if x not in ss: ss.append(x)
            s.succ[b] = ss
        seen = set(); post = []
        st = [(s.entry, iter(s.succ[s.entry]))]; seen.add(s.entry)
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen: seen.add(x); st.append((x, iter(s.succ[x]))); break
            else: post.append(b); st.pop()
        s.rpo = post[::-1]; s.reach = seen
        for b in s.rpo:
            for x in s.succ[b]: s.pred[x].append(b)
        # dominators
        idx = {b: i for i, b in enumerate(s.rpo)}
        idom = {s.entry: s.entry}
        ch = True
        while ch:
            ch = False
            for b in s.rpo[1:]:
                ps = [p for p in s.pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    a, c = p, n
                    while a != c:
                        while idx[a] > idx[c]: a = idom[a]
                        while idx[c] > idx[a]: c = idom[c]
                    n = a
                if idom.get(b) != n: idom[b] = n; ch = True
        s.idom = idom; s.idx = idx
        # natural loops
        s.loops = {}
        for b in s.rpo:
            for x in s.succ[b]:
                if s.dom(x, b):
                    L = s.loops.setdefault(x, Loop(x)); L.latches.append(b)
                    stack = [b]
                    while stack:
                        y = stack.pop()
                        if y in L.blocks: continue
                        L.blocks.add(y); stack.extend(s.pred[y])
                elif idx[x] <= idx[b]: raise AnalysisError("irreducible control flow in " + f.dn)
        ls = sorted(s.loops.values(), key=lambda L: len(L.blocks))
        for i, L in enumerate(ls):
            for M in ls[i + 1:]:
                if L.header in M.blocks: L.parent = M; M.children.append(L); break
        s.loop_of = {}
        for L in reversed(ls):
            for b in L.blocks: s.loop_of[b] = L
    def dom(s, a, b):
        while True:
            if a == b: return True
            if b == s.entry: return False
            b = s.idom[b]

def nested(dn):
    """a lambda or a local class of a function"""
    return "::$_" in dn or "'lambda" in dn or "{lambda" in dn or re.search(r"\)( const)?::", dn.replace("(anonymous namespace)", "")) is not None

class Module:
    def __init__(s, d):
        s.funcs = {}
        for f in d["functions"]: s.funcs[f["n"]] = Func(f)
        s.aliases = {a: b for a, b in d["aliases"]}
        s.globals = {g["n"]: g for g in d["globals"]}
        s.types = {}
        for t in d["types"]: s.types.setdefault(t["n"], t)
        s.bydn = {}
        for f in s.funcs.values(): s.bydn.setdefault(f.dn, f)
        for a, b in s.aliases.items():
            pass
    def func(s, name):
        f = s.funcs.get(name)
        if f is None and name in s.aliases: f = s.funcs.get(s.aliases[name])
        return f
    def find(s, dn, required=True):
        """function by exact demangled name"""
        f = s.bydn.get(dn)
        if f is None or f.decl:
            if required: raise AnalysisError("anchor vanished: no definition of '%s'" % dn)
            return None
        return f
    def fields(s, T):
        """[(name, offset, type, size)] of the data members of class T"""
        t = s.types.get(T)
        if t is None: raise AnalysisError("anchor vanished: type " + T)
        return [(x["n"], x["off"], x["t"], x["sz"]) for x in t["m"] if x["tag"] == "DW_TAG_member" and not x.get("static")]
    def methods(s, T):
        t = s.types.get(T)
        if t is None: raise AnalysisError("anchor vanished: type " + T)
        return [x for x in t["m"] if x["tag"] == "method"]
    def match(s, rx):
        r = re.compile(rx)
        return [f for f in s.funcs.values() if not f.decl and not nested(f.dn) and r.search(f.dn)]
    def named(s, prefix):
        """definitions whose demangled name starts like this; what is nested in a function is part of it"""
        return [f for n, f in sorted(s.bydn.items()) if n.startswith(prefix) and not f.decl and not nested(n)]
    def repo_funcs(s):
        return [f for f in s.funcs.values() if not f.decl and s.in_repo(f)]
    def in_repo(s, f):
        return f.file.startswith(s.repo + "/") if os.path.isabs(f.file) else bool(f.file)
    def global_string(s, name, off=0):
        g = s.globals.get(name)
        if not g or "init" not in g: return None
        b = {}
        for e in g["init"]:
            if e[2]["k"] == "i" and e[1] == 1: b[e[0]] = int(e[2]["v"]) & 255
            elif e[2]["k"] == "zero":
                for i in range(e[1]): b[e[0] + i] = 0
        out = []
        i = off
        while i in b and b[i]: out.append(b[i]); i += 1
        return bytes(out).decode("latin1")
    def sizeof(s, T):
        T = T.strip()
        base = {"double": 8, "int": 4, "unsigned int": 4, "float": 4, "char": 1, "unsigned char": 1, "bool": 1, "long": 8, "unsigned long": 8, "short": 2, "unsigned short": 2, "signed char": 1}
        if T in base: return base[T]
        if T.endswith("*"): return 8
        t = s.types.get(T)
        if t: return t["sz"]
        if T.startswith("std::vector"): return 24
        if T.startswith("std::unique_ptr<") and "default_delete" in T: return 8
        if T.startswith("std::shared_ptr<"): return 16
        if T.startswith("std::__cxx11::basic_string"): return 32
        return None
