"""Interprocedural mod/ref analysis of the IR.

Every pointer is described by the set of objects it may point to: the object argument i points to ("A", i), what is reachable from it
("R", i), a global ("G", name), a local ("L", instruction), memory allocated in the function or its callees ("H", instruction), or unknown ("U",).
Functions are summarised bottom up (fixpoint on recursion): objects written, pointers stored into visible objects, objects returned.
A write is definite when the set has one element: on the path that executes the store exactly this object is written."""
import re

VIS = ("A", "R", "G", "U")
class Write:
    __slots__ = ("obj", "loc", "via", "definite", "what", "ins", "inherited")
    def __init__(s, obj, loc, via, definite, what, ins=None, inherited=False): s.obj = obj; s.loc = loc; s.via = via; s.definite = definite; s.what = what; s.ins = ins; s.inherited = inherited
    def __repr__(s): return "%s of %s at %s:%s%s%s" % (s.what, s.obj, s.loc[0], s.loc[1], "".join(" via " + v for v in s.via), "" if s.definite else " (possible)")

class Summary:
    def __init__(s): s.mod = {}; s.flow = {}; s.ret = set(); s.calls = set()
    def key(s): return (frozenset((o, w.definite) for o, w in s.mod.items()), frozenset((a, frozenset(b)) for a, b in s.flow.items()), frozenset(s.ret), frozenset(s.calls))

NOEFFECT = re.compile(r"^(llvm\.(assume|experimental|dbg|lifetime|trap|is\.constant|objectsize|expect|va_|stack|donothing|invariant|ctpop|umul|uadd|sadd|ssub|usub|smul|abs|fabs|sqrt|fma|fmuladd|floor|ceil|trunc|round|rint|nearbyint|copysign|min|max|smax|smin|umax|umin|pow|exp|log|sin|cos|prefetch|is\.fpclass|ctlz|cttz|bswap|fshl|fshr|canonicalize|lround|llround|fptosi|fptoui))|^(__assert_fail|abort|exit|std::terminate\(\)|__cxa_pure_virtual|__cxa_throw|__cxa_begin_catch|__cxa_end_catch|__clang_call_terminate|_Unwind_Resume|__cxa_guard_\w+|__cxa_atexit|memcmp|strlen|strcmp|strncmp|memchr|strchr|strrchr|strstr|bcmp)$|^std::__throw_")
MATH = re.compile(r"^(l?l?r(ound|int)|a?(sin|cos|tan)h?|atan2|sqrt|cbrt|hypot|exp[2m1]*|log(10|2|1p|b)?|pow|f(abs|max|min|mod|dim|ma)|floor|ceil|trunc|round|rint|nearbyint|nextafter|remainder|copysign|tgamma|lgamma|erfc?|abs|labs|llabs|ilogb|scalbl?n|ldexp)[fl]?$")
IMPURE = re.compile(r"^(rand|srand|rand_r|random|srandom|drand48|lrand48|mrand48|erand48|srand48|arc4random\w*|getrandom|getentropy|time|clock|clock_gettime|gettimeofday|times|getrusage|timespec_get|getenv|secure_getenv|setenv|putenv|unsetenv|localtime|gmtime|mktime|ctime|asctime|strftime|getpid|getppid|gettid|pthread_self|sched_getcpu|setlocale|localeconv|strtok|tmpnam|mkstemp|tempnam|gethostname|getlogin|getcwd|usleep|sleep|nanosleep|system|popen|fork|getuid|sysconf|feclearexcept|fesetround|fesetenv|feraiseexcept|fegetround)$|^std::random_device::|^std::chrono::.*::now\(\)|^std::this_thread::|^std::thread::|^std::locale::global|^std::filesystem::(current_path|temp_directory_path)|^llvm\.(readcyclecounter|set\.rounding|readsteadycounter)|^std::ios_base::sync_with_stdio")

def params_of(dn):
    """[const?] per parameter and const method? of a demangled signature; None when there is none"""
    d = dn
    const = False
    m = re.search(r"\)\s*(const)?\s*(&|&&)?\s*(noexcept)?$", d)
    if not m: return None
    const = bool(m.group(1))
    e = d.rfind(")"); n = 0; i = e
    while i >= 0:
        if d[i] in ")>": n += 1
        if d[i] in "(<":
            n -= 1
            if n == 0 and d[i] == "(": break
        i -= 1
    body = d[i + 1:e]
    ps = []; n = 0; cur = ""
    for ch in body:
        if ch in "(<[": n += 1
        if ch in ")>]": n -= 1
        if ch == "," and n == 0: ps.append(cur.strip()); cur = ""; continue
        cur += ch
    if cur.strip(): ps.append(cur.strip())
    return [p for p in ps if p != "void"], const, d[:i]

def readonly(p):
    """parameter type of a demangled signature: cannot be written through"""
    return bool(re.search(r"const\s*[&*]+(\s*const)?$", p)) or not re.search(r"[&*]", p)

def args_of(f):
    """[(IR argument, declared type)] without the hidden result argument"""
    a = [x for x in f.args if not x["n"].startswith("agg.result")]
    return list(zip(a, f.dt[1:])) if f.dt and len(a) == len(f.dt) - 1 else []

PRIM = ("double", "float", "int", "bool", "char", "unsigned char", "unsigned int", "long", "unsigned long", "short", "unsigned short", "signed char", "long double")
def depth(m, T, seen=()):
    """levels of pointers inside an object of type T (the table of virtual functions not counted); 9 = unknown or unbounded"""
    T = T.replace("const ", "").strip()
    if T in PRIM: return 0
    if T.endswith("*"): return min(9, 1 + depth(m, T[:-1], seen))
    x = re.match(r"^(?:std::)?vector<(.*), (?:std::)?allocator<.*> ?>$", T)
    if x: return min(9, 1 + depth(m, x.group(1), seen))
    x = re.match(r"^(.*)\[\d+\]$", T)
    if x: return depth(m, x.group(1), seen)
    t = m.types.get(T)
    if t is None or T in seen or "<" in T or T.startswith("_") or not t["m"]: return 9
    d = 0
    for y in t["m"]:
        if y["tag"] == "DW_TAG_inheritance" or (y["tag"] == "DW_TAG_member" and not y.get("static")):
            if y["n"].startswith("_vptr"): continue
            if y["tag"] == "DW_TAG_member" and y["sz"] == 0: return 9
            d = max(d, depth(m, y["t"], seen + (T,)))
    # a derived class may hold more
    if any(z["tag"] == "DW_TAG_inheritance" and z["t"] == T for u in m.types.values() for z in u["m"]): return 9
    return d

class ModRef:
    def __init__(s, m, roots=None):
        s.m = m; s.sum = {}; s.vt = None; s.depths = {}; s.pts = {}
        s.run([f for f in m.funcs.values() if not f.decl])
    def depth(s, T):
        if T not in s.depths: s.depths[T] = depth(s.m, T)
        return s.depths[T]
    # ---------------------------------------------------------------- call graph
    def vtables(s):
        if s.vt is None:
            s.vt = {}
            for n, g in s.m.globals.items():
                if not n.startswith("_ZTV") or "init" not in g: continue
                for off, sz, v in g["init"]:
                    if v.get("k") == "g" and off >= 16:
                        f = s.m.func(v["v"])
                        if f is not None: s.vt.setdefault(off - 16, set()).add((f.name, g["dn"].replace("vtable for ", "")))
        return s.vt
    def callees(s, f, ins, defs):
        """[function] or None when the target is unknown"""
        fv = ins.get("fv")
        if fv is None:
            n = ins.get("fn") or ins.get("callee")
            g = s.m.func(n) if n else None
            return [g] if g is not None else None
        if fv.get("k") == "g":
            g = s.m.func(fv["v"]); return [g] if g is not None else None
        if fv.get("k") == "v":
            d = defs.get(fv["v"])
            if d is not None and d["op"] == "load":
                p = d["a"][0]; off = 0
                q = defs.get(p.get("v")) if p.get("k") == "v" else None
                if q is not None and q["op"] == "getelementptr": off = q["off"]; q = defs.get(q["a"][0].get("v"))
                if q is not None and q["op"] == "load":
                    out = []; T = s.static_type(f, ins["a"][0], defs); D = s.derived(T) if T else None
                    for n, cls in sorted(s.vtables().get(off, ())):
                        if D is not None and cls not in D: continue
                        g = s.m.func(n)
                        if g in out: continue
                        if [a["t"] for a in g.args] == s.argtypes(f, ins, defs, g): out.append(g)
                    return out or None
        return None
    def derived(s, T):
        """classes that are T or derived from it; None when T has no type information"""
        if T not in s.m.types: return None
        out = {T}; ch = True
        while ch:
            ch = False
            for n, t in s.m.types.items():
                if n not in out and any(x["tag"] == "DW_TAG_inheritance" and x["t"] in out for x in t["m"]): out.add(n); ch = True
        return out
    def static_type(s, f, a, defs):
        """class the operand points to, from the declared types"""
        def strip(t, n=1):
            t = t.replace("const ", "").strip()
            for _ in range(n):
                if not t.endswith(("*", "&")): return None
                t = t[:-1].strip()
            return t if not t.endswith(("*", "&")) else None
        if a.get("k") != "v": return None
        d = defs.get(a["v"])
        if d is None:
            return next((strip(t) for x, t in args_of(f) if x["i"] == a["v"]), None)
        if d["op"] == "call":
            cs = s.callees(f, d, defs)
            return strip(cs[0].dt[0]) if cs and cs[0].dt else None
        if d["op"] == "load" and d["a"][0].get("k") == "v":
            q = defs.get(d["a"][0]["v"])
            if q is None: return next((strip(t, 2) for x, t in args_of(f) if x["i"] == d["a"][0]["v"]), None)
            if q["op"] == "getelementptr" and not q["var"]:
                T = re.sub(r'^%"?(class|struct)\.|"$', "", q.get("et", ""))
                if T in s.m.types:
                    for n, off, t, sz in s.m.fields(T):
                        if off == q["off"]: return strip(t)
            if q["op"] == "call":
                cs = s.callees(f, q, defs)
                return strip(cs[0].dt[0], 2) if cs and cs[0].dt else None
        return None
    def argtypes(s, f, ins, defs, g):
        out = []
        for n, a in enumerate(ins["a"]):
            if a.get("k") == "v":
                d = defs.get(a["v"])
                t = d["t"] if d is not None else next((x["t"] for x in f.args if x["i"] == a["v"]), None)
                out.append(t)
            else: out.append(g.args[n]["t"] if n < len(g.args) else None)
        return out
    # ---------------------------------------------------------------- fixpoint
    def run(s, fs):
        info = {}
        for f in fs:
            defs = {}
            for b in f.order:
                for i in f.blocks[b]: defs[i["i"]] = i
            info[f.name] = defs
        s.info = info
        users = {}; cal = {}
        for f in fs:
            for i in info[f.name].values():
                if i["op"] in ("call", "invoke"):
                    cs = s.callees(f, i, info[f.name]); cal[(f.name, i["i"])] = cs
                    for g in cs or []: users.setdefault(g.name, set()).add(f.name)
        s.cal = cal; s.users = users
        # bottom up order
        order = []; seen = set()
        deps = {}
        for (n, i), cs in cal.items(): deps.setdefault(n, []).extend(g.name for g in cs or [] if not g.decl)
        for f in fs:
            if f.name in seen: continue
            st = [(f.name, iter(deps.get(f.name, [])))]; seen.add(f.name)
            while st:
                n, it = st[-1]
                for x in it:
                    if x not in seen: seen.add(x); st.append((x, iter(deps.get(x, [])))); break
                else: order.append(n); st.pop()
        pos = {n: k for k, n in enumerate(order)}
        import heapq
        work = list(range(len(order))); heapq.heapify(work); inw = set(order)
        for n in order: s.sum[n] = Summary()
        rounds = {}
        while work:
            n = order[heapq.heappop(work)]; inw.discard(n)
            rounds[n] = rounds.get(n, 0) + 1
            if rounds[n] > 60: continue
            old = s.sum[n].key(); new = s.function(s.m.func(n))
            s.sum[n] = new
            if new.key() != old:
                for u in users.get(n, ()):
                    if u not in inw: inw.add(u); heapq.heappush(work, pos[u])
    def function(s, f):
        P = Pts(s, f); S = P.solve(); s.pts[f.name] = P
        return S

class Pts:
    def __init__(s, mr, f):
        s.mr = mr; s.f = f; s.m = mr.m; s.defs = mr.info[f.name]; s.pts = {}; s.C = {}; s.mods = []; s.calls = set()
        s.dep = {}
        for a, t in args_of(f):
            if a["t"] == "ptr" and t.rstrip().endswith(("*", "&")): s.dep[[x["i"] for x in f.args].index(a["i"])] = mr.depth(re.sub(r"[*&]\s*$", "", t.rstrip()))
        s.flat = set(); s.ldep = {}; s.vars = {}
        for i in s.defs.values():
            if i["op"] in ("call", "invoke") and i["a"] and i["a"][0].get("k") == "v":
                for g in (mr.cal.get((f.name, i["i"])) or [])[:1]:
                    x = re.match(r"^(std::vector<.*, std::allocator<.*>>)::", g.dn)
                    if x: s.vars.setdefault(i["a"][0]["v"], x.group(1))
        for i in s.defs.values():
            if i["op"] == "alloca":
                T = re.sub(r'^%"?(class|struct)\.|"$', "", i["at"])
                x = re.match(r"^\[\d+ x (.*)\]$", T)
                if x: T = re.sub(r'^%"?(class|struct)\.|"$', "", x.group(1))
                D = s.vars.get(i["i"])
                if T in ("double", "float", "i1", "i8", "i16", "i32", "i64") or mr.depth(T) == 0: s.flat.add(("L", i["i"]))
                elif T in s.m.types: s.ldep[("L", i["i"])] = mr.depth(T)
                elif D and T.startswith('std::vector'): s.ldep[("L", i["i"])] = mr.depth(D)
        for n, a in enumerate(f.args): s.pts[a["i"]] = {("A", n)} if a["t"] == "ptr" else set()
    def val(s, a):
        if isinstance(a, list): a = a[0] if isinstance(a[0], dict) else a[1]
        k = a.get("k")
        if k == "v": return s.pts.get(a["v"], set())
        if k == "g": return s.glob(a["v"])
        if k == "c" or k == "ce": return {("U",)}
        return set()
    def cont(s, o):
        if o in s.flat or (o[0] == "A" and s.dep.get(o[1], 9) == 0) or (o[0] == "R" and s.dep.get(o[1], 9) <= 1): return set()
        c = s.C.get(o)
        if c is None: c = s.C[o] = {("R", o[1])} if o[0] in ("A", "R") else ({("U",)} if o[0] == "U" else (s.ginit(o[1]) if o[0] == "G" else set()))
        return c
    def glob(s, n):
        """constants and functions are not tracked"""
        g = s.m.globals.get(n)
        return set() if g is None or g["const"] or n.startswith(("_ZTV", "_ZTI", "_ZTS")) else {("G", n)}
    def ginit(s, n):
        g = s.m.globals.get(n)
        if g is None or g.get("decl"): return {("U",)} if g is not None and not n.startswith("_ZTV") else set()
        out = set()
        for off, sz, v in g.get("init", []):
            if v.get("k") == "g": out |= s.glob(v["v"])
        return out
    def reach(s, objs):
        out = {}; st = [(o, s.levels(o)) for o in objs]
        while st:
            o, n = st.pop()
            if n <= 0: continue
            for x in s.cont(o):
                if out.get(x, -1) < n - 1: out[x] = n - 1; st.append((x, n - 1))
        return set(out)
    def levels(s, o):
        return s.ldep.get(o, 9) if o[0] == "L" else s.dep.get(o[1], 9) if o[0] == "A" else 9
    def loc(s, i): return (i.get("f", s.f.file), i.get("l", s.f.line))
    def solve(s):
        ch = True; n = 0
        while ch and n < 50:
            ch = False; n += 1; s.mods = []
            for b in s.f.order:
                for i in s.f.blocks[b]:
                    if s.step(i): ch = True
        S = Summary()
        for w in s.mods:
            if w.obj[0] not in VIS: continue
            old = S.mod.get(w.obj)
            if old is None or (w.definite and not old.definite) or (w.definite == old.definite and len(w.via) < len(old.via)): S.mod[w.obj] = w
        def vis(objs):
            """heap objects of the function are one object to the caller"""
            return {o if o[0] in VIS else ("H",) for o in objs if o[0] != "L"}
        for o, c in s.C.items():
            init = {("R", o[1])} if o[0] in ("A", "R") else {("U",)} if o[0] == "U" else set()
            if o[0] in VIS or o[0] == "H":
                x = vis(c - init)
                if x: S.flow.setdefault(o if o[0] in VIS else ("H",), set()).update(x)
        ret = set()
        for b in s.f.order:
            for i in s.f.blocks[b]:
                if i["op"] == "ret" and i["a"]: ret |= s.val(i["a"][0])
        S.ret = vis(ret); S.calls = s.calls
        return S
    def write(s, objs, i, via, definite, what, inherited=False):
        for o in objs:
            s.mods.append(Write(o, s.loc(i), via, definite and len(objs) == 1, what, i["i"], inherited))
    def add(s, k, objs):
        p = s.pts.setdefault(k, set()); n = len(p); p |= objs
        return len(p) != n
    def store(s, objs, vals):
        ch = False
        for o in list(objs):
            c = s.cont(o); n = len(c); c |= vals
            if len(c) != n: ch = True
        return ch
    def step(s, i):
        op = i["op"]
        if op == "alloca": return s.add(i["i"], {("L", i["i"])})
        if op in ("getelementptr", "bitcast", "freeze", "addrspacecast", "inttoptr", "ptrtoint"): return s.add(i["i"], s.val(i["a"][0]))
        if op in ("phi",):
            x = set()
            for a in i["a"]: x |= s.val(a)
            return s.add(i["i"], x)
        if op == "select": return s.add(i["i"], s.val(i["a"][1]) | s.val(i["a"][2]))
        if op in ("insertvalue", "extractvalue"):
            x = set()
            for a in i["a"]: x |= s.val(a)
            return s.add(i["i"], x)
        if op == "load":
            if i["t"] not in ("ptr",) and not i["t"].startswith(("{", "%", "[")): return False
            x = set()
            for o in list(s.val(i["a"][0])): x |= s.cont(o)
            return s.add(i["i"], x)
        if op == "store":
            p = s.val(i["a"][1]); v = s.val(i["a"][0])
            if s.isint(i["a"][0]): v = set()
            s.write(p, i, (), True, "store")
            return s.store(p, v)
        if op in ("atomicrmw", "cmpxchg"):
            s.write(s.val(i["a"][0]), i, (), True, "store"); return False
        if op in ("call", "invoke"): return s.call(i)
        return False
    def isint(s, a):
        if a.get("k") == "v":
            d = s.defs.get(a["v"])
            return d is not None and d["op"] == "ptrtoint"
        return False
    def call(s, i):
        cs = s.mr.cal.get((s.f.name, i["i"]))
        args = [s.val(a) for a in i["a"]]
        if cs is None:
            name = "?"
            n = i.get("fn") or i.get("callee")
            if n and n.startswith("llvm."): return s.intrinsic(i, n, args)
            s.calls.add(("unknown", name, s.loc(i)))
            return s.add(i["i"], {("U",)}) if i["t"] == "ptr" else False
        ch = False
        for g in cs:
            if g.decl: ch |= s.external(i, g, args)
            else: ch |= s.internal(i, g, args)
        return ch
    def intrinsic(s, i, n, args):
        if n.startswith(("llvm.memcpy", "llvm.memmove")):
            s.write(args[0], i, (), True, "copy")
            if s.plain(i["a"][1], i["a"][2]): return False
            x = set()
            for o in list(args[1]): x |= s.cont(o)
            return s.store(args[0], x)
        if n.startswith("llvm.memset"): s.write(args[0], i, (), True, "fill"); return False
        if n.startswith(("llvm.threadlocal", "llvm.launder", "llvm.strip")): return s.add(i["i"], args[0])
        if IMPURE.match(n): s.calls.add(("impure", n, s.loc(i)))
        return False
    def plain(s, a, n):
        """the bytes copied hold no pointer, by the declared type of the source"""
        if n.get("k") != "i" or a.get("k") != "v": return False
        n = int(n["v"]); off = 0; v = a["v"]
        while v in s.defs and s.defs[v]["op"] == "getelementptr" and not s.defs[v]["var"] and s.defs[v]["a"][0].get("k") == "v": off += s.defs[v]["off"]; v = s.defs[v]["a"][0]["v"]
        d = s.defs.get(v)
        if d is None: T = next((re.sub(r"[*&]\s*$", "", t).replace("const ", "").strip() for x, t in args_of(s.f) if x["i"] == v and t.endswith(("*", "&"))), None)
        elif d["op"] == "alloca": T = re.sub(r'^%"?(class|struct)\.|"$', "", d["at"])
        else: return False
        if T not in s.m.types: return False
        ms = [x for x in s.m.types[T]["m"] if x["tag"] == "DW_TAG_inheritance" or (x["tag"] == "DW_TAG_member" and not x.get("static"))]
        hit = [x for x in ms if x["off"] < off + n and off < x["off"] + max(1, x["sz"])]
        return bool(hit) and all(s.mr.depth(x["t"]) == 0 for x in hit)
    def external(s, i, g, args):
        dn = g.dn
        if g.name.startswith("llvm."): return s.intrinsic(i, g.name, args)
        if IMPURE.match(dn) or IMPURE.match(g.name): s.calls.add(("impure", dn, s.loc(i)))
        if NOEFFECT.match(dn) or MATH.match(dn):
            ch = False
            if i["t"] == "ptr" and args: ch = s.add(i["i"], args[0])
            return ch
        if dn.startswith("operator new"): return s.add(i["i"], {("H", i["i"])})
        if dn in ("malloc", "calloc"): return s.add(i["i"], {("H", i["i"])})
        if dn.startswith("operator delete") or dn == "free":
            s.write(args[0], i, (), True, "release"); return False
        ps = params_of(dn)
        if ps is None:
            if dn in ("memcpy", "memmove", "strcpy", "strncpy", "strcat", "sprintf", "snprintf"):
                s.write(args[0], i, (), True, "copy"); return s.add(i["i"], args[0]) if i["t"] == "ptr" else False
            if dn in ("memset",): s.write(args[0], i, (), True, "fill"); return s.add(i["i"], args[0]) if i["t"] == "ptr" else False
            if not any(args): 
                return s.add(i["i"], {("U",)}) if i["t"] == "ptr" else False
            s.calls.add(("unknown", dn, s.loc(i)))
            return s.add(i["i"], {("U",)}) if i["t"] == "ptr" else False
        pl, const, head = ps
        na = len(args)
        ro = [readonly(p) for p in pl]
        if na == len(pl) + 1: ro = [const] + ro                     # this
        elif na == len(pl) + 2: ro = [False, const] + ro             # result, this
        elif na != len(pl): ro = [False] * na
        ch = False; ret = set()
        for n, a in enumerate(args):
            if not a: continue
            ret |= a | s.reach(a)
            if not ro[n]: s.write(a, i, (short(dn),), True, "write")
        if i["t"] == "ptr":
            ch |= s.add(i["i"], args[0] if re.search(r"operator(<<|>>)|getline", dn) else (ret or {("U",)}))
        return ch
    def internal(s, i, g, args):
        S = s.mr.sum[g.name]; me = ("H", i["i"])
        inst = {}
        def one(o):
            if o in inst: return inst[o]
            if o[0] == "A": r = args[o[1]] if o[1] < len(args) else set()
            elif o[0] == "R": r = s.reach(args[o[1]]) if o[1] < len(args) else set()
            elif o == ("H",): r = {me}
            else: r = {o}
            inst[o] = r; return r
        ch = False
        for o, fl in S.flow.items():
            v = set()
            for x in fl: v |= one(x)
            ch |= s.store(one(o), v)
        inst.clear()
        for o, w in S.mod.items(): s.write(one(o), i, (short(g.dn) + " (%s:%s)" % w.loc,) + w.via[:2], w.definite, w.what, o[0] == "G")
        if i["t"] == "ptr" or i["t"].startswith(("{", "[", "%")):
            v = set()
            for x in S.ret: v |= one(x)
            ch |= s.add(i["i"], v)
        return ch

def short(dn):
    d = re.sub(r"<[^<>]*>", "", dn)
    while d != dn: dn, d = d, re.sub(r"<[^<>]*>", "", d)
    return d.split("(")[0].split(" ")[-1] if not d.startswith("operator") else d

# -------------------------------------------------------------------- statics
def guarded_init(mr, f, ins):
    """the instruction belongs to the guarded initialisation of a function static: (True, depends on the arguments?) or (False, None)"""
    cfg = f.cfg(); defs = mr.info[f.name]
    blk = next((b for b in f.order if any(i["i"] == ins for i in f.blocks[b])), None)
    reg = None
    for b in f.order:
        t = f.blocks[b][-1]
        if t["op"] != "br" or len(t["a"]) != 3 or t["a"][0].get("k") != "v": continue
        c = defs.get(t["a"][0]["v"])
        if c is None or c["op"] != "icmp": continue
        ld = [defs.get(x.get("v")) for x in c["a"] if x.get("k") == "v"]
        if not ld or ld[0] is None or ld[0]["op"] != "load" or not (ld[0]["a"][0].get("k") == "g" and ld[0]["a"][0]["v"].startswith("_ZGV")): continue
        for x in cfg.succ[b]:
            if len(cfg.pred[x]) == 1 and cfg.dom(x, blk) and any(i["op"] == "store" and i["a"][1].get("k") == "g" and i["a"][1]["v"] == ld[0]["a"][0]["v"] for y in f.order if cfg.dom(x, y) for i in f.blocks[y]): reg = x
    if reg is None: return False, None
    return True, tainted(mr, f, ins)

def tainted(mr, f, ins):
    """a value the instruction uses depends on an argument of the function"""
    P = mr.pts[f.name]; defs = mr.info[f.name]
    tv = {a["i"] for a in f.args}; to = set(); wr = {}
    for w in P.mods: wr.setdefault(w.ins, set()).add(w.obj)
    def v(a):
        if isinstance(a, list): a = a[0] if isinstance(a[0], dict) else a[1]
        if a.get("k") != "v": return False
        return a["v"] in tv
    ch = True
    while ch:
        ch = False
        for b in f.order:
            for i in f.blocks[b]:
                if i["op"] == "store":
                    if v(i["a"][0]):
                        for o in P.val(i["a"][1]):
                            if o not in to and o[0] in "LHG": to.add(o); ch = True
                    continue
                t = any(v(a) for a in i["a"] if isinstance(a, (dict, list)))
                if i["op"] in ("load", "call") and not t: t = any(o in to or o[0] in "ARU" for a in i["a"] if isinstance(a, dict) for o in P.val(a))
                if t and i["op"] == "call":
                    for o in wr.get(i["i"], ()):
                        if o not in to and o[0] in "LHG": to.add(o); ch = True
                if t and i["i"] not in tv: tv.add(i["i"]); ch = True
    i = defs[ins]
    if any(v(a) for a in i["a"]): return True
    for n, a in enumerate(i["a"]):
        for o in P.val(a):
            if o in to and o[0] in "LH": return True
    return i["i"] in tv
