"""C02: every owned heap object is released exactly once with the matching operator."""
from common import *
from ident import paths
from cadsa.modref import ModRef
from c08 import infeasible
from cadsa import ir as _ir
import copy, os, re, subprocess, tempfile

ALLOC = {"_Znwm": "new", "_Znam": "new[]", "malloc": "malloc", "calloc": "malloc", "realloc": "malloc"}
FREE = {"_ZdlPv": "new", "_ZdlPvm": "new", "_ZdaPv": "new[]", "_ZdaPvm": "new[]", "free": "malloc"}
FORM = {"new": "delete", "new[]": "delete[]", "malloc": "free"}

def insts(f):
    for b in f.blocks.values():
        for i in b: yield i
def callee(i):
    if i.get("fn"): return i["fn"]
    fv = i.get("fv")
    return fv["v"] if fv and fv.get("k") == "g" else None
def cls_of(f):
    """class of a method"""
    if not any(a["n"] == "this" for a in f.args): return None
    h = f.dn.split("(")[0].strip()
    return h.rsplit("::", 1)[0]
def mname(f): return f.dn.split("(")[0].rsplit("::", 1)[-1]
def is_ctor(f): c = cls_of(f); return c is not None and mname(f) == c.split("::")[-1].split("<")[0]
def is_dtor(f): return cls_of(f) is not None and mname(f).startswith("~")

class Analysis:
    """one method run on a symbolic object"""
    def __init__(s, c, f):
        s.c = c; s.f = f; s.L = L = Lab(c, mesh=False); s.args = []; s.objs = []
        for n, a in enumerate(f.args):
            if a["t"] == "ptr":
                p = L.obj(a["n"]); s.args.append(p); s.objs.append(p)
                L.st.mem[p.obj] = Mem("init", None, p.obj)
            elif a["t"] in ("i1", "i8"): s.args.append(A("arg", a["n"], ints=True))
            elif a["t"][0] == "i": s.args.append(A("arg", a["n"], ints=True))
            else: s.args.append(L.real(a["n"]))
        s.this = s.args[0] if cls_of(f) else None
        if s.this is not None and is_ctor(f): L.st.mem[s.this.obj] = Mem("undef", None, None)
        s.r = L.it.run(f, s.args, L.st); s.ret = s.r.ret
        s.evs = list(walk(s.r.ev))
        c.functions.update(x.dn for x in L.visited())
    def initial(s, off): return Ptr(("D", "i", s.this.obj, P(off)), ZERO)
    def final(s, off): return s.L.load(Ptr(s.this.obj, s.this.off + off), 8, "ptr")

class Owners:
    def __init__(s, c):
        s.c = c; s.m = c.m; s.mr = ModRef.__new__(ModRef); s.mr.m = c.m; s.mr.vt = None
        s.runs = {}
    def run(s, f):
        if f.name not in s.runs:
            try: s.runs[f.name] = Analysis(s.c, f)
            except AnalysisError: raise
            except Exception as x:
                from cadsa.check import SOFT
                if not isinstance(x, SOFT): raise
                s.runs[f.name] = repr(x)
        return s.runs[f.name]
    def derived(s, T):
        out = {T}
        while True:
            n = {k for k, t in s.m.types.items() if any(z["tag"] == "DW_TAG_inheritance" and z["t"] in out for z in t["m"])} - out
            if not n: return out
            out |= n
    def deleting(s, slot):
        """is the slot of the table of virtual functions a deleting destructor; its classes"""
        fs = s.mr.vtables().get(slot, ())
        return {cl for n, cl in fs if re.search(r"D0Ev$", n)}
    def fields(s, cls):
        return [x for x in s.m.fields(cls) if x[2].rstrip().endswith("*") and not x[0].startswith("_vptr")]
    def vectors(s, cls):
        out = []
        for n, off, t, sz in s.m.fields(cls):
            x = re.match(r"^(?:std::)?vector<(.*?)\*, .*>$", t) or re.match(r"^(?:std::)?vector<(.*?)\*>$", t)
            if x: out.append((n, off, x.group(1).strip(), sz))
        return out
    # ---------------------------------------------------------------- events
    def releases(s, an):
        """[(pointer, form or None, event, loops)]"""
        out = []
        for e, fors in an.evs:
            if not isinstance(e, Ev): continue
            if e.kind == "delete": out.append((e.args[0], {"delete": "new", "delete[]": "new[]"}[e.name], e, fors))
            elif e.kind == "vcall":
                sl = e.x.get("slot")
                if isinstance(sl, Poly) and sl.is_const(): sl = int(sl.const())
                if isinstance(sl, Fraction): sl = int(sl)
                D = s.deleting(sl) if isinstance(sl, int) else set()
                if D and len(e.args) == 1: out.append((e.args[0], "virtual", e, fors))
            elif e.kind == "call" and re.match(r"^free(\(|$)", e.name): out.append((e.args[0], "malloc", e, fors))
        return out
    def news(s, an):
        out = []
        for e, fors in an.evs:
            if isinstance(e, Ev) and e.kind == "new": out.append((e.args[0], e.name, e, fors))
        return out

def run(c):
    c.rule("released once", "for every class with a member that holds memory the class allocated: on every path the destructor releases the initial value of the member (every element of a list of such pointers) exactly once, with the form of delete matching the allocation, through a destructor that reaches the allocated class")
    c.rule("kept or released", "a method either leaves the member alone or releases its value once and stores fresh memory or null; memory allocated in a function is stored in an owning member, released or returned on every path")
    c.rule("not copied", "type-level witness: a class that owns memory is not copyable or movable, or its copy operations store fresh memory")
    c.assume("allocation does not fail and no exception leaves a function", "containers of the standard library and smart pointers manage their own memory")
    m = c.m; O = Owners(c)
    touching = []
    for f in m.repo_funcs():
        if f.name.endswith(("D0Ev", "C1Ev")) and f.name in m.aliases: continue
        for i in insts(f):
            if i["op"] in ("call", "invoke") and (callee(i) in ALLOC or callee(i) in FREE): touching.append(f); break
            if i["op"] in ("call", "invoke") and vdelete(O, f, i): touching.append(f); break
    touching = [f for f in touching if not f.name.endswith("D0Ev")]
    c.count("functions that allocate or release", len(touching))
    if not touching: c.proved("nothing owned", "no function of the library allocates or releases memory itself"); return
    classes = sorted({cls_of(f) for f in touching if cls_of(f)} - {None})
    for k in classes:
        if k not in m.types: continue
        with c.group(k): klass(c, O, k)
    done = set(classes)
    for f in touching:
        if cls_of(f) in m.types: continue
        with c.group(f.dn.split("(")[0]): function(c, O, f, set())

def vdelete(O, f, i):
    """indirect call of a deleting destructor"""
    fv = i.get("fv")
    if not fv or fv.get("k") != "v" or len(i["a"]) != 1: return False
    defs = {x["i"]: x for x in insts(f)}
    d = defs.get(fv["v"])
    if d is None or d["op"] != "load": return False
    q = defs.get(d["a"][0].get("v")); off = 0
    if q is not None and q["op"] == "getelementptr": off = q["off"]
    return bool(O.deleting(off))

# ------------------------------------------------------------------ classes
class Member:
    def __init__(s, name, off, elem, vec): s.name = name; s.off = off; s.elem = elem; s.vec = vec; s.forms = {}; s.released = []; s.foreign = []
    def __repr__(s): return s.name

def heap(p): return isinstance(p, Ptr) and p.obj[0] == "heap"
def nullp(p): return isinstance(p, Ptr) and p.obj[0] == "null"

def klass(c, O, k):
    m = c.m
    ms = sorted([f for f in m.repo_funcs() if cls_of(f) == k and not f.name.endswith(("D0Ev", "C1Ev", "D1Ev")) ], key=lambda f: f.dn)
    mem = [Member(n, off, t.rstrip("* ").strip(), False) for n, off, t, sz in O.fields(k)] + [Member(n, off, t, True) for n, off, t, sz in O.vectors(k)]
    direct = [f for f in ms if is_ctor(f) or is_dtor(f) or touches(c, O, f, mem)]
    # a private method is judged where it is used
    priv = [f for f in direct if private(m, k, f) and not is_ctor(f) and not is_dtor(f)]
    grown = True
    while grown:
        grown = False
        names = {f.name for f in priv}
        for f in ms:
            if f in direct: continue
            if any(i["op"] in ("call", "invoke") and callee(i) in names for i in insts(f)):
                direct.append(f); grown = True
                if private(m, k, f): priv.append(f)
    judged = [f for f in direct if f not in priv]
    c.count("methods", len(judged))
    # allocation sites that end in a member
    for f in judged:
        an = O.run(f)
        if isinstance(an, str): continue
        hs = {p.obj: (form, e) for p, form, e, fors in O.news(an)}
        for x in mem:
            if not x.vec:
                try: fin = an.final(x.off)
                except Exception: continue
                for l in leaves(fin):
                    if heap(l) and l.obj in hs: x.forms.setdefault(hs[l.obj][0], []).append((alloc_class(c, f, hs[l.obj][1]), hs[l.obj][1]))
                    elif is_ctor(f) and isinstance(l, Ptr) and l.obj[0] == "arg" : x.foreign.append(f)
            else:
                for e, fors, l in pushes(an, x.off):
                    if heap(l) and l.obj in hs: x.forms.setdefault(hs[l.obj][0], []).append((alloc_class(c, f, hs[l.obj][1]), hs[l.obj][1]))
        for p, form, e, fors in O.releases(an):
            for l in leaves(p):
                for x in mem:
                    if target(l, an, x): x.released.append((f, form, e))
    own = [x for x in mem if x.forms or x.released]
    for x in own:
        if not x.forms and x.foreign: c.refuted("%s released" % x.name, "releases %s, which holds memory of the caller" % x.name, x.released[0][2])
    own = [x for x in own if x.forms]
    c.count("owning members", len(own))
    D = [f for f in judged if is_dtor(f)]
    for x in own:
        if not D: c.refuted("%s released" % x.name, "%s::%s holds memory from %s but the class has no destructor that releases it" % (k, x.name, "/".join(sorted(x.forms))), "%s:%s" % (c.m.types[k].get("f", "src/%s" % k), 0)); continue
        with c.group("%s::%s" % (k, x.name)): destructor(c, O, k, x, D[0])
    for f in judged:
        if is_dtor(f): continue
        with c.group("%s" % f.dn.split("(")[0] + ("(copy)" if is_copy(f) else "")): method(c, O, k, f, own, judged)
    if own: copies(c, O, k, own, ms)

def private(m, k, f):
    for x in m.methods(k):
        if linked(x, f): return x.get("acc") != 3
    return False
def linked(x, f):
    """declaration x of a method is the one of f (constructors and destructors are declared under one name)"""
    l = x.get("link")
    return bool(l) and (l == f.name or re.sub(r"([CD])[0124]E", r"\1#E", l) == re.sub(r"([CD])[0124]E", r"\1#E", f.name))
def is_copy(f):
    k = cls_of(f); return k is not None and len(f.args) == 2 and re.search(r"\((const )?%s( const)?&&?\)$" % re.escape(k), f.dn.strip()) is not None and (is_ctor(f) or mname(f) == "operator=")

def touches(c, O, f, mem):
    """does the body itself allocate, release, store into or hand out the address of a member"""
    defs = {x["i"]: x for x in insts(f)}; args = {a["i"] for a in f.args}
    offs = {x.off for x in mem}
    for i in insts(f):
        if i["op"] in ("call", "invoke"):
            if callee(i) in ALLOC or callee(i) in FREE or vdelete(O, f, i): return True
            g = c.m.func(callee(i)) if callee(i) else None
            for a in i["a"]:
                if not isinstance(a, dict): continue
                q = defs.get(a.get("v")) if a.get("k") == "v" else None
                if q is not None and q["op"] == "getelementptr" and q["a"][0].get("v") in args and q["off"] in offs and not q["var"]:
                    if g is not None and re.search(r"\) const$", g.dn): continue
                    if g is not None and re.search(r"::(operator\[\]|begin|end|at|front|back|size|data)\(", g.dn): continue
                    return True
        elif i["op"] == "store":
            q = defs.get(i["a"][1].get("v"))
            if q is not None and q["op"] == "getelementptr" and q["a"][0].get("v") in args and q["off"] in offs and not q["var"]: return True
    return False

def target(l, an, x):
    """l is the initial value of the member (an element of the list)"""
    if not isinstance(l, Ptr) or an.this is None: return False
    if not x.vec: return l == an.initial(x.off)
    return l.obj[0] == "D" and l.off.is_zero() and l.obj[1] == "i" and l.obj[2] == ("E", an.this.obj, P(x.off))

def pushes(an, off):
    """[(event, loops, pointer appended to the list)]"""
    for e, fors in an.evs:
        if isinstance(e, Ev) and e.kind == "vec" and isinstance(e.args[0], Ptr) and e.args[0].obj == an.this.obj and e.args[0].off == an.this.off + off and e.name == "push":
            el = e.x.get("elem"); mm = e.x.get("mem")
            if el is None and e.x.get("tmem") is not None: el = Ptr(e.x["tobj"], ZERO); mm = e.x["tmem"]
            if el is None: yield e, fors, None; continue
            v = an.L.it.read(mm, el.obj, el.off, 8, "ptr")
            for l in leaves(v): yield e, fors, l

def alloc_class(c, f, e):
    """class constructed in the memory of an allocation: first constructor or base-most table stored is not needed, the most derived
    constructor called on the result in the function that allocates"""
    obj = e.args[0].obj; ctx = obj[1]; i0 = obj[2]
    g = c.m.func(ctx[-1][0]) if ctx else None
    for h in ([f] if not ctx else []) + [x for x in c.m.funcs.values() if not x.decl and ctx]:
        for i in insts(h):
            if i["i"] == i0 and callee(i) in ALLOC and (not ctx or True):
                for j in insts(h):
                    if j["op"] in ("call", "invoke") and j["a"] and isinstance(j["a"][0], dict) and j["a"][0].get("v") == i0 and j["a"][0].get("k") == "v":
                        q = c.m.func(callee(j)) if callee(j) else None
                        if q is not None and is_ctor(q): return cls_of(q)
                if not ctx: return None
    return None

def total(an, evs, match):
    """number of releases as a term: [(pointer, event, loops)] -> Node over 0,1,2...; None when it depends on a loop"""
    n = ZERO
    for p, e, fors in evs:
        cnt = bind2(lambda g, q: g if match(q) else ZERO, e.guard if isinstance(e.guard, (Poly, Node)) else ONE, p)
        if all(isinstance(l, Poly) and l.is_zero() for l in leaves(cnt)): continue
        if fors: return None
        n = bind2(lambda a, b: a + b, n, cnt)
    return n

def initially_null(path, p):
    return any(pr.kind != "gt" and pr.key and pr.key[0] == "nonnull" and pr.key[1] == p and not v for pr, v in path)

def where(e): return "%s:%s" % (e.loc.file, e.loc.line) if hasattr(e.loc, "file") else e.loc

def destructor(c, O, k, x, f):
    an = O.run(f)
    if isinstance(an, str): c.unknown("destructor", an, f); return
    rel = O.releases(an); want = set(x.forms)
    mine = [(p, form, e, fors) for p, form, e, fors in rel if any(target(l, an, x) for l in leaves(p))]
    # form of the release
    for p, form, e, fors in mine:
        if form != "virtual" and form not in want: c.refuted("form", "%s::%s comes from %s but is released with %s" % (k, x.name, "/".join(sorted(want)), FORM[form]), e)
        elif form == "virtual" and want != {"new"}: c.refuted("form", "%s::%s comes from %s but is released with delete" % (k, x.name, "/".join(sorted(want))), e)
        else: c.proved("form", "", e)
        full(c, O, k, x, f, form, e)
    if not x.vec:
        n = total(an, [(p, e, fors) for p, form, e, fors in mine], lambda q: target(q, an, x))
        if n is None: c.unknown("released once", "released in a loop", f); return
        judge_count(c, n, an.initial(x.off), "%s::%s" % (k, x.name), f, 1)
    else: elements(c, O, an, k, x, mine, f)

def judge_count(c, n, init, what, f, want):
    bad = None; und = None
    for path, leaf in paths(n):
        if initially_null(path, init): continue
        if not isinstance(leaf, Poly) or not leaf.is_const(): und = "number of releases"; continue
        v = int(leaf.const())
        if v == want: continue
        if infeasible(path, ()): continue
        bad = bad or "%s is released %s by the destructor%s" % (what, "%d times" % v if v else "never", cond(path))
    c.decide(False if bad else None if und else True, "released once", bad or und or "", f)
def cond(path):
    t = " and ".join(("%s" if v else "not (%s)") % p for p, v in path)
    return " when " + t[:200] if t else ""

def elements(c, O, an, k, x, mine, f):
    size = A("vs", an.this.obj, P(x.off)); n = None
    bad = why = None
    for cnt in range(5):
        seen = {}
        def atoms(a, env):
            if a.kind == "vs" and a.args[0] == an.this.obj and a.args[1] == P(x.off): return cnt
            if a.kind == "ld" and a.args[0] == "i" and a.args[1] == an.this.obj: raise NoValue(fmt_atom(a))
            raise NoValue(fmt_atom(a))
        class E(dict): pass
        def at(e, env):
            for p, form, e2, fors in mine:
                if e2 is e:
                    q = p
                    while isinstance(q, Node): q = q.hi if num_eval(mk(q.p, ONE, ZERO), env) else q.lo
                    if target(q, an, x):
                        i = Fraction(num_eval(q.obj[3], env)) / 8; seen[i] = seen.get(i, 0) + 1
        env = {"atoms": atoms, "preds": lambda key, env: True if key[0] == "nonnull" else nov(key)}
        try: num_events(an.r.ev, env, at)
        except NoValue as y: why = "elements released with %d in the list: %s" % (cnt, y); break
        for i in range(cnt):
            if seen.get(i, 0) != 1: bad = bad or "with %d elements in %s, element %d is released %s" % (cnt, x.name, i, "%d times" % seen[i] if i in seen else "never")
        for i in seen:
            if not 0 <= i < cnt: bad = bad or "with %d elements in %s, something outside of the list is released" % (cnt, x.name)
        if bad: break
    if bad: c.refuted("released once", bad, f); return
    if why: c.unknown("released once", why, f); return
    ok = any(len(fors) == 1 and fors[0].trip == size for p, form, e, fors in mine)
    c.decide(True if ok else None, "released once", "" if ok else "the loop over %s" % x.name, f)
def nov(k): raise NoValue(str(k))

def full(c, O, k, x, f, form, e):
    """the destructor that runs reaches the allocated class"""
    classes = {cl for l in x.forms.values() for cl, _ in l if cl}
    if form == "virtual":
        D = set()
        sl = e.x.get("slot"); sl = int(sl.const()) if isinstance(sl, Poly) else int(sl)
        D = O.deleting(sl)
        miss = [cl for cl in classes if cl not in D]
        c.decide(True if not miss else None, "full destructor", "" if not miss else "no deleting destructor of %s in slot %d" % (miss[0], sl), e); return
    if form != "new": return
    base = x.elem
    for cl in sorted(classes):
        if cl == base: continue
        if cl in O.derived(base) : c.refuted("full destructor", "%s::%s holds a %s but is released as a %s, whose destructor is not virtual" % (k, x.name, cl, base), e); return
    nt = [cl for cl in classes if any(g for g in c.m.funcs.values() if cls_of(g) == cl and is_dtor(g))]
    if nt and not dtor_called(c, e): c.refuted("full destructor", "%s::%s is released without running the destructor of %s" % (k, x.name, nt[0]), e)
    else: c.proved("full destructor", "", e)

def dtor_called(c, e):
    """in the function with the delete: a destructor is called on the released pointer"""
    for f in c.m.repo_funcs():
        if e.loc is None: return True
        for i in insts(f):
            if i["op"] in ("call", "invoke") and callee(i) in FREE and i.get("l") == getattr(e.loc, "line", None):
                v = i["a"][0].get("v")
                for j in insts(f):
                    if j["op"] in ("call", "invoke") and j is not i and j["a"] and isinstance(j["a"][0], dict) and j["a"][0].get("v") == v:
                        g = c.m.func(callee(j)) if callee(j) else None
                        if g is None or is_dtor(g): return True
                return False
    return True

def method(c, O, k, f, own, judged):
    an = O.run(f)
    if isinstance(an, str): c.unknown("ownership", an, f); return
    rel = O.releases(an)
    other = [p for p in an.objs if p != an.this]
    for x in own:
        if x.vec: list_changes(c, O, an, k, f, x, rel); continue
        fin = an.final(x.off); init = an.initial(x.off)
        mine = [(p, e, fors) for p, form, e, fors in rel if any(target(l, an, x) for l in leaves(p))]
        n = total(an, mine, lambda q: target(q, an, x))
        if n is None: c.unknown(x.name, "released in a loop", f); continue
        bad = und = None
        comb = bind2(lambda a, b: Ptr(("pair", a, b), ZERO), n, fin)
        for path, leaf in paths(comb):
            if infeasible(path, ()): continue
            if not isinstance(leaf, Ptr) or leaf.obj[0] != "pair": und = und or "value of %s after the call" % x.name; continue
            cnt, p = leaf.obj[1], leaf.obj[2]
            if not isinstance(cnt, Poly) or not cnt.is_const(): und = und or "number of releases"; continue
            cnt = int(cnt.const()); t = cond(path)
            if is_ctor(f):
                if heap(p) or nullp(p): continue
                if isinstance(p, Ptr) and p.obj[0] == "D" and any(p.obj[2] == q.obj for q in other):
                    if is_copy(f) and not released_source(an, p):
                        if f.dn.strip().endswith("&&)"): und = und or "moved"; continue
                        bad = bad or "the new object takes over %s of the object it is copied from: both release it" % x.name
                    continue
                if isinstance(p, Undef) : bad = bad or "%s is left without a value%s" % (x.name, t)
                else: und = und or "%s after construction: %s" % (x.name, str(p)[:80])
            else:
                same = p == init
                if cnt > 1: bad = bad or "%s is released %d times%s" % (x.name, cnt, t)
                elif same and cnt == 1 and not initially_null(path, init): bad = bad or "%s is released but keeps its value%s: the destructor releases it again" % (x.name, t)
                elif not same and cnt == 0 and not initially_null(path, init):
                    if heap(p) or nullp(p) or (isinstance(p, Ptr) and p.obj[0] == "D" and any(p.obj[2] == q.obj for q in other)):
                        if f.dn.strip().endswith("&&)"): und = und or "moved"
                        else: bad = bad or "%s is replaced without releasing what it held%s" % (x.name, t)
                    else: und = und or "%s after the call: %s" % (x.name, str(p)[:80])
                elif not same and isinstance(p, Ptr) and p.obj[0] == "D" and any(p.obj[2] == q.obj for q in other):
                    if f.dn.strip().endswith("&&)"): und = und or "moved"
                    else: bad = bad or "%s takes over the memory of another object%s: both release it" % (x.name, t)
                elif not same and not (heap(p) or nullp(p)): und = und or "%s after the call: %s" % (x.name, str(p)[:80])
        c.decide(False if bad else None if und else True, x.name, bad or und or "", f)
        # the member of the other object must not be released
        for q in other:
            o = Ptr(("D", "i", q.obj, P(x.off)), ZERO)
            for p, form, e, fors in rel:
                if any(l == o for l in leaves(p)) and takes(c, f, q, k) and not f.dn.strip().endswith("&&)"): c.refuted(x.name, "releases %s of the object it was given, which releases it again" % x.name, e)
    fresh(c, O, an, f, own, rel)

def takes(c, f, q, k):
    for a, t in zip(f.args, (f.dt or [None] * 9)[1:]):
        if ("arg", a["n"]) == q.obj and t and re.search(r"\b%s\b" % re.escape(k), t): return True
    return False
def released_source(an, p): return False

def list_changes(c, O, an, k, f, x, rel):
    """changes of a list of owned pointers outside of the destructor"""
    rem = [(e, fors) for e, fors in an.evs if isinstance(e, Ev) and e.kind == "vec" and isinstance(e.args[0], Ptr) and e.args[0].obj == an.this.obj and e.args[0].off == an.this.off + x.off and e.name not in ("push", "new")]
    mine = [(p, form, e, fors) for p, form, e, fors in rel if any(target(l, an, x) for l in leaves(p))]
    if is_ctor(f):
        take = [e for e, fors in rem if e.name == "copy"]
        if take: c.refuted(x.name, "the new object takes over the pointers in %s of the object it is copied from: both release them" % x.name, take[0])
        else: c.proved(x.name, "", f)
        return
    stores = [e for e, fors in an.evs if isinstance(e, Ev) and e.kind == "store" and isinstance(e.args[0], Ptr) and e.args[0].obj == ("E", an.this.obj, P(x.off))]
    if not rem and not mine:
        c.decide(True if not stores else None, x.name, "" if not stores else "an element of %s is replaced" % x.name, f); return
    if rem and not mine:
        e = rem[0][0]
        if e.name in ("clear", "pop", "erase", "copy") and not other_release(an, rel): c.refuted(x.name, "%s of %s drops pointers that were not released" % ({"clear": "clearing", "pop": "shortening", "erase": "erasing", "copy": "overwriting"}[e.name], x.name), e)
        else: c.unknown(x.name, "%s changes (%s)" % (x.name, e.name), e)
        return
    if mine and not rem and not stores: c.refuted(x.name, "elements of %s are released but stay in the list: the destructor releases them again" % x.name, mine[0][2]); return
    c.unknown(x.name, "%s changes and elements are released" % x.name, f)
def other_release(an, rel): return any(not heap(l) for p, form, e, fors in rel for l in leaves(p))

def fresh(c, O, an, f, own, rel):
    """memory allocated in the function: stored in an owner, released or returned, on every path, once"""
    for p, form, e, fors in O.news(an):
        obj = p.obj; key = "allocation at line %s" % getattr(e.loc, "line", "?")
        if fors:
            if not settled_in_loop(an, O, own, e, fors, obj, rel): c.unknown(key, "allocated in a loop", e)
            else: c.proved(key, "", e)
            continue
        is_it = lambda q: isinstance(q, Ptr) and q.obj == obj
        n = ZERO; where_ = []; bad = None; lost = False
        for q, fm, e2, fs in rel:
            if any(is_it(l) for l in leaves(q)):
                cnt = bind2(lambda g, l: g if is_it(l) else ZERO, e2.guard if isinstance(e2.guard, (Poly, Node)) else ONE, q)
                if fs: lost = True
                n = bind2(lambda a, b: a + b, n, cnt)
                if fm not in ("virtual", form): bad = "memory from %s is released with %s" % (form, FORM[fm]); where_.append(e2)
        if an.this is not None:
            for x in own:
                if x.vec:
                    for e2, fs, l in pushes(an, x.off):
                        if is_it(l): n = bind2(lambda a, b: a + b, n, e2.guard); lost = lost or bool(fs)
                else: n = bind2(lambda a, b: a + b, n, bind(lambda l: ONE if is_it(l) else ZERO, an.final(x.off)))
        if an.ret is not None and any(is_it(l) for l in leaves(an.ret)): n = bind2(lambda a, b: a + b, n, bind(lambda l: ONE if is_it(l) else ZERO, an.ret))
        esc = escapes(an, obj, own)
        und = "stored elsewhere" if esc else "in a loop" if lost else None
        for path, leaf in paths(n if not isinstance(e.guard, Node) else bind2(lambda g, v: v if isinstance(g, Poly) and not g.is_zero() else ONE, e.guard, n)):
            if infeasible(path, ()): continue
            if not isinstance(leaf, Poly) or not leaf.is_const(): und = und or "what becomes of the memory"; continue
            v = int(leaf.const())
            if v == 0 and not esc: bad = bad or "allocated memory is neither kept nor released%s" % cond(path)
            elif v > 1 and not lost: bad = bad or "allocated memory is released or kept %d times%s" % (v, cond(path))
        c.decide(False if bad else None if und else True, key, bad or und or "", where_[0] if where_ else e)

def settled_in_loop(an, O, own, e, fors, obj, rel):
    for x in own:
        if x.vec:
            for e2, fs, l in pushes(an, x.off):
                if isinstance(l, Ptr) and l.obj == obj and fs == fors and e2.guard == e.guard: return True
    for q, fm, e2, fs in rel:
        if fs == fors and e2.guard == e.guard and isinstance(q, Ptr) and q.obj == obj: return True
    return False

def escapes(an, obj, own):
    """the pointer is stored somewhere that is not an owning member, or given to an unknown function"""
    def inside(v): return any(isinstance(l, Ptr) and l.obj == obj for l in leaves(v)) if isinstance(v, (Ptr, Node)) else False
    offs = {(an.this.obj, x.off) for x in own} if an.this is not None else set()
    for e, fors in an.evs:
        if not isinstance(e, Ev): continue
        if e.kind == "store" and len(e.args) > 1 and inside(e.args[1]):
            q = e.args[0]
            if isinstance(q, Ptr) and q.obj[0] == "alloca": continue
            if isinstance(q, Ptr) and q.off.is_const() and (q.obj, int(q.off.const())) in offs: continue
            return True
        if e.kind == "call" and e.args and any(inside(a) for a in e.args) and not HARMLESS.search(e.name): return True
        if e.kind == "vec" and e.name in ("push", "insert", "set", "resize"):
            el = e.x.get("elem"); mm = e.x.get("mem")
            if el is None and e.x.get("tmem") is not None: el = Ptr(e.x["tobj"], ZERO); mm = e.x["tmem"]
            if el is not None and mm is not None and e.x.get("T", "").endswith("*"):
                q = e.args[0]
                if inside(an.L.it.read(mm, el.obj, el.off, 8, "ptr")) and not (isinstance(q, Ptr) and q.off.is_const() and (q.obj, int(q.off.const())) in offs): return True
    return False
HARMLESS = re.compile(r"^(std::(basic_)?[io]?f?stream|std::ostream|std::istream|mem(cpy|set|move)|fwrite|fread|llvm\.)")

def function(c, O, f, own):
    an = O.run(f)
    if isinstance(an, str): c.unknown("allocation", an, f); return
    fresh(c, O, an, f, [], O.releases(an))

# ------------------------------------------------------------------ copies
PROBE = r"""
#include <type_traits>
#include "%s"
template<int N> struct out;
constexpr int V = (std::is_copy_constructible<%s>::value ? 1 : 0) + (std::is_copy_assignable<%s>::value ? 2 : 0) + (std::is_move_constructible<%s>::value ? 4 : 0) + (std::is_move_assignable<%s>::value ? 8 : 0);
out<V> x;
"""
def header(c, k):
    src = os.path.join(_ir.REPO if c.repo is None else c.repo, "src")
    hs = [h for h in sorted(os.listdir(src)) if h.endswith((".h", ".hpp")) and re.search(r"(class|struct)\s+%s\b[^;{]*\{" % re.escape(k), open(os.path.join(src, h), errors="replace").read())]
    return hs[0] if hs else None
def traits(c, k):
    """what a client can do with the class, from the compiler's own answer"""
    src = os.path.join(_ir.REPO if c.repo is None else c.repo, "src")
    h = header(c, k)
    if h is None: return None
    with tempfile.NamedTemporaryFile("w", suffix=".cpp", delete=False) as t: t.write(PROBE % ((h,) + (k,) * 4))
    try: r = subprocess.run([CLANG, "-std=c++17", "-fsyntax-only", "-w", "-I", src, t.name], capture_output=True, text=True, timeout=120)
    finally: os.unlink(t.name)
    x = re.search(r"undefined template 'out<(\d+)>'", r.stderr)
    return int(x.group(1)) if x else None
CLANG = "/usr/lib/llvm-18/bin/clang++"

def copies(c, O, k, own, ms):
    v = traits(c, k)
    loc = "src/%s.h" % k
    if v is None: c.unknown("%s copies" % k, "the class cannot be probed", loc); return
    c.count("classes probed for copying")
    n = own[0].name
    for bit, what, sel in ((1, "copy construction", lambda f: is_ctor(f) and is_copy(f) and not f.dn.strip().endswith("&&)")), (2, "copy assignment", lambda f: mname(f) == "operator=" and is_copy(f) and not f.dn.strip().endswith("&&)"))):
        if not v & bit: c.proved("%s of %s" % (what, k), "not possible", loc); continue
        fs = [f for f in ms if sel(f)]
        if not fs: c.refuted("%s of %s" % (what, k), "%s of %s is possible and copies the pointer %s: the memory is released twice" % (what, k, n), loc)
        else: c.proved("%s of %s" % (what, k), "defined by the class", fs[0])
    fs = [f for f in ms if is_copy(f) and f.dn.strip().endswith("&&)")]; c2 = c
    if v & 12 and not fs:       # defined in the class, and not used by the library
        m2 = probe(c, k)
        if m2 is not None:
            c2 = copy.copy(c); c2._m = m2
            fs = [f for f in m2.repo_funcs() if cls_of(f) == k and is_copy(f) and f.dn.strip().endswith("&&)") and not f.name.endswith("C1E")]
    for f in fs: moved(c2, O, k, own, f)

def probe(c, k):
    """the move operations of a class, as a module of their own"""
    h = header(c, k)
    if h is None: return None
    ops = ["void cadsa_m(%s& b) { %s a(std::move(b)); (void)a; }" % (k, k), "void cadsa_a(%s& a, %s& b) { a = std::move(b); }" % (k, k)]
    try: return _ir.build(repo=c.repo, extra=[("cadsa_probe%d.cpp" % i, '#include <utility>\n#include "%s"\n%s\n' % (h, t)) for i, t in enumerate(ops)])
    except (AnalysisError, IndexError): return None

def moved(c, O, k, own, f):
    """after a move the source must not hold what the target holds"""
    try: an = Analysis(c, f)
    except Exception as x: c.unknown("move", repr(x), f); return
    src = [p for p in an.objs if p != an.this][0]
    for x in own:
        if x.vec: continue
        a = an.final(x.off); b = an.L.load(Ptr(src.obj, P(x.off)), 8, "ptr")
        both = [l for l in leaves(a) if l in list(leaves(b)) and isinstance(l, Ptr) and not nullp(l)]
        if both and not isinstance(a, Node) and not isinstance(b, Node): c.refuted("move " + x.name, "after the move both objects hold %s: it is released twice" % x.name, f)
        else: c.decide(True if not both else None, "move " + x.name, "", f)
