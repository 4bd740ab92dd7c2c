"""C23: read-only operations modify nothing and depend on nothing but their arguments."""
from common import *
from cadsa.modref import ModRef, args_of, guarded_init, short, PRIM
import json, os, re

# taken for reading although not declared const
EXTRA = {("MeshKernelTIN::is_triangle_unlinked", 1): [0], ("MeshKernelHalfEdge::is_triangle_unlinked", 1): [0], ("MeshKernelLinkedTriangles::is_triangle_unlinked", 1): [0],
         ("RotationQuaternion::set_quaternion", 1): [1], ("RotationQuaternion::RotationQuaternion", 1): [1], ("RotationMatrix::set_matrix", 1): [1], ("RotationMatrix::RotationMatrix", 1): [1],
         ("Renderer::compute_color_with_lights", 2): [0], ("RendererCamera::project", 4): [0], ("RendererLightAmbiant::apply", 4): [0], ("RendererLightDiffuse::apply", 4): [0], ("Image::to_double", 1): [0]}
OUTPUT = ("_ZSt4cout", "_ZSt4cerr", "_ZSt4clog", "stdout", "stderr")
TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "readonly.json")

def key(f):
    n = f.dn.split("(")[0] if not "operator()" in f.dn else f.dn.split("operator()")[0] + "operator()"
    this = bool(f.args) and any(a["n"] == "this" for a in f.args)
    return n, len(args_of(f)) - (1 if this else 0)

def declared(f):
    """positions (0 = this, when there is one) of the parameters declared read-only"""
    out = []
    this = any(a["n"] == "this" for a in f.args)
    for k, (a, t) in enumerate(args_of(f)):
        if a["t"] == "ptr" and t.startswith("const ") and t.endswith(("*", "&")): out.append(k + (0 if this else 1))
    return out

def table(m):
    """{name/number of parameters: positions read-only in every overload}"""
    t = {}
    for f in m.repo_funcs():
        k = "%s/%d" % key(f); d = set(declared(f))
        t[k] = d if k not in t else t[k] & d
    cl = sorted({f.dn.split("(")[0].split("::")[0] for f in m.repo_funcs() if any(a["n"] == "this" for a in f.args) and f.dn.split("(")[0].split("::")[0] in m.types})
    return {"functions": {k: sorted(v) for k, v in sorted(t.items()) if v}, "types": cl}

def run(c):
    c.rule("read only", "no instruction of the function or of what it calls writes or releases the object a read-only parameter (const, or the object of a const method) points to, or anything reachable from it")
    c.rule("no global state", "no function writes a global or static variable, except the guarded initialisation of a static from values that do not depend on the arguments")
    c.rule("reproducible", "no function calls a clock, random device, environment or other process-wide source, and none uses a value that was never set")
    m = c.m; mr = ModRef(m)
    base = json.load(open(TABLE))
    with c.group("parameters"): params(c, m, mr, base)
    with c.group("globals"): globs(c, m, mr)
    with c.group("sources"): sources(c, m, mr)

def place(w): return "%s:%s" % w.loc
def params(c, m, mr, base):
    for f in sorted(m.repo_funcs(), key=lambda f: f.dn):
        if f.name.startswith(("__cxx_global", "_GLOBAL__")) or "'lambda" in f.dn or "::$_" in f.dn: continue        # a lambda refers to variables of its function
        S = mr.sum[f.name]; c.functions.add(f.dn)
        this = any(a["n"] == "this" for a in f.args)
        ro = set(declared(f)) | set(EXTRA.get(key(f), ())) | set(base["functions"].get("%s/%d" % key(f), ()))
        unk = [x for x in S.calls if x[0] == "unknown"]
        for k, (a, t) in enumerate(args_of(f)):
            pos = k + (0 if this else 1)
            if pos not in ro or a["t"] != "ptr" or not t.endswith(("*", "&")): continue
            n = [x["i"] for x in f.args].index(a["i"])
            ws = [S.mod[o] for o in (("A", n), ("R", n)) if o in S.mod]
            name = "%s.%s" % (short(f.dn), a["n"]); what = "the object" if a["n"] == "this" else "'%s'" % a["n"]
            if not ws:
                if unk: c.unknown(name, "calls an unknown function (%s:%s)" % unk[0][2], f)
                else: c.proved(name, "not written, nor anything reachable from it", f)
                continue
            w = ([x for x in ws if x.definite] or ws)[0]
            txt = "%s is taken for reading but %s by the %s at %s:%s%s" % (what, "it is changed" if w.obj[0] == "A" else "what it refers to is changed", w.what, w.loc[0], w.loc[1], "".join(" -> " + v for v in w.via))
            if w.definite and (w.obj[0] == "A" or owns(t, base)): c.refuted(name, txt, f)
            elif w.definite: c.proved(name, "the object itself is not written; what its members refer to does not belong to it", f)
            else: c.unknown(name, "possibly written: " + txt, f)
def owns(t, base):
    """what is reachable from an object of this type belongs to it (a class that is not listed may hold references to objects of others)"""
    return "*" not in t[:-1] and all(x in base["types"] or x in ("std", "const", "vector", "allocator", "unsigned") or x in PRIM for x in re.findall(r"[A-Za-z_][A-Za-z_0-9]*", t))

def globs(c, m, mr):
    gs = {n for n, g in m.globals.items() if not g["const"] and not g.get("decl") and not n.startswith(("_ZTV", "_ZTI", "_ZTS", "inline_anchor", "llvm."))}
    for f in sorted(m.repo_funcs(), key=lambda f: f.dn):
        if f.name.startswith(("__cxx_global", "_GLOBAL__")): continue
        P = mr.pts[f.name]
        done = set()
        for w in P.mods:
            if w.obj[0] != "G" or w.inherited or w.obj[1] in OUTPUT or w.obj[1].startswith("_ZGV"): continue
            g = m.globals.get(w.obj[1], {}); nm = g.get("dn", w.obj[1])
            k = "%s.%s" % (short(f.dn), nm)
            if (k, w.ins) in done: continue
            done.add((k, w.ins))
            ini, dep = guarded_init(mr, f, w.ins)
            if ini and not dep: c.proved(k, "initialised once from constants", f); continue
            txt = "the %s at %s%s changes the static variable '%s'%s" % (w.what, place(w), "".join(" -> " + v for v in w.via), nm, ": its value depends on the arguments of the first call" if ini else "")
            if w.definite: c.refuted(k, txt, f)
            else: c.unknown(k, "possibly: " + txt, f)
    c.proved("writable globals", "%d, none written outside its initialisation" % len(gs), "")

def impure(m, mr, f):
    """calls of process-wide sources, also inside the templates of the standard library it uses"""
    out = set(); seen = {f.name}; st = [f.name]
    while st:
        n = st.pop()
        for x in mr.sum[n].calls:
            if x[0] == "impure": out.add((x[1], x[2]))
        for i in mr.info[n].values():
            if i["op"] in ("call", "invoke"):
                for g in mr.cal.get((n, i["i"])) or ():
                    if not g.decl and g.name not in seen and not m.in_repo(g): seen.add(g.name); st.append(g.name)
    return out

USE = ("ret", "store", "fadd", "fsub", "fmul", "fdiv", "fneg", "add", "sub", "mul", "sdiv", "icmp", "fcmp", "switch", "br", "sitofp", "fptosi", "fpext", "fptrunc", "sext", "getelementptr")
def sources(c, m, mr):
    for f in sorted(m.repo_funcs(), key=lambda f: f.dn):
        imp = sorted(impure(m, mr, f))
        k = short(f.dn)
        for n, loc in imp: c.refuted(k + "." + short(n), "the result depends on %s (called at %s:%s)" % (n, loc[0], loc[1]), f)
        und = None
        for b in f.order:
            if b not in f.cfg().reach: continue
            for i in f.blocks[b]:
                if i["op"] in USE and any(isinstance(a, dict) and a.get("k") in ("undef", "poison") for a in i["a"]): und = und or i
        if und: c.refuted(k + ".unset", "the %s at %s:%s uses a value that was never set" % (und["op"], und.get("f"), und.get("l")), f)
        if not imp and not und: c.proved(k, "no clock, random or environment source; no unset value used", f)
