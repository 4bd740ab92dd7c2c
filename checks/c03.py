"""C03: every consumer of a mesh skips removed triangles."""
from small import *
from cadsa.stream import *
import kernel, re

def io_env(key, env):
    if key[0] in ("iofail", "iobad", "ioeof"): return False
    if key[0] == "ioopen": return True
    raise NoValue(str(key)[:80])

def run(c):
    c.rule("removed triangles have no effect", "in each consumer, every visible effect executed for a triangle (output, drawing, stored value, early exit, addend of a sum) is dominated by a negative test of that triangle's removal flag")
    c.rule("same index space", "an index used on a mesh comes from a loop over that mesh or one with the same triangles; a copy renumbers the triangles")
    c.rule("facet count", "the number written in the STL header is the sum of 1 over exactly the condition under which a facet is written")
    c.rule("witness", "a violation is reported with a mesh of at most three triangles for which the summary of the function shows it")
    kernel.contract(c)
    with c.group("STLFile::save"): stl(c)
    with c.group("OBJWriter::write"): obj(c)
    for f in ("surface", "volume", "is_oriented_outside", "is_closed", "has_no_degenerated_triangles", "has_no_self_intersections", "has_no_isolated_vertices", "has_no_duplicated_vertices", "has_no_short_edges"):
        with c.group("MeshMeasurements::" + f): measure(c, f)
    with c.group("Renderer::draw_mesh"): draw(c)
    with c.group("Mesh::add_mesh"): two(c, "Mesh::add_mesh(Mesh const&)")
    with c.group("Mesh::operator="): two(c, "Mesh::operator=(Mesh const&)")
    with c.group("Mesh::Mesh copy"):
        L = Lab(c); f = L.find("Mesh::Mesh(Mesh const&)"); src = L.mesh("src"); dst = L.obj("dst"); L.st.mem[dst.obj] = Mem("undef", None, None)
        r = L.run(f, dst, src); invisible(c, "removed", L, r, L.kernel(src), loc=f, need_all=True)
        c.functions.update(x.dn for x in L.visited())
    with c.group("MeshTessellate::compute"):
        L = Lab(c); f = L.find("MeshTessellate::compute(Mesh const&, int, Mesh&)"); n = L.int_("n")
        o = L.out("this"); src = L.mesh("in"); dst = L.mesh("out")
        r = L.run(f, o, src, n, dst); invisible(c, "removed", L, r, L.kernel(src), loc=f, extra={atom_of(n): 2}, need_all=True)
        c.functions.update(x.dn for x in L.visited())
    with c.group("NurbsUtil::create_from_mesh"):
        L = Lab(c, Ops(c, [r"^NurbsFactory::create_\w+\(", r"^NurbsSolid::add_surface\("]).models); f = L.find("NurbsUtil::create_from_mesh(Mesh const&, NurbsSolid&)")
        src = L.mesh("in"); r = L.run(f, src, L.out("ns")); invisible(c, "removed", L, r, L.kernel(src), loc=f, need_all=True)
        c.functions.update(x.dn for x in L.visited())
    with c.group("MeshUtil::remove_empty_triangles"):
        L = Lab(c); f = L.find("MeshUtil::remove_empty_triangles(Mesh&, double)"); m = L.mesh("m")
        r = L.run(f, m, L.real("tol")); c.functions.update(x.dn for x in L.visited())
        # removing a removed triangle again is harmless: only additions count
        ev = [e for e, _ in walk(r.ev) if isinstance(e, Ev) and visible(e) and not (e.kind == "mesh" and e.name == "unlink")]
        c.decide(True if not ev else None, "only removes", "the only effect on the mesh is removing triangles" if not ev else "%s" % ev[0], f)
    with c.group("MeshUtil::merge_vertices"): merge(c)
    with c.group("MeshBoolean::split_meshes"): split(c)
    callers(c)

class Ops:
    """calls matching one of the patterns are recorded, not entered"""
    def __init__(s, c, pats, ret=None):
        s.models = {re.compile(p): s.h for p in pats}; s.ret = ret; s.seen = []
    def h(s, it, call):
        nm = call.dn.split("(")[0]; s.seen.append(nm)
        n = len(s.seen)
        it.emit("meshop", nm, list(call.args))
        t = call.i.get("t")
        if t in (None, "void"): return None
        if t == "i1": return opaque_bool(("op", nm, it.ctx, call.i["i"], it.kst))
        if t == "ptr": return call.args[0]
        return A("call", nm, it.ctx, call.i["i"], it.kst)

def stl(c):
    S = Streams(c.m); L = Lab(c, S.models()); fs = L.m.match(r"^STLFile::save\("); f = fs[0]; L.c.functions.add(f.dn)
    m = L.mesh("m"); r = L.run(f, L.obj("name"), m); k = L.kernel(m)
    io = lambda e: e.kind == "io" and e.name in ("write", "text")
    inloop = set()
    TL = TriLoop(L, r, k)
    for e, fors, ix in tri_effects(TL, r.ev, io):
        if ix: inloop.add(id(e))
    eff = lambda e: id(e) in inloop
    invisible(c, "removed", L, r, k, eff, need_all=True, loc=f, extra={"preds": io_env})
    # the count: the 4 byte value written at byte 80
    cnt = [(e, fors) for e, fors in walk(r.ev) if isinstance(e, Ev) and e.kind == "io" and e.name == "write" and not fors and e.args[2] == P(4)]
    cnt = [e for e, fors in cnt if e.x.get("pos") is not None and restrict(e.x["pos"], e.guard) == P(80)]
    if len(cnt) != 1: c.unknown("facet count", "%d values written at byte 80" % len(cnt), f)
    else:
        e = cnt[0]; v = restrict(e.x["val"], e.guard)
        ok = None
        first = [(x, fors, ix) for x, fors, ix in tri_effects(TL, r.ev, eff)]
        at = atom_of(v) if is_poly(v) and len(v.t) == 1 and list(v.t.values()) == [1] else None
        if at is not None and atom_by_id(at).kind == "sum" and first:
            kat, K, d = atom_by_id(at).args
            x, fors, ix = first[0]; F = fors[-1]
            g = trip_free(restrict(x.guard, e.guard), fors)
            g = Subst({atom_of(F.k): P(kat) if not isinstance(kat, Poly) else kat}).any(g)
            if K == F.trip and F.exact and apply(lambda p, q: ZERO if p == q else ONE, to_cond(d), g) == ZERO and all(l in (ONE, ZERO) for l in leaves(d)): ok = True
        w = None
        if ok is None:
            for fl in flags():
                env = env_of([Small(L, k, mesh_of(fl))], {"preds": io_env}); n = [0]; val = [None]
                try:
                    def g(y, en):
                        if eff(y): n[0] += int(num_eval(y.args[2], en))
                        if y is e: val[0] = num_eval(v, en)
                    num_events(r.ev, env, g)
                except NoValue: continue
                if val[0] is not None and n[0] != 50 * val[0]:
                    w = "with %d triangles of which %s removed the count is %s and %d bytes of facets follow" % (len(fl), [i for i, x in enumerate(fl) if x], val[0], n[0]); break
        if w: c.refuted("facet count", w, e)
        else: c.decide(ok, "facet count", "the count is the sum of 1 over the live triangles, as the facets written" if ok else "count %s" % (v,), e)
    c.functions.update(x.dn for x in L.visited())

def obj(c):
    S = Streams(c.m); L = Lab(c, S.models()); f = L.find("OBJWriter::write(Mesh const&)")
    m = L.mesh("m"); o = L.out("w"); r = L.run(f, o, m); k = L.kernel(m)
    TL = TriLoop(L, r, k)
    invisible(c, "removed", L, r, k, lambda e: e.kind == "io" and e.name in ("write", "text"), need_all=True, loc=f, extra={"preds": io_env})
    c.functions.update(x.dn for x in L.visited())

def sums(v):
    return [a for a in deep_atoms(v) if a.kind == "sum"]
def measure(c, name):
    L = Lab(c); f = L.find("MeshMeasurements::%s(Mesh const&)" % name)
    m = L.mesh("m"); r = L.run(f, m); k = L.kernel(m); TL = TriLoop(L, r, k)
    v = r.ret
    ats = deep_atoms(v)
    T = TL.T
    # constant answers
    if not ats and not [p for p in (preds_of(v) if isinstance(v, Node) else [])]:
        c.proved("removed", "the answer does not depend on the mesh: %s" % (v,), f); return
    bad = None; n = 0
    for a in ats:
        if a.kind in ("mu", "out", "kexit"): bad = "loop-carried value %s" % a
    for a in sums(v):
        kat, K, d = a.args; kp = kat if isinstance(kat, Poly) else P(kat)
        used = [x.args[2] for x in deep_atoms(d) if x.kind == "ld" and x.args[1] == T] + [x.args[1].scale(16) for x in deep_atoms(d) if x.kind == "near"]
        idx = {(q - q.const()).scale(Fraction(1, 16)) for q in used}
        if len(idx) != 1: bad = "addend of several triangles"; continue
        i, = idx
        n += 1
        for p, l in paths(d):
            g = ONE
            for q, val in p: g = c_and(g, mk(q.id, ONE, ZERO) if val else c_not(mk(q.id, ONE, ZERO)))
            if not (isinstance(l, Poly) and l.is_zero()) and not implies(g, TL.live(i)): bad = "addend %s of removed triangles" % str(l)[:80]
    for p in preds_of(v) if isinstance(v, Node) else []:
        if p.kind == "b" and p.key[0] in ("exit", "retin"):
            Fs = [x for x, _ in walk(r.ev) if isinstance(x, For) and x.lid == p.key[1]]
            for F in Fs:
                lp = TL.loops.get(id(F)); n += 1
                if lp is None: bad = "exit of a loop that is not over the triangles"; continue
                for g, a, b in F.exits:
                    g2 = trip_free(g, [F])
                    if c_and(g, c_not(gt0(F.trip - F.k, True) if F.trip is not None else ZERO)) == g: continue    # the loop's own end
                    if not implies(g2, TL.live(lp[1])): bad = "leaves the loop for removed triangles when %s" % (g2,)
        elif p.kind == "b": bad = "condition %s" % p
    w = None
    part = [lp for lp in TL.loops.values() if lp[0].trip is None or (lp[0].exact and TL.complete(lp, A("nt", "m", ints=True)) is not True) or lp[0].guard != ONE]
    if not bad and part: bad = "the loop over the triangles may not visit all of them (range 0..%s)" % (part[0][0].trip,)
    if bad: w = shrink(L, r, k, v)
    if w: c.refuted("removed", w, f)
    elif bad or not n: c.unknown("removed", bad or "no dependence found", f)
    else: c.proved("removed", "%d addends and exits, each only for live triangles" % n, f)
    c.functions.update(x.dn for x in L.visited())

def shrink(L, r, k, v):
    """two meshes with the same live triangles give different answers: without the removed ones, with them, with other removed ones"""
    for fl in flags():
        if not any(fl): continue
        for border in (False, True):        # do live triangles have a missing neighbour
            res = []
            for variant in (0, 1, 2):
                tris = [(3 * i, 3 * i + 1, 3 * i + 2, f) if not (f and variant == 2) else (0, 0, 0, f) for i, f in enumerate(fl)]
                if variant == 0: tris = [t for t in tris if not t[3]]
                near = lambda a, e: -1 if (border if not tris[int(num_eval(a.args[1], e))][3] else variant == 2) else 5
                env = env_of([Small(L, k, tris, PTS[:3 * len(fl)])], near=near)
                try:
                    num_events(r.ev, env, lambda *a: None)
                    res.append(num_eval(v, env))
                except (NoValue, OverflowError, ValueError):
                    res.append(None)
            for i, what in ((1, "with them"), (2, "with other removed triangles")):
                if res[0] is not None and res[i] is not None and abs(float(res[0]) - float(res[i])) > 1e-9:
                    return "with %d triangles of which %s removed the answer depends on the removed ones: %s without them, %s %s" % (len(fl), [j for j, x in enumerate(fl) if x], float(res[0]), float(res[i]), what)
            if res[1] is not None and res[2] is not None and abs(float(res[1]) - float(res[2])) > 1e-9:
                return "with %d triangles of which %s removed the answer depends on what the removed ones were: %s or %s" % (len(fl), [j for j, x in enumerate(fl) if x], float(res[1]), float(res[2]))
    return None

def draw(c):
    O = Ops(c, [r"^Renderer::(?!draw_mesh)\w+\("])
    L = Lab(c, O.models); f = L.find("Renderer::draw_mesh(Mesh const&, bool, int)")
    m = L.mesh("m"); rd = L.out("r"); col = L.int_("color"); ed = opaque_bool(("arg", "edges"))
    r = L.run(f, rd, m, ed, col); k = L.kernel(m)
    invisible(c, "removed", L, r, k, loc=f, extra={atom_of(col): 7, "preds": lambda key, e: True}, need_all=True)
    c.functions.update(x.dn for x in L.visited())

def two(c, dn):
    L = Lab(c); f = L.find(dn); dst = L.mesh("dst"); src = L.mesh("src")
    r = L.run(f, dst, src)
    invisible(c, "removed", L, r, L.kernel(src), loc=f, extra={"preds": lambda key, e: False}, need_all=True)
    c.functions.update(x.dn for x in L.visited())

class Copies:
    """model of copying a mesh: vertices keep their index, removed triangles are dropped (decided for Mesh itself above)"""
    def __init__(s, c):
        s.c = c; s.src = {}; s.n = 0
        s.models = {"Mesh::Mesh(Mesh const&)": s.ctor, "Mesh::operator=(Mesh const&)": s.assign}
    def bind(s, L): s.L = L
    def ctor(s, it, call):
        f = it.m.find("Mesh::Mesh()"); quiet_call(it, call.st, f, [call.args[0]], ("copy", it.ctx, call.i["i"]))
        return s.assign(it, call)
    def assign(s, it, call):
        L = s.L; st = call.st; mm = L.mm
        kd, ks = kernel_of(it, st, call.args[0]), kernel_of(it, st, call.args[1])
        s.n += 1
        compact = s.src.get(ks)
        ntv = mm.nt(it, st, ks)
        if compact is not None and compact[1] == ntv: nt = ntv; T = compact[2]
        else:
            nt = A("ntc", ks, s.n, ints=True); declare_nonneg(nt); T = ("MT", (("copy", ks, s.n), ZERO))
        nv = mm.nv(it, st, ks)
        mm.setcount(it, st, kd, 0, nv); mm.setcount(it, st, kd, 8, nt)
        it.setmem(st, ("MV", kd), it.getmem(st, ("MV", ks))); it.setmem(st, ("MT", kd), Mem("init", None, T))
        mm.names.setdefault(kd, "copy%d" % s.n)
        s.src[kd] = (ks, nt, T)
        it.emit("meshcopy", "copy", [kd, ks])
        return call.args[0]

def merge(c):
    Cp = Copies(c); L = Lab(c, Cp.models); Cp.bind(L)
    f = L.find("MeshUtil::merge_vertices(Mesh&, double)"); m = L.mesh("m"); k = L.kernel(m)
    r = L.run(f, m, L.real("tol"))
    added = [(e, fors) for e, fors in mesh_events(r.ev, "add_triangle", k)]
    reads = [(e, fors) for e, fors in walk(r.ev) if isinstance(e, Ev) and e.kind == "mesh" and e.name == "get_triangle"]
    srcs = {e.args[0] for e, _ in reads}
    if not added or len(srcs) != 1: raise Und("source of the triangles")
    ks, = srcs
    if ks in Cp.src:
        c.proved("removed", "the triangles are read from a copy, which holds live triangles only", f)
    else: invisible(c, "removed", L, r, ks, lambda e: e.kind == "mesh" and e.name == "add_triangle", loc=f)
    c.functions.update(x.dn for x in L.visited())

def split(c):
    Cp = Copies(c)
    O = Ops(c, [r"^Mesh::split_triangle\(", r"^BoundingBox3::"])
    ms = dict(Cp.models); ms.update(O.models); L = Lab(c, ms); Cp.bind(L)
    f = L.find("MeshBoolean::split_meshes(Mesh const&, Mesh const&, Mesh&, Mesh&, Mesh&, Mesh&)")
    ms = [L.mesh(x) for x in ("A", "B", "Ao", "Bo", "AiB", "BiA")]; o = L.out("this")
    r = L.run(f, o, *ms)
    ev = [(e, fors) for e, fors in walk(r.ev) if isinstance(e, Ev) and e.kind == "meshop" and e.name == "Mesh::split_triangle"]
    if not ev: c.unknown("same index space", "no split", f); return
    for n, (e, fors) in enumerate(ev):
        k = L.kernel(e.args[0]); idx = e.args[1]
        src = Cp.src.get(k)
        F = [F for F in fors if is_poly(idx) and occurs(idx, atom_of(F.k))]
        if src is None or len(F) != 1 or idx != F[0].k or F[0].trip is None: c.unknown("same index space", "index %s" % (idx,), e); continue
        F = F[0]
        if F.trip == src[1]: c.proved("same index space.%d" % n, "the index runs over the triangles of the copy that is split", e)
        else:
            orig = L.mm.names.get(src[0])
            same_mesh = F.trip == A("nt", orig, ints=True) if orig else False
            c.decide(False if same_mesh else None, "same index space.%d" % n, "the index runs over 0..%s, the triangles of the original %s, but is used on its copy, where removed triangles are dropped: with the first triangle of %s removed another triangle is split, and the last index does not exist" % (F.trip, orig, orig) if same_mesh else "range %s, mesh with %s triangles" % (F.trip, src[1]), e)
    for k in {e.args[0] for e, _ in walk(r.ev) if isinstance(e, Ev) and e.kind == "mesh" and e.name == "get_triangle"}:
        if k in Cp.src: c.proved("removed", "the triangles are read from a copy, which holds live triangles only", f)
        else: invisible(c, "removed", L, r, k, loc=f, extra={"preds": lambda key, e: True})
    c.functions.update(x.dn for x in L.visited())

KNOWN = ("STLFile::save", "OBJWriter::write", "MeshMeasurements::", "Renderer::draw_mesh", "Mesh::", "MeshTessellate::compute", "NurbsUtil::create_from_mesh", "MeshUtil::remove_empty_triangles", "MeshUtil::merge_vertices", "MeshBoolean::split_meshes", "MeshKernel")
def callers(c):
    """functions that read triangles of a mesh and are not analysed above"""
    with c.group("readers"):
        rd = re.compile(r"^Mesh(Kernel\w*)?::(get_triangle|get_triangle_vertices)\(")
        n = 0
        for f in c.m.repo_funcs():
            if any(rd.match(dn) for dn in callee_names(c.m, f)):
                n += 1
                nm = f.dn.split("(")[0]
                c.decide(True if nm.startswith(KNOWN) else None, nm, "reads triangles of a mesh; analysed above" if nm.startswith(KNOWN) else "reads triangles of a mesh and is not analysed", f)
        c.count("functions reading triangles", n)
def callee_names(m, f):
    for b in f.blocks.values():
        for i in b:
            t = i.get("fn") or (i["fv"]["v"] if isinstance(i.get("fv"), dict) and i["fv"].get("k") == "g" else None)
            g = m.func(t) if t else None
            if g: yield g.dn
