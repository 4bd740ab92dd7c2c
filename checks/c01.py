"""C01: copies of meshes, smooth meshes, faces and solids are equal and independent."""
from common import *
from ident import *
from replay import *
from c17 import leaves_of, SCAL, vecelem
import kernel

def run(c):
    c.rule("mesh copy", "assignment and append add, in order, every vertex of the source at base + i and every live triangle of the source with its indices + base (base 0 after emptying the target, the old number of vertices when appending); the target is emptied exactly when assigning; the source's store is not written")
    c.rule("smooth copy", "the target's list ends with the elements of the source, field by field; it is emptied exactly when assigning")
    c.rule("members", "every data member of the target (meshes and face lists included) has the content of the source's member")
    c.rule("independent", "no pointer member of the target equals the one of the source after the copy; classes whose copy is left to the compiler have no pointer members")
    c.rule("target", "assignment returns its left operand; with both operands the same object the content is kept (assignment) or doubled (append) and every loop ends")
    with c.group("storage"): kernel.contract(c)
    with c.group("Mesh"): meshes(c)
    with c.group("SmoothMesh"): smooth(c)
    with c.group("Face"): members(c, "Face")
    with c.group("Solid"): members(c, "Solid")

def special(c, T):
    """(copy constructor, assignment): function, None when left to the compiler"""
    return c.m.find("%s::%s(%s const&)" % (T, T, T), False), c.m.find("%s::operator=(%s const&)" % (T, T), False)

def implicit(c, T, what, key):
    """copy left to the compiler, or deleted"""
    decl = [x for x in c.m.methods(T) if x["n"] == what]
    ptrs = [n for n, off, t, sz in c.m.fields(T) if t.endswith("*") and not n.startswith("_vptr")]
    if ptrs and not any(is_copy(x, T) for x in decl): c.refuted(key, "%s has the pointer member %s and its %s is left to the compiler: the copy shares the object pointed to" % (T, ptrs[0], "assignment" if what == "operator=" else "copy constructor"), "")
    elif ptrs: c.unknown(key, "no definition of the copy of %s" % T, "")
    else: c.proved(key, "member by member", "")
def is_copy(x, T): return True

# ------------------------------------------------------------------ meshes
def meshes(c):
    ctor, asg = special(c, "Mesh")
    app = c.m.find("Mesh::add_mesh(Mesh const&)", False)
    if ctor: mesh_case(c, ctor, "copy", False)
    else: implicit(c, "Mesh", "Mesh", "copy")
    if asg:
        mesh_case(c, asg, "assign", False); mesh_case(c, asg, "assign", True)
    else: implicit(c, "Mesh", "operator=", "assign")
    if app: mesh_case(c, app, "append", False); mesh_case(c, app, "append", True)

def mesh_case(c, f, mode, self_):
    key = mode + (" to itself" if self_ else "")
    L = Lab(c); it = L.it
    src = L.mesh("src"); ks = L.kernel(src)
    if self_: dst, kd = src, ks
    elif mode == "copy":
        dst = L.obj("dst"); L.st.mem[dst.obj] = Mem("undef", None, None); kd = None
    else: dst = L.mesh("dst"); kd = L.kernel(dst)
    before = State(dict(L.st.mem))
    r = L.run(f, dst, src)
    c.functions.update(x.dn for x in L.visited())
    k1 = kernel_of(it, L.st, dst); k2 = kernel_of(it, L.st, src)
    if not self_:
        c.decide(True if k1 != k2 else False, key + ".independent", "the meshes have stores of their own" if k1 != k2 else "after the call both meshes use the same store", f)
        if k1 == k2: return
    if kd is None or k1 != kd:
        new = True; kd2 = k1
    else: new = False; kd2 = kd
    if mode == "assign":
        ok = all(isinstance(l, Ptr) and l == dst for l in leaves(r.ret))
        c.decide(True if ok else (False if all(isinstance(l, Ptr) for l in leaves(r.ret)) else None), key + ".returns", "returns its left operand" if ok else "returns %s" % (r.ret,), f)
    w = mesh_witness(c, L, r, dst, src, kd, k1, ks, mode, self_)
    if w: c.refuted(key + "." + w[0], w[1], w[2] or f); return
    # colour and other plain members
    if mode != "append":
        for n, off, T, sz in L.m.fields("Mesh"):
            if T in SCAL: same(c, key + "." + n.strip("_"), L.load(Ptr(dst.obj, P(off)), *SCAL[T]), it.load(before, Ptr(src.obj, P(off)), *SCAL[T]), f)
    for n, off, T, sz in L.m.fields("Mesh"):
        if T in SCAL and not self_: same(c, key + ".source" + n, L.load(Ptr(src.obj, P(off)), *SCAL[T]), it.load(before, Ptr(src.obj, P(off)), *SCAL[T]), f)
    why = mesh_proof(L, r, before, kd2, ks, mode, self_, new)
    c.decide(True if why is None else None, key + ".content", why or "all vertices and all live triangles, in order", f)

MUT = ("clear", "add_vertex", "set_vertex", "add_triangle", "unlink")
def mesh_proof(L, r, before, kd, ks, mode, self_, new):
    it = L.it
    ev = [(e, fors) for e, fors in walk(r.ev) if isinstance(e, Ev) and e.kind == "mesh" and e.name in MUT]
    other = [e for e, fors in walk(r.ev) if isinstance(e, Ev) and e.kind in ("call", "vcall", "havoc")]
    if other: return "unknown call %s" % other[0]
    nv, nt = L.mm.nv(it, before, ks), L.mm.nt(it, before, ks)
    if self_ and mode == "assign":
        return None if not [e for e, _ in ev if e.args[0] == ks] and not any(isinstance(e, Ev) and e.kind == "store" for e, _ in walk(r.ev)) else "the mesh is changed"
    if any(e.args[0] == ks for e, _ in ev) and not self_: return "the source is changed"
    ev = [(e, fors) for e, fors in ev if e.args[0] == kd]
    cl = [(e, fors) for e, fors in ev if e.name == "clear"]
    ad = [(e, fors) for e, fors in ev if e.name != "clear"]
    if mode == "append":
        if cl: return "the target is emptied"
        base = L.mm.nv(it, before, kd) if not new else ZERO
    else:
        if not new and (not cl or any(fors or e.guard != ONE for e, fors in cl)): return "the target is not emptied first"
        first = next((e for e, _ in ev), None)
        if cl and (first is None or first.name != "clear" or [e for e, _ in ev[:len(cl)] if e.name != "clear"]): return "the target is emptied late"
        base = ZERO
    if sorted(e.name for e, _ in ad) != ["add_triangle", "add_vertex"]: return "effects %s" % sorted(e.name for e, _ in ad)
    for e, fors in ad:
        if len(fors) != 1 or not fors[0].exact or fors[0].guard != ONE: return "loop of %s" % e.name
        F = fors[0]; g = trip_free(e.guard, [F])
        if e.name == "add_vertex":
            if F.trip != nv: return "vertices 0..%s" % (F.trip,)
            if g != ONE: return "vertices under a condition"
            if not isinstance(e.ret, Poly) or e.ret - base != F.k: return "index %s" % (e.ret,)
            for a in range(3):
                if not cell(e.args[1][a], ("MV", ks), F.k.scale(24) + 8 * a): return "coordinate %s" % (e.args[1][a],)
        else:
            if F.trip != nt: return "triangles 0..%s" % (F.trip,)
            T = ("MT", ks)
            live = c_not(to_cond(it.read(Mem("init", None, T), T, F.k.scale(16) + 12, 4, "i32")))
            gi = norm(g, ks)
            if not (implies(gi, live) and implies(live, gi)): return "triangles under the condition %s" % (g,)
            for a in range(3):
                x = e.args[1 + a]; x = norm(restrict(x, e.guard), ks)
                if not isinstance(x, Poly) or not cell(x - base, T, F.k.scale(16) + 4 * a): return "corner %s" % (x,)
    return None
def norm(x, ks):
    """what the loop reads of the source below its old sizes is its old content: only elements are appended, or nothing is written"""
    mp = {}
    for a in deep_atoms(x):
        if a.kind == "ld" and a.args[0] != "i" and a.args[0][0] in ("L", "X") and a.args[1] in (("MV", ks), ("MT", ks)): mp[a.id] = A("ld", "i", a.args[1], a.args[2], ints=a.ints)
    return Subst(mp).any(x) if mp else x
def cell(x, obj, off):
    if not isinstance(x, Poly) or len(x.t) != 1 or list(x.t.values()) != [1]: return False
    a = atom_by_id(one_atom(x))
    return a.kind == "ld" and (a.args[0] == "i" or a.args[0][0] in ("L", "X")) and a.args[1] == obj and a.args[2] == off

SMALL = [([(0, 1, 2, 0), (2, 2, 0, 0), (1, 1, 1, 0)], 3), ([(0, 1, 2, 1), (2, 1, 0, 0)], 3), ([(0, 1, 2, 0), (1, 3, 2, 1), (3, 4, 2, 0)], 5), ([], 2), ([], 0), ([(2, 0, 1, 0), (0, 2, 3, 0)], 4)]
def mesh_witness(c, L, r, dst, src, kd, k1, ks, mode, self_):
    for n, (ts, nvs) in enumerate(SMALL):
        for td, nvd in (SMALL if not self_ and mode != "copy" else [([], 0)])[:4]:
            try: w = mesh_small(L, r, dst, src, kd, k1, ks, mode, self_, ts, nvs, td, nvd)
            except NoValue as x:
                if c.debug: print("NoValue", mode, self_, x)
                if "too many" in str(x): return "ends", "with %d vertices and %d triangles the loops do not end" % (nvs, len(ts)), None
                continue
            if w: return w
    return None

def mesh_small(L, r, dst, src, kd, k1, ks, mode, self_, ts, nvs, td, nvd):
    cells = {}; names = {}; cnt = [0]
    def put(k, tris, nv, name, col):
        nk = num_obj(k, {})
        for i in range(nv):
            for a in range(3): cnt[0] += 1; cells[(("MV", nk), 24 * i + 8 * a)] = cnt[0] * cnt[0] + a
        for i, t in enumerate(tris):
            for a in range(4): cells[(("MT", nk), 16 * i + 4 * a)] = t[a]
        cells[(("M", nk), 0)] = nv; cells[(("M", nk), 8)] = len(tris)
        names[atom_of(A("nv", name, ints=True))] = nv; names[atom_of(A("nt", name, ints=True))] = len(tris)
        for n, off, T, sz in L.m.fields("Mesh"):
            if T in SCAL: names[atom_of(A("fld", name, n, ints=T != "double"))] = col; cells[(("arg", name), off)] = col
    put(ks, ts, nvs, "src", 5)
    if kd is not None and not self_: put(kd, td, nvd, "dst", 9)
    def init(o, n):
        if (o, n) in cells: return cells[(o, n)]
        if o[0] == "M": return 0
        raise NoValue("%s %s" % (fmt_obj(o), n))
    def budget(R): 
        num_events(r.ev, R.env, R.apply, [4000])
    R = Replay(L, init, names, {}, ignore=("~", "operator delete"))
    old = {k: content(R.M, num_obj(k, {})) for k in ([ks] + ([kd] if kd is not None else []))}
    budget(R)
    txt = "source with %d vertices and triangles %s%s: " % (nvs, ts, "" if self_ or mode == "copy" else ", target with %d vertices and triangles %s" % (nvd, td))
    got = content(R.M, num_obj(k1, {}))
    want = old[ks] if mode != "append" else sorted(old[kd] + old[ks])
    if got != want:
        return "content", txt + "the target holds %d live triangles %s" % (len(got), "instead of %d" % len(want) if len(got) != len(want) else "that differ from the source's"), None
    if mode != "append" and not self_:
        left = positions(R.M, num_obj(k1, {}))
        for p in positions(R.M, num_obj(ks, {})):
            if p in left: left.remove(p)
        if left: return "content", txt + "the target holds %d vertices that are not in the source" % len(left), None
    if not self_:
        s2 = content(R.M, num_obj(ks, {}))
        if s2 != old[ks]: return "source", txt + "the source changes", None
    if mode != "append" :
        for n, off, T, sz in L.m.fields("Mesh"):
            if T in SCAL:
                try: v = R.M.read(dst.obj, off)
                except NoValue: continue
                if v != 5: return n.strip("_"), txt + "member %s is %s, the source's is 5" % (n, v), None
    return None
def positions(M, k):
    return [tuple(M.read(("MV", k), 24 * v + 8 * x) for x in range(3)) for v in range(int(M.read(("M", k), 0)))]
def content(M, k):
    """live triangles as corner positions, orientation kept"""
    out = []
    for i in range(int(M.read(("M", k), 8))):
        if M.read(("MT", k), 16 * i + 12): continue
        t = []
        for a in range(3):
            v = M.read(("MT", k), 16 * i + 4 * a)
            t.append(tuple(M.read(("MV", k), 24 * v + 8 * x) for x in range(3)))
            if None in t[-1]: raise NoValue("position")
        out.append(min(tuple(t[j:] + t[:j]) for j in range(3)))
    return sorted(out)

# ------------------------------------------------------------------ smooth meshes
def smooth(c):
    ctor, asg = special(c, "SmoothMesh"); app = c.m.find("SmoothMesh::add_mesh(SmoothMesh const&)", False)
    if ctor: smooth_case(c, ctor, "copy", False)
    else: implicit(c, "SmoothMesh", "SmoothMesh", "copy")
    if asg: smooth_case(c, asg, "assign", False); smooth_case(c, asg, "assign", True)
    else: implicit(c, "SmoothMesh", "operator=", "assign")
    if app: smooth_case(c, app, "append", False); smooth_case(c, app, "append", True)

def smooth_case(c, f, mode, self_):
    key = mode + (" to itself" if self_ else "")
    L = Lab(c); it = L.it
    vec = [x for x in leaves_of(L.m, "SmoothMesh", ("x",), 0) if x[1] == "vec"]
    rest = [x for x in leaves_of(L.m, "SmoothMesh", ("x",), 0) if x[1] != "vec"]
    if len(vec) != 1: raise Und("members of SmoothMesh")
    off, E = vec[0][3], vec[0][4]; sz = L.m.sizeof(E)
    src = L.out("src"); dst = src if self_ else L.out("dst")
    if mode == "copy": L.st.mem[dst.obj] = Mem("undef", None, None)
    before = State(dict(L.st.mem))
    r = L.run(f, dst, src)
    c.functions.update(x.dn for x in L.visited())
    if mode == "assign":
        ok = all(isinstance(l, Ptr) and l == dst for l in leaves(r.ret))
        c.decide(True if ok else (False if all(isinstance(l, Ptr) for l in leaves(r.ret)) else None), key + ".returns", "returns its left operand" if ok else "returns %s" % (r.ret,), f)
    w = smooth_witness(c, L, r, dst, src, off, E, mode, self_)
    if w: c.refuted(key + "." + w[0], w[1], w[2] or f); return
    ps, pd = Ptr(src.obj, P(off)), Ptr(dst.obj, P(off))
    n = it.vsize(before, ps)
    base = it.vsize(before, pd) if mode == "append" else ZERO
    B, D = it.vbuf(ps), it.vbuf(pd)
    el = leaves_of(L.m, E, B, 0)
    if any(x[1] == "vec" for x in el): raise Und("elements of " + E)
    fl = []
    for path, kind, o, of, a, ty in el:
        if kind == "point": fl += [(of + x, 8, "double") for x in (0, 8, 16)]
        else: fl.append((of, a, ty))
    why = None
    if self_ and mode == "assign":
        if [e for e, _ in walk(r.ev) if isinstance(e, Ev) and e.kind in ("vec", "store", "copy", "call")]: why = "the object is changed"
        if why and it.vsize(L.st, pd) == n:
            j = A("idx", "self", ints=True); declare_nonneg(j)
            if all(it.load(L.st, Ptr(D, j.scale(sz) + o), w_, t) == it.load(before, Ptr(B, j.scale(sz) + o), w_, t) for o, w_, t in fl): why = None
    else:
        j = A("idx", key, ints=True); declare_nonneg(j)
        n1 = it.vsize(L.st, pd)
        ok = n1 == base + n
        if ok:
            g = gt0(n - j, True)
            for o, w_, t in fl:
                x = restrict(it.load(L.st, Ptr(D, (base + j).scale(sz) + o), w_, t), g)
                if not (x == it.load(before, Ptr(B, j.scale(sz) + o), w_, t)): ok = False
        if not ok: why = push_proof(L, r, before, pd, ps, n, base, fl, sz, mode, self_)
        if not self_ and why is None:
            bad = [e for e, _ in walk(r.ev) if isinstance(e, Ev) and e.kind in ("vec", "store", "copy") and isinstance(e.args[0], Ptr) and (e.args[0].obj == src.obj or e.args[0].obj == B)]
            if bad: why = "the source is changed"
    c.decide(True if why is None else None, key + ".content", why or "all elements, in order, field by field", f)
    for path, kind, o, of, a, ty in rest:
        if kind == "data": same(c, key + path, L.load(Ptr(dst.obj, P(of)), a, ty), it.load(before, Ptr(src.obj, P(of)), a, ty), f)

def push_proof(L, r, before, pd, ps, n, base, fl, sz, mode, self_):
    it = L.it; B, D = it.vbuf(ps), it.vbuf(pd)
    evs = [(e, fors) for e, fors in walk(r.ev) if isinstance(e, Ev) and e.kind in ("vec", "store", "copy", "call", "vcall") and not (e.kind == "vec" and e.x.get("local")) and not (e.kind == "store" and isinstance(e.args[1], Ptr) and e.args[1].obj[0] == "glob")]
    pu = [(e, fors) for e, fors in evs if e.kind == "vec" and e.name == "push"]
    ot = [(e, fors) for e, fors in evs if not (e.kind == "vec" and e.name == "push") and not (e.kind == "vec" and e.name == "new" and e.args[0] == pd)]
    if mode == "append":
        if ot: return "effect %s" % ot[0][0]
    else:
        if any(not (e.kind == "vec" and e.name == "clear" and e.args[0] == pd and not fors and e.guard == ONE) for e, fors in ot): return "effect %s" % ot[0][0]
        if mode == "assign" and not ot: return "the target is not emptied"
        if ot and evs and [e for e, _ in evs if e.kind == "vec" and e.name != "new"][0].name != "clear": return "the target is emptied late"
    if len(pu) != 1: return "%d places that append" % len(pu)
    e, fors = pu[0]
    if e.args[0] != pd or len(fors) != 1 or not fors[0].exact or fors[0].guard != ONE or trip_free(e.guard, fors) != ONE: return "loop"
    F = fors[0]
    if F.trip != n: return "range 0..%s" % (F.trip,)
    if e.x.get("elem") is None or e.args[1] != base + F.k: return "position %s" % (e.args[1],)
    for o, w_, t in fl:
        x = it.read(e.x["mem"], e.x["elem"].obj, e.x["elem"].off + o, w_, t)
        if not cell(x, B, F.k.scale(sz) + o): return "field at %d: %s" % (o, x)
    return None

def smooth_witness(c, L, r, dst, src, off, E, mode, self_):
    for ns, nd in ((1, 0), (2, 1), (3, 2), (0, 2), (0, 0)):
        if self_: nd = ns
        sz = L.m.sizeof(E); cells = {}; cnt = [0]
        def put(o, n):
            cells[(o, off)] = n; B = ("E", o, off)
            for i in range(n):
                for path, kind, ob, of, a, ty in leaves_of(L.m, E, B, i * sz):
                    for x in ((0, 8, 16) if kind == "point" else (0,)): cnt[0] += 1; cells[(B, of + x)] = cnt[0] * 7 + 1
        def val(M, o):
            n = int(M.read(o, off)); B = ("E", o, off); out = []
            for i in range(n):
                for path, kind, ob, of, a, ty in leaves_of(L.m, E, B, i * sz):
                    for x in ((0, 8, 16) if kind == "point" else (0,)): out.append(M.read(B, of + x))
            return out
        put(src.obj, ns)
        if not self_ and mode != "copy": put(dst.obj, nd)
        cells = {(num_obj(o, {}), n): v for (o, n), v in cells.items()}
        def init(o, n):
            if (o, n) in cells: return cells[(o, n)]
            raise NoValue("%s %s" % (fmt_obj(o), n))
        try:
            R = Replay(L, init, {}, {}, ignore=("~",))
            s0 = val(R.M, src.obj); d0 = val(R.M, dst.obj) if mode != "copy" else []
            num_events(r.ev, R.env, R.apply, [4000])
            want = s0 if mode != "append" else d0 + s0
            got = val(R.M, dst.obj)
            txt = "with %d patches in the source%s " % (ns, "" if self_ or mode == "copy" else " and %d in the target" % nd)
            if got != want: return "content", txt + ("the target ends with %d values instead of %d" % (len(got), len(want)) if len(got) != len(want) else "the target's patches differ from the source's"), None
            if not self_ and val(R.M, src.obj) != s0: return "source", txt + "the source changes", None
        except NoValue as x:
            if c.debug: print("NoValue smooth", mode, self_, ns, nd, x)
            if "too many" in str(x): return "ends", "with %d patches the loop does not end" % ns, None
    return None

# ------------------------------------------------------------------ faces and solids
class Token:
    """a mesh as one value: what a copy of a mesh holds is decided for Mesh"""
    def __init__(s):
        s.models = {"Mesh::Mesh(Mesh const&)": s.copy, "Mesh::operator=(Mesh const&)": s.copy, "Mesh::Mesh()": s.new, "Mesh::~Mesh()": s.nop, "Mesh::clear()": s.new,
                    "Mesh::add_mesh(Mesh const&)": s.append, "Mesh::set_color(int)": s.colour}
    def at(s, p): return p
    def get(s, it, st, p): return it.load(st, p, 8, "double")
    def put(s, it, c, v):
        it.store(c.st, c.args[0], v, 8); return c.args[0] if c.i["t"] == "ptr" else None
    def copy(s, it, c): return s.put(it, c, s.get(it, c.st, c.args[1]))
    def new(s, it, c): return s.put(it, c, A("emptymesh"))
    def append(s, it, c): return s.put(it, c, A("appended", s.get(it, c.st, c.args[0]), s.get(it, c.st, c.args[1])))
    def colour(s, it, c): return s.put(it, c, A("coloured", s.get(it, c.st, c.args[0]), c.args[1]))
    def nop(s, it, c): return None

def flat(m, T, base=0, path=""):
    """[(path, kind, offset, size|element type, ty)] with meshes as single values"""
    out = []
    for n, off, t, sz in m.fields(T):
        if n.startswith("_vptr"): continue
        if t == "Mesh": out.append((path + n, "data", base + off, 8, "double"))
        elif t in SCAL: out.append((path + n, "data", base + off) + SCAL[t])
        elif vecelem(t): out.append((path + n, "vec", base + off, vecelem(t), None))
        elif t.endswith("*"): out.append((path + n, "ptr", base + off, 8, "ptr"))
        else: out += flat(m, t, base + off, path + n + ".")
    return out

def members(c, T):
    ctor, asg = special(c, T)
    for f, mode, what in ((ctor, "copy", T), (asg, "assign", "operator=")):
        if f is None: implicit(c, T, what, mode); continue
        member_case(c, T, f, mode, False)
        if mode == "assign": member_case(c, T, f, mode, True)
    f = c.m.find("%s::%s(Mesh const&)" % (T, T), False)
    if f:
        tk = Token(); L = Lab(c, tk.models, mesh=False); m = L.out("m"); o = L.obj("dst"); L.st.mem[o.obj] = Mem("undef", None, None)
        t0 = L.load(m, 8, "double")
        L.run(f, o, m); c.functions.update(x.dn for x in L.visited())
        ms = [x for n, x, t, sz in c.m.fields(T) if t == "Mesh"]
        ok = len(ms) == 1
        v = L.load(Ptr(o.obj, P(ms[0])), 8, "double") if ok else None
        bad = ok and isinstance(v, Poly) and v == A("emptymesh")
        c.decide(True if ok and v == t0 else False if bad else None, "from a mesh", "holds a copy of the mesh" if not bad else "the mesh given is not taken over", f)

def member_case(c, T, f, mode, self_):
    key = mode + (" to itself" if self_ else "")
    tk = Token(); L = Lab(c, tk.models, mesh=False); it = L.it
    src = L.out("src"); dst = src if self_ else L.out("dst")
    if mode == "copy": L.st.mem[dst.obj] = Mem("undef", None, None)
    before = State(dict(L.st.mem))
    r = L.run(f, dst, src); c.functions.update(x.dn for x in L.visited())
    if mode == "assign":
        ok = all(isinstance(l, Ptr) and l == dst for l in leaves(r.ret))
        c.decide(True if ok else (False if all(isinstance(l, Ptr) for l in leaves(r.ret)) else None), key + ".returns", "returns its left operand" if ok else "returns %s" % (r.ret,), f)
    def cmp(k, got, want, what):
        if got == want: c.proved(k, "content of the source's member" if what else "kept", f); return
        d = known(got)
        if not d and isinstance(got, Poly) and isinstance(want, Poly) and all(a.kind == "vs" for a in deep_atoms(got)): d = "%s" % (got,)
        if d: c.refuted(k, "%s instead of the source's content" % d if what else "the source's content is replaced by %s" % d, f)
        else: c.unknown(k, "%s" % str(got)[:200], f)
    def known(v):
        """a definite other content: what the target had, an empty mesh, a constant"""
        if isinstance(v, Undef): return "left without a value"
        if not isinstance(v, Poly): return None
        if v.is_const(): return "the constant %s" % v
        if len(v.t) == 1 and list(v.t.values()) == [1]:
            a = atom_by_id(one_atom(v))
            if a.kind in ("emptymesh",): return "an empty mesh"
            if a.kind in ("ld", "vs") and not (a.kind == "ld" and a.args[0] != "i"):
                o = a.args[1] if a.kind == "ld" else a.args[0]
                return "the former content of the target" if root_of(o) == ("arg", "dst") else "another member of the source"
            if a.kind == "appended": return "the former content of the target with the source's appended"
        return None
    for path, kind, off, a, ty in flat(L.m, T):
        k = key + "." + path.strip("_")
        if kind == "data":
            cmp(k, L.load(Ptr(dst.obj, P(off)), a, ty), it.load(before, Ptr(src.obj, P(off)), a, ty), True)
            if not self_: cmp(k + " of the source", L.load(Ptr(src.obj, P(off)), a, ty), it.load(before, Ptr(src.obj, P(off)), a, ty), False)
        elif kind == "ptr":
            p, q = L.load(Ptr(dst.obj, P(off)), 8, "ptr"), L.load(Ptr(src.obj, P(off)), 8, "ptr")
            sh = not self_ and any(x == y and isinstance(x, Ptr) and x.obj[0] != "null" for x in leaves(p) for y in leaves(q))
            c.decide(False if sh else None, k, "the copy shares the object the member points to" if sh else "pointer member", f)
        else:
            sz = L.m.sizeof(a); ps, pd = Ptr(src.obj, P(off)), Ptr(dst.obj, P(off))
            n = it.vsize(before, ps)
            cmp(k + ".size", it.vsize(L.st, pd), n, True)
            j = A("idx", path, ints=True); declare_nonneg(j)
            els = flat(L.m, a) if a not in SCAL and not a.endswith("*") else [("", "data", 0) + SCAL.get(a, (8, "ptr"))]
            for p2, k2, o2, a2, t2 in els:
                if k2 != "data": c.unknown(k + "[]." + p2, "nested container", f); continue
                g = gt0(n - j, True)
                cmp(k + "[]." + p2.strip("_"), restrict(it.load(L.st, Ptr(it.vbuf(pd), j.scale(sz) + o2), a2, t2), g), it.load(before, Ptr(it.vbuf(ps), j.scale(sz) + o2), a2, t2), True)
def root_of(o):
    while isinstance(o, tuple) and o and o[0] == "E": o = o[1]
    return o
