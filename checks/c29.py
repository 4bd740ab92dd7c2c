"""C29: meshes, smooth meshes, NURBS objects, images and geometric objects hold exactly what was put into them."""
from common import *
from ident import *
from c17 import leaves_of, SCAL, vecelem
from c18 import fld
from replay import Replay
from nurbs import CURVE, SURF, Nurbs, Tables, read_list, ctrl
import kernel, re

def run(c):
    c.rule("store", "add appends and returns the new index, get returns what was stored, unlink sets one removal flag, clear empties, and no operation changes any other element: the state after each operation, read back through the accessors with symbolic indices, is the one of a store")
    c.rule("attributes", "each setter sets the attributes it names to its arguments, and every other attribute, read through the accessors, is what it was before")
    c.rule("knots", "knots given are scaled linearly onto 0 to 1; uniform knots are clamped and evenly spaced inside (effect tree replayed on lists and sizes)")
    c.assume("indices given exist")
    with c.group("storage"): kernels(c)
    with c.group("Mesh"): kernel.body(c, "Mesh", facade=True)
    with c.group("Mesh helpers"): mesh(c)
    with c.group("SmoothMesh"): smooth(c)
    for k in sorted(NURBS):
        with c.group(k): attributes(c, k, NURBS[k])
    with c.group("NurbsCurve knots"): knots(c, CURVE, [("knots", "set_knots", "set_uniform", "degree", "nb_points")])
    with c.group("NurbsSurface knots"): knots(c, SURF, [("knots_" + x, "set_knots_" + x, "set_uniform_" + x, "degree_" + x, "nb_points_" + x) for x in "uv"])
    with c.group("NurbsCurve ends"): ends(c)
    with c.group("NurbsSolid"): solid(c)
    with c.group("Face"): holder(c, "Face")
    with c.group("Solid"): holder(c, "Solid")
    with c.group("Image"): image(c)
    for T, n in (("Line3", 2), ("Segment3", 2), ("Triangle3", 3)):
        with c.group(T): corners(c, T, n)
    with c.group("Point3"): point(c)

# ------------------------------------------------------------------ meshes
UNFINISHED = {"MeshKernelHalfEdge"}          # its add_triangle is an empty stub, used by nothing
def kernels(c):
    K = kernel.kernel_class(c)
    for k in sorted({K} | {f.dn.split("::")[0] for f in c.m.match(r"^MeshKernel\w+::add_triangle\(int, int, int\)$")} - UNFINISHED):
        if k == "MeshKernel": continue
        with c.group(k): kernel.body(c, k)

def mesh(c):
    def vert(L, m, i, n):
        o = L.out(n); L.call("Mesh::get_vertex(int, Point3&) const", m, i, o); return L.coords(o)
    def tri(L, m, i, n):
        o = [L.out(n + str(j)) for j in range(3)]; L.call("Mesh::get_triangle_vertices(int, int&, int&, int&) const", m, i, *o)
        return [L.load(x, 4, "i32") for x in o]
    def count(L, m): return [L.call("Mesh::nb_vertices() const", m), L.call("Mesh::nb_triangles() const", m)]
    def colour(L, m): return L.call("Mesh::get_color() const", m)
    def inside(L, i, n): return c_and(L.it.cmp("sge", i, ZERO, True), L.it.cmp("slt", i, n, True))
    # a vertex given by its coordinates
    L = Lab(c); m = L.mesh("m"); f = L.find("Mesh::add_vertex(double, double, double)"); n = count(L, m); co = colour(L, m); j = L.int_("j"); old = vert(L, m, j, "b")
    xyz = [L.real(a) for a in "xyz"]; r = L.call(f, m, *xyz)
    same(c, "add_vertex returns the new index", r, n[0], f); same(c, "add_vertex counts", count(L, m), [n[0] + 1, n[1]], f)
    same(c, "add_vertex stores", vert(L, m, r, "g"), xyz, f); same(c, "add_vertex keeps the colour", colour(L, m), co, f)
    kept(c, "add_vertex keeps the others", vert(L, m, j, "a"), old, inside(L, j, n[0]), f)
    # a triangle given by its corners
    L = Lab(c); m = L.mesh("m"); f = L.find("Mesh::add_triangle(Point3 const&, Point3 const&, Point3 const&)"); n = count(L, m); j = L.int_("j"); k = L.int_("k")
    old = vert(L, m, j, "b"); ot = tri(L, m, k, "bt")
    ps = [L.point("p%d" % i) for i in range(3)]; r = L.call(f, m, *ps)
    same(c, "add_triangle(points) returns the new index", r, n[1], f); same(c, "add_triangle(points) counts", [count(L, m)[1]], [n[1] + 1], f)
    t = tri(L, m, r, "t")
    for i in range(3): same(c, "add_triangle(points) corner %d" % (i + 1), vert(L, m, t[i], "v%d" % i), L.coords(ps[i]), f)
    kept(c, "add_triangle(points) keeps the vertices", vert(L, m, j, "a"), old, inside(L, j, n[0]), f)
    kept(c, "add_triangle(points) keeps the triangles", tri(L, m, k, "at"), ot, inside(L, k, n[1]), f)
    # corners as points
    L = Lab(c); m = L.mesh("m"); i = L.int_("i"); t = tri(L, m, i, "t"); want = [vert(L, m, x, "w%d" % a) for a, x in enumerate(t)]
    f = L.find("Mesh::get_triangle_vertices(int, Point3&, Point3&, Point3&) const"); o = [L.out("o%d" % a) for a in range(3)]; L.call(f, m, i, *o)
    same(c, "get_triangle_vertices(points)", sum([L.coords(x) for x in o], []), sum(want, []), f)
    f = L.find("Mesh::get_triangle(int, Triangle3&) const"); q = L.out("T"); L.call(f, m, i, q)
    same(c, "get_triangle", sum([fld(L, q, "Triangle3::p%d() const" % (a + 1)) for a in range(3)], []), sum(want, []), f)
    # emptiness and colour
    L = Lab(c); m = L.mesh("m"); f = L.find("Mesh::empty() const")
    same(c, "empty exactly without triangles", L.call(f, m), L.it.cmp("eq", count(L, m)[1], ZERO, True), f)
    L = Lab(c); m = L.new("Mesh", "n"); f = L.find("Mesh::Mesh()")
    same(c, "a new mesh has no colour", colour(L, m), P(-1), f); same(c, "a new mesh is empty", L.call("Mesh::empty() const", m), ONE, f)
    L = Lab(c); m = L.mesh("m"); f = L.find("Mesh::set_color(int)"); v = A("arg", "colour", ints=True); n = count(L, m); L.call(f, m, v)
    same(c, "set_color", colour(L, m), v, f); same(c, "set_color keeps the counts", count(L, m), n, f)

def kept(c, key, got, want, g, loc):
    """equal whenever g holds"""
    for x, y in zip(got, want):
        d = restrict(apply(lambda p, q: ZERO if p == q else ONE, x, y), g)
        if (c_and(d, g) if isinstance(d, Node) else d) == ZERO: continue
        ok, why = compare(restrict(x, g), restrict(y, g), domain=lambda env: kernel.num_true(g, env))
        if ok is not True: c.decide(ok, key, why, loc); return
    c.proved(key, "unchanged for every element in range", loc)

# ------------------------------------------------------------------ lists read through an accessor
class List:
    """the list an accessor returns a reference to: size and the plain fields of the element at a symbolic index"""
    def __init__(s, L, p, dn):
        s.L = L; s.q = L.call(dn, p)
        if not isinstance(s.q, Ptr): raise Und("accessor %s" % dn)
    def size(s): return s.L.it.vsize(s.L.st, s.q)
    def at(s, j, E):
        it = s.L.it; B = it.vbuf(s.q); w = s.L.m.sizeof(E) if E not in SCAL else SCAL[E][0]
        return [it.load(s.L.st, Ptr(B, j.scale(w) + o), a, t) for o, a, t in plain(s.L.m, E)]
def plain(m, E):
    out = []
    for path, kind, o, off, a, ty in leaves_of(m, E, None, 0):
        if kind == "point": out += [(off + x, 8, "double") for x in (0, 8, 16)]
        elif kind == "data": out.append((off, a, ty))
        else: raise Und("nested list " + path)
    return out

# ------------------------------------------------------------------ smooth meshes
def smooth(c):
    E = "QuadBezierTriangle"
    def elem(L, s, i):
        q = L.call("SmoothMesh::triangle(int) const", s, i)
        if not isinstance(q, Ptr): raise Und("triangle(i)")
        return [L.it.load(L.st, Ptr(q.obj, q.off + o), a, t) for o, a, t in plain(L.m, E)]
    def count(L, s): return L.call("SmoothMesh::nb_triangles() const", s)
    L = Lab(c); s = L.new("SmoothMesh", "s"); same(c, "a new smooth mesh is empty", count(L, s), ZERO, L.find("SmoothMesh::SmoothMesh()"))
    L = Lab(c); s = L.out("s"); f = L.find("SmoothMesh::add_triangle(QuadBezierTriangle const&)"); n = count(L, s); j = L.int_("j"); old = elem(L, s, j)
    t = L.out("t"); want = [L.it.load(L.st, Ptr(t.obj, P(o)), a, ty) for o, a, ty in plain(L.m, E)]
    L.call(f, s, t)
    same(c, "add_triangle counts", count(L, s), n + 1, f); same(c, "add_triangle stores", elem(L, s, n), want, f)
    kept(c, "add_triangle keeps the others", elem(L, s, j), old, c_and(L.it.cmp("sge", j, ZERO, True), L.it.cmp("slt", j, n, True)), f)
    L = Lab(c); s = L.out("s"); f = L.find("SmoothMesh::clear()"); L.call(f, s); same(c, "clear", count(L, s), ZERO, f)
    f = c.m.find("SmoothMesh::empty() const", False)
    if f and not f.decl:
        L = Lab(c); s = L.out("s"); same(c, "empty exactly without triangles", L.call(f, s), L.it.cmp("eq", count(L, s), ZERO, True), f)
    # flat polygons
    for dn, faces in (("SmoothMesh::add_flat_triangle(Point3 const&, Point3 const&, Point3 const&)", [(0, 1, 2)]),
                      ("SmoothMesh::add_flat_quad(Point3 const&, Point3 const&, Point3 const&, Point3 const&)", [(0, 1, 2), (0, 2, 3)]),
                      ("SmoothMesh::add_flat_pentagon(Point3 const&, Point3 const&, Point3 const&, Point3 const&, Point3 const&)", [(0, 1, 2), (2, 3, 4), (0, 2, 4)])):
        f = c.m.find(dn, False)
        if f is None: continue
        key = dn.split("::")[1].split("(")[0]
        L = Lab(c); s = L.out("s"); n = count(L, s); ps = [L.point("p%d" % i) for i in range(max(max(x) for x in faces) + 1)]; L.call(f, s, *ps)
        same(c, key + " counts", count(L, s), n + len(faces), f)
        flat(c, L, key, [L.call("SmoothMesh::triangle(int) const", s, n + i) for i in range(len(faces))], [L.coords(p) for p in ps], f)

def flat(c, L, key, patches, pts, f):
    """the patches are flat triangles over corners of the polygon, and together they have the polygon as their boundary"""
    tris = []
    def at(q, x, y, z, name):
        o = L.out(name); L.call("QuadBezierTriangle::eval(double, double, double) const", o, q, x, y, z); return [clear(x) for x in L.coords(o)]
    def clear(x): return x
    for n, q in enumerate(patches):
        cs = [at(q, *[ONE if k == i else ZERO for k in range(3)], "c%d%d" % (n, i)) for i in range(3)]
        t = [[i for i, p in enumerate(pts) if all(a == b for a, b in zip(k, p))] for k in cs]
        if any(len(x) != 1 for x in t):
            bad = next(k for k, x in zip(cs, t) if len(x) != 1)
            c.decide(None, key + " patch %d" % n, "corner %s" % str(bad)[:120], f); return
        t = [x[0] for x in t]; tris.append(tuple(t))
        s, u = L.real("s"), L.real("u"); v = ONE - s - u
        same(c, key + " patch %d is flat" % n, at(q, s, u, v, "e%d" % n), [s * pts[t[0]][k] + u * pts[t[1]][k] + v * pts[t[2]][k] for k in range(3)], f, nf=clear_denoms)
    cnt = {}
    for t in tris:
        for a in range(3): cnt[(t[a], t[(a + 1) % 3])] = cnt.get((t[a], t[(a + 1) % 3]), 0) + 1
    left = {e: n - cnt.get(e[::-1], 0) for e, n in cnt.items() if n > cnt.get(e[::-1], 0)}
    N = len(pts); want = {(i, (i + 1) % N): 1 for i in range(N)}
    c.decide(left == want, key + " boundary", "the patches %s %s" % (tris, "bound the polygon with its orientation" if left == want else "have the boundary %s" % sorted(left)), f)

# ------------------------------------------------------------------ NURBS attributes
I, B, D, PT = "int", "bool", "double", "Point3"
NURBS = {
 "NurbsCurve": dict(ints=["degree"], derived={"nb_points": "points"}, lists={"knots": D, "weights": D, "points": PT},
    setters=[("set_degree(int)", {"degree": 0}), ("set_weights", {"weights": 0}), ("set_points", {"points": 0}), ("set_knots", {"knots": None}), ("set_equals_weights()", {"weights": ("ones", "points")}), ("set_uniform()", {"knots": None})], flags=[]),
 "NurbsSurface": dict(ints=["degree_u", "degree_v", "nb_points_u", "nb_points_v"], derived={}, lists={"knots_u": D, "knots_v": D, "weights": D, "points": PT}, flags=["is_closed_u", "is_closed_v"],
    setters=[("set_degree(int, int)", {"degree_u": 0, "degree_v": 1}), ("set_weights", {"weights": 0}), ("set_points", {"points": 0, "nb_points_u": 1, "nb_points_v": 2}), ("set_knots_u", {"knots_u": None}), ("set_knots_v", {"knots_v": None}),
             ("set_closed_u(bool)", {"is_closed_u": 0}), ("set_closed_v(bool)", {"is_closed_v": 0}), ("set_equals_weights()", {"weights": ("ones", "points")}), ("set_uniform_u()", {"knots_u": None}), ("set_uniform_v()", {"knots_v": None})]),
}
class View:
    def __init__(s, L, T, S, p): s.L = L; s.T = T; s.S = S; s.p = p
    def num(s, n): return s.L.call("%s::%s() const" % (s.T, n), s.p)
    def flag(s, n): return to_cond(s.num(n))
    def list(s, n): return List(s.L, s.p, "%s::%s() const" % (s.T, n))
    def snap(s, j):
        o = {n: s.num(n) for n in s.S["ints"]}
        o.update({n: s.flag(n) for n in s.S["flags"]})
        for n, E in s.S["lists"].items(): l = s.list(n); o[n] = (l.size(), l.at(j, E))
        return o

def truth(x): return to_cond(x) if not (isinstance(x, Node) or x in (ONE, ZERO)) else x
def holds(d):
    """can the condition hold: comparisons by sampling, truth values of single inputs freely"""
    if d == ONE: return True
    if tainted(d): return False
    for p in guard_paths(d, 32):
        nz = [x for x, v in p if x.kind != "gt"]; used = set()
        if not all(x.key[0] == "nz" and len(free_atoms(x.key[1])) == 1 for x in nz): continue
        for x in nz: used |= set(free_atoms(x.key[1]))
        gs = [(x, v) for x, v in p if x.kind == "gt"]
        if not all(atom_by_id(a).kind == "arg" or (atom_by_id(a).kind == "ld" and atom_by_id(a).args[0] == "i") for a in used): continue
        if any(set(free_atoms(x.poly)) & used for x, v in gs): continue
        for env in samples(set().union(*[set(free_atoms(x.poly)) for x, v in gs]) if gs else set(), (), 80):
            try:
                if all((num_eval(x.poly, env) > 0) == v for x, v in gs): return True
            except NoValue: break
    return False
def same_flag(c, key, got, want, f):
    d = apply(lambda p, q: ZERO if p == q else ONE, truth(got), truth(want))
    c.decide(True if d == ZERO else False if holds(d) else None, key, "equal" if d == ZERO else "differs when %s" % (d,), f)

def attributes(c, T, S):
    def start():
        """arbitrary content; the points were set by the setter"""
        L = Lab(c, mesh=False); p = L.out("o"); V = View(L, T, S, p)
        f = c.m.named(T + "::set_points(")
        if len(f) != 1: raise Und("set_points")
        q = L.out("former"); n = [L.int_("n%d" % i) for i in range(f[0].dn.count("int"))]; L.call(f[0], p, q, *n)
        return L, p, V
    # a new object and an emptied one
    for what in ("new", "cleared"):
        L, p, V = start()
        if what == "new":
            L.st.mem[p.obj] = Mem("undef", None, None); f = L.find("%s::%s()" % (T, T)); L.call(f, p)
        else:
            f = c.m.find(T + "::clear()", False)
            if f is None: continue
            f = L.find(f.dn); L.call(f, p)
        for n in S["ints"] + sorted(S["derived"]):
            same(c, "%s: %s" % (what, n), V.num(n), ZERO, f)
        for n in S["flags"]: same_flag(c, "%s: %s" % (what, n), V.flag(n), ZERO, f)
        for n in S["lists"]: same(c, "%s: number of %s" % (what, n), V.list(n).size(), ZERO, f)
    # setters
    for name, eff in S["setters"]:
        pre = "%s::%s" % (T, name if "(" in name else name + "(")
        fs = c.m.named(pre)
        if len(fs) != 1:
            c.unknown(name, "%d definitions" % len(fs)); continue
        f = fs[0]; L, p, V = start(); c.functions.add(f.dn)
        j = L.int_("j"); args = []; vals = []
        inner = f.dn[len(T + "::" + name.split("(")[0]) + 1:f.dn.rindex(")")]
        ts = [t.strip() for t in split_args(inner)] if inner.strip() else []
        for k, t in enumerate(ts):
            if t == I: x = A("arg", "a%d" % k, ints=True); declare_nonneg(x); args.append(x); vals.append(x)
            elif t == B: x = A("arg", "a%d" % k, ints=True); args.append(to_cond(x)); vals.append(to_cond(x))
            else: q = L.out("a%d" % k); args.append(q); vals.append(q)
        before = V.snap(j); L.it.events = None
        src = {}
        for k, q in enumerate(vals):
            if isinstance(q, Ptr):
                E = vecelem_of(ts[k]); src[k] = (L.it.vsize(L.st, q), [L.it.load(L.st, Ptr(L.it.vbuf(q), j.scale(SCAL[E][0] if E in SCAL else L.m.sizeof(E)) + o), a, ty) for o, a, ty in plain(L.m, E)])
        L.call(f, p, *args)
        after = V.snap(j)
        w = replayed(c, T, S, f, ts, eff)
        if w: c.refuted(name.split("(")[0], w, f); continue
        for n in before:
            key = "%s: %s" % (name.split("(")[0], n)
            if n in eff and eff[n] is None: continue
            if n in eff and isinstance(eff[n], tuple): want = (before[eff[n][1]][0], [ONE]); txt = "set"
            elif n in eff: want = src[eff[n]] if eff[n] in src else vals[eff[n]]; txt = "set"
            else: want = before[n]; txt = "kept"
            got = after[n]
            if n in S["flags"]: same_flag(c, key, got, want, f); continue
            if n in S["ints"]: same(c, key, got, want, f, txt); continue
            same(c, key + " (number)", got[0], want[0], f, txt)
            kept(c, key, got[1], want[1], c_and(L.it.cmp("sge", j, ZERO, True), L.it.cmp("slt", j, want[0], True)), f)
        for n, l in S["derived"].items(): same(c, "%s: %s" % (name.split("(")[0], n), V.num(n), V.list(l).size(), f)
        # the argument is left alone: C23

def replayed(c, T, S, f, ts, eff):
    """an object and arguments of concrete sizes for which the setter does not do what it should"""
    kind = CURVE if T == "NurbsCurve" else SURF
    for n, n2 in ((4, 3), (3, 5), (6, 2)):
        L = Lab(c, mesh=False); N = Nurbs(L, "o", kind, *((P(n), P(2)) if kind is CURVE else (P(n), P(n2), P(2), P(1))))
        tot = n if kind is CURVE else n * n2; P_, W = ctrl(tot); vals = {"points": P_, "weights": W}
        if kind is CURVE: vals["knots"] = [Fraction(i, 20) for i in range(n + 3)]
        else: vals["knots_u"] = [Fraction(i, 20) for i in range(n + 3)]; vals["knots_v"] = [Fraction(i * i, 90) for i in range(n2 + 2)]
        TB = Tables(); TB.fill({x: N.list(x) for x in kind["lists"]}, vals)
        before = dict(vals, **{x: int(num_eval(N.count(x), {})) for x in kind["ints"]})
        args = []; av = []
        for k, t in enumerate(ts):
            if t == I: v = 7 + k; args.append(P(v)); av.append(v)
            elif t == B: args.append(ONE); av.append(1)
            else:
                q = L.out("a%d" % k); m = 5 + k; E = vecelem_of(t); P2, W2 = ctrl(m, 3); L.it.set_vsize(L.st, q, P(m))
                v = P2 if E == PT else [w * 3 for w in W2] if E == D else None
                if v is None: return None
                TB.fill({"a%d" % k: q}, {"a%d" % k: v}); args.append(q); av.append(v)
        try:
            r = L.it.run(f, [N.p] + args, L.st); R = Replay(L, TB, {}); R.run(r.ev)
            for x in kind["ints"] + kind["lists"]:
                if x in S["derived"] or (x in eff and eff[x] is None): continue
                got = int(num_eval(N.count(x), R.env)) if x in kind["ints"] else read_list(R, N, x, 3 if x == "points" else 1)
                e = eff.get(x)
                want = before[x] if x not in eff else [1] * len(before[e[1]]) if isinstance(e, tuple) else av[e]
                if x in kind["lists"] and any(y is None or (isinstance(y, tuple) and None in y) for y in got): continue
                if got != want and not (isinstance(got, list) and len(got) == len(want) and all(abs(a - b) < 1e-9 for g, h in zip(got, want) for a, b in zip(g if isinstance(g, tuple) else (g,), h if isinstance(h, tuple) else (h,)))):
                    return "with %s points, %s is %s afterwards instead of %s" % (n if kind is CURVE else "%d x %d" % (n, n2), x, brief(got), brief(want))
        except NoValue as y:
            if c.debug: print("NoValue", f.dn, y)
            continue
    return None
def brief(v): return str(v) if not isinstance(v, list) else "%d values %s" % (len(v), " ".join("(%s)" % ", ".join("%g" % y for y in x) if isinstance(x, tuple) else "%g" % x for x in v[:4]))

def split_args(s):
    out = []; d = 0; cur = ""
    for ch in s:
        if ch == "<": d += 1
        if ch == ">": d -= 1
        if ch == "," and d == 0: out.append(cur); cur = ""
        else: cur += ch
    return out + [cur]
def vecelem_of(t):
    m = re.match(r"(?:std::)?vector<(.*?), std::allocator<", t)
    if not m: raise Und("argument type " + t)
    return m.group(1)

# ------------------------------------------------------------------ knots
LISTS = [(0, 1), (0, 0, 1, 1), (0, 0, 0, 1, 2, 2, 2), (-3, -3, 1, 1), (2, 2, 5, 7, 7), (0, 0, 0, 0, 1, 1, 2, 3, 3, 3, 3), (10, 20, 30, 40, 50), (Fraction(1, 4), Fraction(1, 2), Fraction(3, 4)), (-2, -1, 0), (0, 0, Fraction(1, 1000), 1, 1)]
def knots(c, kind, dirs):
    """set_knots scales the list given onto [0,1]; set_uniform spaces the interior knots evenly"""
    cls = kind["cls"]
    for lst, setter, uni, deg, cnt in dirs:
        # arbitrary list
        L = Lab(c, mesh=False); N = Nurbs(L, "o", kind, inv=False); k = L.int_("k", 2); q = L.out("K"); L.it.set_vsize(L.st, q, k); f = N.sig(setter)
        r = L.it.run(f, [N.p, q], L.st); c.functions.update(x.dn for x in L.visited())
        bad = why = None; n = 0
        for v in LISTS:
            T = Tables(); T.fill({"knots": q}, {"knots": list(v)})
            try: R = Replay(L, T, {atom_of(k - 2): len(v) - 2}); R.run(r.ev); got = read_list(R, N, lst)
            except NoValue as x: why = why or str(x); continue
            want = [(Fraction(x) - min(v)) / (max(v) - min(v)) for x in v]; n += 1
            if not near(got, want): bad = "the knots %s become %s instead of %s" % (txt(v), txt(got), txt(want)); break
        c.count("knot lists", n)
        c.decide(False if bad else None if why or not n else True, setter + ": scaled to 0 to 1", bad or why or "%d lists" % n, f)
        f = N.sig(uni); L = Lab(c, mesh=False); sz = [L.int_(x, y) for x, y in (("n", 2), ("d", 1))]
        if kind is CURVE: N = Nurbs(L, "o", kind, *sz); names = {atom_of(sz[0] - 2): 0, atom_of(sz[1] - 1): 1}
        else:
            ot = [L.int_("n2", 2), L.int_("d2", 1)]; N = Nurbs(L, "o", kind, *((sz[0], ot[0], sz[1], ot[1]) if lst.endswith("u") else (ot[0], sz[0], ot[1], sz[1])))
            names = {atom_of(sz[0] - 2): 0, atom_of(sz[1] - 1): 1, atom_of(ot[0] - 2): 2, atom_of(ot[1] - 1): 3}
        r = L.it.run(f, [N.p], L.st); bad = why = None; m = 0
        for n in range(2, 9):
            for d in range(1, min(n, 5)):
                val = (n - 2, d - 1, 1, 0); P_, W = ctrl(n if kind is CURVE else 3 * n); T = Tables()
                try: R = Replay(L, T, {a: val[i] for a, i in names.items()}); R.run(r.ev); got = read_list(R, N, lst)
                except NoValue as x: why = why or "%d points, degree %d: %s" % (n, d, x); continue
                want = [Fraction(0)] * (d + 1) + [Fraction(i, n - d) for i in range(1, n - d)] + [Fraction(1)] * (d + 1); m += 1
                if not near(got, want): bad = "with %d points and degree %d the knots are %s instead of %s" % (n, d, txt(got), txt(want)); break
            if bad: break
        c.count("uniform lists", m)
        c.decide(False if bad else None if why or not m else True, uni + ": evenly spaced", bad or why or "%d sizes" % m, f)
def near(a, b): return len(a) == len(b) and all(x is not None and abs(x - y) < 1e-12 for x, y in zip(a, b))
def txt(v): return " ".join("%g" % x if x is not None else "?" for x in v)

def ends(c):
    """a curve is closed exactly if it has two points or more and its first and last one are closer than the tolerance"""
    for few in (0, 1):
        L = Lab(c, mesh=False); N = Nurbs(L, "o", CURVE, P(few), P(1)); f = N.sig("is_closed")
        same(c, "a curve of %d points is not closed" % few, to_cond(L.call(f, N.p, L.real("t"))), ZERO, f)
    for n in (P(2), None):
      L = Lab(c, mesh=False); n, txt = (n, " (two points)") if n else (L.int_("n", 2), ""); N = Nurbs(L, "o", CURVE, n, P(1)); x = L.real("t"); t = x * x + Fraction(1, 1000)
      b = N.buf("points"); at = lambda i, k: L.load(Ptr(b, i * 24 + 8 * k), 8, "double")
      sq = sum(((at(ZERO, k) - at(n - 1, k)) * (at(ZERO, k) - at(n - 1, k)) for k in range(3)), ZERO)
      same(c, "a curve is closed if its ends are closer than the tolerance" + txt, to_cond(L.call(f, N.p, t)), gt0(t * t - sq, False), f)

# ------------------------------------------------------------------ lists of objects
def solid(c):
    T = "NurbsSolid"
    L = Lab(c, mesh=False); p = L.new(T, "s"); f = L.find("NurbsSolid::NurbsSolid()"); l = List(L, p, T + "::surfaces() const"); same(c, "a new solid is empty", l.size(), ZERO, f)
    f = c.m.find(T + "::clear()", False)
    if f: L = Lab(c, mesh=False); p = L.out("s"); L.call(f.dn, p); same(c, "clear", List(L, p, T + "::surfaces() const").size(), ZERO, L.find(f.dn))
    L = Lab(c, mesh=False); p = L.out("s"); f = L.find(T + "::add_surface(NurbsSurface const&)"); l = List(L, p, T + "::surfaces() const"); n = l.size(); L.call(f, p, L.out("a"))
    same(c, "add_surface counts", List(L, p, T + "::surfaces() const").size(), n + 1, f)
    a, b = L.call(T + "::surfaces() const", p), L.call(T + "::surfaces()", p)
    c.decide(True if isinstance(a, Ptr) and a == b else None, "surfaces", "both accessors give the same list", L.find(T + "::surfaces()"))

class Opaque:
    """a mesh as one value"""
    def __init__(s):
        s.models = {"Mesh::Mesh(Mesh const&)": s.copy, "Mesh::operator=(Mesh const&)": s.copy, "Mesh::Mesh()": s.new, "Mesh::~Mesh()": lambda it, c: None, "Mesh::clear()": s.new, "Mesh::set_color(int)": s.colour}
    def put(s, it, c, v): it.store(c.st, c.args[0], v, 8); return c.args[0] if c.i["t"] == "ptr" else None
    def copy(s, it, c): return s.put(it, c, it.load(c.st, c.args[1], 8, "double"))
    def new(s, it, c): return s.put(it, c, A("emptymesh"))
    def colour(s, it, c): return s.put(it, c, A("coloured", it.load(c.st, c.args[0], 8, "double"), c.args[1]))

def holder(c, T):
    """a face or solid holds the mesh it is made from; mesh() refers to it"""
    def mem(L, p):
        q = L.call(T + "::mesh()", p)
        if not isinstance(q, Ptr): raise Und("mesh()")
        return q
    L = Lab(c, Opaque().models, mesh=False); p = L.out("o"); f = L.find(T + "::mesh()"); q = mem(L, p)
    c.decide(True if q.obj == p.obj else None, "mesh() refers to a member", "", f)
    f = c.m.find("%s::%s(Mesh const&)" % (T, T), False)
    if f:
        L = Lab(c, Opaque().models, mesh=False); m = L.out("m"); t = L.load(m, 8, "double"); p = L.obj("o"); L.st.mem[p.obj] = Mem("undef", None, None); L.call(f.dn, p, m)
        v = L.load(mem(L, p), 8, "double")
        c.decide(True if v == t else False if isinstance(v, Undef) or v == A("emptymesh") else None, "made from a mesh", "mesh() is that mesh" if v == t else "mesh() is %s" % ("an empty mesh" if v == A("emptymesh") else v), f)
    L = Lab(c, Opaque().models, mesh=False); p = L.new(T, "n"); v = L.load(mem(L, p), 8, "double"); f = L.find("%s::%s()" % (T, T))
    c.decide(True if v == A("emptymesh") else None, "a new one is empty", "mesh() is empty", f)
    vec = [(n, off, vecelem(t)) for n, off, t, sz in c.m.fields(T) if vecelem(t)]
    f = c.m.find("%s::add_face(Face const&)" % T, False)
    if f and len(vec) == 1:
        L = Lab(c, Opaque().models, mesh=False); p = L.out("o"); q = Ptr(p.obj, P(vec[0][1])); n = L.it.vsize(L.st, q); v0 = L.load(mem(L, p), 8, "double"); L.call(f.dn, p, L.out("face"))
        same(c, "add_face adds one face", L.it.vsize(L.st, q), n + 1, L.find(f.dn)); v = L.load(mem(L, p), 8, "double")
        c.decide(True if v == v0 else None, "add_face keeps the mesh", "", f)

# ------------------------------------------------------------------ images
def image(c):
    def obs(L, p): return [L.call("Image::%s() const" % n, p) for n in ("width", "height", "planes")]
    for what, dn in (("new", "Image::Image(int, int, int)"), ("resize", "Image::resize(int, int, int)")):
        if c.m.find(dn, False) is None: continue        # inline, used by no part of the library
        L = Lab(c, mesh=False); p = L.out("im"); f = L.find(dn); a = [L.int_(x) for x in ("w", "h", "p")]
        if what == "new": L.st.mem[p.obj] = Mem("undef", None, None)
        L.call(f, p, *a); same(c, what + ": sizes", obs(L, p), a, f); same(c, what + ": number of values", L.call("Image::size() const", p), a[0] * a[1] * a[2], f)
        d = L.call("Image::data()", p)
        if isinstance(d, Ptr) and d.obj[0] == "E": same(c, what + ": storage", L.it.vsize(L.st, Ptr(*d.obj[1:])), a[0] * a[1] * a[2], f)
        else: c.unknown(what + ": storage", "%s" % (d,), f)

# ------------------------------------------------------------------ geometric objects
def corners(c, T, n):
    pts = ", ".join(["Point3 const&"] * n)
    L = Lab(c, mesh=False); ps = [L.point("p%d" % i) for i in range(n)]; p = L.obj("o"); L.st.mem[p.obj] = Mem("undef", None, None); f = L.find("%s::%s(%s)" % (T, T, pts)); L.call(f, p, *ps)
    for i in range(n): same(c, "made: p%d" % (i + 1), fld(L, p, "%s::p%d() const" % (T, i + 1)), L.coords(ps[i]), f)
    L = Lab(c, mesh=False); p = L.obj("o"); L.st.mem[p.obj] = Mem("undef", None, None); f = L.find("%s::%s()" % (T, T)); L.call(f, p)
    for i in range(n): same(c, "new: p%d" % (i + 1), fld(L, p, "%s::p%d() const" % (T, i + 1)), [ZERO] * 3, f)
    for k in range(n):
        L = Lab(c, mesh=False); p = L.out("o"); old = [fld(L, p, "%s::p%d() const" % (T, i + 1)) for i in range(n)]; q = L.point("q"); f = L.find("%s::set_p%d(Point3 const&)" % (T, k + 1)); L.call(f, p, q)
        for i in range(n): same(c, "set_p%d: p%d" % (k + 1, i + 1), fld(L, p, "%s::p%d() const" % (T, i + 1)), L.coords(q) if i == k else old[i], f)

def point(c):
    def get(L, p): return [L.load(L.call("Point3::%s() const" % a, p), 8, "double") for a in "xyz"]
    L = Lab(c, mesh=False); p = L.obj("o"); L.st.mem[p.obj] = Mem("undef", None, None); v = [L.real(a) for a in "xyz"]; f = L.find("Point3::Point3(double, double, double)"); L.call(f, p, *v); same(c, "made", get(L, p), v, f)
    L = Lab(c, mesh=False); p = L.new("Point3", "o"); same(c, "new", get(L, p), [ZERO] * 3, L.find("Point3::Point3()"))
    for i, a in enumerate("xyz"):
        L = Lab(c, mesh=False); p = L.out("o"); old = get(L, p); f = L.find("Point3::%s()" % a); L.it.store(L.st, L.call(f, p), L.real("v"), 8, ev=False)
        same(c, "writing " + a, get(L, p), [L.real("v") if k == i else old[k] for k in range(3)], f)
