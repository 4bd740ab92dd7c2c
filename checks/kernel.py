"""The mesh kernel used by Mesh meets the model of the mesh storage used by the other analyses (run without the model)."""
from common import *
from ident import *

def kernel_class(c):
    """the class whose methods Mesh's virtual calls resolve to"""
    L = Lab(c); m = L.mesh("m")
    L.call("Mesh::nb_triangles() const", m); L.call("Mesh::nb_vertices() const", m)
    seen = L.mm.classes
    if len(seen) != 1: raise Und("kernel classes %s" % sorted(seen))
    return min(seen)

def contract(c, parts=("vertex", "triangle")):
    c.rule("kernel", "the kernel behind Mesh is a store of vertices and triangles: add appends and returns the new index, get returns what was stored, unlink sets exactly one removal flag, and no operation changes any other element (decided on the kernel's own code with symbolic indices)")
    try: K = kernel_class(c)
    except Und as e: 
        c.unknown("kernel", str(e)); return
    with c.group(K): body(c, K)

def body(c, K, facade=False):
    """K behaves as a store; facade: K is Mesh itself, whose kernel is the model the kernels are compared with"""
    def setup():
        if facade:
            L = Lab(c); return L, L.mesh("k")
        L = Lab(c, mesh=False)
        k = L.new(K, "k")
        vp = L.load(k, 8, "ptr")
        L.st.mem[k.obj] = Mem("init", None, k.obj)          # arbitrary content, same class
        for o in list(L.st.mem):
            if o[0] == "E" and o[1] == k.obj: L.st.mem[o] = Mem("init", None, o)
        L.it.store(L.st, k, vp, 8, ev=False)
        return L, k
    def M(L, sig): return L.find(K + "::" + sig)
    def cnt(L, k, what): return L.call(K + "::nb_%s() const" % what, k)
    def vert(L, k, i, nm):
        o = L.out(nm); L.call(K + "::get_vertex(int, Point3&) const", k, i, o); return L.coords(o)
    def tri(L, k, i, nm):
        o = [L.out(nm + str(j)) for j in range(3)]
        L.call(K + "::get_triangle_vertices(int, int&, int&, int&) const", k, i, *o)
        return [L.load(x, 4, "i32") for x in o]
    def flag(L, k, i): return to_cond(L.call(K + "::is_triangle_unlinked(int)" + (" const" if facade else ""), k, i))
    def eqc(L, a, b): return L.it.cmp("eq", a, b, True)
    def inside(L, i, n): return c_and(L.it.cmp("sge", i, ZERO, True), L.it.cmp("slt", i, n, True))
    def under(key, got, want, g, loc):
        ok = True; why = ""
        for x, y in zip(got, want):
            d = restrict(apply(lambda p, q: ZERO if p == q else ONE, x, y), g)
            d = c_and(d, g) if isinstance(d, Node) else d
            if d == ZERO: continue
            s, t = compare(restrict(x, g), restrict(y, g), domain=lambda env: num_true(g, env))
            if s is True: continue
            ok, why = s, t; break
        c.decide(ok, key, why or "equal under %s" % (g,), loc)
    def conds(key, got, want, g, loc):
        d = c_and(g, apply(lambda p, q: ZERO if p == q else ONE, got, want))
        c.decide(True if d == ZERO else (False if witness(d) else None), key, "equal" if d == ZERO else "differs when %s" % (d,), loc)
    # a new store is empty
    L = Lab(c, mesh=facade); k = L.new(K, "k")
    f = L.m.bydn.get("%s::%s()" % (K, K)) or K
    same(c, "a new store is empty", [cnt(L, k, "vertices"), cnt(L, k, "triangles")], [ZERO, ZERO], f)
    # vertices
    L, k = setup(); p = L.point("p"); f = M(L, "add_vertex(Point3 const&)"); n0 = cnt(L, k, "vertices"); j = L.int_("j")
    b = vert(L, k, j, "b"); r = L.call(f, k, p); n1 = cnt(L, k, "vertices")
    same(c, "add_vertex returns the new index", r, n0, f); same(c, "add_vertex counts", n1, n0 + 1, f)
    same(c, "add_vertex stores", vert(L, k, r, "g"), L.coords(p), f)
    under("add_vertex keeps the others", vert(L, k, j, "a"), b, inside(L, j, n0), f)
    L, k = setup(); p = L.point("p"); i, j = L.int_("i"), L.int_("j"); f = M(L, "set_vertex(int, Point3 const&)"); n0 = cnt(L, k, "vertices")
    b = vert(L, k, j, "b"); L.call(f, k, i, p)
    same(c, "set_vertex counts", cnt(L, k, "vertices"), n0, f)
    same(c, "set_vertex stores", vert(L, k, i, "g"), L.coords(p), f)
    under("set_vertex keeps the others", vert(L, k, j, "a"), b, c_and(c_not(eqc(L, i, j)), inside(L, j, n0)), f)
    # triangles
    L, k = setup(); v = [L.int_("v%d" % x) for x in range(3)]; j = L.int_("j"); f = M(L, "add_triangle(int, int, int)"); n0 = cnt(L, k, "triangles"); m0 = cnt(L, k, "vertices")
    b = tri(L, k, j, "b"); bf = flag(L, k, j); r = L.call(f, k, *v)
    same(c, "add_triangle returns the new index", r, n0, f); same(c, "add_triangle counts", cnt(L, k, "triangles"), n0 + 1, f)
    same(c, "add_triangle keeps the vertices", cnt(L, k, "vertices"), m0, f)
    same(c, "add_triangle stores", tri(L, k, r, "g"), v, f)
    conds("add_triangle is linked", flag(L, k, r), ZERO, ONE, f)
    g = inside(L, j, n0)
    under("add_triangle keeps the others", tri(L, k, j, "a"), b, g, f); conds("add_triangle keeps the removal of others", flag(L, k, j), bf, g, f)
    L, k = setup(); i, j = L.int_("i"), L.int_("j"); f = M(L, "unlink_triangle(int)"); n0 = cnt(L, k, "triangles"); m0 = cnt(L, k, "vertices")
    b = tri(L, k, j, "b"); bi = tri(L, k, i, "bi"); bf = flag(L, k, j); bv = vert(L, k, j, "bv")
    L.call(f, k, i)
    same(c, "unlink keeps the counts", [cnt(L, k, "triangles"), cnt(L, k, "vertices")], [n0, m0], f)
    conds("unlink sets the flag", flag(L, k, i), ONE, ONE, f)
    g = c_and(c_not(eqc(L, i, j)), inside(L, j, n0))
    under("unlink keeps the corners", tri(L, k, i, "ai"), bi, ONE, f); under("unlink keeps the corners of others", tri(L, k, j, "a"), b, g, f)
    conds("unlink keeps the removal of others", flag(L, k, j), bf, g, f); under("unlink keeps the vertices", vert(L, k, j, "av"), bv, ONE, f)
    L, k = setup(); f = M(L, "clear()"); L.call(f, k)
    same(c, "clear", [cnt(L, k, "triangles"), cnt(L, k, "vertices")], [ZERO, ZERO], f)

def num_true(g, env):
    try: return g == ONE or bool(num_eval(g, env))
    except (NoValue, TypeError): return False
def witness(d):
    """can the condition be true"""
    if d == ONE: return True
    if tainted(d): return False
    for p in guard_paths(d, 16):
        gs = [x for x, v in p if x.kind == "gt"]
        if len(gs) != len(p): continue
        for env in samples(free_atoms(d), (), 80):
            try:
                if all((num_eval(x.poly, env) > 0) == v for x, v in p if x.kind == "gt"): return True
            except NoValue: break
    return False
