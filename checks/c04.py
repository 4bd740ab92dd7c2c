"""C04: local mesh edits - oriented boundary of what is added minus what is removed."""
import itertools
from common import *
from ident import *
from c05 import patch_fields

def run(c):
    c.rule("boundary", "the formal sum of the directed edges of all added triangles minus that of all removed ones is zero (split), the given polygon (quad, pentagon) or minus twice the triangle (flip), for every corner position of the split vertex/edge and every ordering of the vertex numbers (the code only moves and compares them)")
    c.rule("removed", "exactly the replaced triangles are removed; nothing else is removed or cleared")
    c.rule("count", "a polygon of n corners becomes n-2 triangles, a split triangle 3, a split edge 4, a flipped triangle 1")
    c.rule("vertices", "corner points given by position are added unchanged, once each, and the triangles use exactly them")
    c.assume("the triangles and vertices named by the caller exist and are distinct", "a split edge belongs to both triangles, in opposite directions")
    with c.group("Mesh::split_triangle_with_vertex(int)"): split_tri(c)
    with c.group("Mesh::split_triangle_with_vertex(Point3)"): split_tri_point(c)
    with c.group("Mesh::split_edge_with_vertex"): split_edge(c)
    with c.group("Mesh::flip_triangle"): flip(c)
    with c.group("Mesh::add_triangle"): poly_int(c, "Mesh::add_triangle(int, int, int)", 3)
    with c.group("Mesh::add_quad"): poly_int(c, "Mesh::add_quad(int, int, int, int)", 4)
    with c.group("Mesh::add_pentagon"): poly_int(c, "Mesh::add_pentagon(int, int, int, int, int)", 5)
    with c.group("Mesh::add_triangle(Point3)"): poly_pt(c, "Mesh::add_triangle(Point3 const&, Point3 const&, Point3 const&)", 3)
    with c.group("Mesh::add_quad(Point3)"): poly_pt(c, "Mesh::add_quad(Point3 const&, Point3 const&, Point3 const&, Point3 const&, bool)", 4, True)
    for n, t in ((3, "triangle"), (4, "quad"), (5, "pentagon")):
        with c.group("SmoothMesh::add_flat_" + t): smooth(c, "SmoothMesh::add_flat_%s(%s)" % (t, ", ".join(["Point3 const&"] * n)), n)
    import kernel
    kernel.contract(c)

def bnd(tris, ch=None, w=1):
    ch = {} if ch is None else ch
    for t in tris:
        for j in range(len(t)):
            u, v = t[j], t[(j + 1) % len(t)]
            if u == v: continue
            s = w if u < v else -w; e = (min(u, v), max(u, v))
            ch[e] = ch.get(e, 0) + s
            if not ch[e]: del ch[e]
    return ch
def show_ch(ch, names):
    return ", ".join("%+d*(%s->%s)" % (n, names.get(u, u), names.get(v, v)) for (u, v), n in ch.items())

class Edit:
    """numeric instances of the summary of one edit"""
    def __init__(s, L, r, k): s.L = L; s.r = r; s.k = k; s.T = ("MT", k)
    def cell(s, t, n):
        return atom_of(s.L.it.read(Mem("init", None, s.T), s.T, P(t).scale(16) + 4 * n, 4, "i32"))
    def instance(s, env):
        add, rem, vs = [], [], []
        def f(e, en):
            if e.kind == "noreturn": raise NoValue("an assertion fails")
            if e.kind != "mesh" or e.args[0] != s.k: return
            if e.name == "add_triangle": add.append((tuple(int(num_eval(x, en)) for x in e.args[1:4]), e))
            elif e.name == "unlink": rem.append((int(num_eval(e.args[1], en)), e))
            elif e.name == "add_vertex": vs.append((int(num_eval(e.ret, en)), e.args[1], e))
            elif e.name in ("clear", "set_vertex"): rem.append((e.name, e))
        num_events(s.r.ev, dict(env), f)
        return add, rem, vs

def labelled(n):
    """vertex numbers in every relative order"""
    for p in itertools.permutations(range(n)): yield [10 + 10 * x for x in p]

def judge(c, f, E, cases, count):
    """cases: [(env, removed {index: corners}, wanted chain, names)]"""
    bad = {}; n = 0
    for env, removed, want, names in cases:
        add, rem, vs = E.instance(env); n += 1
        got = bnd([t for t, e in add]); 
        diff = dict(got)
        for e, w in want.items():
            diff[e] = diff.get(e, 0) - w
            if not diff[e]: del diff[e]
        txt = " (%s)" % ", ".join("%s=%s" % (v, k) for k, v in names.items())
        if diff: bad.setdefault("boundary", ("triangles %s: difference to the expected boundary %s%s" % ([tuple(names.get(x, x) for x in t) for t, _ in add], show_ch(diff, names), txt), add[0][1] if add else f))
        if sorted(map(str, [i for i, e in rem])) != sorted(map(str, removed)):
            bad.setdefault("removed", ("removes %s, expected %s%s" % ([i for i, e in rem], list(removed), txt), rem[0][1] if rem else f))
        if len(add) != count: bad.setdefault("count", ("%d triangles instead of %d%s" % (len(add), count, txt), f))
    for k in ("boundary", "removed", "count"):
        if k in bad: c.refuted(k, *bad[k])
        else: c.proved(k, "%d cases" % n, f)
    c.count("cases", n)

def start(c, dn, mk):
    L = Lab(c); m = L.mesh("m"); f = L.find(dn); a = mk(L)
    nv, nt = atom_of(A("nv", "m", ints=True)), atom_of(A("nt", "m", ints=True))
    r = L.run(f, m, *a); c.functions.update(x.dn for x in L.visited())
    return L, f, Edit(L, r, L.kernel(m)), {nv: 100, nt: 7}, a

def split_tri(c):
    L, f, E, env0, (t, v) = start(c, "Mesh::split_triangle_with_vertex(int, int)", lambda L: [L.int_("t"), L.int_("v")])
    cs = []
    for lab in labelled(4):
        env = dict(env0); env[atom_of(t)] = 3; env[atom_of(v)] = lab[3]
        for j in range(3): env[E.cell(t, j)] = lab[j]
        cs.append((env, [3], bnd([lab[:3]]), dict(zip(lab, ("p1", "p2", "p3", "split")))))
    judge(c, f, E, cs, 3)
    # a corner of the triangle itself as split vertex: whatever is done, the boundary stays
    bad = None
    for k in range(3):
        env = dict(env0); lab = [10, 20, 30]; env[atom_of(t)] = 3; env[atom_of(v)] = lab[k]
        for j in range(3): env[E.cell(t, j)] = lab[j]
        add, rem, vs = E.instance(env)
        if any(i != 3 for i, e in rem): bad = "removes %s" % [i for i, e in rem]
        elif bnd([x for x, e in add]) != (bnd([lab]) if rem else {}): bad = "split at its own corner p%d: triangles %s replace %s" % (k + 1, [x for x, e in add], tuple(lab) if rem else "nothing")
        if bad: break
    c.decide(not bad, "corner", bad or "3 cases", f)

def split_tri_point(c):
    L, f, E, env0, (t, p) = start(c, "Mesh::split_triangle_with_vertex(int, Point3 const&)", lambda L: [L.int_("t"), L.point("p")])
    cs = []
    for lab in labelled(3):
        env = dict(env0); env[atom_of(t)] = 3
        for j in range(3): env[E.cell(t, j)] = lab[j]
        cs.append((env, [3], bnd([lab]), dict(zip(lab + [100], ("p1", "p2", "p3", "split")))))
    judge(c, f, E, cs, 3)
    add, rem, vs = E.instance(cs[0][0])
    if len(vs) != 1: c.refuted("vertices", "%d vertices are added" % len(vs), f)
    else: same(c, "vertices", vs[0][1], L.coords(p), vs[0][2])
    used = set(x for tr, e in add for x in tr)
    c.decide(100 in used and vs and vs[0][0] == 100, "uses", "the triangles use the new vertex", f)

def split_edge(c):
    L, f, E, env0, a = start(c, "Mesh::split_edge_with_vertex(int, int, int, int, int)", lambda L: [L.int_(x) for x in ("t1", "t2", "v1", "v2", "vs")])
    t1, t2, v1, v2, vs = a
    cs = []
    for i1, i2 in ((2, 5), (5, 2), (0, 6)):
        for n, lab in enumerate(labelled(5)):
            V1, V2, S, C, D = lab
            for r1 in range(3):
                for r2 in range(3):
                    env = dict(env0)
                    for x, y in zip(a, (i1, i2, V1, V2, S)): env[atom_of(x)] = y
                    ta = [V1, V2, C]; tb = [V2, V1, D]
                    ta = ta[r1:] + ta[:r1]; tb = tb[r2:] + tb[:r2]
                    for j in range(3): env[E.cell(t1, j)] = ta[j]; env[E.cell(t2, j)] = tb[j]
                    if i1 != 2 and n % 7: continue
                    # the split edge is replaced by two edges through the new vertex: the quad keeps its boundary
                    cs.append((env, [i1, i2], bnd([ta, tb]), {V1: "v1", V2: "v2", S: "split", C: "c", D: "d"}))
    judge(c, f, E, cs, 4)
    # the new vertex is on both sides of the edge
    env = cs[0][0]; add, rem, _ = E.instance(env); S = env[atom_of(vs)]
    c.decide(all(S in t for t, e in add), "vertices", "every new triangle uses the split vertex" if all(S in t for t, e in add) else "a new triangle does not use the split vertex: %s" % [t for t, e in add], f)

def flip(c):
    L, f, E, env0, (t,) = start(c, "Mesh::flip_triangle(int)", lambda L: [L.int_("t")])
    cs = []
    for lab in labelled(3):
        env = dict(env0); env[atom_of(t)] = 3
        for j in range(3): env[E.cell(t, j)] = lab[j]
        cs.append((env, [3], bnd([lab], w=-1), dict(zip(lab, ("p1", "p2", "p3")))))
    judge(c, f, E, cs, 1)

def poly_int(c, dn, n):
    L, f, E, env0, a = start(c, dn, lambda L: [L.int_("v%d" % i) for i in range(1, n + 1)])
    cs = []
    for lab in labelled(n):
        env = dict(env0)
        for x, y in zip(a, lab): env[atom_of(x)] = y
        cs.append((env, [], bnd([lab]), {y: "v%d" % (i + 1) for i, y in enumerate(lab)}))
    judge(c, f, E, cs, n - 2)

def regions(evs, limit=64):
    """[(condition, events that happen)] - every combination of the guards of straight-line events"""
    out = [(ONE, [])]
    for e in evs:
        if not isinstance(e, Ev): raise Und("loop")
        nxt = []
        for g, l in out:
            a, b = c_and(g, e.guard), c_and(g, c_not(e.guard))
            if a != ZERO: nxt.append((a, l + [e]))
            if b != ZERO: nxt.append((b, l))
        out = nxt
        if len(out) > limit: raise Und("too many cases")
    return out

def feasible(g, extra=(), seed=1):
    """a numeric point of the condition, or True if it only has free boolean parts"""
    ats = free_atoms(g)
    for env in itertools.chain(extra, samples(ats, (), 200, seed)):
        try:
            if g == ONE or num_cond(g, env): return env
        except (NoValue, ValueError, OverflowError, ZeroDivisionError): pass
    return None
def num_cond(g, env):
    """satisfiable at env with some choice of the opaque booleans"""
    while isinstance(g, Node):
        p = pred(g.p)
        if p.kind == "gt": g = g.hi if num_eval(p.poly, env) > 0 else g.lo
        else:
            return num_cond(g.hi, env) or num_cond(g.lo, env)
    return g == ONE

def poly_pt(c, dn, n, flag=False):
    L, f, E, env0, a = start(c, dn, lambda L: [L.point("p%d" % i) for i in range(1, n + 1)] + ([A("arg", "optim", ints=True)] if flag else []))
    evs = [e for e in E.r.ev if not isinstance(e, Ev) or e.kind in ("mesh", "noreturn")]
    if any(isinstance(e, Ev) and e.kind == "mesh" and e.name in ("unlink", "clear", "set_vertex") for e in evs): c.refuted("removed", "the mesh is modified", f)
    bad = None; regs = regions([e for e in evs if not isinstance(e, Ev) or e.name in ("add_triangle", "add_vertex")])
    cnt = 0; sq = []
    for xs in (((0, 0), (1, 0), (1, 1), (0, 1), (-1, 1)), ((0, 0), (4, 0), (4, 3), (0, 3), (-2, 1)), ((0, 0), (4, 0), (1, 1), (0, 4), (-1, 1)), ((1, 1), (0, 4), (0, 0), (4, 0), (5, -1))):
        sq.append({atom_of(x): float(v) for p, q in zip(a[:n], xs) for x, v in zip(L.coords(p), q + (0,))})
        if flag: sq += [dict(sq[-1], **{}) for _ in range(1)]; sq[-2][atom_of(a[n])] = 0; sq[-1][atom_of(a[n])] = 1
    for g, es in regs:
        if feasible(g, sq) is None: continue
        cnt += 1; at = {}; tris = []; used = []
        for e in es:
            if e.name == "add_vertex":
                hit = [i for i in range(n) if compare(e.args[1], L.coords(a[i]))[0] is True]
                if not hit: bad = ("vertices", "added vertex %s is none of the given points" % (e.args[1],), e); break
                used.append(hit[0]); at[restrict(e.ret, g)] = hit[0]
            else:
                ix = [restrict(x, g) for x in e.args[1:4]]
                miss = [x for x in ix if x not in at]
                if miss: bad = ("vertices", "triangle uses vertex %s, which is not one of the added ones" % (miss[0],), e); break
                tris.append([at[x] for x in ix])
        if bad: break
        want = bnd([list(range(n))]); got = bnd(tris)
        if got != want: bad = ("boundary", "triangles of corners %s do not fill the polygon" % ([tuple("p%d" % (i + 1) for i in t) for t in tris],), es[-1] if es else f); break
        if len(tris) != n - 2: bad = ("count", "%d triangles" % len(tris), f); break
    if bad: c.refuted(*bad)
    else: c.proved("boundary", "%d cases" % cnt, f); c.proved("vertices", "the %d points are added once each" % n, f)
    c.count("cases", cnt)

def smooth(c, dn, n):
    L = Lab(c); f = L.find(dn); m = L.new("SmoothMesh", "m")
    pts = [L.point("p%d" % i) for i in range(1, n + 1)]; co = [L.coords(p) for p in pts]
    L.run(f, m, *pts)
    nt = L.call("SmoothMesh::nb_triangles() const", m)
    if not (is_poly(nt) and nt.is_const()): raise Und("patch count %s" % nt)
    off = patch_fields(c); tris = []
    for t in range(int(nt.const())):
        p = L.call("SmoothMesh::triangle(int) const", m, num(t))
        q = [[L.load(Ptr(p.obj, p.off + o + d), 8, "double") for d in L.mm.pt] for o in off]
        ix = []
        for x in q[:3]:
            hit = [i for i in range(n) if compare(x, co[i])[0] is True]
            if not hit: raise Und("corner %s" % (x,))
            ix.append(hit[0])
        tris.append(ix)
        for (i, j), x in zip(((0, 1), (0, 2), (1, 2)), q[3:]):
            same(c, "flat %d.%d%d" % (t, i + 1, j + 1), x, [(u + v).scale(Fraction(1, 2)) for u, v in zip(q[i], q[j])], f)
    want, got = bnd([list(range(n))]), bnd(tris)
    c.decide(got == want, "boundary", "patches with corners %s" % ([tuple("p%d" % (i + 1) for i in t) for t in tris],), f)
    c.decide(len(tris) == n - 2, "count", "%d patches" % len(tris), f)
    c.functions.update(x.dn for x in L.visited())
