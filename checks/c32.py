"""C32: generated cylinders, spheres and tori are exact, evenly spaced, outward oriented samples of their shape."""
from common import *
from ident import *
from cadsa.modref import *
TAU = 2 * math.pi

def sq(*v): return sum((x * x for x in v), ZERO)
SHAPES = {
 "create_cylinder": dict(dn="MeshFactory::create_cylinder(double, double, int, Mesh&)", sizes=[(3, 1), (Fraction(7, 10), Fraction(13, 4))],
    on=lambda p, s: [[p[2].scale(2) - s[0], p[2].scale(2) + s[0]], [sq(p[0], p[1]) - sq(s[1]), sq(p[0], p[1])]]),
 "create_sphere_uv": dict(dn="MeshFactory::create_sphere_uv(double, int, Mesh&)", sizes=[(1,), (Fraction(13, 4),)],
    on=lambda p, s: [[sq(*p) - sq(s[0])]]),
 "create_torus": dict(dn="MeshFactory::create_torus(double, double, int, Mesh&)", sizes=[(3, 1), (Fraction(13, 4), Fraction(2, 5))],
    on=lambda p, s: [[(sq(*p) + sq(s[0]) - sq(s[1])) * (sq(*p) + sq(s[0]) - sq(s[1])) - (sq(s[0]) * sq(p[0], p[1])).scale(4)]]),
}

def run(c):
    c.rule("on the shape", "the coordinates of every vertex, as terms of the sizes, the segment count and the loop counters, satisfy the implicit equation of the shape identically (cap centres lie on the axis)")
    c.rule("samples", "read off the effect tree for a range of segment counts and sizes: every vertex is used, the angles of the samples are evenly spaced over the full circle, every facet joins neighbouring samples and faces outward, and more segments give more samples")
    c.rule("geodesic", "every vertex of the tessellated solid is moved to its direction times the radius, and the merge distance lies between zero and the distance of neighbouring vertices")
    c.assume("sizes > 0", "torus: major radius > minor radius", "number of segments >= 1")
    for n in sorted(SHAPES):
        with c.group("MeshFactory::" + n): shape(c, n, SHAPES[n])
    with c.group("MeshFactory::create_sphere_geodesic"): geodesic(c)

def shape(c, name, S):
    L = Lab(c); f = L.find(S["dn"]); n = L.int_("n"); size = []; args = []
    for i, a in enumerate(f.args[:-1]):
        if a["t"].startswith("i"): args.append(n + 1)
        else: size.append(L.real("size%d" % i)); args.append(size[-1])
    m = L.mesh("m"); args.append(m); r = L.run(f, *args); k = L.kernel(m); c.functions.update(x.dn for x in L.visited())
    verts = [(e, F) for e, F in walk(r.ev) if isinstance(e, Ev) and e.kind == "mesh" and e.name in ("add_vertex", "set_vertex") and e.args[0] == k]
    w = witness(c, L, r, k, n, size, S, name, [1, 2, 3, 5, 8])
    if w: c.refuted(*w); return
    done = True
    for x, (e, F) in enumerate(verts):
        pos = e.args[1] if e.name == "add_vertex" else e.args[2]
        key = "on the shape.%d" % x; bad = None
        for p in leaves(apply(lambda *q: tuple(q), *pos)):
            for alt in S["on"](p, size) if all(isinstance(q, Poly) for q in p) else ():
                if not any(zero_poly(a) for a in alt): bad = "%s is not zero" % (trig_reduce(clear_denoms(alt[0])),)
            if not all(isinstance(q, Poly) for q in p): bad = "position depends on conditions"
        if bad: done = False
        c.decide(None if bad else True, key, bad or "%s, %s, %s" % tuple(pos), e)
    if not verts: c.unknown("on the shape", "no vertices", f)
    if not done:
        w = witness(c, L, r, k, n, size, S, name, [x for x in probe_sizes(r.ev) if x not in (1, 2, 3, 5, 8)])
        if w: c.refuted(*w); return
    w = witness(c, L, r, k, n, size, S, name, [x for x in (4, 6, 7, 12) ] + [x for x in probe_sizes(r.ev) if x > 12])
    if w: c.refuted(*w); return
    c.decide(True if c.seen.get(name) else None, "samples", "segment counts %s" % sorted(c.seen.get(name, ())), f)

def witness(c, L, r, k, n, size, S, name, counts):
    seen = getattr(c, "seen", None)
    if seen is None: seen = c.seen = {}
    rings = {}
    for v in counts:
        for sz in S["sizes"] if v < 9 else S["sizes"][:1]:
            env = {atom_of(n): v - 1}; env.update({atom_of(a): b for a, b in zip(size, sz)})
            try: V, T = numeric_mesh(r.ev, env, k)
            except NoValue as e:
                if c.debug: print("NoValue", name, v, e)
                continue
            w = wrong(name, V, T, [float(x) for x in sz])
            if w: return (w[0], "with %d segments and sizes %s: %s" % (v, ", ".join("%g" % x for x in sz), w[1]), w[2])
            rings[v] = len(V); seen.setdefault(name, set()).add(v)
    ks = sorted(rings)
    for a, b in zip(ks, ks[1:]):
        if rings[b] <= rings[a]: return ("samples", "%d segments give %d vertices, %d segments give %d" % (a, rings[a], b, rings[b]), None)
    return None

def numeric_mesh(evs, env, k):
    V = []; T = []
    def f(e, en):
        if e.kind != "mesh" or e.args[0] != k: return
        if e.name == "add_vertex": V.append((tuple(float(num_eval(x, en)) for x in e.args[1]), e))
        elif e.name == "set_vertex": V[int(num_eval(e.args[1], en))] = (tuple(float(num_eval(x, en)) for x in e.args[2]), e)
        elif e.name == "add_triangle": T.append((tuple(int(num_eval(x, en)) for x in e.args[1:4]), e))
        elif e.name == "clear": V.clear(); T.clear()
        elif e.name == "unlink": raise NoValue(e.name)
    num_events(evs, dict(env), f)
    return V, T

def angle(x, y): return math.atan2(y, x) % TAU
def even(vals, full):
    """step of evenly spaced angles over [0, full) (a full circle) or [0, full] (from pole to pole), None when they are not"""
    vs = sorted(vals); out = []
    for v in vs:
        if not out or v - out[-1] > 1e-7: out.append(v)
    if full == TAU and len(out) > 1 and out[0] + TAU - out[-1] < 1e-7: out.pop()
    if len(out) < 3: return None, out
    gaps = [b - a for a, b in zip(out, out[1:])] + ([out[0] + TAU - out[-1]] if full == TAU else [])
    if max(gaps) - min(gaps) > 1e-6: return None, out
    if full != TAU and (abs(out[0]) > 1e-6 or abs(out[-1] - full) > 1e-6): return None, out
    return gaps[0], out
def span(vals, circle):
    """smallest arc holding the angles"""
    vs = sorted(vals)
    if not circle: return vs[-1] - vs[0]
    gaps = [b - a for a, b in zip(vs, vs[1:])] + [vs[0] + TAU - vs[-1]]
    return TAU - max(gaps)

def wrong(name, V, T, s):
    tol = 1e-7 * max(s)
    P_ = [p for p, e in V]
    for p, e in V:
        rho = math.hypot(p[0], p[1])
        if name == "create_cylinder": d = max(abs(abs(p[2]) - s[0] / 2), min(abs(rho - s[1]), rho))
        elif name == "create_sphere_uv": d = abs(math.sqrt(sum(x * x for x in p)) - s[0])
        else: d = abs(math.hypot(rho - s[0], p[2]) - s[1])
        if d > tol: return "on the shape", "the vertex (%.6g, %.6g, %.6g) is %.3g off the shape" % (p + (d,)), e
    used = {i for t, e in T for i in t}
    if any(not 0 <= i < len(P_) for i in used): return None           # C06
    for i, (p, e) in enumerate(V):
        if i not in used: return "samples", "vertex %d is used by no facet" % i, e
    az = {i: angle(p[0], p[1]) for i, p in enumerate(P_) if math.hypot(p[0], p[1]) > tol}
    step, vs = even(az.values(), TAU)
    if step is None: return "samples", "the %d directions around the axis are not evenly spaced over the full circle" % len(vs), V[0][1]
    other = {}; ostep = None
    if name == "create_sphere_uv":
        other = {i: math.acos(max(-1, min(1, p[2] / s[0]))) for i, p in enumerate(P_)}; ostep, vs = even(other.values(), math.pi); circle = False
        if ostep is None: return "samples", "the %d latitudes are not evenly spaced from pole to pole" % len(vs), V[0][1]
    if name == "create_torus":
        other = {i: angle(math.hypot(p[0], p[1]) - s[0], p[2]) for i, p in enumerate(P_)}; ostep, vs = even(other.values(), TAU); circle = True
        if ostep is None: return "samples", "the %d directions around the tube are not evenly spaced" % len(vs), V[0][1]
    for t, e in T:
        a = [az[i] for i in t if i in az]; flat = name == "create_cylinder" and len({round(P_[i][2] / s[0], 6) for i in t}) == 1
        if a and not flat and span(a, True) > step * 1.001: return "samples", "the facet %s joins samples %.3g steps apart" % (t, span(a, True) / step), e
        if ostep and span([other[i] for i in t], circle) > ostep * 1.001: return "samples", "the facet %s joins samples %.3g steps apart" % (t, span([other[i] for i in t], circle) / ostep), e
        p, q, r = (P_[i] for i in t); u = [b - a for a, b in zip(p, q)]; w = [b - a for a, b in zip(p, r)]
        nn = (u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0])
        ce = [0.0] * 3                     # sum of the directions away from the shape's inside at the corners
        for v in (p, q, r):
            g = 1 - s[0] / (math.hypot(v[0], v[1]) or 1) if name == "create_torus" else 1
            ce = [ce[0] + v[0] * g, ce[1] + v[1] * g, ce[2] + v[2]]
        d = sum(a * b for a, b in zip(nn, ce))
        if d <= 1e-12: return "samples", "the facet %s %s" % (t, "faces inward" if d < -1e-12 else "has no area"), e
    return None

# ------------------------------------------------------------------ geodesic sphere
def geodesic(c):
    TE = "MeshTessellate::compute(Mesh const&, int, Mesh&)"; ME = "MeshUtil::merge_vertices(Mesh&, double)"; dn = "MeshFactory::create_sphere_geodesic(double, int, Mesh&)"
    f = c.m.find(dn, False)
    if f is None: return
    te = [x.dn for x in c.m.named("MeshTessellate::compute(")]; me = [x.dn for x in c.m.named("MeshUtil::merge_vertices(")]
    if len(te) != 1 or len(me) != 1:
        c.unknown("geodesic", "tessellation and merging not found", f); return
    calls = []
    L = Lab(c)
    def tess(it, call):
        p = next(a for a in reversed(call.args) if isinstance(a, Ptr)); k = kernel_of(it, call.st, p)
        calls.append(("tess", k, call.args)); nv = A("nv", "tess", ints=True); nt = A("nt", "tess", ints=True); declare_nonneg(nv); declare_nonneg(nt)
        L.mm.setcount(it, call.st, k, 0, nv); L.mm.setcount(it, call.st, k, 8, nt)
        for q in (("MV", k), ("MT", k)): call.st.mem[q] = Mem("init", None, q)
        it.emit("geo", "tess", (k,)); return None
    def merge(it, call): it.emit("geo", "merge", (call.args[0], call.args[1])); calls.append(("merge", call.args)); return None
    L.it.models.update({te[0]: tess, me[0]: merge})
    n = L.int_("n"); R = L.real("R"); m = L.mesh("m"); k = L.kernel(m)
    r = L.run(f, R, n + 1, m); c.functions.update(x.dn for x in L.visited())
    seq = [(e, F) for e, F in walk(r.ev) if isinstance(e, Ev) and ((e.kind == "geo") or (e.kind == "mesh" and e.args[0] == k and e.name in ("set_vertex", "add_vertex", "clear", "add_triangle", "unlink")))]
    names = [e.name for e, F in seq]
    ts = [x for x in calls if x[0] == "tess" and x[1] == k]
    if not ts or "tess" not in names:
        c.unknown("geodesic", "effects %s" % names, f); return
    rest = seq[names.index("tess") + 1:]; sv = [(e, F) for e, F in rest if e.name == "set_vertex"]; mg = [(e, F) for e, F in rest if e.name == "merge"]
    nv = A("nv", "tess", ints=True)
    if len(sv) != 1 or len(rest) - len(sv) - len(mg) != 0:
        c.unknown("geodesic", "effects %s" % names, f); return
    e, F = sv[0]
    if len(F) != 1 or F[0].guard != ONE or not isinstance(F[0].trip, Poly):
        c.unknown("on the shape", "loop of the vertices", e); return
    V = ("MV", k); full = trip_free(e.guard, F); F = F[0]; lo = e.args[1]
    at = [a for a in deep_atoms(tuple(e.args[2]) + (e.guard,)) if a.kind == "ld" and a.args[1] == V]; old = []
    for o in (0, 8, 16):                      # what the loop reads at the vertex it writes (no other iteration writes it)
        hit = [a for a in at if a.args[2] == lo.scale(24) + o]
        old.append(A(hit[0].kind, *hit[0].args) if len(hit) == 1 else None)
    w = move_witness(c, e, F, lo, at, n, R, nv)
    if w: c.refuted("on the shape", w, e); return
    if not F.exact or full != ONE:
        c.unknown("on the shape", "loop of the vertices: %s" % (full,), e); return
    cover = F.trip == nv and isinstance(lo, Poly) and (lo == F.k or lo == nv - 1 - F.k)
    d = lo - F.k if isinstance(lo, Poly) else None
    if not cover and d is not None and d.is_const() and (d.const() > 0 or (F.trip - nv).is_const() and (F.trip - nv).const() < 0):
        c.refuted("on the shape", "only the vertices %s to %s of %s are moved to the sphere" % (d, F.trip + d, nv), e); return
    c.decide(True if cover else None, "every vertex is moved", "vertices 0 to %s" % (F.trip,), e)
    if None in old or not all(isinstance(x, Poly) for x in e.args[2]):
        c.unknown("on the shape", "position %s" % (e.args[2],), e); return
    p = e.args[2]
    nrm = A("sqrt", sq(*old))
    same(c, "on the shape", [x * x for x in p], [div_(o * R, nrm) ** 2 for o in old], e, pos=[atom_of(R)])
    same(c, "direction", [x * nrm for x in p], [o * R for o in old], e, pos=[atom_of(R)])
    for e, F in mg:
        t = e.args[1]; bad = None
        for v in (1, 2, 3, 5, 10, 40, 300, 3000):
            for rad in (1, 3, Fraction(1, 1000), 1000):
                try: x = float(num_eval(t, {atom_of(n): v - 1, atom_of(R): rad}))
                except Definite as z: bad = "radius %g, %d segments: %s" % (rad, v, z); break
                except NoValue: x = None
                if x is None: bad = bad or ("?",)
                elif x <= 0: bad = bad if isinstance(bad, str) else "radius %g, %d segments: vertices closer than %g are merged, so none are" % (rad, v, x)
                elif x > 1.06 * float(rad) / v: bad = bad if isinstance(bad, str) else "radius %g, %d segments: neighbouring vertices at most %g apart are merged (distance %g)" % (rad, v, 1.0515 * float(rad) / v, x)
        c.decide(None if bad == ("?",) else False if bad else True, "merge distance", bad if isinstance(bad, str) else "%s" % (t,), e)
    if not mg: c.unknown("merge distance", "vertices are not merged here", f)
def move_witness(c, e, F, lo, at, n, R, nv):
    """positions on the faces of an icosahedron of edge vectors (u, 0, t): where the vertex goes, evaluated"""
    t = (math.sqrt(5) - 1) / 2; A_, B_, C_ = (1, 0, t), (1, 0, -t), (t, 1, 0); kk = one_atom(F.k)
    for a, b in ((0, 0), (.5, .5), (.5, 0), (1 / 3, 1 / 3), (.25, .5), (.1, .2), (.01, .02)):
        x = [a * p + b * q + (1 - a - b) * r for p, q, r in zip(A_, B_, C_)]
        for rad in (1, 3, Fraction(1, 10), 250):
            env = {atom_of(n): 99, atom_of(R): rad, one_atom(nv): 120, kk: 7}
            try: idx = num_eval(lo, env)
            except NoValue: return None
            for m in at:
                try: o = int(num_eval(m.args[2], env)) - 24 * idx
                except NoValue: return None
                if o not in (0, 8, 16): return None
                env[m.id] = x[o // 8]
            try:
                moved = num_eval(e.guard, env) != 0
                y = [float(v) for v in num_eval(tuple(e.args[2]), env)] if moved else x
            except (NoValue, ValueError, OverflowError): continue
            h = math.sqrt(sum(v * v for v in x)); want = [float(rad) * v / h for v in x]
            if max(abs(p - q) for p, q in zip(y, want)) > 1e-7 * float(rad):
                return "the vertex at (%.4g, %.4g, %.4g) of the tessellated solid %s, not to (%.4g, %.4g, %.4g) on the sphere of radius %g" % (tuple(x) + ("goes to (%.4g, %.4g, %.4g)" % tuple(y) if moved else "stays where it is",) + tuple(want) + (rad,))
    return None
def div_(a, b): return a * b ** -1 if not b.is_const() else a.scale(Fraction(1) / b.const())

