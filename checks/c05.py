"""C05: fixed polyhedra - exact directed-edge multiset and vertex polynomials of the built solids."""
from common import *

PLAIN = [("tetrahedron", "double, Mesh&"), ("box", "double, double, double, Mesh&"), ("octahedron", "double, Mesh&"),
         ("dodecahedron", "double, Mesh&"), ("icosahedron", "double, Mesh&")]
SMOOTH = [(n, a.replace("Mesh&", "SmoothMesh&")) for n, a in PLAIN] + [("sphere", "double, SmoothMesh&")]
PHI = {"tetrahedron": 2}

def det3(a, b, c):
    return (a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]))

def run(c):
    c.rule("closed", "the multiset of directed edges of all faces (vertex identity = exact position) is invariant under reversal and has no repeated element")
    c.rule("outward", "for every face the polynomial det(p1,p2,p3) in the sizes is positive for all positive sizes")
    c.rule("corners", "box: corner polynomials are exactly the 8 sign combinations of size/2; others: |p|^2 is the same positive multiple of size^2 for all corners")
    c.rule("regular", "all edges between non-coplanar faces have the same length polynomial")
    c.assume("floating point coefficients compared with tolerance 1e-6 (exact polynomials in the sizes otherwise)", "sizes are positive")
    for n, sig in PLAIN:
        with c.group("MeshFactory::create_" + n): solid(c, n, "MeshFactory::create_%s(%s)" % (n, sig), False)
    for n, sig in SMOOTH:
        with c.group("SmoothMeshFactory::create_" + n): solid(c, n, "SmoothMeshFactory::create_%s(%s)" % (n, sig), True)

def solid(c, n, dn, smooth):
    L = Lab(c); got = {}
    try: build(c, n, dn, smooth, L, got)
    except Und:
        # sizes decide something: concrete sizes can refute only
        w = None if smooth or "k" not in got else sampled(L, n, **got)
        if w: c.refuted("size", w, L.find(dn))
        else: raise

SIZES = ((1, 1, 1), (1, 2, 3), (3, 2, 1), (2, 3, 1), (2, 1, 3), (1, 3, 2), (3, 1, 2), (2, 2, 1), (1, 2, 2), (7, 7, 7), (Fraction(1, 1000),) * 3, (1000, 1, Fraction(1, 1000)), (Fraction(1, 10 ** 7),) * 3, (10 ** 7,) * 3)
def sampled(L, n, k, m, ids):
    nv, nt = L.nv(m), L.nt(m)
    for sz in SIZES:
        env = dict(zip(ids, sz)); txt = "for the size%s %s: " % ("s" if len(ids) > 1 else "", ", ".join("%g" % float(x) for x in sz[:len(ids)]))
        try:
            NV, NT = int(num_eval(nv, env)), int(num_eval(nt, env)); T = []
            if NT <= 0: return txt + "no face is built"
            if NT > 200: continue
            pt = lambda i: tuple(float(num_eval(L.load(Ptr(("MV", k), P(24 * i + 8 * j)), 8, "double"), env)) for j in range(3))
            for t in range(NT):
                if num_eval(L.load(Ptr(("MT", k), P(16 * t + 12)), 4, "i32"), env): continue
                ix = [int(num_eval(L.load(Ptr(("MT", k), P(16 * t + 4 * j)), 4, "i32"), env)) for j in range(3)]
                if not all(0 <= i < NV for i in ix): return txt + "face %d refers to the vertices %s of %d" % (t, ix, NV)
                T.append(ix)
            pos = {i: pt(i) for t in T for i in t}
        except (NoValue, TypeError, ValueError, ZeroDivisionError, OverflowError): continue
        edges = {}
        for t, ix in enumerate(T):
            for j in range(3): edges.setdefault((ix[j], ix[(j + 1) % 3]), []).append(t)
        for (u, v), ts in edges.items():
            if len(ts) > 1: return txt + "the directed edge %d->%d occurs in the faces %s" % (u, v, ts)
            if (v, u) not in edges: return txt + "the edge %d->%d of face %d has no opposite edge" % (u, v, ts[0])
        for t, ix in enumerate(T):
            if det3(*(pos[i] for i in ix)) <= 0: return txt + "face %d is not outward" % t
        s = [float(x) for x in sz[:len(ids)]]
        if n == "box":
            for i, p in pos.items():
                if any(abs(abs(x) - y / 2) > 1e-6 * y for x, y in zip(p, s)): return txt + "corner %d is (%g, %g, %g)" % ((i,) + p)
        else:
            r = {i: sum(x * x for x in p) for i, p in pos.items()}; a, b = min(r, key=r.get), max(r, key=r.get)
            if r[b] - r[a] > 1e-6 * r[b]: return txt + "the corners %d and %d are at different distances, %.9g and %.9g" % (a, b, math.sqrt(r[a]), math.sqrt(r[b]))
    return None

def build(c, n, dn, smooth, L, out):
    f = L.find(dn)
    sizes = [L.real(a["i"] if isinstance(a["i"], str) else "size%d" % i) for i, a in enumerate(f.args[:-1])]
    ids = [atom_of(x) for x in sizes]
    env = {i: Fraction(10 + 3 * j, 10) for j, i in enumerate(ids)}
    if len(ids) == 1: env = {ids[0]: 1}
    tris = []          # (positions, edge tags)
    if not smooth:
        m = L.mesh("m"); r = L.run(f, *(sizes + [m])); k = L.kernel(m)
        out.update(k=k, m=m, ids=ids)
        nv, nt = L.nv(m), L.nt(m)
        if not (is_poly(nv, nt) and nv.is_const() and nt.is_const()): raise Und("vertex or triangle count is not a constant: %s, %s" % (nv, nt))
        NV = int(nv.const())
        pos = [[L.load(Ptr(("MV", k), P(24 * i + 8 * j)), 8, "double") for j in range(3)] for i in range(NV)]
        used = set()
        for t in range(int(nt.const())):
            un = L.load(Ptr(("MT", k), P(16 * t + 12)), 4, "i32")
            if un == ONE: continue
            if un != ZERO: raise Und("removal flag of triangle %d" % t)
            ix = [L.load(Ptr(("MT", k), P(16 * t + 4 * j)), 4, "i32") for j in range(3)]
            if not all(is_poly(x) and x.is_const() for x in ix): raise Und("vertex index of triangle %d" % t)
            ix = [int(x.const()) for x in ix]
            bad = [i for i in ix if not 0 <= i < NV]
            if bad:
                c.refuted("index", "triangle %d refers to vertex %s, but the mesh has %d vertices" % (t, bad, NV), f); return
            used.update(ix)
            tris.append((ix, [pos[i] for i in ix], [None] * 3))
        # the same position twice would tear the surface apart by index: identity below is the index
        keyf = lambda ix, p: ix
    else:
        m = L.new("SmoothMesh", "m"); L.run(f, *(sizes + [m]))
        nt = L.call("SmoothMesh::nb_triangles() const", m)
        if not (is_poly(nt) and nt.is_const()): raise Und("patch count is not a constant: %s" % nt)
        off = patch_fields(c)
        for t in range(int(nt.const())):
            p = L.call("SmoothMesh::triangle(int) const", m, num(t))
            P3 = [[L.load(Ptr(p.obj, p.off + o + d), 8, "double") for d in L.mm.pt] for o in off[:3]]
            C3 = [[L.load(Ptr(p.obj, p.off + o + d), 8, "double") for d in L.mm.pt] for o in off[3:]]
            tris.append(([None] * 3, P3, [C3[0], C3[2], C3[1]]))       # control points of edges 12, 23, 31
    c.count("solids"); c.count("faces", len(tris)); c.functions.update(x.dn for x in L.visited())
    # ---- numeric positions for one size (identity up to homogeneity is checked through the polynomials below)
    def npos(p):
        v = [numeric(x, env) if isinstance(x, Poly) else None for x in p]
        if any(x is None for x in v): raise Und("position not a polynomial in the sizes: %s" % (p,))
        return tuple(round(x, 6) + 0.0 for x in v)
    verts = {}
    for ix, ps, ct in tris:
        for i, p in zip(ix, ps):
            verts.setdefault(npos(p) if i is None else i, p)
    # ---- closed
    edges = {}
    for t, (ix, ps, ct) in enumerate(tris):
        ks = [npos(p) if i is None else i for i, p in zip(ix, ps)]
        if len(set(ks)) < 3:
            c.refuted("degenerate", "face %d uses the same corner twice: %s" % (t, ks), f); return
        for j in range(3):
            edges.setdefault((ks[j], ks[(j + 1) % 3], None if ct[j] is None else npos(ct[j])), []).append(t)
    bad = None
    for (u, v, x), ts in edges.items():
        if len(ts) > 1: bad = "directed edge %s->%s occurs in faces %s" % (u, v, ts); break
        if len(edges.get((v, u, x), [])) != 1:
            bad = "edge %s->%s of face %d has no opposite edge%s" % (u, v, ts[0], " with the same control point" if x else ""); break
    if not tris: bad = "no face is built"
    c.decide(bad is None, "closed", bad or "%d faces, %d directed edges, every one matched by exactly one opposite" % (len(tris), len(edges)), f)
    # connected: a closed surface with the right Euler characteristic is one sphere
    V, E, F = len({npos(p) for p in verts.values()}), len(edges) // 2, len(tris)
    c.decide(V - E + F == 2, "sphere", "V-E+F = %d-%d+%d" % (V, E, F), f)
    # ---- outward
    worst = None; und = None
    for t, (ix, ps, ct) in enumerate(tris):
        if not all(isinstance(x, Poly) for p in ps for x in p): und = "face %d has conditional coordinates" % t; continue
        d = det3(*ps)
        s = sign_positive(d, ids, env)
        if s is False: worst = "face %d is not outward: det(p1,p2,p3) = %s" % (t, d); break
        if s is None: und = "sign of %s" % d
    c.decide(False if worst else None if und else True, "outward", worst or und or "det(p1,p2,p3) > 0 for %d faces" % F, f)
    # ---- corners
    if n == "box":
        exp = set()
        for sx in (-1, 1):
            for sy in (-1, 1):
                for sz in (-1, 1): exp.add(tuple(x.scale(Fraction(sg, 2)) for x, sg in zip(sizes, (sx, sy, sz))))
        got = {tuple(p) for p in verts.values()}
        bad = [g for g in got if g not in exp]
        c.decide(got == exp, "corners", "unexpected corners %s" % bad[:2] if got != exp else "8 corners (+-x/2, +-y/2, +-z/2)", f)
    else:
        sz = P(atom_by_id(ids[0])); cs = {}
        for kx, p in verts.items():
            q = p[0] * p[0] + p[1] * p[1] + p[2] * p[2]
            co = q.coeffs_in(ids[0])
            if set(co) - {2} or 2 not in co: 
                v1, v2 = numeric(q, {ids[0]: 1}), numeric(q, {ids[0]: 2})
                if v1 is not None and v2 is not None and abs(v2 - 4 * v1) > 1e-6: c.refuted("corners", "corner %s: squared distance %s does not scale with the size" % (kx, q), f); break
                raise Und("distance of corner %s: %s" % (kx, q))
            cs[kx] = numeric(co[2], {})
        else:
            lo, hi = min(cs, key=cs.get), max(cs, key=cs.get)
            ok = cs[lo] > 0 and cs[hi] - cs[lo] < 1e-6
            c.decide(ok, "corners", "|p|^2 = %.9g size^2 for %d corners" % (cs[lo], len(cs)) if ok else "corners %s and %s are at different distances: %.9g and %.9g size^2" % (lo, hi, cs[lo], cs[hi]), f)
        # ---- regular
        nrm = []
        for ix, ps, ct in tris:
            a, b, d = [npos(p) for p in ps]
            u = [b[i] - a[i] for i in range(3)]; w = [d[i] - a[i] for i in range(3)]
            x = [u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]]
            l = math.sqrt(sum(y * y for y in x)) or 1; nrm.append([y / l for y in x])
        ln = {}
        for (u, v, x), ts in edges.items():
            o = edges.get((v, u, x))
            if not o: continue
            if sum(p * q for p, q in zip(nrm[ts[0]], nrm[o[0]])) > 1 - 1e-5: continue
            a, b = npos(verts[u]), npos(verts[v])
            ln[(u, v)] = sum((p - q) ** 2 for p, q in zip(a, b))
        if ln:
            lo, hi = min(ln, key=ln.get), max(ln, key=ln.get)
            ok = ln[hi] - ln[lo] < 1e-5 * ln[hi] and ln[lo] > 0
            c.decide(ok, "regular", "%d directed edges of squared length %.9g size^2" % (len(ln), ln[lo]) if ok else "edges %s and %s have different lengths (squares %.9g, %.9g)" % (lo, hi, ln[lo], ln[hi]), f)

def sign_positive(d, ids, env):
    """True if d is positive for all positive sizes, False if a positive size gives a value <= 0"""
    if d.is_zero(): return False
    # sum of monomials in the sizes with numeric coefficients
    co = {}
    for m, k in d.t.items():
        size = tuple((a, e) for a, e in m if a in ids); rest = tuple((a, e) for a, e in m if a not in ids)
        v = numeric(Poly({rest: k}), {})
        if v is None: return None
        co[size] = co.get(size, 0) + v
    co = {k: v for k, v in co.items() if abs(v) > 1e-9}
    if co and all(v > 0 for v in co.values()): return True
    for sc in (Fraction(1, 10), 1, 10):
        for e in (env, {i: 1 for i in env}):
            v = numeric(d, {i: x * sc for i, x in e.items()})
            if v is not None and v <= 1e-9 * float(sc) ** 3: return False
    return None

def patch_fields(c):
    """offsets of the three corners and the control points 12, 13, 23 inside a patch, from what the setters write"""
    L = Lab(c)
    q = L.new("QuadBezierTriangle", "q")
    sz = L.m.types["QuadBezierTriangle"]["sz"]
    def where(dn, names):
        pts = [L.point(n) for n in names]
        L.call(dn, q, *pts)
        off = []
        for p in pts:
            want = L.coords(p); hit = None
            for o in range(0, sz, 8):
                if [L.load(Ptr(q.obj, P(o + d)), 8, "double") for d in L.mm.pt] == want: hit = o; break
            if hit is None: raise Und("patch setter does not store its argument")
            off.append(hit)
        return off
    P3, C3 = ["P1", "P2", "P3"], ["C12", "C13", "C23"]
    a = where("QuadBezierTriangle::set_points(Point3 const&, Point3 const&, Point3 const&)", P3)
    b = where("QuadBezierTriangle::set_control_points(Point3 const&, Point3 const&, Point3 const&)", C3)
    return a + b
