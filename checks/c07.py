"""C07: subdividing triangles and curved patches - parametric chains in lattice coordinates."""
from common import *
from ident import *
from triloop import *
from c19 import make, vertex_families
from c17 import leaves_of

def run(c):
    c.rule("cover", "in lattice coordinates every added piece is positively oriented and the formal sum of all piece boundaries equals the subdivided boundary of the whole triangle (parametric 1-chain identity for every n), so the pieces cover it exactly once")
    c.rule("affine", "every added corner is a + s(b-a) + t(c-a) of the corners of the triangle it replaces")
    c.rule("count", "n^2 pieces for n segments")
    c.rule("each live triangle", "the subdivision is executed in a loop over all triangles, exactly for those still linked")
    c.rule("each patch", "meshing a smooth mesh meshes patches 0 to size-1 of its list once each with the segments given, and does nothing else to the mesh")
    c.assume("number of segments >= 1")
    with c.group("MeshTessellate::compute"): tess(c)
    with c.group("QuadBezierTriangle::add_to_mesh"): patch(c)
    with c.group("SmoothMesh::add_to_mesh"): smooth(c)

def expected_boundary(ch, n):
    """minus the boundary of (0,0),(n,0),(0,n) in steps of one"""
    k = A("k", ("exp", "b"), ints=True); aid = atom_of(k); declare_nonneg(k)
    d = Dom([(aid, ZERO, n)])
    ch.edge((k, ZERO), (k + 1, ZERO), d, -1)
    ch.edge((n - k, k), (n - k - 1, k + 1), d, -1)
    ch.edge((ZERO, k + 1), (ZERO, k), d, -1)

def cover(n, pieces, loc):
    """pieces: [(dom, ((s,t),(s,t),(s,t)), ev)]"""
    ch = Chain(); tot = ZERO; bad = None
    for d, tr, e in pieces:
        (a, b, q) = tr
        det = (b[0] - a[0]) * (q[1] - a[1]) - (b[1] - a[1]) * (q[0] - a[0])
        if d.sign(det) != ">0": bad = ("orientation determinant %s" % det, e)
        for s, t in tr:
            if not (d.le(ZERO, s) and d.le(ZERO, t) and d.le(s + t, n)): bad = ("corner (%s, %s) in the triangle of size %s" % (s, t, n), e)
        ch.tri(a, b, q, d); tot = tot + count_family(d)
    expected_boundary(ch, n)
    return [(None if bad else True, "orientation", "not shown: %s" % bad[0] if bad else "%d families, all positively oriented and inside" % len(pieces), bad[1] if bad else loc),
            (True if ch.zero() else None, "cover", "boundary = subdivided boundary" if ch.zero() else "difference %s" % ch, loc),
            (True if (tot - n * n).is_zero() else None, "count", "%s pieces" % tot, loc)]

def lattice_defect(tris, v):
    """tris: [((s,t)x3, ev)] for v segments"""
    cnt = {}
    for t, e in tris:
        (a, b, q) = t
        det = (b[0] - a[0]) * (q[1] - a[1]) - (b[1] - a[1]) * (q[0] - a[0])
        if det <= 0: return "with %d segments the piece with lattice corners %s is %s" % (v, t, "flipped" if det < 0 else "degenerate"), e
        for s, u in t:
            if s < 0 or u < 0 or s + u > v: return "with %d segments the piece %s leaves the triangle" % (v, t), e
        for j in range(3): cnt.setdefault((t[j], t[(j + 1) % 3]), []).append(e)
    for (p, q), es in cnt.items():
        if len(es) > 1: return "with %d segments the edge %s -> %s is used twice" % (v, p, q), es[1]
        on = (p[0] == q[0] == 0) or (p[1] == q[1] == 0) or (p[0] + p[1] == q[0] + q[1] == v)
        if not on and (q, p) not in cnt: return "with %d segments the inner edge %s -> %s has no partner (crack)" % (v, p, q), es[0]
    if len(tris) != v * v: return "with %d segments there are %d pieces, not %d" % (v, len(tris), v * v), tris[0][1] if tris else None
    return None

def probe(c, evs, witness, symbolic, loc):
    """small numbers of segments, then the symbolic argument, then the numbers the summary compares with"""
    w = witness((1, 2, 3, 4))
    if w: c.refuted("cover", w[0], w[1] or loc); return
    try: found = symbolic()
    except Und as e: found = [(None, "cover", str(e), loc)]
    if any(x[0] is not True for x in found):
        w = witness(sorted({5, 6, 7, 8, 9, 12} | {x for x in probe_sizes(evs, cap=24) if x > 4}))
        if w: c.refuted("cover", w[0], w[1] or loc); return
    for x in found: c.decide(x[0], x[1], x[2], x[3] or loc)

def tess(c):
    L = Lab(c); L.mm.record_pos = True
    f = L.find("MeshTessellate::compute(Mesh const&, int, Mesh&)")
    src = L.mesh("in"); dst = L.mesh("out"); n = L.int_("n")
    o = L.out("this"); L.call("MeshTessellate::MeshTessellate()", o)
    r = L.run(f, o, src, n, dst)
    ki, ko = L.kernel(src), L.kernel(dst)
    fam = list(mesh_events(r.ev, "add_triangle", ko))
    if not fam: c.refuted("cover", "no triangle is added", f); return
    TL = TriLoop(L, r, ki)
    raw = []
    for e, fors in fam:
        lp, inner = TL.split(fors)
        if lp is None: raise Und("triangles are added outside a loop over the triangles")
        TL.coverage(c, "each live triangle", e, fors, lp, r, lambda e: e.kind == "mesh" and e.name == "add_triangle" and e.args[0] == ko, {atom_of(n): 2})
        ps = e.x.get("pos")
        if ps is None or any(p is None for p in ps): raise Und("positions unknown")
        def here(v):
            for F in fors: v = assume_trip(v, F.k, F.trip)
            return restrict(v, TL.live(lp[1]))
        ps = [[here(x) for x in p] for p in ps]
        raw.append((e, Ev(e.kind, e.name, e.args, TL.inner_guard(e, lp), e.loc), inner, ps, TL.corners(lp)))
    def witness(sizes):
        """the pieces of the triangle (0,0,0), (1,0,0), (0,1,0)"""
        for v in sizes:
            tris = []
            try:
                for e, e2, inner, ps, cor in raw:
                    env = {atom_of(n): v}
                    for i, p in enumerate(cor):
                        for j in range(3): env[atom_of(p[j])] = 1 if (i, j) in ((1, 0), (2, 1)) else 0
                    def emit(x, en): tris.append((tuple((Fraction(num_eval(p[0], en)) * v, Fraction(num_eval(p[1], en)) * v) for p in ps), e))
                    nest(inner, e2, env, emit)
            except Definite as x: return "with %d segments: %s" % (v, x), f
            except NoValue as x:
                if c.debug: print("NoValue", v, x)
                return None
            w = lattice_defect(tris, v)
            if w: return w
    def symbolic():
        out = []; pieces = []; aff = True; where = f; whyaff = ""
        for e, e2, inner, ps, (a, b, q) in raw:
            keys = []
            for p in ps:
                if not is_poly(*p): raise Und("conditional position")
                s = p[0].coeffs_in(atom_of(b[0])).get(1, ZERO); t = p[0].coeffs_in(atom_of(q[0])).get(1, ZERO)
                ok, why = compare(p, [a[i] + s * (b[i] - a[i]) + t * (q[i] - a[i]) for i in range(3)])
                if ok is not True: aff = ok; where = e; whyaff = why
                keys.append((s * n, t * n))
            for d, op, vs in normalise_event(e2, inner, [x for k in keys for x in k]):
                pieces.append((d, ((vs[0], vs[1]), (vs[2], vs[3]), (vs[4], vs[5])), e))
        out.append((aff, "affine", "every corner is an affine combination of the triangle's corners" if aff else whyaff, where))
        return out + cover(n, pieces, f)
    probe(c, r.ev, witness, symbolic, f)
    c.functions.update(x.dn for x in L.visited())

def patch(c):
    f = c.m.find("QuadBezierTriangle::add_to_mesh(Mesh&, int) const")
    L = Lab(c); n = L.int_("n"); pts = [L.point("P%d" % i, [ONE if i == j else ZERO for j in range(3)]) for i in range(3)]
    q = make(L, pts); m = L.mesh("m"); L.kernel(m)
    r = L.run(f, q, m, n); k = L.kernel(m)
    c.functions.update(x.dn for x in L.visited())
    base = {i: 1 for i in free_atoms(*[x for e, _ in mesh_events(r.ev, "add_triangle", k) for x in e.args[1:4]])}
    def witness(sizes):
        """vertex index -> lattice point"""
        for v in sizes:
            at = {}; tris = []
            env = dict(base); env[atom_of(n)] = v; env[atom_of(A("nv", "m", ints=True))] = 5
            def emit(e, en):
                if e.kind != "mesh" or e.args[0] != k: return
                if e.name == "add_vertex":
                    p = [num_eval(x, en) for x in e.args[1]]; at[num_eval(e.ret, en)] = (Fraction(p[0] * v), Fraction(p[1] * v))
                elif e.name == "add_triangle": tris.append(([num_eval(x, en) for x in e.args[1:4]], e))
            try: num_events(r.ev, env, emit)
            except Definite as x: return "with %d segments: %s" % (v, x), f
            except NoValue as x:
                if c.debug: print("NoValue", v, x)
                return None
            bad = [i for ix, e in tris for i in ix if i not in at]
            if bad: return "with %d segments vertex %s is used but was not added" % (v, bad[0] - 5), f
            w = lattice_defect([(tuple(at[i] for i in ix), e) for ix, e in tris], v)
            if w: return w
    probe(c, r.ev, witness, lambda: patch_symbolic(c, r, k, n, f), f)

def patch_symbolic(c, r, k, n, f):
    vf = vertex_families(r.ev, k)
    if len(vf) != 1: raise Und("%d families of vertices" % len(vf))
    d0, op0, co, ve = vf[0]
    ids = [a for a, _, _ in d0.loops]
    S0, T0 = co[0] * n, co[1] * n
    cases = normalise_event(ve, [x for e, x in mesh_events(r.ev, "add_vertex", k)][0], [ve.ret])
    R = cases[0][2][0]
    if not (is_poly(S0, T0, R)) or S0 != P(atom_by_id(ids[0])) or T0 != P(atom_by_id(ids[1])): raise Und("vertices are not enumerated by the two loops directly")
    def lattice_of(E, dom):
        for a, lo, hi in dom.loops:
            x = P(atom_by_id(a))
            for base in (x, n - x):
                for dlt in (0, 1, -1, 2, -2):
                    S = base + dlt
                    T = E - Subst({ids[0]: S, ids[1]: ZERO}).any(R)
                    if is_int_poly(T) and all(sum(ex for _, ex in mm) <= 1 for mm in T.t) and dom.le(ZERO, S) and dom.le(ZERO, T) and dom.le(S + T, n): return S, T
        raise Und("vertex index %s" % E)
    pieces = []
    for e, fors in mesh_events(r.ev, "add_triangle", k):
        for d, op, vs in normalise_event(e, fors, e.args[1:4]):
            pieces.append((d, tuple(lattice_of(x, d) for x in vs), e))
    c.count("triangle families", len(pieces))
    return cover(n, pieces, f)

def smooth(c):
    """a smooth mesh meshes every patch once, into the mesh and with the number of segments given"""
    PD = "QuadBezierTriangle::add_to_mesh(Mesh&, int) const"; f = c.m.find("SmoothMesh::add_to_mesh(Mesh&, int) const", False)
    if f is None or PD not in c.m.bydn: return
    def patch_call(it, call):
        a = call.args
        if len(a) != 3 or not isinstance(a[1], Ptr) or isinstance(a[2], Ptr): return NotImplemented
        it.emit("patch", "add_to_mesh", tuple(a)); return None
    L = Lab(c, {PD: patch_call, "<virtual>": patch_call}); n = L.int_("n"); s = L.out("s"); m = L.mesh("m"); k = L.kernel(m)
    vec = [x for x in leaves_of(L.m, "SmoothMesh", s.obj, 0) if x[1] == "vec" and x[4] == "QuadBezierTriangle"]
    if len(vec) != 1: raise Und("members of SmoothMesh")
    size = A("vs", s.obj, P(vec[0][3]), ints=True); sz = L.m.sizeof("QuadBezierTriangle"); obj = ("E", s.obj, vec[0][3])
    r = L.run(f, s, m, n); c.functions.update(x.dn for x in L.visited())
    ev = [(e, F) for e, F in walk(r.ev) if isinstance(e, Ev) and (e.kind in ("patch", "vcall") or e.kind == "mesh" and e.args[0] == k and e.name in ("clear", "set_vertex", "unlink", "add_triangle"))]
    if any(e.kind != "patch" for e, F in ev): c.unknown("each patch", "other effects: %s" % {e.name for e, F in ev}, f); return
    bad = [e for e, F in ev if not (isinstance(e.args[0], Ptr) and all(isinstance(q, Ptr) and q.obj == m.obj for q in leaves(e.args[1])))]
    if bad: c.unknown("each patch", "call %s" % (bad[0].args,), bad[0]); return
    if not ev: c.refuted("each patch", "no patch is meshed", f); return
    for v in [0, 1, 2, 3, 6] + [x for x in probe_sizes(r.ev) if x > 6]:
        for seg in (2, 5, 40):
            got = []
            def emit(e, en):
                if e.kind == "patch": got.append((num_eval(e.args[0].off, en) / sz, num_eval(e.args[2], en), e))
            try: num_events(r.ev, {atom_of(size): v, atom_of(n): seg}, emit)
            except NoValue as x:
                if c.debug: print("NoValue", x)
                continue
            for i in range(v):
                if sum(g[0] == i for g in got) != 1: c.refuted("each patch", "of %d patches, patch %d is meshed %d times" % (v, i, sum(g[0] == i for g in got)), f); return
            if len(got) > v: c.refuted("each patch", "%d patches are meshed for a list of %d" % (len(got), v), got[-1][2]); return
            for g in got:
                if g[1] != seg: c.refuted("segments", "patch %d of %d is meshed with %s segments, not %d" % (g[0], v, g[1], seg), g[2]); return
    e, F = ev[0]
    ok = len(ev) == 1 and len(F) == 1 and F[0].exact and F[0].guard == ONE and F[0].trip == size and trip_free(e.guard, F) == ONE and (e.args[0].off - F[0].k.scale(sz)).is_zero() and e.args[2] == n
    c.decide(True if ok else None, "each patch", "once each, patches 0 to %s" % (F[0].trip if F else "?"), e)
