"""C06: generated cylinders, spheres and tori are closed for every number of segments (parametric 1-chains)."""
from common import *

SHAPES = [("create_cylinder", "MeshFactory::create_cylinder(double, double, int, Mesh&)", 2),
          ("create_sphere_uv", "MeshFactory::create_sphere_uv(double, int, Mesh&)", 2),
          ("create_torus", "MeshFactory::create_torus(double, double, int, Mesh&)", 0)]

def run(c):
    c.rule("range", "for every loop iteration each vertex index of an added triangle lies in [0, number of vertices)")
    c.rule("distinct", "for every loop iteration the three indices of an added triangle differ pairwise")
    c.rule("chain", "the formal sum of the oriented boundaries of all triangle families is zero in the free abelian group on directed edges, for every number of segments")
    c.rule("count", "the number of triangles, as a polynomial in the number of segments, is 2(V - euler characteristic), so no edge pair is doubled")
    c.assume("number of segments >= 1", "integers do not overflow")
    for name, dn, chi in SHAPES:
        with c.group("MeshFactory::" + name): shape(c, name, dn, chi)

def shape(c, name, dn, chi):
    L = Lab(c); f = L.find(dn)
    n = L.int_("n"); args = []
    for i, a in enumerate(f.args[:-1]): args.append(n + 1 if a["t"].startswith("i") else L.real("size%d" % i))
    m = L.mesh("m"); args.append(m)
    r = L.run(f, *args); k = L.kernel(m)
    c.functions.update(x.dn for x in L.visited())
    nv = L.nv(m)
    kinds = {e.name for e, _ in walk(r.ev) if isinstance(e, Ev) and e.kind == "mesh" and e.args[0] == k}
    if kinds & {"unlink"}: raise Und("triangles are removed while building")
    def witness(sizes):
        """read off the summary for one number of segments"""
        for v in sizes:
            env = {atom_of(n): v - 1}
            try:
                ts = numeric_tris(r.ev, env, k); NV = int(num_eval(nv, env))
            except NoValue as e:
                if c.debug: print("NoValue", v, e)
                return None
            for t, e in ts:
                b = [x for x in t if not 0 <= x < NV]
                if b: return ("range", "with %d segments triangle %s uses vertex %d of %d" % (v, t, b[0], NV), e)
                if len(set(t)) < 3: return ("distinct", "with %d segments triangle %s uses a vertex twice" % (v, t), e)
            d = edge_defect(ts) if ts else ("no triangle", f)
            if d: return ("chain", "with %d segments: %s" % (v, d[0]), d[1])
    wit = witness((1, 2, 3, 5))
    if wit:
        c.refuted(*wit); return
    try: found = symbolic(c, r, k, nv, chi)
    except Und as e: found = [(None, "chain", str(e), f)]
    if any(x[0] is not True for x in found):
        wit = witness(x for x in probe_sizes(r.ev) if x not in (1, 2, 3, 5))
        if wit: c.refuted(*wit); return
    for x in found: c.decide(x[0], x[1], x[2], x[3] or f)

def symbolic(c, r, k, nv, chi):
    fams = tri_families(r.ev, k)
    c.count("triangle families", len(fams))
    ch = Chain(); F = ZERO; used = 0
    bad = {"range": None, "distinct": None}
    for d, op, vs, e in fams:
        for x in vs:
            if not isinstance(x, Poly) or not d.le(ZERO, x) or not d.lt(x, nv): bad["range"] = ("index %s in [0,%s)" % (x, nv), e)
        for a, b in ((0, 1), (1, 2), (0, 2)):
            s = d.sign(vs[a] - vs[b])
            if s not in (">0", "<0"): bad["distinct"] = ("%s and %s" % (vs[a], vs[b]), e)
        ch.tri(*[(v,) for v in vs], d)
        F = F + count_family(d)
    out = [(True if b is None else None, key, "not shown: %s" % b[0] if b else "%d families" % len(fams), b[1] if b else None) for key, b in bad.items()]
    out.append((True if ch.zero() else None, "chain", "sum of boundaries is zero" if ch.zero() else "does not cancel: %s" % ch, None))
    out.append((True if F == (nv - chi).scale(2) else None, "count", "F = %s, V = %s" % (F, nv), None))
    return out
