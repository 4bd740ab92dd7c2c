"""C19: curved patches - Bernstein polynomials, rational patch formula, PN control points, lattice of a patch mesh."""
from common import *
from ident import *
from c16 import dot, cross, unit_nf, unit_rel
from c18 import sub, add, mul, N

def run(c):
    c.rule("bernstein", "B(i,n) equals binomial(n,i) u^i (1-u)^(n-i) as a polynomial; each degree sums to one")
    c.rule("patch", "eval(s,u,v) with s+u+v=1 equals sum(w_i P_i b_i)/sum(w_i b_i) with the quadratic triangle basis, as a rational function")
    c.rule("corners", "eval at the corners gives the corner points")
    c.rule("flat", "a patch whose control points are the edge midpoints evaluates to s P1 + u P2 + v P3")
    c.rule("tangent", "edge control points of the cubic patch: (c - P).n = 0 for a unit normal, and c = (2P+Q)/3, centre = (P1+P2+P3)/3 for normals perpendicular to the edges")
    c.rule("lattice", "the vertices added for n segments are the images of exactly the points (i/n, j/n, 1-(i+j)/n): affine unimodular index map, all weights >= 0, (n+1)(n+2)/2 of them")
    c.assume("real arithmetic", "weights sum to a non-zero denominator", "number of segments >= 1")
    with c.group("Bernstein"): bern(c)
    with c.group("QuadBezierTriangle::eval"): patch(c)
    with c.group("QuadBezierTriangle::add_to_mesh"): lattice(c)
    with c.group("CubicBezierTriangles"): cubic(c)

def bern(c):
    L = Lab(c); u = L.real("u"); 
    for n in (1, 2, 3):
        s = ZERO
        for i in range(n + 1):
            f = L.find("BezierUtil::Bernstein%d%d(double)" % (i, n)); v = L.call(f, u)
            same(c, "B%d%d" % (i, n), v, (u ** i * (ONE - u) ** (n - i)).scale(math.comb(n, i)), f)
            s = s + v if is_poly(v) else s
        same(c, "sum%d" % n, s, ONE, f)
    f = L.find("BezierUtil::square(double)"); same(c, "square", L.call(f, u), u * u, f)
    f = L.find("BezierUtil::cubic(double)"); same(c, "cubic", L.call(f, u), u * u * u, f)

def make(L, pts, ctl=None, w=None):
    q = L.new("QuadBezierTriangle", "q")
    L.call("QuadBezierTriangle::set_points(Point3 const&, Point3 const&, Point3 const&)", q, *pts)
    if ctl: L.call("QuadBezierTriangle::set_control_points(Point3 const&, Point3 const&, Point3 const&)", q, *ctl)
    if w: L.call("QuadBezierTriangle::set_weights(double, double, double, double, double, double)", q, *w)
    return q
EVAL = "QuadBezierTriangle::eval(double, double, double) const"

def formula(Pt, Ct, W, s, u, v):
    b = [s * s, u * u, v * v, (s * u).scale(2), (s * v).scale(2), (u * v).scale(2)]
    den = sum((x * y for x, y in zip(W, b)), ZERO)
    return [div(sum((w * k * q[i] for w, k, q in zip(W, b, Pt + Ct)), ZERO), den) for i in range(3)]

def patch(c):
    L = Lab(c)
    pts = [L.point("P%d" % i) for i in (1, 2, 3)]; ctl = [L.point("C" + n) for n in ("12", "13", "23")]
    W = [L.real("w" + n) for n in ("1", "2", "3", "12", "13", "23")]
    Pt = [L.coords(p) for p in pts]; Ct = [L.coords(p) for p in ctl]
    q = make(L, pts, ctl, W); f = L.find(EVAL)
    s, u = L.real("s"), L.real("u")
    o = L.out("o"); L.call(f, o, q, s, u, ONE - s - u); want = formula(Pt, Ct, W, s, u, ONE - s - u)
    same(c, "rational sum", L.coords(o), want, f)
    o = L.out("o1"); L.call(f, o, q, s, u, num(-1)); same(c, "third weight computed", L.coords(o), want, f)
    for i, co in enumerate(((1, 0, 0), (0, 1, 0), (0, 0, 1))):
        o = L.out("c%d" % i); L.call(f, o, q, *map(num, co)); same(c, "corner %d" % (i + 1), L.coords(o), Pt[i], f, domain=lambda e, i=i: e.get(atom_of(W[i]), 1) != 0)
    # default weights are one, default control points the midpoints
    L = Lab(c); pts = [L.point("P%d" % i) for i in (1, 2, 3)]; ctl = [L.point("C" + n) for n in ("12", "13", "23")]
    q = make(L, pts, ctl); o = L.out("o"); L.call(EVAL, o, q, s, u, ONE - s - u)
    same(c, "unit weights", L.coords(o), formula(Pt, Ct, [ONE] * 6, s, u, ONE - s - u), f)
    L = Lab(c); pts = [L.point("P%d" % i) for i in (1, 2, 3)]
    q = make(L, pts); o = L.out("o"); L.call(EVAL, o, q, s, u, num(-1))
    same(c, "flat", L.coords(o), [s * Pt[0][i] + u * Pt[1][i] + (ONE - s - u) * Pt[2][i] for i in range(3)], f)
    # set_points on a used patch
    L = Lab(c); pts = [L.point("P%d" % i) for i in (1, 2, 3)]; ctl = [L.point("C" + n) for n in ("12", "13", "23")]
    q = make(L, pts, ctl); g = L.find("QuadBezierTriangle::set_points(Point3 const&, Point3 const&, Point3 const&)"); L.call(g, q, *pts)
    o = L.out("o"); L.call(EVAL, o, q, s, u, num(-1))
    same(c, "flat again", L.coords(o), [s * Pt[0][i] + u * Pt[1][i] + (ONE - s - u) * Pt[2][i] for i in range(3)], g)

def vertex_families(evs, k):
    r = []
    for e, fors in mesh_events(evs, "add_vertex", k):
        for d, op, co in normalise_event(e, fors, e.args[1]): r.append((d, op, co, e))
    return r

def lattice(c):
    f = c.m.find("QuadBezierTriangle::add_to_mesh(Mesh&, int) const")
    # flat unit triangle: the coordinates of an added vertex are its barycentric weights
    L = Lab(c); n = L.int_("n"); pts = [L.point("P%d" % i, [ONE if i == j else ZERO for j in range(3)]) for i in range(3)]
    q = make(L, pts); m = L.mesh("m"); L.kernel(m)
    r = L.run(f, q, m, n); k = L.kernel(m)
    fams = vertex_families(r.ev, k)
    tot = ZERO; ok = True; why = ""; wit = None
    for d, op, co, e in fams:
        if op: raise Und("conditional vertices")
        tot = tot + count_family(d)
        w = [norm_lin(x * n) for x in co]
        for x, nm in zip(w, "suv"):
            if not is_int_poly(x) or not d.le(ZERO, x): ok = None; why = "weight %s = %s/n" % (nm, x)
        if not (w[0] + w[1] + w[2] - n).is_zero(): ok = None; why = "weights sum to (%s)/n" % (w[0] + w[1] + w[2])
        ids = [a for a, _, _ in d.loops]
        M = [[(x.coeffs_in(a).get(1, ZERO)) for a in ids] for x in w[:2]]
        if len(ids) != 2 or any(not y.is_const() for row in M for y in row) or abs((M[0][0] * M[1][1] - M[0][1] * M[1][0]).const()) != 1: ok = None; why = "index map of %s" % (w,)
    for v in (1, 2, 3, 4):
        pt = []
        try: num_events(r.ev, {atom_of(n): v}, lambda e, en: pt.append((tuple(num_eval(x, en) for x in e.args[1]), e)) if e.kind == "mesh" and e.name == "add_vertex" else None)
        except NoValue: break
        got = sorted(tuple(round(float(x * v), 6) for x in p) for p, e in pt)
        want = sorted((float(i), float(j), float(v - i - j)) for i in range(v + 1) for j in range(v + 1 - i))
        if got != want:
            d = [x for x in got if x not in want] or [x for x in want if x not in got] or ["a repeated point"]
            wit = "with %d segments the points at %s/%d differ from the regular lattice" % (v, d[0], v); break
    if wit: c.refuted("lattice", wit, f)
    elif not (len(fams) == 1 and ok): c.unknown("lattice", why or "%d families of vertices" % len(fams), f)
    else: c.decide(True if (tot.scale(2) - (n + 1) * (n + 2)).is_zero() else None, "lattice", "%s points" % tot, f)
    # every vertex is the patch evaluated at its weights
    L = Lab(c); pts = [L.point("P%d" % i) for i in (1, 2, 3)]; ctl = [L.point("C" + x) for x in ("12", "13", "23")]
    W = [L.real("w" + x) for x in ("1", "2", "3", "12", "13", "23")]
    Pt = [L.coords(p) for p in pts]; Ct = [L.coords(p) for p in ctl]
    q = make(L, pts, ctl, W); m = L.mesh("m"); r2 = L.run(f, q, m, n); k2 = L.kernel(m)
    f2 = vertex_families(r2.ev, k2)
    if len(f2) != len(fams): raise Und("families differ")
    for (d, op, co, e), (d2, op2, co2, e2) in zip(fams, f2):
        ren = {a2: P(atom_by_id(a)) for (a, _, _), (a2, _, _) in zip(d.loops, d2.loops)}
        g = [Subst(ren).any(x) for x in co2]
        same(c, "evaluated", g, formula(Pt, Ct, W, *co), e2)

def norm_lin(p): return clear_denoms(p) if any(e < 0 for m in p.t for _, e in m) else p

def cubic(c):
    L = Lab(c); T = "CubicBezierTriangles"
    pts = [L.point("P%d" % i) for i in (1, 2, 3)]; nr = [L.point("n%d" % i) for i in (1, 2, 3)]
    Pt = [L.coords(p) for p in pts]; Nr = [L.coords(p) for p in nr]
    o = L.obj("cb"); L.it.setmem(L.st, o.obj, Mem("init", None, o.obj))
    names = ["P1P2", "P2P1", "P1P3", "P3P1", "P2P3", "P3P2", "center"]
    SP = "CubicBezierTriangles::set_points(Point3 const&, Point3 const&, Point3 const&)"
    SC = "CubicBezierTriangles::set_control_points(%s)" % ", ".join(["Point3 const&"] * 6)
    SM = "CubicBezierTriangles::set_control_center(Point3 const&)"
    sz = L.m.types[T]["sz"]
    marks = [L.point("m%d" % i) for i in range(7)]
    L.call(SC, o, *marks[:6]); L.call(SM, o, marks[6])
    off = []
    for p in marks:
        w = L.coords(p); hit = [x for x in range(0, sz, 8) if [L.load(Ptr(o.obj, P(x + d)), 8, "double") for d in L.mm.pt] == w]
        if len(hit) != 1: raise Und("control point not stored once")
        off.append(hit[0])
    L.call(SP, o, *pts)
    f = L.find("CubicBezierTriangles::set_normals(Point3 const&, Point3 const&, Point3 const&)"); L.call(f, o, *nr)
    C = {n: [L.load(Ptr(o.obj, P(x + d)), 8, "double") for d in L.mm.pt] for n, x in zip(names, off)}
    for n in names[:6]:
        i, j = int(n[1]) - 1, int(n[3]) - 1
        ids = [atom_of(x) for x in Nr[i]]
        same(c, n + " in tangent plane", dot(sub(C[n], Pt[i]), Nr[i]), ZERO, f, nf=unit_nf(ids), rel=unit_rel(ids))
        # (Pj-Pi) - 3(c-Pi) is a multiple of the normal, and the normal is the only direction used
        r = sub(sub(Pt[j], Pt[i]), mul(sub(C[n], Pt[i]), num(3)))
        same(c, n + " third of the edge", cross(r, Nr[i]), [ZERO] * 3, f)
    # flat case: normals perpendicular to the edges (all points in z=0, normals along z)
    m = {}
    for q in Pt: m[atom_of(q[2])] = ZERO
    for q in Nr: m[atom_of(q[0])] = ZERO; m[atom_of(q[1])] = ZERO
    S = Subst(m); z = [S.any(x) for q in Pt for x in q]
    P0 = [z[0:3], z[3:6], z[6:9]]
    for n in names[:6]:
        i, j = int(n[1]) - 1, int(n[3]) - 1
        same(c, n + " flat", [S.any(x) for x in C[n]], [(P0[i][k].scale(2) + P0[j][k]).scale(Fraction(1, 3)) for k in range(3)], f)
    same(c, "centre flat", [S.any(x) for x in C["center"]], [(P0[0][k] + P0[1][k] + P0[2][k]).scale(Fraction(1, 3)) for k in range(3)], f)
    E = [sum((C[n][k] for n in names[:6]), ZERO).scale(Fraction(1, 6)) for k in range(3)]; V = [(Pt[0][k] + Pt[1][k] + Pt[2][k]).scale(Fraction(1, 3)) for k in range(3)]
    same(c, "centre", C["center"], [E[k].scale(Fraction(3, 2)) - V[k].scale(Fraction(1, 2)) for k in range(3)], f)
