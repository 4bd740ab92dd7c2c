"""C18: vector, triangle, plane and box formulas - polynomial identities and finite order/sign tables."""
import itertools
from common import *
from ident import *
from c16 import cross, dot, unit_nf, unit_rel

D8 = 8
def N(p): return sum((x * x for x in p), ZERO)
def sub(a, b): return [x - y for x, y in zip(a, b)]
def add(a, b): return [x + y for x, y in zip(a, b)]
def mul(a, k): return [x * k for x in a]

def run(c):
    c.rule("identity", "the result of the operation, as a rational function of all coordinates, equals its definition (exact normal form; square roots cancel formally)")
    c.rule("aliasing", "the operation gives the same result when an argument is the object itself")
    c.rule("sign table", "a predicate of the geometry depends on the coordinates only through the signs of named expressions; its decision diagram is compared with the definition on every sign vector")
    c.rule("order table", "a box operation depends only on comparisons of coordinates along one axis; compared with min/max/overlap on every weak ordering")
    c.assume("real arithmetic", "degenerate inputs (zero length, zero area) excluded where the definition divides by them")
    with c.group("Point3"): point3(c)
    with c.group("Segment3"): segment(c)
    with c.group("Triangle3"): triangle(c)
    with c.group("Triangle3::contains"): contains(c)
    with c.group("Plane3"): plane(c)
    with c.group("Plane3::intersect_with(Segment3)"): plane_seg(c)
    with c.group("Triangle3::cutted_by"): cut(c)
    with c.group("BoundingBox3"): box(c)

def point3(c):
    def op2(dn, want, ret=True, inplace=False, second="p"):
        L = Lab(c); f = L.find(dn)
        a = L.point("a"); A0 = L.coords(a)
        if second == "p": b = L.point("b"); B0 = L.coords(b); arg = b
        else: arg = L.real("k"); B0 = arg
        if inplace:
            r = L.call(f, a, arg)
            same(c, dn, L.coords(a), want(A0, B0), f, domain=nz(B0, second, dn))
            c.decide(True if r == a else False if isinstance(r, Ptr) and r.obj[0] != "D" else None, dn + " returns", "returns the object itself", f)
            if second == "p":
                same(c, dn + " argument", L.coords(b), B0, f)
                L2 = Lab(c); a2 = L2.point("a"); z = L2.coords(a2); L2.call(f, a2, a2)
                same(c, dn + " self", L2.coords(a2), want(z, z), f)
        elif ret == "p":
            o = L.out("o"); L.call(f, o, a, arg); same(c, dn, L.coords(o), want(A0, B0), f, domain=nz(B0, second, dn))
        else:
            v = L.call(f, a, arg); same(c, dn, v, want(A0, B0), f)
    def nz(B0, second, dn):
        if second == "p" or "/" not in dn: return None
        i = atom_of(B0); return lambda env: env.get(i, 1) != 0
    op2("Point3::operator+=(Point3 const&)", add, inplace=True)
    op2("Point3::operator-=(Point3 const&)", sub, inplace=True)
    op2("Point3::operator*=(double)", mul, inplace=True, second="k")
    op2("Point3::operator/=(double)", lambda a, k: [div(x, k) for x in a], inplace=True, second="k")
    op2("Point3::operator+(Point3 const&) const", add, ret="p")
    op2("Point3::operator-(Point3 const&) const", sub, ret="p")
    op2("Point3::operator*(double) const", mul, ret="p", second="k")
    op2("Point3::operator/(double) const", lambda a, k: [div(x, k) for x in a], ret="p", second="k")
    op2("Point3::cross_product(Point3 const&) const", cross, ret="p")
    op2("Point3::dot_product(Point3 const&) const", dot)
    op2("Point3::distance_square(Point3 const&) const", lambda a, b: N(sub(a, b)))
    L = Lab(c); a = L.point("a"); A0 = L.coords(a)
    f = L.find("Point3::norm() const"); same(c, f.dn, L.call(f, a), sqrt(N(A0)), f)
    f = L.find("Point3::norm_square() const"); same(c, f.dn, L.call(f, a), N(A0), f)
    want = [x * inv(sqrt(N(A0))) for x in A0]
    ids = [atom_of(x) for x in A0]; nzd = lambda env: any(env.get(i, 1) != 0 for i in ids)
    f = L.find("Point3::normalized() const"); o = L.out("o"); L.call(f, o, a); same(c, f.dn, L.coords(o), want, f, domain=nzd)
    same(c, "normalized keeps", L.coords(a), A0, f)
    f = L.find("Point3::normalize()"); L.call(f, a); same(c, f.dn, L.coords(a), want, f, domain=nzd)
    L = Lab(c); o = L.obj("o"); k = [L.real("c%d" % i) for i in range(3)]
    f = L.find("Point3::Point3(double, double, double)"); L.call(f, o, *k); same(c, f.dn, L.coords(o), k, f)
    for i, n in enumerate("xyz"):
        for cv in ("", " const"):
            f = L.find("Point3::%s()%s" % (n, cv)); p = L.call(f, o)
            same(c, f.dn, L.load(p, 8, "double"), k[i], f)
    L = Lab(c); o = L.obj("o"); f = L.find("Point3::Point3()"); L.call(f, o); same(c, f.dn, L.coords(o), [ZERO] * 3, f)

def seg(L, name, p=None, q=None):
    p = p or L.point(name + ".p1"); q = q or L.point(name + ".p2")
    return L.new("Segment3", name, "Segment3::Segment3(Point3 const&, Point3 const&)", p, q), L.coords(p), L.coords(q)
def tri(L, name, pts=None):
    pts = pts or [L.point("%s.p%d" % (name, i)) for i in (1, 2, 3)]
    return L.new("Triangle3", name, "Triangle3::Triangle3(Point3 const&, Point3 const&, Point3 const&)", *pts), [L.coords(p) for p in pts]
def fld(L, o, dn):
    p = L.call(dn, o); return L.coords(p)

def segment(c):
    L = Lab(c); s, p, q = seg(L, "s")
    for T, o in (("Segment3", s),):
        for i, w in ((1, p), (2, q)): f = L.find("%s::p%d() const" % (T, i)); same(c, f.dn, fld(L, o, f), w, f)
        r = L.point("r")
        for i in (1, 2): f = L.find("%s::set_p%d(Point3 const&)" % (T, i)); L.call(f, o, r); same(c, f.dn, fld(L, o, "%s::p%d() const" % (T, i)), L.coords(r), f)
    s, p, q = seg(L, "s2")
    f = L.find("Segment3::norm_square() const"); same(c, f.dn, L.call(f, s), N(sub(p, q)), f)
    f = L.find("Segment3::norm() const"); same(c, f.dn, L.call(f, s), sqrt(N(sub(p, q))), f)

def triangle(c):
    L = Lab(c); t, P3 = tri(L, "t")
    for i in (1, 2, 3): f = L.find("Triangle3::p%d() const" % i); same(c, f.dn, fld(L, t, f), P3[i - 1], f)
    n = cross(sub(P3[1], P3[0]), sub(P3[2], P3[0]))
    ids = free_atoms(*n)
    def nondeg(env): 
        try: return any(num_eval(x, env) != 0 for x in n)
        except NoValue: return False
    f = L.find("Triangle3::orthogonal() const"); o = L.out("o"); L.call(f, o, t); same(c, f.dn, L.coords(o), n, f)
    f = L.find("Triangle3::surface() const"); same(c, f.dn, L.call(f, t), sqrt(N(n)).scale(Fraction(1, 2)), f)
    f = L.find("Triangle3::normal() const"); o2 = L.out("o2"); L.call(f, o2, t)
    same(c, f.dn, L.coords(o2), [x * inv(sqrt(N(n))) for x in n], f, domain=nondeg)
    for i in (1, 2, 3):
        r = L.point("r%d" % i); f = L.find("Triangle3::set_p%d(Point3 const&)" % i); L.call(f, t, r)
        same(c, f.dn, fld(L, t, "Triangle3::p%d() const" % i), L.coords(r), f)

def table(c, key, v, cases, known, loc):
    """compare a boolean diagram with the expected truth on every case (env, expected); known(pred): the predicate only depends on what the cases enumerate"""
    v = to_cond(v) if not (isinstance(v, Node) or v in (ONE, ZERO)) else v
    unk = [str(p) for p in preds_of(v) if p.kind != "gt" or not known(p.poly)] if isinstance(v, Node) else []
    n = 0
    for env, exp, what in cases:
        try: got = num_eval(v, env) != 0
        except NoValue as e: unk.append(str(e)); continue
        n += 1
        if got != exp: return c.refuted(key, "%s: result is %s, expected %s" % (what, got, exp), loc)
    c.decide(None if unk else True, key, "%d cases%s" % (n, ", undecided because of " + unk[0][:100] if unk else ""), loc)

def contains(c):
    L = Lab(c)
    t, T3 = tri(L, "t"); al, be = L.real("al"), L.real("be"); ga = ONE - al - be
    co = [al * T3[0][i] + be * T3[1][i] + ga * T3[2][i] for i in range(3)]
    p = L.point("p", co); f = L.find("Triangle3::contains(Point3 const&) const")
    v = L.call(f, t, p)
    n2 = N(cross(sub(T3[1], T3[0]), sub(T3[2], T3[0])))
    forms = [al, be, ga, al * be, al * ga, be * ga]
    forms = forms + [x * n2 for x in forms]
    fn = set()
    for x in forms:
        for y in (x, -x):
            g = gt0(y, False)
            if isinstance(g, Node): fn.add(pred(g.p).form)
    def known(q):
        g = gt0(q, False)
        return not isinstance(g, Node) or (pred(g.p).form in fn and pred(g.p).thr == 0)
    tp = {atom_of(x): k for x, k in zip([x for q in T3 for x in q], (1, 2, 3, 4, -1, 2, 0, 5, 7))}
    cases = []
    vals = [-2, -1, Fraction(-1, 2), Fraction(-1, 10**7), Fraction(-1, 10**13), 0, Fraction(1, 10**13), Fraction(1, 10**7), Fraction(1, 4), Fraction(1, 2), 1, Fraction(3, 2), 2, 3]
    for x in vals:
        for y in vals:
            e = dict(tp); e[atom_of(al)] = x; e[atom_of(be)] = y
            z = 1 - x - y
            cases.append((e, x >= 0 and y >= 0 and z >= 0, "barycentric coordinates %s, %s, %s" % (x, y, z)))
    table(c, "convex", v, cases, known, f)

def plane(c):
    L = Lab(c); pts = [L.point("p%d" % i) for i in (1, 2, 3)]; T3 = [L.coords(p) for p in pts]
    n = cross(sub(T3[1], T3[0]), sub(T3[2], T3[0]))
    def nondeg(env):
        try: return any(num_eval(x, env) != 0 for x in n)
        except NoValue: return False
    un = [x * inv(sqrt(N(n))) for x in n]
    t, _ = tri(L, "t", pts)
    for i, (dn, args) in enumerate((("Plane3::compute_using(Point3 const&, Point3 const&, Point3 const&)", pts), ("Plane3::compute_using(Triangle3 const&)", [t]),
                     ("Plane3::Plane3(Point3 const&, Point3 const&, Point3 const&)", pts), ("Plane3::Plane3(Triangle3 const&)", [t]))):
        f = L.find(dn); pl = L.obj("pl%d" % i); L.call(f, pl, *args)
        same(c, dn, coef(L, pl, i), un + [-dot(un, T3[0])], f, domain=nondeg)
        for j in range(3):
            same(c, dn + " contains p%d" % (j + 1), L.call("Plane3::distance_to(Point3 const&) const", pl, pts[j]), ZERO, f, domain=nondeg)
    # an arbitrary plane
    L = Lab(c); pl = L.obj("pl"); a = coef(L, pl); p = L.point("p"); q = L.coords(p)
    f = L.find("Plane3::distance_to(Point3 const&) const"); same(c, f.dn, L.call(f, pl, p), dot(a[:3], q) + a[3], f)
    f = L.find("Plane3::normal() const"); o = L.out("o"); L.call(f, o, pl); same(c, f.dn, L.coords(o), a[:3], f)
    ids = [atom_of(x) for x in a[:3]]; nf = unit_nf(ids); rel = unit_rel(ids)
    f = L.find("Plane3::project_point(Point3 const&, Point3&) const"); o = L.out("o2"); L.call(f, pl, p, o)
    g = L.coords(o)
    same(c, "projection on plane", apply(lambda *g: dot(a[:3], list(g)) + a[3], *g), ZERO, f, nf=nf, rel=rel)
    same(c, "projection along normal", [apply(lambda *g: cross(sub(list(g), q), a[:3])[i], *g) for i in range(3)], [ZERO] * 3, f, nf=nf, rel=rel)
    L.call(f, pl, p, p); same(c, "projection in place", L.coords(p), g, f, nf=nf, rel=rel)

def coef(L, pl, tag=""):
    o = L.obj("abcd%s" % tag); ps = [Ptr(o.obj, P(8 * i)) for i in range(4)]
    L.call("Plane3::get(double&, double&, double&, double&) const", pl, *ps)
    return [L.load(p, 8, "double") for p in ps]

def linform(K1, K2):
    """sign tests of K1, K2, K1-K2 and their products and quotients"""
    D, E = K1 - K2, K2 - K1; one = [K1, K2, D, E]
    quo = [div(x, y) for x in one for y in one if x is not y]
    part = [ONE - div(K1, D), ONE + div(K2, D), ONE + div(K1, E), ONE - div(K2, E)]     # K2/(K2-K1) and K1/(K1-K2)
    def norm(x):
        g = gt0(x, False)
        if not isinstance(g, Node): return None
        q = pred(g.p); return q.form, q.thr
    forms = {norm(y) for x in one + [x * y for x in one for y in one] + quo + part for y in (x, -x)}
    def known(q): return norm(q) is None or norm(q) in forms
    return known

def plane_seg(c):
    L = Lab(c); pl = L.obj("pl"); a = coef(L, pl)
    K1, K2 = L.real("k1"), L.real("k2")
    ps = []
    for i, K in ((1, K1), (2, K2)):
        y, z = L.real("y%d" % i), L.real("z%d" % i)
        ps.append(L.point("p%d" % i, [(K - a[1] * y - a[2] * z - a[3]) * inv(a[0]), y, z]))
    s, p, q = seg(L, "s", *ps)
    o = L.point("o"); old = L.coords(o)
    f = L.find("Plane3::intersect_with(Segment3 const&, Point3&) const"); v = L.call(f, pl, s, o); g = L.coords(o)
    base = {atom_of(x): k for x, k in zip(a, (2, 3, -1, 5))}
    for i in (1, 2):
        base[atom_of(L.real("y%d" % i))] = i; base[atom_of(L.real("z%d" % i))] = 3 - i
    cases = []
    half = [Fraction(k, d) for d in (10**13, 10**7, 1000) for k in (1, 3)] + [1, 2, 3, 10**6]
    for x in [-h for h in half] + [0] + half:
        for y in [-h for h in half] + [0] + half:
            e = dict(base); e[atom_of(K1)] = x; e[atom_of(K2)] = y
            cases.append((e, x * y < 0, "end points at signed distances %s and %s" % (x, y)))
    table(c, "separates", v, cases, linform(K1, K2), f)
    # on every branch where an intersection is reported the point is on the plane and on the segment line
    dist = bind2(lambda w, r: r if w == ONE else ZERO, v, apply(lambda x, y, z: dot(a[:3], [x, y, z]) + a[3], *g))
    def dom(env): return True
    same(c, "on plane", dist, ZERO, f)
    t = div(K1, K1 - K2)
    want = [p[i] + t * (q[i] - p[i]) for i in range(3)]
    same(c, "on segment", [bind2(lambda w, r: r if w == ONE else ZERO, v, x) for x in g], [ite(v, w, ZERO) for w in want], f)

def cut(c):
    L = Lab(c); pl = L.obj("pl"); a = coef(L, pl)
    K = [L.real("k%d" % i) for i in (1, 2, 3)]
    ps = []; base = {atom_of(x): k for x, k in zip(a, (2, 3, -1, 5))}
    for i in range(3):
        y, z = L.real("y%d" % i), L.real("z%d" % i); base[atom_of(y)] = i; base[atom_of(z)] = 2 - i
        ps.append(L.point("p%d" % i, [(K[i] - a[1] * y - a[2] * z - a[3]) * inv(a[0]), y, z]))
    t, _ = tri(L, "t", ps)
    f = L.find("Triangle3::cutted_by(Plane3 const&) const"); v = L.call(f, t, pl)
    forms = set()
    for i in range(3):
        forms.add(pred(gt0(K[i], False).p).form)
        for j in range(i): forms.add(pred(gt0(K[i] * K[j], False).p).form)
    def known(q):
        g = gt0(q, False); return not isinstance(g, Node) or (pred(g.p).form in forms and pred(g.p).thr == 0)
    cases = []
    for s in itertools.product((-1, 0, 1), repeat=3):
        for m in ((1, 1, 1), (1, 5, Fraction(1, 10)), (Fraction(1, 10**13), Fraction(3, 10**13), Fraction(1, 10**13)), (Fraction(1, 10**13), 1, 10**6)):
            e = dict(base)
            for i in range(3): e[atom_of(K[i])] = s[i] * m[i]
            cases.append((e, 1 in s and -1 in s, "corner distances of signs %s" % (s,)))
    table(c, "strictly both sides", v, cases, known, f)

def orders(n):
    """representatives of all weak orderings of n values"""
    seen = set()
    for t in itertools.product(range(n), repeat=n):
        r = sorted(set(t)); k = tuple(r.index(x) for x in t)
        if k not in seen: seen.add(k); yield k

def diffs_only(ids):
    def known(q):
        return not q.const() and set(q.atoms()) <= set(ids) and len(q.t) == 2 and sorted(q.t.values()) == [-1, 1] and all(len(m) == 1 and m[0][1] == 1 for m in q.t)
    return known

def box(c):
    add_ = "BoundingBox3::add(Point3 const&)"
    L = Lab(c); f = L.find(add_)
    T = "BoundingBox3"; sz = L.m.types[T]["sz"]
    dbl = [o for n, o, t, _ in L.m.fields(T) if t == "double"]
    pts = [L.point("p%d" % i) for i in range(3)]; C3 = [L.coords(p) for p in pts]
    b = L.new(T, "b")
    for p in pts[:2]: L.call(f, b, p)
    vals2 = {o: L.load(Ptr(b.obj, P(o)), 8, "double") for o in dbl}
    L.call(f, b, pts[2])
    vals = {o: L.load(Ptr(b.obj, P(o)), 8, "double") for o in dbl}
    # the constructor from a triangle must agree
    L2 = Lab(c); p2 = [L2.point("p%d" % i) for i in range(3)]; t, _ = tri(L2, "t", p2)
    b2 = L2.new(T, "b", "BoundingBox3::BoundingBox3(Triangle3 const&)", t)
    g = L2.find("BoundingBox3::BoundingBox3(Triangle3 const&)")
    for o in dbl: same(c, "from triangle", L2.load(Ptr(b2.obj, P(o)), 8, "double"), vals[o], g)
    role = {}
    for ax in range(3):
        ids = [atom_of(C3[i][ax]) for i in range(3)]
        mine = [o for o in dbl if any(i in free_atoms(vals[o]) for i in ids)]
        for want, fn in (("min", min), ("max", max)):
            ok = None; why = "no field"
            for o in mine:
                st, w = order_equal(vals[o], ids, fn)
                if st is True: ok = True; role[(ax, want)] = o; why = "three points, all orderings"; break
                if ok is None: ok = st; why = w
            if ok is False and len(mine) != 2: ok = None
            c.decide(ok, "%s of axis %s" % (want, "xyz"[ax]), why, f)
    if len(role) != 6: return
    # overlap of two boxes in an arbitrary reachable state lo <= hi
    L = Lab(c); f = L.find("BoundingBox3::intersect_with(BoundingBox3 const&) const")
    bs = []; var = {}
    for n in "AB":
        o = L.new(T, "box" + n); p = L.point("q" + n); L.call(add_, o, p)
        for ax in range(3):
            for w in ("min", "max"):
                v = L.real("%s.%s%s" % (n, w, "xyz"[ax])); var[(n, ax, w)] = atom_of(v)
                L.it.store(L.st, Ptr(o.obj, P(role[(ax, w)])), v, 8, ev=False)
        bs.append(o)
    v = L.call(f, *bs)
    one = [k for k in orders(4) if k[0] <= k[1] and k[2] <= k[3]]
    cases = []
    for ks in itertools.product(one, repeat=3):
        e = {}; exp = True
        for ax, k in enumerate(ks):
            for (n, w), x in zip((("A", "min"), ("A", "max"), ("B", "min"), ("B", "max")), k): e[var[(n, ax, w)]] = x
            exp = exp and max(k[0], k[2]) <= min(k[1], k[3])
        cases.append((e, exp, "axis intervals (A,B) %s" % (ks,)))
    c.count("orderings", len(cases))
    table(c, "overlap", v, cases, diffs_only(list(var.values())), f)

def order_equal(v, ids, fn):
    ks = diffs_only(ids)
    if isinstance(v, Node) and any(p.kind != "gt" or not ks(p.poly) for p in preds_of(v)): st = None
    else: st = True
    for l in leaves(v):
        if not (isinstance(l, Poly) and len(l.t) == 1 and set(l.atoms()) <= set(ids)): st = None
    for k in orders(len(ids)):
        e = dict(zip(ids, k))
        try: x = num_eval(v, e)
        except NoValue: return None, "not a comparison of coordinates"
        if x != fn(k): return False, "coordinates in order %s give %s" % (k, x)
    return st, ""
