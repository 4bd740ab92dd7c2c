"""C28: intersection queries of segments and triangles, and what splitting a triangle does with them."""
import itertools, random, re
from common import *
from ident import *
from replay import Replay
from c18 import N, sub, add, mul, cross, dot, seg, tri, coef, fld, table
HIT = "Plane3::intersect_with(Segment3 const&, Point3&) const"
IN = "Triangle3::contains(Point3 const&) const"
TS = "Triangle3::intersect_with(Segment3 const&, Point3&) const"
TT = "Triangle3::intersect_with(Triangle3 const&) const"
CUT = "Triangle3::cutted_by(Plane3 const&) const"
BB = "BoundingBox3::intersect_with(BoundingBox3 const&) const"
SS = "Segment3::intersect(Segment3 const&, Point3&) const"

def run(c):
    c.rule("meet", "for two segments through a common point, given by their parameters of that point, the decision diagram of the query only depends on the position of the parameters relative to 0 and 1 and is true exactly if both lie in [0, 1]; the reported point is the common one (exact identity)")
    c.rule("compose", "the result is, as a Boolean function of the queries it is built from (each with its exact arguments), the one of the definition")
    c.rule("point", "the reported point is the one in which the plane of the triangle cuts the segment")
    c.rule("oracle", "refutation: the decision diagram is evaluated on families of concrete triangles and segments and compared with an exact oracle")
    c.rule("split", "every split that cutting a triangle by another one performs is at a point of the live triangle in which its plane cuts an edge of the other one; the mesh is modified in no other way")
    c.assume("real arithmetic", "segments longer than the code's threshold and not parallel", "triangles in general position (no corner of one in the plane of the other)")
    with c.group("Segment3::intersect"): segments(c)
    with c.group("Triangle3::intersect_with(Segment3)"): tri_seg(c)
    with c.group("Triangle3::intersect_with(Triangle3)"): tri_tri(c)
    with c.group("Mesh::split_triangle"): split(c, "Mesh")

# ------------------------------------------------------------------ two segments
def segments(c):
    L = Lab(c); X = [L.real("X" + k) for k in "xyz"]; U = [L.real("U" + k) for k in "xyz"]; V = [L.real("V" + k) for k in "xyz"]; a, b = L.real("a"), L.real("b")
    def at(t, D): return [x + t * d for x, d in zip(X, D)]
    s, p1, p2 = seg(L, "s", L.point("p1", at(-a, U)), L.point("p2", at(ONE - a, U)))
    t, p3, p4 = seg(L, "t", L.point("p3", at(-b, V)), L.point("p4", at(ONE - b, V)))
    o = L.point("o"); old = L.coords(o); f = L.find(SS); v = L.call(f, s, t, o); g = L.coords(o)
    v = to_cond(v) if not (isinstance(v, Node) or v in (ONE, ZERO)) else v
    ia, ib = atom_of(a), atom_of(b); forms = set()
    ks = [N(U), N(V), N(cross(U, V))]; ks += [ks[0] * ks[1], ks[2] * ks[1], ks[2] * ks[0], ks[2] * ks[2]]
    for x in (a, ONE - a, b, ONE - b):
        for k in [ONE] + ks:
            for y in (x * k, -x * k):
                h = gt0(y, False)
                if isinstance(h, Node): forms.add((pred(h.p).form, pred(h.p).thr))
    def known(q):
        if not set(free_atoms(q)) & {ia, ib}: return True       # length and direction only: excluded by the assumptions
        try: h = gt0(clear_denoms(q), False)
        except Und: return False
        return not isinstance(h, Node) or (pred(h.p).form, pred(h.p).thr) in forms
    vals = [-2, -1, Fraction(-1, 1000), 0, Fraction(1, 1000), Fraction(1, 2), Fraction(999, 1000), 1, Fraction(1001, 1000), 2, 5]
    cases = []
    for du, dv in (((1, 2, 0), (3, -1, 0)), ((1, 0, 4), (0, 2, -1)), ((-2, 1, 3), (5, 1, 1)), ((20, 1, 0), (1, 30, 1)), ((Fraction(1, 10), 0, 0), (0, 0, Fraction(1, 5)))):
        base = {atom_of(x): k for x, k in zip(X, (2, -3, 5))}
        base.update({atom_of(x): k for x, k in zip(U, du)}); base.update({atom_of(x): k for x, k in zip(V, dv)})
        for x in vals:
            for y in vals:
                e = dict(base); e[ia] = x; e[ib] = y
                cases.append((e, 0 <= x <= 1 and 0 <= y <= 1, "segments %s long and %s long that meet at parameters %s and %s" % (du, dv, x, y)))
    table(c, "meet", v, cases, known, f)
    same(c, "meeting point", [bind2(lambda w, r: r if w == ONE else ZERO, v, x) for x in g], [ite(v, x, ZERO) for x in X], f, domain=lambda env: all(any(env.get(atom_of(x), 1) for x in D) for D in (U, V)))

# ------------------------------------------------------------------ triangle and segment
class Queries:
    """opaque answers of the queries a predicate is built from: every call gets a condition of its own, by its arguments"""
    def __init__(s, code=None): s.t = {}; s.L = None; s.code = code
    def ask(s, kind, *key):
        k = (kind,) + key
        if k not in s.t: s.t[k] = to_cond(A("query", len(s.t), kind, ints=True))
        return s.t[k]
    def pts(s, p, T, n):
        """coordinates of the corners of a segment or triangle object"""
        return tuple(tuple(fld(s.L, p, "%s::p%d() const" % (T, i + 1))) for i in range(n))
    def co(s, p): return tuple(s.L.coords(p))
def concrete(q):
    if not isinstance(q, Ptr): raise Und("argument of a query")
    return q
def use_state(Q, call):
    """the accessors are read in the state of the call"""
    L = Q.L; keep = L.st; L.st = call.st
    return keep

def plane_key(a): return tuple(a)
def models(Q, names):
    def inst(fn):
        def h(it, call):
            L = Q.L; keep = L.st; L.st = call.st
            try: return fn(it, call)
            finally: L.st = keep
        return h
    def hit(it, call):
        L = Q.L; pl, sg, out = call.args
        a = tuple(coef(L, concrete(pl), "h%d" % len(Q.t))); k = Q.pts(concrete(sg), "Segment3", 2)
        r = Q.ask("hit", a, k)
        for i, o in enumerate(L.mm.pt): it.store(call.st, bind(lambda q, o=o: Ptr(q.obj, q.off + o), out), ite(r, A("cutpoint", i, *[x for x in a], *[x for p in k for x in p]), it.load(call.st, bind(lambda q, o=o: Ptr(q.obj, q.off + o), out), 8, "double")), 8)
        return r
    def inside(it, call): return Q.ask("in", Q.pts(concrete(call.args[0]), "Triangle3", 3), Q.co(concrete(call.args[1])))
    def cut(it, call): return Q.ask("cut", Q.pts(concrete(call.args[0]), "Triangle3", 3), tuple(coef(Q.L, concrete(call.args[1]), "c%d" % len(Q.t))))
    def boxes(it, call): return Q.ask("box", box_of(Q, call.args[0]), box_of(Q, call.args[1]))
    def triseg(it, call): return Q.ask("cross", Q.pts(concrete(call.args[0]), "Triangle3", 3), Q.pts(concrete(call.args[1]), "Segment3", 2))
    def segs(it, call):
        L = Q.L; k1, k2 = Q.pts(concrete(call.args[0]), "Segment3", 2), Q.pts(concrete(call.args[1]), "Segment3", 2); out = call.args[2]
        r = Q.ask("segs", k1, k2)
        for i, o in enumerate(L.mm.pt): it.store(call.st, bind(lambda q, o=o: Ptr(q.obj, q.off + o), out), A("meetpoint", i, *[x for p in k1 for x in p], *[x for p in k2 for x in p]), 8)
        return r
    allm = {HIT: hit, IN: inside, CUT: cut, BB: boxes, TS: triseg, SS: segs}
    return {n: inst(allm[n]) for n in names}
def box_of(Q, p):
    p = concrete(p); m = Q.L.m
    Q.order = {n: i for i, n in enumerate(n for n, o, t, _ in m.fields("BoundingBox3") if t == "double")}
    return tuple(Q.L.load(Ptr(p.obj, p.off + o), 8, "double") for n, o, t, _ in m.fields("BoundingBox3") if t == "double")

def answer(Q, key, env):
    """what the query answers for concrete arguments, computed exactly from its definition"""
    ev = lambda x: num_eval(x, env)
    kind = key[0]; a, b = key[1:] if len(key) == 3 else (key[1], None)
    pts = lambda T: [tuple(ev(x) for x in p) for p in T]
    def side(pl, p):
        d = sum(x * y for x, y in zip(pl, p)) + pl[3]; return 0 if abs(d) < 1e-9 * (1 + abs(pl[3])) else d      # a corner in the plane
    def inside(T, X):
        n = cross(sub(T[1], T[0]), sub(T[2], T[0]))
        return all(dot(n, cross(sub(T[(i + 1) % 3], T[i]), sub(X, T[i]))) >= -1e-9 * dot(n, n) for i in range(3))
    if kind == "hit": p, q = pts(b); pl = [ev(x) for x in a]; return side(pl, p) * side(pl, q) < 0
    if kind == "in": return inside(pts(a), tuple(ev(x) for x in b))
    if kind == "cut":
        pl = [ev(x) for x in b]; s = [side(pl, p) for p in pts(a)]; return any(x > 0 for x in s) and any(x < 0 for x in s)
    if kind == "box":
        x, y = [ev(k) for k in a], [ev(k) for k in b]; o = Q.order
        return all(x[o["_%s1" % d]] <= y[o["_%s2" % d]] and y[o["_%s1" % d]] <= x[o["_%s2" % d]] for d in "xyz")
    if kind == "cross": T = pts(a); p, q = pts(b); r = crosses(T, p, q); return bool(r)
    if kind == "segs": return meets(*pts(a), *pts(b)) is not None
    raise NoValue(kind)
class Code:
    """what the queries themselves compute: their decision diagrams over symbolic arguments, for the refutations"""
    def __init__(s, c): s.c = c; s.d = {}
    def get(s, kind):
        if kind not in s.d:
            try: s.d[kind] = getattr(s, kind)(Lab(s.c))
            except Und: s.d[kind] = None
        return s.d[kind]
    def hit(s, L):
        pl = L.obj("pl"); a = coef(L, pl); sg, p, q = seg(L, "s"); o = L.point("o"); v = L.call(L.find(HIT), pl, sg, o)
        return list(a) + list(p) + list(q), v, L.coords(o)
    def inside(s, L):
        t, T3 = tri(L, "t"); p = L.point("p"); v = L.call(L.find(IN), t, p)
        return [x for P_ in T3 for x in P_] + list(L.coords(p)), v, None
    def cut(s, L):
        t, T3 = tri(L, "t"); pl = L.obj("pl"); a = coef(L, pl); v = L.call(L.find(CUT), t, pl)
        return [x for P_ in T3 for x in P_] + list(a), v, None
    def box(s, L):
        bs = []; xs = []
        for n in "ab":
            o = L.new("BoundingBox3", "box" + n); q = L.point("q" + n); L.call(L.find("BoundingBox3::add(Point3 const&)"), o, q)
            for nm, off, t, _ in L.m.fields("BoundingBox3"):
                if t == "double": x = L.real(n + nm); xs.append(x); L.it.store(L.st, Ptr(o.obj, P(off)), x, 8, ev=False)
            bs.append(o)
        return xs, L.call(L.find(BB), *bs), None
    def __call__(s, kind, args, env, comp=None):
        d = s.get({"in": "inside"}.get(kind, kind))
        if d is None: return None
        e = {atom_of(x): num_eval(y, env) for x, y in zip(d[0], args)}
        return num_eval(to_cond(d[1]) if comp is None and not isinstance(d[1], Node) and d[1] not in (ONE, ZERO) else d[1] if comp is None else d[2][comp], e)
def answer_code(Q, key, env):
    kind = key[0]; flat = lambda x: [z for y in x for z in flat(y)] if isinstance(x, tuple) else [x]
    if Q.code is None or kind not in ("hit", "in", "cut", "box"): return None
    return Q.code(kind, flat(key[1:]), env)

def meets(p, q, r, s):
    u, v = sub(q, p), sub(s, r); w = sub(r, p); n = cross(u, v); nn = dot(n, n)
    if not nn: return None
    if abs(dot(w, n)) > 1e-9 * (1 + nn): return None
    a, b = dot(cross(w, v), n) / nn, dot(cross(w, u), n) / nn
    return [x + a * d for x, d in zip(p, u)] if 0 <= a <= 1 and 0 <= b <= 1 else None
def world(Q, env):
    """the numbers of env, and the answers of the opaque queries for them"""
    env = dict(env); keys = list(Q.t)
    def atoms(a, e):
        if a.kind == "query":
            r = answer_code(Q, keys[a.args[0]], e)
            r = int(answer(Q, keys[a.args[0]], e) if r is None else r); env[a.id] = r; return r
        if a.kind == "cutpoint":
            i, *x = a.args
            r = Q.code("hit", x, e, i) if Q.code is not None else None
            if r is not None: env[a.id] = r; return r
            x = [num_eval(y, e) for y in x]; pl, p, q = x[:4], x[4:7], x[7:]
            d1 = sum(m * n for m, n in zip(pl, p)) + pl[3]; d2 = sum(m * n for m, n in zip(pl, q)) + pl[3]
            if d1 == d2: raise NoValue("parallel")
            t = d1 / (d1 - d2); r = p[i] + t * (q[i] - p[i]); env[a.id] = r; return r
        if a.kind == "meetpoint":
            i, *x = a.args; x = [num_eval(y, e) for y in x]; r = meets(x[:3], x[3:6], x[6:9], x[9:])
            if r is None: raise NoValue("no meeting point")
            return r[i]
        raise NoValue(a.kind)
    env["atoms"] = atoms
    return env

def decide_bool(Q, v, want, must=None):
    """v as a function of the answers; want(assignment of keys) -> True/False/None (either is right).  True, None+why"""
    v = to_cond(v) if not (isinstance(v, Node) or v in (ONE, ZERO)) else v
    ids = {}
    for k, x in Q.t.items():
        if not isinstance(x, Node): return None, "query without a condition"
        ids[x.p] = k
    ps = preds_of(v) if isinstance(v, Node) else []
    odd = [str(p) for p in ps if p.id not in ids]
    if odd: return None, "depends on %s" % odd[0][:120]
    keys = list(Q.t)
    if len(keys) > 12: return None, "too many queries"
    for bits in itertools.product((False, True), repeat=len(keys)):
        asg = dict(zip(keys, bits)); x = v
        while isinstance(x, Node): x = x.hi if asg[ids[x.p]] else x.lo
        w = want(asg)
        if w is not None and (x == ONE) != w: return None, "the combination of the queries differs: %s gives %s" % (", ".join("%s:%s" % (k[0], "yes" if b else "no") for k, b in asg.items()), x == ONE)
    return True, "%d queries" % len(keys)

def unit(T3): n = cross(sub(T3[1], T3[0]), sub(T3[2], T3[0])); return [x * inv(sqrt(N(n))) for x in n]
def is_plane(a, T3):
    """the coefficients are a positive multiple... of the plane through the triangle (formal)"""
    un = unit(T3); want = un + [-dot(un, T3[0])]
    for sg in (ONE, -ONE):
        if all(norm0(x - sg * y) for x, y in zip(a, want)): return True
    return False

def tri_seg(c):
    Q = Queries(); L = Lab(c, models(Q, (HIT, IN))); Q.L = L
    t, T3 = tri(L, "t"); s, p, q = seg(L, "s"); o = L.point("o"); f = L.find(TS)
    ok = None; why = ""
    try:
        v = L.call(f, t, s, o); g = L.coords(o); T_ = tuple(map(tuple, T3)); S_ = (tuple(p), tuple(q))
        hits = [k for k in Q.t if k[0] == "hit"]; ins = [k for k in Q.t if k[0] == "in"]
        cp = None
        if len(hits) == 1 and hits[0][2] in (S_, S_[::-1]) and is_plane(hits[0][1], T3):
            cp = tuple(A("cutpoint", i, *hits[0][1], *[x for z in hits[0][2] for x in z]) for i in range(3))
        h = Q.t[hits[0]] if cp else None
        def under(x): return x if not isinstance(x, Node) else assume(x, h.p, True)
        if cp and len(ins) == 1 and sorted(map(str, ins[0][1])) == sorted(map(str, T_)) and tuple(under(x) for x in ins[0][2]) == cp:
            ok, why = decide_bool(Q, v, lambda a: a[hits[0]] and a[ins[0]])
            gp = [ite(v, x, ZERO) for x in g]
            pt = all(norm0(bind2(lambda x, y: x - y if isinstance(x, Poly) and isinstance(y, Poly) else ONE, x, ite(v, y, ZERO))) if isinstance(bind2(lambda x, y: x - y, x, ite(v, y, ZERO)), Poly) else False for x, y in zip(gp, cp))
            if ok and pt: c.proved("point", "the point in which the plane of the triangle cuts the segment", f)
            elif ok: ok = None; why = "reported point"
        else: why = "queries %s" % ", ".join(k[0] for k in Q.t)
    except Und as e: why = str(e)
    for code in (None, Code(c)):
        Q = Queries(code); L = Lab(c, models(Q, (HIT, IN))); Q.L = L; w, n = seg_oracle(Q, L, f)
        if w: break
    if w: c.refuted("oracle", w, f)
    else: c.decide(ok, "compose", why + ", %d oracle cases" % n, f)

TRIS = [((0, 0, 0), (4, 0, 1), (1, 5, 2)), ((1, 2, 3), (-3, 1, 0), (2, -4, 1)), ((0, 0, 0), (0, 0, 6), (5, 0, 1)), ((10, 1, 0), (0, 12, 0), (-9, -7, 1))]
def seg_oracle(Q, L, f):
    t, T3 = tri(L, "t"); s, p, q = seg(L, "s"); o = L.point("o"); v = L.call(f, t, s, o); g = L.coords(o)
    v = to_cond(v) if not (isinstance(v, Node) or v in (ONE, ZERO)) else v
    n = 0
    def one(T, A_, B_, exp, X):
        nonlocal n
        env = {atom_of(x): y for P_, R_ in zip(T3, T) for x, y in zip(P_, R_)}
        env.update({atom_of(x): y for x, y in zip(p, A_)}); env.update({atom_of(x): y for x, y in zip(q, B_)}); env = world(Q, env)
        try: got = num_eval(v, env) != 0
        except (NoValue, ZeroDivisionError, ValueError): return None
        n += 1; txt = "triangle %s and segment %s - %s" % (T, fmt3(A_), fmt3(B_))
        if got != exp: return "%s: reported %s, expected %s" % (txt, got, exp)
        if exp:
            try: r = [float(num_eval(x, env)) for x in g]
            except (NoValue, ZeroDivisionError, ValueError): return None
            if any(abs(x - float(y)) > 1e-6 for x, y in zip(r, X)): return "%s: reported point %s instead of %s" % (txt, fmt3(r), fmt3(X))
    if Q.code is not None:
        # numbers that are exact in floating point: ends on the plane, points on the sides
        for X in ((1, 1, 0), (2, 1, 0), (2, 0, 0), (0, 0, 0), (4, 0, 0), (2, 2, 0), (0, 1, 0), (5, 0, 0), (-1, 2, 0), (3, 2, 0), (0, -1, 0)):
            ins = X[0] >= 0 and X[1] >= 0 and X[0] + X[1] <= 4
            for a, b in ((-2, 2), (0, 2), (-2, 0), (2, 0), (0, -4), (2, 4), (4, -4), (-8, 8)):
                w = one(((0, 0, 0), (4, 0, 0), (0, 4, 0)), (X[0], X[1], a), (X[0], X[1], b), ins and a * b < 0, X)
                if w: return w, n
    bary = [(x, y) for x in (-1, Fraction(-1, 50), Fraction(1, 50), Fraction(1, 3), Fraction(3, 5), Fraction(9, 10), 2) for y in (-2, Fraction(-1, 30), Fraction(1, 20), Fraction(1, 3), Fraction(7, 10), Fraction(3, 2))]
    for T in TRIS:
        nn = cross(sub(T[1], T[0]), sub(T[2], T[0]))
        for D in ((1, 0, 0), (0, 1, 3), (2, -1, 1)):
            if dot(nn, D) == 0: continue
            for al, be in bary:
                ga = 1 - al - be; X = [al * T[0][i] + be * T[1][i] + ga * T[2][i] for i in range(3)]
                for a, b, sc in [x + (1,) for x in ((-1, 2), (-3, Fraction(1, 10)), (1, 2), (-2, Fraction(-1, 20)), (Fraction(1, 20), 3))] + [(-1, 2, Fraction(1, 10 ** 7)), (1, 2, Fraction(1, 10 ** 7)), (-1, 1, 10 ** 5)]:
                    if al * be * ga == 0: continue
                    A_ = [x + a * sc * d for x, d in zip(X, D)]; B_ = [x + b * sc * d for x, d in zip(X, D)]
                    w = one(T, A_, B_, a < 0 < b and al > 0 and be > 0 and ga > 0, X)
                    if w: return w, n
    return None, n
def fmt3(p): return "(" + ", ".join("%.4g" % float(x) for x in p) + ")"

# ------------------------------------------------------------------ two triangles
def tri_tri(c):
    f = c.m.find(TT); c.functions.add(f.dn)
    Q = Queries(); L = Lab(c, models(Q, (BB, CUT, TS))); Q.L = L; ok = None; why = ""; n = 0; w = None
    a, A3 = tri(L, "a"); b, B3 = tri(L, "b")
    try:
        v = L.call(f, a, b)
        edges = lambda T: {frozenset(map(str, (T[i], T[j]))) for i, j in ((0, 1), (0, 2), (1, 2))}
        KA, KB = sorted(map(str, map(tuple, A3))), sorted(map(str, map(tuple, B3)))
        EA, EB = edges([tuple(x) for x in A3]), edges([tuple(x) for x in B3])
        def whose(T): k = sorted(map(str, T)); return "a" if k == KA else "b" if k == KB else None
        cross_ = {}; pre = []
        for k in Q.t:
            if k[0] == "cross":
                w = whose(k[1]); e = frozenset(map(str, k[2]))
                if (w == "a" and e in EB) or (w == "b" and e in EA): cross_[k] = (w, e)
                else: why = "a query of another edge"
            elif k[0] == "cut":
                w = whose(k[1])
                if not w or not is_plane(k[2], B3 if w == "a" else A3): why = "a cut by another plane"
                pre.append(k)
            elif k[0] == "box":
                ba, bb = (box_values(L, "a%d" % len(pre), A3), box_values(L, "b%d" % len(pre), B3))
                if {str(k[1]), str(k[2])} != {str(ba), str(bb)}: why = "a comparison of other boxes"
                pre.append(k)
        if not why:
            if {x for x in cross_.values()} != {("a", e) for e in EB} | {("b", e) for e in EA}: why = "%d of the 6 edges are tested" % len(set(cross_.values()))
            else:
                def want(asg):
                    hit = any(asg[k] for k in cross_)
                    if not hit: return False
                    return True if all(asg[k] for k in pre) else None     # an edge through the other triangle implies the necessary conditions
                ok, why = decide_bool(Q, v, want)
    except Und as e: why = str(e)
    for code in (None, Code(c)):
        Q = Queries(code); L = Lab(c, models(Q, (BB, CUT, TS) if code is None else (BB, CUT, HIT, IN))); Q.L = L
        try: w, n1 = tri_oracle(Q, L, f)
        except Und: continue
        n += n1
        if w: break
    if w: c.refuted("oracle", w, f)
    else: c.decide(ok, "compose", why + ", %d oracle cases" % n, f)
def box_values(L, tag, T3):
    ps = [L.point("bx%s%d" % (tag, i), co) for i, co in enumerate(T3)]; t = L.new("Triangle3", "bt" + tag, "Triangle3::Triangle3(Point3 const&, Point3 const&, Point3 const&)", *ps)
    b = L.new("BoundingBox3", "bb" + tag, "BoundingBox3::BoundingBox3(Triangle3 const&)", t)
    return tuple(L.load(Ptr(b.obj, P(o)), 8, "double") for n, o, t_, _ in L.m.fields("BoundingBox3") if t_ == "double")

def crosses(T, a, b):
    """the open segment goes strictly through the inside of the triangle; None on the border"""
    n = cross(sub(T[1], T[0]), sub(T[2], T[0])); k1, k2 = dot(n, sub(a, T[0])), dot(n, sub(b, T[0]))
    if k1 == 0 or k2 == 0: return None
    if k1 * k2 > 0: return False
    t = Fraction(k1) / (k1 - k2); X = [x + t * (y - x) for x, y in zip(a, b)]
    s = [dot(n, cross(sub(T[(i + 1) % 3], T[i]), sub(X, T[i]))) for i in range(3)]
    if any(x == 0 for x in s) and all(x >= 0 for x in s): return None
    return all(x > 0 for x in s)
def tri_oracle(Q, L, f):
    a, A3 = tri(L, "a"); b, B3 = tri(L, "b"); v = L.call(f, a, b); v = to_cond(v) if not (isinstance(v, Node) or v in (ONE, ZERO)) else v
    rnd = random.Random(5); n = 0; yes = 0; ids = [[atom_of(x) for x in q] for q in A3 + B3]
    if not isinstance(v, Node): return "the answer is always %s" % (v == ONE), 1
    for i in range(1500 if Q.code is None else 700):
        r = 6 if i % 3 else 40
        A_ = [tuple(rnd.randint(-r, r) for k in range(3)) for j in range(3)]; off = [rnd.randint(-r, r) if i % 2 else 0 for k in range(3)]
        B_ = [tuple(rnd.randint(-r, r) + off[k] for k in range(3)) for j in range(3)]
        if not any(cross(sub(A_[1], A_[0]), sub(A_[2], A_[0]))) or not any(cross(sub(B_[1], B_[0]), sub(B_[2], B_[0]))): continue
        if len(set(A_ + B_)) < 6: continue
        res = [crosses(B_, A_[i], A_[j]) for i, j in ((0, 1), (0, 2), (1, 2))] + [crosses(A_, B_[i], B_[j]) for i, j in ((0, 1), (0, 2), (1, 2))]
        if None in res: continue
        env = world(Q, {x: Fraction(y) for q, w in zip(ids, A_ + B_) for x, y in zip(q, w)})
        try: got = num_eval(v, env) != 0
        except (NoValue, ZeroDivisionError, ValueError, OverflowError): continue
        n += 1
        if got != any(res): return "triangles %s and %s: reported %s, expected %s" % (A_, B_, got, any(res)), n
    return None, n

# ------------------------------------------------------------------ splitting a triangle by another one
def split(c, T):
    f = [g for x, g in c.m.bydn.items() if re.match(r"%s::split_triangle\(int, Triangle3 const&\)$" % T, x)]
    if len(f) != 1: raise AnalysisError("anchor vanished: %s::split_triangle" % T)
    f = f[0]; Q = Queries(); ms = models(Q, (HIT, IN, CUT, SS)); A3 = [[A("corner", i, k) for k in "xyz"] for i in range(3)]
    def get(it, call):
        L = Q.L; n, out = call.args[1:3]
        if not isinstance(n, Poly) or n != Q.n: raise Und("another triangle is read")
        for i in range(3):
            d = "Triangle3::set_p%d(Point3 const&)" % (i + 1); q = Ptr(("arg", "tmp%d" % i), ZERO); call.st.mem[q.obj] = Mem("undef", None, None)
            for o, x in zip(L.mm.pt, A3[i]): it.store(call.st, Ptr(q.obj, P(o)), x, 8, ev=False)
            keep = L.st; L.st = call.st
            try: L.call(d, out, q)
            finally: L.st = keep
        return None
    def dosplit(it, call):
        pt = call.args[2]
        it.emit("split", "split", [call.args[1], [it.load(call.st, bind(lambda q, o=o: Ptr(q.obj, q.off + o), pt), 8, "double") for o in Q.L.mm.pt] if isinstance(leaf1(pt), Ptr) else pt]); return None
    ms[re.compile(r"^%s::get_triangle\(" % T)] = get
    ms[re.compile(r"^%s::split_triangle_with_vertex\(" % T)] = dosplit
    ms[re.compile(r"^%s::is_triangle_unlinked\(" % T)] = lambda it, call: Q.ask("dead", call.args[1])
    L = Lab(c, ms, mesh=(T == "Mesh")); Q.L = L; Q.n = L.int_("tri")
    m = L.mesh("m") if T == "Mesh" else L.out("m"); t, T3 = tri(L, "t")
    r = L.run(f, m, Q.n, t); c.functions.update(x.dn for x in L.visited()); c.functions.add(f.dn)
    keys = list(Q.t); dead = [i for i, k in enumerate(keys) if k[0] == "dead"]
    mods = [e for e, fors in walk(r.ev) if isinstance(e, Ev) and (e.kind == "mesh" or (e.kind == "store" and getattr(leaf1(e.args[0]), "obj", None) == ("arg", "m")))]
    und = "the mesh is modified directly (%s)" % mods[0].name if mods else None
    n = sum(1 for e, fors in walk(r.ev) if isinstance(e, Ev) and e.kind == "split"); c.count("splits", n)
    # every combination of answers; the points stand for themselves
    if len(keys) > 14: und = und or "too many queries"
    TA = tuple(tuple(x) for x in A3); cps = {}
    plane = {k: is_plane(list(k[1]), A3) for k in keys if k[0] == "hit"}
    for bits in itertools.product((0, 1), repeat=len(keys)) if not und else ():
        R = Cut(L, Q, bits, cps)
        try: R.run(r.ev)
        except NoValue as x: und = "not readable: %s" % str(x)[:120]; break
        for e, t, X in R.splits:
            if t != R.tri: return c.refuted("split", "a triangle other than the one given is split", e)
            if any(bits[i] for i in dead) or not dead: und = und or "a removed triangle may be split"; continue
            o = [k for k, j in zip(keys, bits) if k[0] == "hit" and j and plane[k] and R.cut(k) == X]
            if not o: und = und or "the point of a split is not known to lie in the plane of the triangle"
            z = [k for k, j in zip(keys, bits) if k[0] == "in" and j and sorted(map(str, k[1])) == sorted(map(str, TA)) and R.same(k[2], X)]
            if not z: und = und or "the point of a split is not known to lie in the triangle"
        if und: break
    w, m = split_oracle(L, Q, r, A3, T3)
    if w: c.refuted("split", w[0], w[1])
    else: c.decide(None if und else True, "split", (und or "%d splits under every combination of %d answers" % (n, len(keys))) + ", %d oracle cases" % m, f)

class Cut(Replay):
    """the effects under one assignment of the answers; points of intersection are numbers standing for themselves"""
    def __init__(s, L, Q, bits, cps):
        super().__init__(L, lambda o, n: None); s.Q = Q; s.bits = bits; s.cps = cps; s.splits = []; s.tri = 7
    def atom(s, a, env):
        if a.id == atom_of(s.Q.n): return s.tri
        if a.kind == "query": return s.bits[a.args[0]]
        if a.kind == "nt": return 20
        if a.kind not in ("ld", "vs"): return s.cps.setdefault(a.id, 1000 + len(s.cps))     # a point, a coordinate
        return super().atom(a, env)
    def apply(s, e, env):
        if e.kind == "split": s.splits.append((e, num_eval(e.args[0], env), tuple(num_eval(x, env) for x in e.args[1]))); return
        super().apply(e, env)
    def cut(s, k): return tuple(num_eval(A("cutpoint", i, *k[1], *[x for p in k[2] for x in p]), s.env) for i in range(3))
    def same(s, p, X):
        try: return tuple(num_eval(x, s.env) for x in p) == X
        except NoValue: return False
class Real(Cut):
    """the effects for concrete triangles, the answers computed from the definitions"""
    def __init__(s, L, Q, num, dead):
        super().__init__(L, Q, None, {}); s.numbers = num; s.dead = dead; s.keys = list(Q.t)
    def atom(s, a, env):
        if a.id in s.numbers: return s.numbers[a.id]
        if a.kind == "query":
            k = s.keys[a.args[0]]; r = int(s.dead if k[0] == "dead" else answer(s.Q, k, env)); s.numbers[a.id] = r; return r
        if a.kind in ("cutpoint", "meetpoint"): return world(s.Q, {**env, **s.numbers})["atoms"](a, env)
        if a.kind not in ("ld", "vs", "nt") and a.id != atom_of(s.Q.n): raise NoValue(fmt_atom(a))
        return super().atom(a, env)
def split_oracle(L, Q, r, A3, T3):
    rnd = random.Random(9); n = 0; ids = [[atom_of(x) for x in q] for q in A3 + T3]
    for i in range(120):
        k = 6 if i % 3 else 30
        A_ = [tuple(rnd.randint(-k, k) for x in range(3)) for j in range(3)]; B_ = [tuple(rnd.randint(-k, k) for x in range(3)) for j in range(3)]
        nn = cross(sub(A_[1], A_[0]), sub(A_[2], A_[0]))
        if i % 4 == 1: B_ = [A_[0], tuple(x + y for x, y in zip(A_[0], sub(A_[1], A_[2]))), B_[2]]     # a corner in the plane
        if i % 4 >= 2:     # one corner in the plane, the others on both sides of it: one point of intersection, inside or outside
            at = lambda x, y: [x * p + y * q + (1 - x - y) * r for p, q, r in zip(*A_)]
            u, v = (Fraction(rnd.randint(1, 9), 20) for _ in "uv"); u += i % 8 == 6
            B_ = [tuple(at(Fraction(1, 3), Fraction(1, 4))), tuple(x + y for x, y in zip(at(u, v), nn)), tuple(x - 2 * y for x, y in zip(at(v + (i % 8 == 6), u), nn))]
            n1 = rnd.randint(0, 2); B_ = B_[n1:] + B_[:n1]
        if not any(nn) or not any(cross(sub(B_[1], B_[0]), sub(B_[2], B_[0]))): continue
        R = Real(L, Q, {x: Fraction(y) for q, w in zip(ids, A_ + B_) for x, y in zip(q, w)}, i % 5 == 4)
        try: R.run(r.ev)
        except (NoValue, ZeroDivisionError, ValueError): continue
        n += 1; txt = "triangle %s split by %s: " % (A_, [fmt3(x) for x in B_])
        for e, t, X in R.splits:
            if i % 5 == 4: return (txt + "a triangle already removed is split", e), n
            if t != R.tri: return (txt + "another triangle is split", e), n
            s = [dot(nn, cross(sub(A_[(j + 1) % 3], A_[j]), sub(X, A_[j]))) for j in range(3)]
            if abs(dot(nn, sub(X, A_[0]))) > 1e-6 * dot(nn, nn) or min(s) < -1e-6 * dot(nn, nn): return (txt + "at %s, outside of the triangle" % fmt3(X), e), n
    return None, n
def leaf1(x):
    while isinstance(x, Node): x = x.hi
    return x
def reduce_(x, asm):
    for p, v in asm: x = assume(x, p, v)
    return x
