"""C26: NURBS evaluation, knot insertion and degree elevation represent exactly the rational B-spline."""
from common import *
from nurbs import *
from c21 import Final, View, lists0, patterns, fmtq
from c20 import Form, symbolic, val, homog, anchor, arguments, read_final, mids
import os

# ------------------------------------------------------------------ the oracle: B-spline basis (Cox-de Boor), exact
def span(K, t):
    """index of the non empty knot interval that contains t; the last one for the end of the range"""
    if t >= K[-1]: return max(i for i in range(len(K) - 1) if K[i] < K[i + 1])
    return max(i for i in range(len(K) - 1) if K[i] <= t and K[i] < K[i + 1])
def basis(K, d, t):
    """{i: N_i(t)} of degree d"""
    k = span(K, t); N = {k: Fraction(1)}
    for p in range(1, d + 1):
        M = {}
        for i in range(k - p, k + 1):
            v = Fraction(0)
            if N.get(i): v += (t - K[i]) / Fraction(K[i + p] - K[i]) * N[i]
            if N.get(i + 1): v += (K[i + p + 1] - t) / Fraction(K[i + p + 1] - K[i + 1]) * N[i + 1]
            M[i] = v
        N = M
    return {i: v for i, v in N.items() if v}
def tensor(Ku, du, u, Kv, dv, v, nu):
    Bu, Bv = basis(Ku, du, u), basis(Kv, dv, v)
    return {i + nu * j: a * b for i, a in Bu.items() for j, b in Bv.items()}
def samples(Ks, d):
    """d + 1 parameters inside each interval of the union of the knots"""
    ks = sorted(set(x for K in Ks for x in K)); out = []
    for a, b in zip(ks, ks[1:]): out += [a + (b - a) * Fraction(j + 1, d + 2) for j in range(d + 1)]
    return out
def point(B, pts, ws, j):
    """the point of the j-th concrete net"""
    w = sum(a * val(ws[i], j) for i, a in B.items())
    if w == 0: return None
    return tuple(sum(a * val(ws[i], j) * val(pts[i][k], j) for i, a in B.items()) / w for k in range(3))
def fmtp(p): return "(" + ", ".join(fmtq(x) for x in p) + ")" if p else "undefined"

def rows(pts, ws):
    """rows of the linear map of the weighted control points: per result {control point: coefficient}; None when it is not linear"""
    out = []
    for p, w in zip(pts, ws):
        r = homog(w, 3)
        if r is None: return None
        for k, x in enumerate(p):
            if not isinstance(x, Form): return None
            h = homog(x * w, k)
            if h is None or not equal(h, r): return None
        out.append(r)
    return out
EPS = Fraction(1, 10 ** 12)      # constants such as 1./3. are rounded by the code
def near(a, b): return a == b or abs(a - b) <= EPS * max(1, abs(a), abs(b))
def equal(A, B): return A == B or all(near(A.get(i, 0), B.get(i, 0)) for i in set(A) | set(B))
def at(p, q): return p is not None and q is not None and all(near(a, b) for a, b in zip(p, q))
def apply(B, M):
    out = {}
    for j, a in B.items():
        for i, b in M[j].items():
            out[i] = out.get(i, 0) + a * b
    return {i: v for i, v in out.items() if v}

def same(pairs, pts0, ws0, pts, ws):
    """None: the two shapes are the same for all control points; False: not shown; text: differs for a concrete net.
    pairs: [(text of the parameter, basis before, basis after)]"""
    M = rows(pts, ws); ok = M is not None
    for txt, B0, B in pairs:
        if any(i >= len(pts) for i in B): return "the result has only %d control points" % len(pts)
        if ok:
            if equal(apply(B, M), B0): continue
            ok = False
        for j in (0, 3):
            a = point(B0, pts0, ws0, j); b = point(B, pts, ws, j)
            if not at(a, b): return "at parameter %s the shape passes through %s instead of %s" % (txt, fmtp(b), fmtp(a))
    return None if ok else False

def evaluated(B0, p, pts0, ws0):
    """the evaluated point p against the rational combination B0"""
    ok = True
    for k, x in enumerate(p):
        if isinstance(x, Form) and x.n is not None and len(x.n) == 1 and len(x.d) == 1 and all(j == k for (i, j), q in x.n[0]) and all(j == 3 for (i, j), q in x.d[0]):
            num = {i: q * x.c for (i, j), q in x.n[0]}; den = {i: q for (i, j), q in x.d[0]}
            s = next(iter(den.values())) / B0.get(next(iter(den)), 1) if den else 1
            if equal({i: q / s for i, q in num.items()}, B0) and equal({i: q / s for i, q in den.items()}, B0): continue
        elif isinstance(x, Form) and len(B0) == 1 and next(iter(B0.values())) == 1 and x.n is not None:
            i = next(iter(B0))
            if x == pts0[i][k] and x.n == pts0[i][k].n and x.d == pts0[i][k].d and x.c == pts0[i][k].c: continue
        ok = False
    if ok: return None
    for j in (0, 3):
        a = point(B0, pts0, ws0, j); b = tuple(val(x, j) for x in p)
        if not at(a, b): return "evaluates to %s instead of %s" % (fmtp(b), fmtp(a))
    return False

# ------------------------------------------------------------------
def run(c):
    c.rule("evaluate", "for every order type of knots and parameter within the bound, the effect of the evaluation is interpreted in the domain of linear forms over the homogeneous control points and compared with the B-spline basis functions (Cox-de Boor, exact rationals): equal for all control points and weights")
    c.rule("refine", "the effect of inserting a knot or elevating the degree is a matrix acting on the weighted control points; the basis of the new knots times that matrix equals the old basis at degree + 1 parameters of every knot interval, so the shapes agree everywhere for all control points and weights")
    c.rule("knots", "an inserted knot strictly inside the range and below full multiplicity is added exactly once together with one control point, any other leaves the object as it is; elevation raises the degree by one and each knot's multiplicity by one")
    c.rule("polyline", "the points collected are evaluations of the curve (interpreted with the evaluation as an uninterpreted map) at evenly spaced parameters from 0 on, the last one less than a step before 1 or at 1")
    c.assume("exact real arithmetic, positive weights, 1 <= degree < number of points, clamped knots with interior multiplicity at most the degree, evaluation parameter in [0, 1]")
    with c.group("NurbsCurve"): curve(c)
    with c.group("NurbsSurface"): surface(c)
    with c.group("NurbsCurve::to_polyline"): polyline(c)

def polyline(c):
    """the points are the curve at evenly spaced parameters from 0 to the end"""
    f = anchor(c, "NurbsCurve", "to_polyline"); ev = anchor(c, "NurbsCurve", "evaluate")
    def model(it, call):
        o = call.args[-1]
        for k in range(3): it.store(call.st, bind(lambda q, k=k: Ptr(q.obj, q.off + 8 * k), o), bind(lambda u, k=k: A("S", k, u), call.args[1]), 8)
    L = Lab(c, {ev.dn: model}, mesh=False); n = L.int_("n", 1); N = Nurbs(L, "C", CURVE, n, P(1)); out = L.out("pl")
    r = L.it.run(f, [N.p, out], L.st); c.functions.update(x.dn for x in L.visited())
    bad = why = None; m = 0
    for nn in (1, 2, 3, 5, 9):
        try:
            R = Replay(L, Tables(), {atom_of(n - 1): nn - 1}, funcs={"S": lambda k, u: u + 10 * int(k)}); R.run(r.ev)
            o = num_obj(out.obj, R.env); b = ("E", o, 0); k = int(R.M.read(o, 0))
            ps = [[R.M.read(b, 24 * i + 8 * a) for a in range(3)] for i in range(k)]
            if any(x is None for p in ps for x in p): raise NoValue("unknown point")
            ps = [[x - 10 * a for a, x in enumerate(p)] for p in ps]
        except NoValue as x: why = why or "%d points: %s" % (nn, x); continue
        m += 1; t = [p[0] for p in ps]; txt = "a curve of %d points: " % nn
        if any(abs(p[1] - p[0]) > TINY or abs(p[2] - p[0]) > TINY for p in ps): bad = txt + "a point of the polyline is not on the curve"
        elif len(t) < 2: bad = txt + "the polyline has %d points" % len(t)
        elif abs(t[0]) > TINY: bad = txt + "the polyline starts at parameter %s" % fmtq(t[0])
        elif any(abs(y - x - (t[1] - t[0])) > TINY for x, y in zip(t, t[1:])) or t[1] <= t[0]: bad = txt + "the parameters are not evenly spaced"
        elif t[-1] > 1 + TINY or t[-1] + (t[1] - t[0]) <= 1 - TINY: bad = txt + "the polyline ends at parameter %s" % fmtq(t[-1])
        if bad: break
    if not bad: bad = drift(c, r.ev, lambda nn: {atom_of(n - 1): nn - 1}, "a curve of %d points: ")
    c.count("polylines", m)
    if bad: c.refuted("polyline", bad, f)
    else: c.decide(True if m and not why else None, "polyline", why or "%d sizes" % m, f)
def drift(c, evs, env, txt, sizes=range(1, 41)):
    """a loop that stops when a floating point variable, grown by a fixed step in every round, passes a bound: as many rounds in double precision as in exact arithmetic"""
    def holds(v, e):
        while isinstance(v, Node): v = v.hi if num_pred(v.p, e) else v.lo
        return v != ZERO
    for F in [e for e, _ in walk(evs) if isinstance(e, For)]:
        for ini, step in F.facc or []:
            if not any(occurs(p.poly, atom_of(F.k)) and not p.isint for p in preds_of(F.stay) if p.kind == "gt"): continue
            for nn in sizes:
                try:
                    e = env(nn); i0 = num_eval(ini, e); st = Fraction(num_eval(step, e))
                    if st == 0: continue
                    t = float(i0); a = b = 0
                    while a <= 10000 and holds(F.stay, {**e, atom_of(F.k): (Fraction(t) - i0) / st}): t += float(st); a += 1
                    while b <= 10000 and holds(F.stay, {**e, atom_of(F.k): b}): b += 1
                except NoValue: continue
                if a != b: return (txt + "rounding makes the loop at %s stop after %d rounds where %d are meant (its variable is a running sum)") % (nn, F.loc, a, b)
    return None

TINY = Fraction(1, 10 ** 9)

def counts(K):
    out = {}
    for x in K: out[x] = out.get(x, 0) + 1
    return out
def inserted(K0, d0, K, d, u):
    """what is wrong with the knots after inserting u"""
    if d != d0: return "the degree becomes %d" % d
    want = counts(K0)
    if 0 < u < 1 and want.get(u, 0) < d0: want[u] = want.get(u, 0) + 1
    if counts(K) != want: return "the knots become %s" % " ".join(map(fmtq, K))
def elevated(K0, d0, K, d):
    want = counts(K0); e = d
    if d == d0: return None if counts(K) == want else "the knots become %s" % " ".join(map(fmtq, K))
    if d != d0 + 1: return "the degree becomes %d" % d
    if counts(K) != {k: v + 1 for k, v in want.items()}: return "the knots become %s" % " ".join(map(fmtq, K))
LIMIT = 3       # documented limit of the elevation: below it the degree is raised

def lists_of(R, N, V): return Final(R, V, N, N.L).read()

def curve(c):
    cfg = [(n, d, mu) for d in (1, 2, 3) for n in range(d + 1, d + 5) for mu in patterns(n - d - 1, d)] + [(6, 4, (1,)), (7, 4, (2,)), (8, 4, (1, 2)), (6, 5, ()), (8, 5, (1, 1)), (9, 5, (3,)), (8, 6, (1,)), (7, 2, (1, 2, 1)), (8, 2, (1, 1, 1, 1, 1))] + NEAR
    V = View(c, CURVE); L = Lab(c, mesh=False); n = L.int_("n", 2); d = L.int_("d", 1); u = L.real("u")
    N = Nurbs(L, "C", CURVE, n, d); base = dict(L.st.mem)
    for what in ("evaluate", "insert_knot", "degree_elevation"):
        f = anchor(c, "NurbsCurve", what); L.st.mem = dict(base); bufs = lists0(L, N, base)
        with c.group("NurbsCurve::" + what):
            args, out = arguments(L, f, [u])
            r = L.it.run(f, [N.p] + args, L.st); c.functions.update(x.dn for x in L.visited())
            bad = why = und = None; tried = 0; steps = 0
            for nn, dd, mu in cfg:
                if bad: break
                K = knot_vector(nn, dd, mu)
                us = [None] if what == "degree_elevation" else sorted(set(mids(K) + (samples([K], dd) if what == "evaluate" else [Fraction(-1, 2), Fraction(3, 2)])))
                for uu in us:
                    txt = "a curve of degree %d with %d points and knots %s%s" % (dd, nn, " ".join(map(fmtq, K)), "" if uu is None else ", parameter %s" % fmtq(uu))
                    pts, ws, sets, C = symbolic(nn); T = Tables(); T.fill(bufs, dict(knots=K, weights=ws, points=pts))
                    try:
                        R = Replay(L, T, {atom_of(n - 2): nn - 2, atom_of(d - 1): dd - 1, atom_of(u): uu if uu is not None else 0}); R.run(r.ev)
                        if what == "evaluate":
                            o = num_obj(out.obj, R.env); b = int(num_eval(out.off, R.env))
                            p_, w = definite(lambda: tuple(R.M.read(o, b + 8 * k) for k in range(3)))
                            if not w: w = evaluated(basis(K, dd, uu), p_, pts, ws)
                        else:
                            v = lists_of(R, N, V); K2 = v["knots"]; d2 = v["degree"]
                            x2, w = definite(lambda: (read_final(R, N, "points", 3), read_final(R, N, "weights", 1)))
                            P2, W2 = x2 or (None, None)
                            if not w: w = inserted(K, dd, K2, d2, uu) if what == "insert_knot" else elevated(K, dd, K2, d2)
                            if not w and what == "degree_elevation" and dd < LIMIT and d2 == dd: w = "the degree is not raised"
                            if not w and len(W2) != len(P2): raise NoValue("%d weights for %d points" % (len(W2), len(P2)))
                            if not w: w = same([(fmtq(t), basis(K, dd, t), basis(K2, d2, t)) for t in samples([K, K2], d2)], pts, ws, P2, W2)
                    except NoValue as x: why = why or "%s: %s" % (txt, x); continue
                    tried += 1
                    if w is False: und = und or txt
                    elif w: bad = "%s: %s" % (txt, w); break
            report(c, f, what, bad, why, und, tried)

def report(c, f, what, bad, why, und, tried):
    c.count("cases", tried); rule = "evaluate" if what == "evaluate" else "refine"
    if bad: c.refuted(rule, bad, f)
    else: c.decide(True if tried and not why and not und else None, rule, why or und or "%d cases" % tried, f)

def flags(R, N, fl):
    """what is wrong with the closed flags afterwards"""
    for d, x in zip("uv", fl):
        v = num_eval(N.L.call("NurbsSurface::is_closed_%s() const" % d, N.p), R.env)
        if bool(v) != bool(x): return "the surface is %s in %s afterwards" % ("closed" if v else "no longer closed", d)

def surface(c):
    V = View(c, SURF); L = Lab(c, mesh=False); nu = L.int_("nu", 2); du = L.int_("du", 1); nv = L.int_("nv", 2); dv = L.int_("dv", 1); u = L.real("u"); v = L.real("v")
    N = Nurbs(L, "S", SURF, nu, nv, du, dv, closed=True); base = dict(L.st.mem)
    for what in ("evaluate", "insert_knot_u", "insert_knot_v", "degree_elevation_u", "degree_elevation_v"):
        f = anchor(c, "NurbsSurface", what); L.st.mem = dict(base); bufs = lists0(L, N, base)
        with c.group("NurbsSurface::" + what):
            args, out = arguments(L, f, [u, v])
            r = L.it.run(f, [N.p] + args, L.st); c.functions.update(x.dn for x in L.visited())
            bad = why = und = None; tried = 0; inu = what[-1] == "u"
            for (n1, d1, m1), (n2, d2, m2), fl in surface_cases():
                if bad: break
                K1, K2 = knot_vector(n1, d1, m1), knot_vector(n2, d2, m2)
                if what == "evaluate": us = [(a, b) for a in mids(K1)[::2] for b in mids(K2)[::2]] + [(K1[-1], K2[0]), (K1[0], K2[-1]), (K1[-1], K2[-1])]
                elif what.startswith("insert"): us = [(a, 0) for a in mids(K1 if inu else K2)]
                else: us = [(None, None)]
                for a, b in us:
                    txt = "a surface of degrees %d, %d with %dx%d points%s%s" % (d1, d2, n1, n2, ("", ", closed in u", ", closed in v", ", closed in both directions")[fl[0] + 2 * fl[1]], "" if a is None else ", parameter %s" % fmtq(a) + (", %s" % fmtq(b) if what == "evaluate" else ""))
                    pts, ws, sets, C = symbolic(n1 * n2); T = Tables(); T.fill(bufs, dict(knots_u=K1, knots_v=K2, weights=ws, points=pts))
                    try:
                        R = Replay(L, T, {atom_of(nu - 2): n1 - 2, atom_of(nv - 2): n2 - 2, atom_of(du - 1): d1 - 1, atom_of(dv - 1): d2 - 1, N.flags[0]: fl[0], N.flags[1]: fl[1], atom_of(u): a or 0, atom_of(v): b or 0}); R.run(r.ev)
                        if what == "evaluate":
                            o = num_obj(out.obj, R.env); q = int(num_eval(out.off, R.env))
                            p_, w = definite(lambda: tuple(R.M.read(o, q + 8 * k) for k in range(3)))
                            if not w: w = evaluated(tensor(K1, d1, a, K2, d2, b, n1), p_, pts, ws)
                        else:
                            x = lists_of(R, N, V); A, B = x["knots_u"], x["knots_v"]; e1, e2 = x["degree_u"], x["degree_v"]; k1 = x["nb_points_u"]
                            x2, w = definite(lambda: (read_final(R, N, "points", 3), read_final(R, N, "weights", 1)))
                            P2, W2 = x2 or (None, None)
                            chg = inserted if what.startswith("insert") else elevated; ex = (a,) if what.startswith("insert") else ()
                            if not w: w = (chg(K1, d1, A, e1, *ex) if inu else chg(K2, d2, B, e2, *ex))
                            if not w and not ex and (d1 if inu else d2) < LIMIT and (e1, e2) == (d1, d2): w = "the degree is not raised"
                            if not w and ((B, e2) != (K2, d2) if inu else (A, e1) != (K1, d1)): w = "the knots or degree of the other direction change"
                            if not w: w = flags(R, N, fl)
                            if not w and len(W2) != len(P2): raise NoValue("%d weights for %d points" % (len(W2), len(P2)))
                            if not w: w = same([("%s, %s" % (fmtq(s), fmtq(t)), tensor(K1, d1, s, K2, d2, t, n1), tensor(A, e1, s, B, e2, t, k1)) for s in samples([K1, A], e1) for t in samples([K2, B], e2)], pts, ws, P2, W2)
                    except NoValue as x: why = why or "%s: %s" % (txt, x); continue
                    tried += 1
                    if w is False: und = und or txt
                    elif w: bad = "%s: %s" % (txt, w); break
            report(c, f, what, bad, why, und, tried)
