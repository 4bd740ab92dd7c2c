"""C20: NURBS algorithms treat points and weights in lockstep."""
from common import *
from nurbs import *
from c21 import Final, View, lists0, patterns, fmtq
import os

# ------------------------------------------------------------------ values: linear forms over the weighted control points
class Form:
    """coef * product of linear forms / product of linear forms; a linear form is a tuple of ((i, k), coefficient) over the
    homogeneous coordinates k = 0..3 of control point i (3 is the weight).  f = None: not of that shape.
    v: the value for each of a few concrete sets of control points."""
    __slots__ = ("c", "n", "d", "v")
    def __init__(s, c, n, d, v): s.c = c; s.n = n; s.d = d; s.v = v
    @staticmethod
    def make(c, n, d, v):
        if n is None: return Form(0, None, None, v)
        n = list(n); d = list(d)
        for x in list(n):
            if x in d: n.remove(x); d.remove(x)
        if c == 0: n, d = [], []
        return Form(c, tuple(sorted(n)), tuple(sorted(d)), v)
    @staticmethod
    def const(x): return Form(x, (), (), None)
    def vals(s, k): return s.v if s.v is not None else (s.c,) * k
    def __hash__(s): return hash(s.v)
    def __eq__(s, o):
        if isinstance(o, Form): return s.v == o.v
        return s.cmp(o, lambda a, b: a == b)
    def cmp(s, o, f):
        k = len(s.v); ov = o.v if isinstance(o, Form) else (o,) * k
        r = {f(a, b) for a, b in zip(s.v, ov)}
        if len(r) > 1: raise NoValue("a condition depends on the control points")
        return r.pop()
    def __gt__(s, o): return s.cmp(o, lambda a, b: a > b)
    def __lt__(s, o): return s.cmp(o, lambda a, b: a < b)
    def __ge__(s, o): return s.cmp(o, lambda a, b: a >= b)
    def __le__(s, o): return s.cmp(o, lambda a, b: a <= b)
    def __mul__(s, o):
        if not isinstance(o, Form): return Form.make(s.c * o, s.n, s.d, tuple(a * o for a in s.v)) if o != 0 else 0
        v = tuple(a * b for a, b in zip(s.v, o.v))
        if s.n is None or o.n is None: return Form.make(0, None, None, v)
        return Form.make(s.c * o.c, s.n + o.n, s.d + o.d, v)
    __rmul__ = __mul__
    def inv(s):
        if any(a == 0 for a in s.v): raise NoValue("division by zero")
        return Form.make(0 if s.n is None else Fraction(1) / s.c, s.d, s.n, tuple(Fraction(1) / a for a in s.v))
    def __truediv__(s, o): return s * (o.inv() if isinstance(o, Form) else Fraction(1) / o)
    def __rtruediv__(s, o): return s.inv() * o
    def __pow__(s, e):
        r = s
        for i in range(e - 1): r = r * s
        return r
    def __neg__(s): return s * -1
    def __add__(s, o):
        if not isinstance(o, Form):
            if o == 0: return s
            return Form.make(0, None, None, tuple(a + o for a in s.v))
        v = tuple(a + b for a, b in zip(s.v, o.v))
        if s.n is None or o.n is None: return Form.make(0, None, None, v)
        if s.c == 0: return Form.make(o.c, o.n, o.d, v)
        if o.c == 0: return Form.make(s.c, s.n, s.d, v)
        if s.d == o.d:
            a, b = list(s.n), list(o.n)
            for x in list(a):
                if x in b: a.remove(x); b.remove(x)
            com = list(s.n)
            for x in a: com.remove(x)
            if not a and not b: return Form.make(s.c + o.c, s.n, s.d, v)
            if len(a) == 1 and len(b) == 1:
                L = dict((k, x * s.c) for k, x in a[0])
                for k, x in b[0]:
                    L[k] = L.get(k, 0) + x * o.c
                    if L[k] == 0: del L[k]
                if not L: return Form.make(0, (), (), v)
                c, f = canon(L)
                return Form.make(c, com + [f], s.d, v)
        return Form.make(0, None, None, v)
    __radd__ = __add__
    def __sub__(s, o): return s + (-o)
    def __rsub__(s, o): return (-s) + o

def canon(L):
    ks = sorted(L); c = L[ks[0]]
    return Fraction(c), tuple((k, Fraction(L[k]) / c) for k in ks)

def homog(x, k):
    """the linear form of a value in coordinate k as {point: coefficient}; None when it is not one"""
    if not isinstance(x, Form) or x.n is None or x.d: return None
    if x.c == 0: return {}
    if len(x.n) != 1: return None
    out = {}
    for (i, j), a in x.n[0]:
        if j != k: return None
        out[i] = a * x.c
    return out

# ------------------------------------------------------------------ concrete sets of control points
def AFF(p): x, y, z = p; return (2 * x - y + 3, x + Fraction(1, 2) * y - 2 * z - 1, Fraction(1, 3) * x + y + z + 5)
def PROJ(p, w):
    x, y, z = p; e = 1 + Fraction(1, 200) * x - Fraction(1, 300) * y + Fraction(1, 500) * z
    return tuple((Fraction(a) + Fraction(1, 7) * x) / e for a in p), w * e
def nets(n):
    P, W = ctrl(n)
    Q = [PROJ(p, w) for p, w in zip(P, W)]
    C = (Fraction(5, 3), Fraction(-2), Fraction(7, 2))
    return P, W, [(P, W), ([AFF(p) for p in P], W), ([C] * n, W), ([q[0] for q in Q], [q[1] for q in Q])], C
def symbolic(n):
    """control points and weights as forms"""
    P, W, sets, C = nets(n); pts = []; ws = []
    for i in range(n):
        w = (((i, 3), Fraction(1)),)
        ws.append(Form.make(Fraction(1), [w], [], tuple(Fraction(s[1][i]) for s in sets)))
        pts.append(tuple(Form.make(Fraction(1), [(((i, k), Fraction(1)),)], [w], tuple(Fraction(s[0][i][k]) for s in sets)) for k in range(3)))
    return pts, ws, sets, C

def val(x, j): return x.v[j] if isinstance(x, Form) else x
def wrong(pts, ws, C):
    """what breaks lockstep in the resulting weighted points; None when every weighted coordinate provably is the combination
    the weight is; False when undecided.  ws is None: only the point is visible (evaluation)"""
    sets = range(4)
    for i, p in enumerate(pts):
        if tuple(val(x, 2) for x in p) != C: return "all control points at (%s): result %s is (%s)" % (", ".join(map(fmtq, C)), i, ", ".join(fmtq(val(x, 2)) for x in p))
    for i, p in enumerate(pts):
        a = AFF(tuple(val(x, 0) for x in p)); b = tuple(val(x, 1) for x in p)
        if a != b: return "control points moved by an affine map: result %d is at (%s) instead of (%s)" % (i, ", ".join(map(fmtq, b)), ", ".join(map(fmtq, a)))
    # the same combination for every homogeneous coordinate
    ok = True
    for i, p in enumerate(pts):
        if ws is not None:
            ww = homog(ws[i], 3)
            co = [homog(x * ws[i], k) if isinstance(x, Form) else None for k, x in enumerate(p)]
            if ww is None or any(x is None for x in co): ok = False; continue
            for k, x in enumerate(co):
                if x != ww: return "weighted coordinate %s of point %d is the combination %s of the weighted control points, its weight the combination %s of the weights" % ("xyz"[k], i, comb(x), comb(ww))
        else:
            den = None
            for k, x in enumerate(p):
                if not isinstance(x, Form) or x.n is None: den = False; break
                x2 = x
                if len(x2.n) == 1 and len(x2.d) == 1:
                    num = {}; dd = {}
                    for (a, j), q in x2.n[0]:
                        if j != k: num = None; break
                        num[a] = q * x2.c
                    for (a, j), q in x2.d[0]:
                        if j != 3: num = None; break
                        dd[a] = q
                    if num is None: den = False; break
                    if num != dd: return "coordinate %s is the combination %s of the weighted control points over %s of the weights" % ("xyz"[k], comb(num), comb(dd))
                else: den = False; break
            if den is False: ok = False
    if ok: return None
    # a projective map moves points and weights together
    sc = None
    for i, p in enumerate(pts):
        if ws is None:
            q = PROJ(tuple(val(x, 0) for x in p), 1)[0]
            if q != tuple(val(x, 3) for x in p): return "result %d is not the quotient of one combination of weighted points and weights (projective map of the control points)" % i
        else:
            q, w = PROJ(tuple(val(x, 0) for x in p), val(ws[i], 0))
            if q != tuple(val(x, 3) for x in p): return "point %d is not the quotient of one combination of weighted points and weights (projective map of the control points)" % i
            s = Fraction(val(ws[i], 3)) / w
            if sc is None: sc = s
            if s != sc: return "weight %d is not the combination applied to the points" % i
    return False
def comb(d): return "{" + ", ".join("%s*%d" % (fmtq(v), i) for i, v in sorted(d.items())) + "}" if d else "{}"

# ------------------------------------------------------------------
def run(c):
    c.rule("shape", "for every order type of knots and parameter within the bound, the effect of the algorithm is interpreted in the domain of linear forms over the homogeneous control points: weighted coordinate and weight of every resulting point must be the same combination; a value outside of the domain is compared under an affine and a projective map of the control points")
    c.assume("exact real arithmetic, positive weights, 1 <= degree < number of points, clamped knots with interior multiplicity at most the degree, parameter in [0, 1]")
    with c.group("NurbsCurve"): curve(c)
    with c.group("NurbsSurface"): surface(c)

def mids(K):
    ds = sorted(set(K)); return ds + [(a + b) / 2 for a, b in zip(ds, ds[1:])]

def curve(c):
    cfg = [(n, d, mu) for d in (1, 2, 3) for n in range(d + 1, d + 5) for mu in patterns(n - d - 1, d)] + [(6, 4, (1,)), (7, 4, (2,)), (8, 4, (1, 2)), (6, 5, ()), (8, 5, (1, 1)), (9, 5, (3,)), (8, 6, (1,))] + NEAR
    V = View(c, CURVE); L = Lab(c, mesh=False); n = L.int_("n", 2); d = L.int_("d", 1); u = L.real("u")
    N = Nurbs(L, "C", CURVE, n, d); base = dict(L.st.mem)
    for what in ("evaluate", "insert_knot", "degree_elevation"):
        f = anchor(c, "NurbsCurve", what); L.st.mem = dict(base); bufs = lists0(L, N, base)
        with c.group("NurbsCurve::" + what):
            args, out = arguments(L, f, [u])
            r = L.it.run(f, [N.p] + args, L.st); c.functions.update(x.dn for x in L.visited())
            def cases():
                for nn, dd, mu in cfg:
                    K = knot_vector(nn, dd, mu)
                    for uu in (mids(K) if what != "degree_elevation" else [None]):
                        yield nn, "a curve of degree %d with %d points and knots %s%s" % (dd, nn, " ".join(map(fmtq, K)), "" if uu is None else ", parameter %s" % fmtq(uu)), \
                            dict(knots=K), {atom_of(n - 2): nn - 2, atom_of(d - 1): dd - 1, atom_of(u): uu if uu is not None else 0}
            decide(c, f, L, N, r, bufs, cases(), out, ("knots",))

def surface(c):
    L = Lab(c, mesh=False); nu = L.int_("nu", 2); du = L.int_("du", 1); nv = L.int_("nv", 2); dv = L.int_("dv", 1); u = L.real("u"); v = L.real("v")
    N = Nurbs(L, "S", SURF, nu, nv, du, dv, closed=True); base = dict(L.st.mem)
    for what in ("evaluate", "insert_knot_u", "insert_knot_v", "degree_elevation_u", "degree_elevation_v"):
        f = anchor(c, "NurbsSurface", what); L.st.mem = dict(base); bufs = lists0(L, N, base)
        with c.group("NurbsSurface::" + what):
            args, out = arguments(L, f, [u, v])
            r = L.it.run(f, [N.p] + args, L.st); c.functions.update(x.dn for x in L.visited())
            def cases():
                for (n1, d1, m1), (n2, d2, m2), fl in surface_cases():
                    K1, K2 = knot_vector(n1, d1, m1), knot_vector(n2, d2, m2)
                    if what == "evaluate": us = [(a, b) for a in mids(K1)[::2] for b in mids(K2)[::2]]
                    elif what.startswith("insert"): us = [(a, 0) for a in mids(K1 if what[-1] == "u" else K2)]
                    else: us = [(None, None)]
                    for a, b in us:
                        yield n1 * n2, "a surface of degrees %d, %d with %dx%d points%s%s" % (d1, d2, n1, n2, ("", ", closed in u", ", closed in v", ", closed in both directions")[fl[0] + 2 * fl[1]], "" if a is None else ", parameter %s" % fmtq(a) + (", %s" % fmtq(b) if what == "evaluate" else "")), \
                            dict(knots_u=K1, knots_v=K2), {atom_of(nu - 2): n1 - 2, atom_of(nv - 2): n2 - 2, atom_of(du - 1): d1 - 1, atom_of(dv - 1): d2 - 1, N.flags[0]: fl[0], N.flags[1]: fl[1], atom_of(u): a or 0, atom_of(v): b or 0}
            decide(c, f, L, N, r, bufs, cases(), out, ("knots_u", "knots_v"))

def anchor(c, cls, what):
    f = c.m.named("%s::%s(" % (cls, what))
    if len(f) != 1: raise AnalysisError("anchor vanished: %s::%s" % (cls, what))
    return f[0]

def arguments(L, f, reals):
    args = []; out = None; reals = list(reals)
    for a in f.args[1:]:
        if a["t"] == "ptr": out = L.out("result"); args.append(out)
        else: args.append(reals.pop(0))
    return args, out

def decide(c, f, L, N, r, bufs, cases, out, knots):
    bad = why = None; tried = 0; und = None
    for nn, txt, lists, env in cases:
        if bad: break
        pts, ws, sets, C = symbolic(nn)
        T = Tables(); T.fill(bufs, dict(lists, weights=ws, points=pts))
        try:
            R = Replay(L, T, env); R.debug = bool(os.environ.get("CADSA_DEBUG2")); R.run(r.ev)
            if out is not None:
                o = num_obj(out.obj, R.env); b = int(num_eval(out.off, R.env)); P_, x = definite(lambda: [tuple(R.M.read(o, b + 8 * k) for k in range(3))]); W_ = None
            else:
                P_, x = definite(read_final, R, N, "points", 3)
                if not x: W_, x = definite(read_final, R, N, "weights", 1)
            if x: tried += 1; bad = "%s: %s" % (txt, x); continue
            if out is None:
                if len(P_) != len(W_): raise NoValue("%d weights for %d points" % (len(W_), len(P_)))
                for k in knots:
                    if any(isinstance(x, Form) and len(set(x.v)) > 1 for x in read_final(R, N, k, 1)): bad = txt + ": the knots depend on the control points"
            w = bad or wrong(P_, W_, C)
        except NoValue as x: why = why or "%s: %s" % (txt, x); continue
        tried += 1
        if w is False: und = und or txt
        elif w: bad = w if bad else "%s: %s" % (txt, w)
    c.count("cases", tried)
    if bad: c.refuted("shape", bad, f)
    else: c.decide(True if tried and not why and not und else None, "shape", why or und or "%d cases" % tried, f)

def read_final(R, N, n, width):
    o = num_obj(N.p.obj, R.env)
    q = N.L.call("%s::%s() const" % (N.cls, n), N.p); po = int(num_eval(q.off, R.env)); b = ("E", o, po); k = int(R.M.read(o, po))
    return [tuple(R.M.read(b, 24 * i + 8 * j) for j in range(3)) if width == 3 else R.M.read(b, 8 * i) for i in range(k)]
