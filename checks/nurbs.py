"""NURBS objects for the analyses C20 and C21: a symbolic object in the state the setters leave, read through the accessors."""
from common import *
from replay import Replay, Content
from cadsa import bounds
import itertools

CURVE = dict(cls="NurbsCurve", lists=["knots", "weights", "points"], ints=["degree", "nb_points"])
SURF = dict(cls="NurbsSurface", lists=["knots_u", "knots_v", "weights", "points"], ints=["degree_u", "degree_v", "nb_points_u", "nb_points_v"])

class Nurbs:
    """object `name` of class NurbsCurve / NurbsSurface, its counts given as terms"""
    def __init__(s, L, name, kind, *counts, inv=True, closed=False):
        """closed: the closed flags of a surface are arbitrary (s.flags), not those of a new object"""
        s.flags = []; s.L = L; s.kind = kind; s.cls = kind["cls"]; s.name = name
        s.p = L.obj(name); L.st.mem[s.p.obj] = Mem("init", None, s.p.obj)
        it = L.it; st = L.st
        if not inv: return
        L.call("%s::%s()" % (s.cls, s.cls), s.p)
        def vec(tag, n):
            q = L.out(name + "." + tag); it.set_vsize(st, q, n); return q
        c = s.cls
        if kind is CURVE:
            n, d = counts
            s.sizes = {"knots": n + d + 1, "weights": n, "points": n}
            L.call(c + "::set_degree(int)", s.p, d)
            L.call(s.sig("set_points"), s.p, vec("P", n))
            L.call(s.sig("set_weights"), s.p, vec("W", n))
            L.call(s.sig("set_knots"), s.p, vec("K", n + d + 1))
        else:
            nu, nv, du, dv = counts
            s.sizes = {"knots_u": nu + du + 1, "knots_v": nv + dv + 1, "weights": nu * nv, "points": nu * nv}
            L.call(s.sig("set_degree"), s.p, du, dv)
            L.call(s.sig("set_points"), s.p, vec("P", nu * nv), nu, nv)
            L.call(s.sig("set_weights"), s.p, vec("W", nu * nv))
            L.call(s.sig("set_knots_u"), s.p, vec("KU", nu + du + 1))
            L.call(s.sig("set_knots_v"), s.p, vec("KV", nv + dv + 1))
            for d in "uv" if closed else "":
                x = A("arg", name + ".closed_" + d, ints=True); s.flags.append(atom_of(x)); L.call(s.sig("set_closed_" + d), s.p, to_cond(x))
        # the contents of the lists are arbitrary
        for l in kind["lists"]:
            q = s.list(l)
            b = it.vbuf(q); it.setmem(st, b, Mem("init", None, b))
            if it.vsize(st, q) != s.sizes[l]: raise Und("size of %s after the setters: %s" % (l, it.vsize(st, q)))
    def sig(s, m):
        fs = s.L.m.named("%s::%s(" % (s.cls, m))
        if len(fs) != 1: raise AnalysisError("anchor vanished: %s::%s" % (s.cls, m))
        return fs[0]
    def list(s, n, st=None):
        v = s.L.call("%s::%s() const" % (s.cls, n), s.p)
        if not isinstance(v, Ptr): raise Und("accessor %s" % n)
        return v
    def count(s, n, st=None): return s.L.call("%s::%s() const" % (s.cls, n), s.p)
    def size(s, n): return s.L.it.vsize(s.L.st, s.list(n))
    def buf(s, n): return s.L.it.vbuf(s.list(n))

SMALL = [(2, 1, ()), (4, 1, (1, 1)), (3, 2, ()), (5, 2, (2,)), (5, 3, (1,)), (4, 2, (1,))]
def surface_cases(wide=(8, 1)):
    """((points, degree, multiplicities) in u, the same in v, closed flags): all small pairs and long thin surfaces; the flags take all four values in turn"""
    small = SMALL
    pairs = [(a, b) for a in small for b in small if a in (small[1], small[3]) or b in (small[1], small[3])]
    long_ = (wide[0], wide[1], (1,) * (wide[0] - wide[1] - 1))
    for x in (long_, (5, 4, ()), (7, 5, (1,)), (7, 6, ())): pairs += [(x, small[0]), (small[0], x)]
    return [(a, b, ((i + i // 4) & 1, (i >> 1) & 1)) for i, (a, b) in enumerate(pairs)]

def norm(o):
    if isinstance(o, tuple): return tuple(norm(x) for x in o)
    if isinstance(o, Poly) and o.is_const(): return int(o.const())
    if isinstance(o, Fraction) and o == int(o): return int(o)
    return o

class Tables:
    """concrete contents of lists: buffer object -> list of rows"""
    def __init__(s): s.t = {}; s.other = None; s.size = {}
    def put(s, buf, rows, off=0):
        b = norm(num_obj(buf, {}))
        for i, r in enumerate(rows):
            if isinstance(r, (tuple, list)):
                for j, x in enumerate(r): s.t[(b, 24 * i + 8 * j)] = x
            else: s.t[(b, 8 * i)] = r
    def fill(s, ptrs, vals):
        """lists: name -> pointer of the vector, name -> rows"""
        for n, q in ptrs.items():
            s.put(("E", q.obj, q.off), vals[n]); s.size[norm(num_obj(("E", q.obj, q.off), {}))] = (n, (len(vals[n]) or 1) * (24 if vals[n] and isinstance(vals[n][0], (tuple, list)) else 8), len(vals[n])); s.t[(norm(num_obj(q.obj, {})), int(q.off.const()))] = len(vals[n])
    def __call__(s, o, n):
        v = s.t.get((norm(o), n))
        if v is None and s.other: v = s.other(norm(o), n)
        if v is None and norm(o) in s.size:
            name, b, k = s.size[norm(o)]
            if k and not 0 <= n < b: raise Definite("element %d of the %d %s is used" % (n // (b // k), k, name))
        return v

def read_list(R, N, n, width=1):
    """concrete content of list n of object N after a replay"""
    q = N.list(n); o = num_obj(q.obj, R.env); off = int(num_eval(q.off, R.env))
    k = int(num_eval(N.L.it.vsize(N.L.st, q), R.env)) if not R_has(R, o, off) else int(R.M.read(o, off))
    b = num_obj(N.L.it.vbuf(q), R.env); b = (b[0], b[1], int(b[2]) if not isinstance(b[2], int) else b[2])
    return [tuple(R.M.read(b, 24 * i + 8 * j) for j in range(3)) if width == 3 else R.M.read(b, 8 * i) for i in range(k)]
def R_has(R, o, off):
    try: v = R.M.read(o, off); return v is not None
    except NoValue: return False

# ------------------------------------------------------------------ concrete curves
def knot_vector(n, d, mult=()):
    """clamped knots in [0,1]; mult gives the multiplicities of the interior knots (default all 1); a leading 0 asks for knots close together"""
    near = tuple(mult[:1]) == (0,); mult = mult[1:] if near else mult
    inner = n - d - 1
    ms = []
    for m in mult:
        if inner >= m: ms.append(m); inner -= m
    ms += [1] * inner
    vals = []
    tot = len(ms) + 1
    for i, m in enumerate(ms): vals += [Fraction(2 * i + 2 + (i % 2), 2 * tot + 1)] * m
    vals.sort()
    if near: vals = [(x + 7) / 1000000 if x < Fraction(1, 2) else 1 - (2 - x) / 10000000 for x in vals]
    return [Fraction(0)] * (d + 1) + vals + [Fraction(1)] * (d + 1)
NEAR = [(4, 1, (0,)), (3, 2, (0,)), (5, 2, (0,)), (6, 2, (0, 2)), (7, 3, (0,)), (8, 3, (0, 2, 1))]
def ctrl(n, seed=0):
    P = [(Fraction(3 * i + seed, 7) - 1, Fraction((i * i + 2 * seed) % 11, 3), Fraction((5 * i + seed) % 7, 2) - 1) for i in range(n)]
    W = [Fraction(1) + Fraction((3 * i + seed) % 5, 4) for i in range(n)]
    return P, W

def definite(f, *a):
    """value of f, or the reason why the code has none there (element that does not exist, division by zero)"""
    try: return f(*a), None
    except Definite as x: return None, str(x)
