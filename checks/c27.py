"""C27: NURBS shapes built by the library are exactly the shapes they stand for."""
from common import *
from nurbs import *
from c21 import Final, View, fmtq, patterns, meshtable, BUILDERS
from c26 import basis, samples, near
import os

# ------------------------------------------------------------------ values: polynomials over the parameters
class Q:
    """polynomial over named parameters (monomial: sorted tuple of names) with its value at one concrete choice of them;
    p is None when the value is not a polynomial"""
    __slots__ = ("p", "v")
    def __init__(s, p, v): s.p = p; s.v = v
    @staticmethod
    def var(n, v): return Q({(n,): Fraction(1)}, Fraction(v))
    @staticmethod
    def of(x): return x if isinstance(x, Q) else Q({(): Fraction(x)} if x else {}, Fraction(x))
    def __add__(s, o):
        o = Q.of(o)
        if s.p is None or o.p is None: return Q(None, s.v + o.v)
        r = dict(s.p)
        for m, c in o.p.items():
            x = r.get(m, 0) + c
            if x: r[m] = x
            else: r.pop(m, None)
        return Q(r, s.v + o.v)
    __radd__ = __add__
    def __neg__(s): return s * -1
    def __sub__(s, o): return s + (-Q.of(o))
    def __rsub__(s, o): return Q.of(o) - s
    def __mul__(s, o):
        if not isinstance(o, Q):
            if o == 0: return Q({}, Fraction(0))
            return Q(None if s.p is None else {m: c * o for m, c in s.p.items()}, s.v * o)
        if s.p is None or o.p is None: return Q(None, s.v * o.v)
        r = {}
        for a, x in s.p.items():
            for b, y in o.p.items():
                m = tuple(sorted(a + b)); r[m] = r.get(m, 0) + x * y
        return Q({m: c for m, c in r.items() if c}, s.v * o.v)
    __rmul__ = __mul__
    def __pow__(s, e):
        r = s
        for i in range(e - 1): r = r * s
        return r
    def __truediv__(s, o):
        o = Q.of(o)
        if o.v == 0: raise NoValue("division by zero")
        if o.p is not None and set(o.p) == {()}: return s * (Fraction(1) / o.p[()])
        if o.p is not None and s.p is not None and len(o.p) == 1:
            (m, c), = o.p.items(); r = {}
            for a, x in s.p.items():
                a = list(a)
                for n in m:
                    if n not in a: r = None; break
                    a.remove(n)
                if r is None: break
                r[tuple(a)] = x / c
            return Q(r, s.v / o.v)
        return Q(None, s.v / o.v)
    def __rtruediv__(s, o): return Q.of(o) / s
    def __hash__(s): return hash(s.v)
    by_value = False         # conditions are decided at the concrete parameters (only to exhibit a defect there)
    def const(s):
        if Q.by_value: return s.v
        if s.p is None or any(m for m in s.p): raise NoValue("a condition depends on the parameters")
        return s.p.get((), 0)
    def __eq__(s, o):
        o = Q.of(o)
        if s.p is not None and s.p == o.p: return True
        if Q.by_value: return s.v == o.v
        return (s - o).const() == 0
    def __lt__(s, o): return (s - o).const() < 0
    def __gt__(s, o): return (s - o).const() > 0
    def __le__(s, o): return (s - o).const() <= 0
    def __ge__(s, o): return (s - o).const() >= 0
    def __float__(s): return float(s.v)

TOL = Fraction(1, 10 ** 9)       # constants such as 1/sqrt(2) are rounded by the code
def zero(x, scale=1):
    """True: the polynomial vanishes; False: its value at the concrete parameters does not; None"""
    x = Q.of(x)
    if x.p is not None and all(abs(c) <= TOL * scale for c in x.p.values()): return True
    if abs(x.v) > TOL * max(1, scale) * 1000: return False
    return None
class Bad(Exception): pass
class Open(Exception): pass
def need(x, text):
    """the value must vanish"""
    r = zero(x)
    if r is False: raise Bad(text)
    if r is None: raise Open(text)
def value(x): return float(x.v if isinstance(x, Q) else x)

# ------------------------------------------------------------------ shapes read off the effect
class Shape:
    """homogeneous evaluation of a curve (knots, degree) or surface"""
    def __init__(s, dirs, pts, ws):
        s.dirs = dirs; s.h = [tuple(Q.of(x) * w for x in p) + (Q.of(w),) for p, w in zip(pts, ws)]; s.pts = pts; s.ws = ws
        n = 1
        for K, d, k in dirs:
            n *= k
            if len(K) != k + d + 1 or any(a > b for a, b in zip(K, K[1:])): raise NoValue("inconsistent sizes")
        if n != len(pts) or n != len(ws): raise NoValue("inconsistent sizes")
    def at(s, *t):
        B = [basis(K, d, x) for (K, d, k), x in zip(s.dirs, t)]
        out = [Q({}, Fraction(0))] * 4
        if len(B) == 1: co = B[0]
        else: co = {i + s.dirs[0][2] * j: a * b for i, a in B[0].items() for j, b in B[1].items()}
        for i, c in co.items(): out = [x + y * c for x, y in zip(out, s.h[i])]
        return out
    def point(s, *t):
        x, y, z, w = [value(q) for q in s.at(*t)]
        if not w: raise NoValue("weight zero")
        return (x / w, y / w, z / w)
    def grid(s, extra=1):
        """parameters that determine every polynomial identity of degree `extra` in the homogeneous coordinates"""
        ds = [sorted(set(samples([K], extra * d) + sorted(set(K)))) for K, d, k in s.dirs]
        return itertools.product(*ds)
    def ends(s, i): K = s.dirs[i][0]; return K[0], K[-1]
    def normal(s, u, v, e=1e-5):
        a, b = s.ends(0), s.ends(1)
        f = lambda x, lo, hi: (max(lo, x - e), min(hi, x + e))
        (u0, u1), (v0, v1) = f(float(u), float(a[0]), float(a[1])), f(float(v), float(b[0]), float(b[1]))
        U = [p - q for p, q in zip(s.point(Fraction(u1), v), s.point(Fraction(u0), v))]; V = [p - q for p, q in zip(s.point(u, Fraction(v1)), s.point(u, Fraction(v0)))]
        return cross(U, V)
def cross(a, b): return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
def dot(a, b): return sum(x * y for x, y in zip(a, b))
def sub(a, b): return tuple(x - y for x, y in zip(a, b))

def buffers(V, R, o, off, n, w):
    q = V.ptr[n]; po = off + int(num_eval(q.off, R.env)); b = ("E", o, po); k = int(R.M.read(o, po))
    return [tuple(R.M.read(b, 24 * i + 8 * j) for j in range(3)) if w == 3 else R.M.read(b, 8 * i) for i in range(k)]
def plain(K):
    out = []
    for x in K: out.append(Fraction(x.const()) if isinstance(x, Q) else Fraction(x))
    return out
def shape(V, R, o, off, v, kind):
    x, w = definite(lambda: (buffers(V, R, o, off, "points", 3), buffers(V, R, o, off, "weights", 1)))
    if w: raise Bad(w)
    P_, W = x
    dirs = [(plain(v["knots"]), v["degree"], v["nb_points"])] if kind is CURVE else [(plain(v["knots_" + x]), v["degree_" + x], v["nb_points_" + x]) for x in "uv"]
    S = Shape(dirs, P_, W); S.flags = None
    return S

class Flags:
    """the closed flags of a surface, read through the accessors"""
    def __init__(s, c):
        L = Lab(c, mesh=False); s.p = L.obj("probe"); L.st.mem[s.p.obj] = Mem("init", None, s.p.obj)
        s.f = [L.call("NurbsSurface::is_closed_%s() const" % d, s.p) for d in "uv"]
    def read(s, R, o, off):
        def at(a, env):
            if a.kind == "ld" and a.args[0] == "i" and a.args[1] == s.p.obj: return R.M.read(o, off + int(num_eval(a.args[2], env)))
            raise NoValue(fmt_atom(a))
        return [bool(num_eval(x, {"atoms": at})) for x in s.f]
def closing(S, text=""):
    """a surface is marked closed exactly in the directions in which its first and last control points coincide"""
    nu, nv = [k for K, d, k in S.dirs]
    for n, d in enumerate("uv"):
        ends = [(v * nu, v * nu + nu - 1) for v in range(nv)] if d == "u" else [(u, (nv - 1) * nu + u) for u in range(nu)]
        gap = max(abs(value(S.pts[a][k]) - value(S.pts[b][k])) for a, b in ends for k in range(3))
        want = True if gap < 1e-9 else False if gap > 1e-3 else None
        if want is not None and S.flags[n] != want: raise Bad("the surface%s %s in %s, but is%s marked closed" % (text, "closes" if want else "does not close", d, " not" if want else ""))

# ------------------------------------------------------------------ the shapes
def turning(ps):
    """signed number of turns around the origin of the plane curve through the points"""
    a = [math.atan2(y, x) for x, y in ps]; t = 0
    for p, q in zip(a, a[1:]):
        d = q - p
        while d > math.pi: d -= 2 * math.pi
        while d < -math.pi: d += 2 * math.pi
        t += d
    return t / (2 * math.pi)
def positive(w, what):
    if value(w) <= 0: raise Bad("%s has a weight that is not positive" % what)
def once(ps, what):
    t = turning(ps)
    if abs(abs(t) - 1) > 1e-6: raise Bad("%s turns %.3g times instead of once" % (what, t))

def circle(S, R, axis=2):
    for (u,) in S.grid(2):
        x, y, z, w = S.at(u); positive(w, "the circle")
        need(x * x + y * y - R * R * w * w, "the point at parameter %s has distance %.6g from the axis instead of %s" % (fmtq(u), math.hypot(*S.point(u)[:2]), fmtq(value(R))))
        need(z, "the point at parameter %s is not in the plane z = 0" % fmtq(u))
    once([S.point(u)[:2] for (u,) in S.grid(2)], "the circle")

def quadric(S, f, what):
    for t in S.grid(4 if what == "torus" else 2):
        X = S.at(*t); positive(X[3], what)
        need(f(*X), "the point (%s) at parameter %s is not on the %s" % (", ".join("%.6g" % x for x in S.point(*t)), ", ".join(map(fmtq, t)), what))

def around(S, what):
    """the direction in which the surface runs once around the z axis, taken at a middle parameter of the other one"""
    for i in (0, 1):
        a, b = S.ends(1 - i); mid = a + (b - a) * Fraction(3, 7); lo, hi = S.ends(i); n = 24
        ps = [S.point(*((lo + (hi - lo) * Fraction(k, n), mid) if i == 0 else (mid, lo + (hi - lo) * Fraction(k, n)))) for k in range(n + 1)]
        if abs(abs(turning([p[:2] for p in ps])) - 1) < 1e-6 and math.dist(ps[0], ps[-1]) < 1e-6: return i
    raise Bad("%s does not run once around the z axis" % what)
def edge(S, i, k, fr=(0, Fraction(1, 5), Fraction(3, 7), 1)):
    """points of the border of direction i (k = 0 start, 1 end)"""
    lo, hi = S.ends(1 - i); t = S.ends(i)[k]
    return [S.point(*((t, lo + (hi - lo) * f) if i == 0 else (lo + (hi - lo) * f, t))) for f in fr]

def sphere(S, R):
    quadric(S, lambda x, y, z, w: x * x + y * y + z * z - R * R * w * w, "sphere")
    i = around(S, "the sphere"); r = value(R)
    zs = [edge(S, 1 - i, k) for k in (0, 1)]
    for e in zs:
        if any(math.hypot(p[0], p[1]) > 1e-7 * r for p in e): raise Bad("the sphere does not end in its poles")
    if abs(zs[0][0][2] + zs[1][0][2]) > 1e-6 * r: raise Bad("the sphere covers only one pole")

def disk(S, R, zz):
    r = value(R); far = []
    for t in S.grid(2):
        x, y, z, w = S.at(*t); positive(w, "the disk"); p = S.point(*t)
        need(z - zz * w, "the point (%s) of the disk is not in its plane z = %s" % (", ".join("%.6g" % q for q in p), fmtq(value(zz))))
        far.append(math.hypot(p[0], p[1]))
    if max(far) > r * (1 + 1e-9): raise Bad("a point of the disk has distance %.6g from the axis, the radius is %.6g" % (max(far), r))
    i = around(S, "the disk"); es = [edge(S, 1 - i, k) for k in (0, 1)]
    es.sort(key=lambda e: math.hypot(*e[0][:2]))
    if any(math.hypot(*p[:2]) > 1e-7 * r for p in es[0]): raise Bad("the disk does not reach its centre")
    # the border is the circle, and the disk is straight from the centre to it
    k = 0 if max(math.hypot(*p[:2]) for p in edge(S, 1 - i, 0)) > 1e-7 * r else 1
    t = S.ends(1 - i)[k]
    for u in samples([S.dirs[i][0]], 2 * S.dirs[i][1]):
        x, y, z, w = S.at(*((u, t) if i == 0 else (t, u)))
        need(x * x + y * y - R * R * w * w, "the border of the disk is not the circle of the radius")

def torus(S, R, r):
    def f(x, y, z, w):
        q = x * x + y * y + z * z + (R * R - r * r) * w * w
        return q * q - 4 * R * R * (x * x + y * y) * w * w
    quadric(S, f, "torus"); i = around(S, "the torus"); a, b = S.ends(i); m = a + (b - a) * Fraction(3, 7); lo, hi = S.ends(1 - i)
    ps = [S.point(*((m, lo + (hi - lo) * Fraction(k, 24)) if i == 0 else (lo + (hi - lo) * Fraction(k, 24), m))) for k in range(25)]
    once([(math.hypot(p[0], p[1]) - value(R), p[2]) for p in ps], "the section of the torus")

def cylinder(Ss, R, h):
    caps = []; side = 0; hh = value(h)
    for S in Ss:
        zs = [S.point(*t)[2] for t in S.grid(1)]
        if max(zs) - min(zs) < 1e-7 * hh:
            s = 1 if zs[0] > 0 else -1; disk(S, R, h * Fraction(s, 2)); caps.append(s); outward(S, lambda p, s=s: (0, 0, s), "a cap of the cylinder")
        else:
            quadric(S, lambda x, y, z, w: x * x + y * y - R * R * w * w, "cylinder"); i = around(S, "the cylinder"); side += 1
            ends = sorted({round(p[2] / hh, 6) for k in (0, 1) for p in edge(S, 1 - i, k)})
            if ends != [-0.5, 0.5]: raise Bad("the cylinder runs from z = %s h to %s h instead of -h/2 to h/2" % (ends[0], ends[-1]))
            outward(S, lambda p: (p[0], p[1], 0), "the side of the cylinder")
    if sorted(caps) != [-1, 1] or side != 1: raise Bad("the cylinder has %d side surfaces, %d bottoms and %d tops" % (side, caps.count(-1), caps.count(1)))

def outward(S, f, what):
    for u in (Fraction(1, 7), Fraction(5, 7)):
        for v in (Fraction(2, 7), Fraction(4, 7)):
            a, b = S.ends(0), S.ends(1); u_ = a[0] + (a[1] - a[0]) * u; v_ = b[0] + (b[1] - b[0]) * v
            if dot(S.normal(u_, v_), f(S.point(u_, v_))) <= 0: raise Bad("%s is oriented inwards at parameter %s, %s" % (what, fmtq(u_), fmtq(v_)))

CORNERS = ((0, 0), (1, 0), (1, 1), (0, 1))
def corner(S, i):
    a, b = CORNERS[i]; return S.at(S.ends(0)[a], S.ends(1)[b])
def bilinear(S, want, what):
    """S is the bilinear patch with the cyclic corners `want` (exactly, with any start)"""
    got = [corner(S, i) for i in range(4)]; ok = None
    for k in range(4):
        r = [zero(got[i][a] - Q.of(want[(i + k) % 4][a]) * got[i][3]) for i in range(4) for a in range(3)]
        if all(x is True for x in r): ok = k; break
        if not any(x is False for x in r): ok = None; raise Open(what)
    if ok is None: raise Bad("%s: the corners are %s" % (what, " ".join("(%s)" % ", ".join("%.4g" % (value(x[a]) / value(x[3])) for a in range(3)) for x in got)))
    for u, v in S.grid(1):
        (a0, a1), (b0, b1) = S.ends(0), S.ends(1); s = (u - a0) / (a1 - a0); t = (v - b0) / (b1 - b0)
        co = [(1 - s) * (1 - t), s * (1 - t), s * t, (1 - s) * t]; X = S.at(u, v); positive(X[3], what)
        for a in range(3):
            need(X[a] - sum((Q.of(want[(i + ok) % 4][a]) * co[i] for i in range(4)), Q({}, Fraction(0))) * X[3], "%s is not the straight patch between its corners at parameter %s, %s" % (what, fmtq(u), fmtq(v)))

def box(Ss, sz):
    seen = []
    h = [value(x) / 2 for x in sz]
    for S in Ss:
        cs = [[value(corner(S, i)[a]) / value(corner(S, i)[3]) for a in range(3)] for i in range(4)]
        side = None
        for a in range(3):
            if all(abs(c[a] - cs[0][a]) < 1e-9 for c in cs): side = (a, 1 if cs[0][a] > 0 else -1)
        if side is None: raise Bad("a surface of the box is not parallel to a side")
        a, s = side; b, d = (a + 1) % 3, (a + 2) % 3; want = []
        for x, y in ((1, 1), (-1, 1), (-1, -1), (1, -1)) if s > 0 else ((1, 1), (1, -1), (-1, -1), (-1, 1)):
            p = [None] * 3; p[a] = sz[a] * Fraction(s, 2); p[b] = sz[b] * Fraction(x, 2); p[d] = sz[d] * Fraction(y, 2); want.append(tuple(p))
        bilinear(S, want, "side %s%s of the box (outwards)" % ("+" if s > 0 else "-", "xyz"[a])); seen.append(side)
    if sorted(seen) != sorted((a, s) for a in range(3) for s in (1, -1)): raise Bad("the box has %d surfaces, for %d sides" % (len(seen), len(set(seen))))

def same(A, B, text):
    """the homogeneous points agree up to a positive factor"""
    wa, wb = A[3], B[3]
    if all(zero(a - b) is True for a, b in zip(A, B)): return
    for a, b in zip(A[:3], B[:3]): need(a * wb - b * wa, text)
def extruded(S, C, dr):
    a, b = S.ends(1)
    for u in samples([C.dirs[0][0], S.dirs[0][0]], C.dirs[0][1]) + [C.ends(0)[0], C.ends(0)[1]]:
        X = C.at(u)
        for t in (0, 1, Fraction(1, 3)):
            v = a + (b - a) * t
            same(S.at(u, v), [x + Q.of(d) * X[3] * t for x, d in zip(X, dr)] + [X[3]], "at parameter %s, %s the surface is not the curve moved by %s of the direction" % (fmtq(u), fmtq(v), fmtq(t)))
def ruled(S, C1, C2):
    a, b = S.ends(1)
    for u in samples([C1.dirs[0][0], S.dirs[0][0]], C1.dirs[0][1]) + [C1.ends(0)[0], C1.ends(0)[1]]:
        X, Y = C1.at(u), C2.at(u)
        same(S.at(u, a), X, "at parameter %s the surface does not start on the first curve" % fmtq(u))
        same(S.at(u, b), Y, "at parameter %s the surface does not end on the second curve" % fmtq(u))
        Z = S.at(u, a + (b - a) / 3); t = Fraction(1, 3)
        if all(zero(z - x * (1 - t) - y * t) is True for x, y, z in zip(X, Y, Z)): continue
        p, q, r = [[value(k[i]) / value(k[3]) for i in range(3)] for k in (X, Y, Z)]
        if any(abs(x) > 1e-6 for x in cross(sub(q, p), sub(r, p))): raise Bad("at parameter %s the surface is not straight between the two curves" % fmtq(u))
        raise Open("the points between the curves")
def revolved(S, C):
    """one direction of the surface turns the profile about the z axis through a full circle"""
    n = len(C.pts); K, d, k = C.dirs[0]
    i = around(S, "the surface") if any(abs(value(p[0])) + abs(value(p[1])) > 0 for p in C.pts) else 0
    Ku, du, ku = S.dirs[i]; us = sorted(set(samples([Ku], 2 * du) + sorted(set(Ku)))); turn = []
    for u in us:
        for v in samples([K, S.dirs[1 - i][0]], d) + [K[0], K[-1]]:
            x, y, z, w = S.at(*((u, v) if i == 0 else (v, u))); X, Y, Z, W = C.at(v)
            positive(w, "the surface"); txt = "at parameter %s, %s" % (fmtq(u), fmtq(v))
            # factor of the weights and the angle at this parameter, from the concrete values; then exact for all inputs
            c = value(w) / value(W); X0, Y0, x0, y0 = value(X), value(Y), value(x), value(y); q = X0 * X0 + Y0 * Y0
            if q < 1e-12: continue
            A = (x0 * X0 + y0 * Y0) / q; B = (y0 * X0 - x0 * Y0) / q
            if abs(A * A + B * B - c * c) > 1e-9 * max(1, c * c): raise Bad("%s the distance from the axis is %.6g, that of the profile %.6g" % (txt, math.hypot(x0, y0) / value(w), math.sqrt(q) / value(W)))
            A, B, c = Fraction(A), Fraction(B), Fraction(c)
            need(w - W * c, txt + ": the weight is not that of the profile times a common factor")
            need(z - Z * c, txt + ": the height is not that of the profile")
            need(x - X * A + Y * B, txt + ": the surface is not the turned profile"); need(y - X * B - Y * A, txt + ": the surface is not the turned profile")
            turn.append((u, float(A), float(B)))
    byu = {}
    for u, A, B in turn:
        if u in byu and math.dist(byu[u], (A, B)) > 1e-6: raise Bad("at parameter %s the points of the profile are turned by different angles" % fmtq(u))
        byu.setdefault(u, (A, B))
    once([byu[u] for u in sorted(byu)], "the surface")
    s = byu[min(byu)]
    if s[0] <= 0 or abs(s[1]) > 1e-6: raise Bad("the surface does not start at the profile")

def listed(S, pts, d):
    if S.dirs[0][1] != d: raise Bad("the degree is %d" % S.dirs[0][1])
    if len(S.pts) != len(pts): raise Bad("%d control points for %d given points" % (len(S.pts), len(pts)))
    for i, (p, q) in enumerate(zip(S.pts, pts)):
        for a, b in zip(p, q): need(Q.of(a) - Q.of(b), "control point %d is not the given point" % i)
    for w in S.ws: need(Q.of(w) - Q.of(S.ws[0]), "the weights are not equal")
    K = S.dirs[0][0]; inner = K[d:len(K) - d]; st = (inner[-1] - inner[0]) / (len(inner) - 1)
    if any(abs(b - a - st) > TOL for a, b in zip(inner, inner[1:])) or len(set(K[:d + 1])) != 1 or len(set(K[len(K) - d - 1:])) != 1: raise Bad("the knots %s are not uniform and clamped" % " ".join(map(fmtq, K)))

# ------------------------------------------------------------------
def curves_of(n, d, mu, tag, seed):
    P_, W = ctrl(n, seed)
    return [tuple(Q.var("%s%s%d" % (tag, "xyz"[k], i), p[k] + Fraction(k + 1, 7)) for k in range(3)) for i, p in enumerate(P_)], [Q.var("%sw%d" % (tag, i), w) for i, w in enumerate(W)]

def run(c):
    c.rule("shape", "the effect of the builder is applied to polynomials over its parameters (control points, weights, radii, lengths); the resulting shape, evaluated through the B-spline basis at enough parameters of every knot interval to determine the identity, satisfies the defining equation of the shape for all values of the parameters")
    c.assume("exact real arithmetic; constants of the code such as 1/sqrt(2) up to a relative error of 1e-9", "positive sizes and weights; curves given to the sweeps: 1 <= degree < number of points, clamped knots; a ruled surface joins curves of equal degree and knots", "coverage and orientation are read at one concrete choice of the parameters (they do not depend on it for positive sizes)")
    few = [(2, 1, ()), (4, 1, (1, 1)), (3, 2, ()), (6, 2, (2, 1)), (5, 3, (1,))]
    for dn, what in BUILDERS:
        if dn.startswith("NurbsUtil::create_from_z"): continue
        with c.group(dn.split("(")[0] + ("(solid)" if "NurbsSolid&" in dn and "create_from_mesh" not in dn else "")): builder(c, dn, what, few)

def builder(c, dn, what, few):
    fs = c.m.named(dn)
    if len(fs) != 1: raise AnalysisError("anchor vanished: " + dn)
    f = fs[0]; name = dn.split("(")[0].split("::")[1]
    L = Lab(c, mesh=(what == "mesh")); args = []; n = d = None; curves = []; out = kind = mesh = pq = None
    for i, a in enumerate(f.args):
        T = f.dt[i + 1].replace("const ", "").replace("&", "").replace("*", "").strip()
        if a["t"] == "ptr":
            if T in ("NurbsExtrude", "NurbsRuled", "NurbsRevolve"): args.append(L.out("tool"))
            elif T == "NurbsCurve" and what == "curve":
                if n is None: n = L.int_("n", 2); d = L.int_("d", 1)
                N = Nurbs(L, "C%d" % len(curves), CURVE, n, d); curves.append(N); args.append(N.p)
            elif T in ("NurbsCurve", "NurbsSurface", "NurbsSolid"):
                kind = {"NurbsCurve": CURVE, "NurbsSurface": SURF, "NurbsSolid": None}[T]; out = L.out("out"); args.append(out)
            elif T == "Point3": args.append(L.point("p%d" % i))
            elif T == "Mesh": mesh = L.mesh("m"); args.append(mesh)
            elif T.startswith("vector<Point3"): n = L.int_("n", 2); pq = L.out("pts"); L.it.set_vsize(L.st, pq, n); args.append(pq)
            else: raise Und("argument " + T)
        elif a["t"] == "double": args.append(L.real("r%d" % i))
        elif a["t"] == "i32": d = L.int_("d", 1); args.append(d)
        else: raise Und("argument type " + a["t"])
    lists = {N.name: {x: N.list(x) for x in CURVE["lists"]} for N in curves}
    r = L.run(f, *args); c.functions.update(x.dn for x in L.visited())
    V = View(c, kind or SURF)
    if what == "curve": cases = [dict(n=x, d=y, mu=mu) for x, y, mu in few]
    elif what == "points": cases = [dict(n=x, d=y) for y in (1, 2, 3) for x in range(y + 1, y + 5)]
    elif what == "mesh": cases = [dict(nt=1), dict(nt=3), dict(nt=4, dead=(1,))]
    else: cases = [dict()]
    bad = why = None; tried = 0; FL = Flags(c) if kind is not CURVE else None; nobody = 0
    joined = [dict(x, ends=e) for x in cases for e in ((True, False), (False, True), (True, True), ("near", "near"))] if what == "curve" else []
    if any(x in dn for x in ("extrude(", "revolve(")): joined = [x for x in joined if x["ends"][0]]
    scaled = [dict(scale=Fraction(*x)) for x in ((1, 20), (30, 1))] if cases == [{}] and any(a["t"] == "double" for a in f.args) else []
    for cs, byval in [(x, False) for x in cases] + [(x, True) for x in cases + joined + scaled]:
        if bad: break
        Q.by_value = byval
        env = {}; reals = []; points = []; cur = []; T = Tables(); given = None
        for i, a in enumerate(f.args):
            if a["t"] == "double": x = Q.var("r%d" % i, Fraction(17 - 4 * i, 3) * cs.get("scale", 1)); env[one_atom(args[i])] = x; reals.append(x)
            elif a["t"] == "ptr" and "Point3" in f.dt[i + 1] and "vector" not in f.dt[i + 1]:
                p = [Q.var("p%d%s" % (i, "xyz"[j]), Fraction(3 * i * (j + 1) + j * j * i * i + 1, 2)) for j in range(3)]; points.append(p)
                for co, x in zip(L.coords(args[i]), p): env[one_atom(co)] = x
        if n is not None: env[atom_of(n - 2)] = cs["n"] - 2
        if d is not None: env[atom_of(d - 1)] = cs["d"] - 1
        for j, N in enumerate(curves):
            P_, Ws = curves_of(cs["n"], cs["d"], cs["mu"], "ab"[j], 3 * j + 1); K = knot_vector(cs["n"], cs["d"], cs["mu"])
            if cs.get("ends", (0, 0))[j]: P_[-1] = P_[0] if cs["ends"][j] is True else tuple(x + Fraction(1, 100) for x in P_[0])
            T.fill(lists[N.name], dict(knots=K, weights=Ws, points=P_))
            cur.append(Shape([(K, cs["d"], cs["n"])], P_, Ws))
        if pq is not None: given = curves_of(cs["n"], 1, (), "a", 1)[0]; T.fill({"p": pq}, {"p": given})
        if mesh is not None:
            meshtable(L, T, mesh, cs)
            for x, y in ((L.nt(mesh), cs["nt"]), (L.nv(mesh), 3 * cs["nt"])):
                if isinstance(x, Poly) and not x.is_const(): env[one_atom(x)] = y
        txt = ", ".join("%s=%s" % kv for kv in cs.items()); txt = txt + ": " if txt else ""
        try:
            R = Replay(L, T, env); R.debug = bool(os.environ.get("CADSA_DEBUG2")); R.run(r.ev)
            o = num_obj(out.obj, R.env); off = int(num_eval(out.off, R.env)); objs = []
            if kind is not None:
                O = Nurbs.__new__(Nurbs); O.L = L; O.kind = kind; O.cls = kind["cls"]; O.name = "out"; O.p = out
                objs = [shape(V, R, o, off, Final(R, V, O, L).read(), kind)]
            else:
                q = L.call("NurbsSolid::surfaces() const", out); sz = L.m.sizeof("NurbsSurface"); so = num_obj(q.obj, R.env); soff = int(num_eval(q.off, R.env))
                for i in range(int(R.M.read(so, soff))): objs.append(shape(V, R, ("E", so, soff), i * sz, V.read(R, ("E", so, soff), i * sz), SURF))
            tried += not byval
            judge(name, kind, objs, reals, points, cur, given, cs)
            if byval and FL:
                for i, S in enumerate(objs):
                    S.flags = FL.read(R, ("E", so, soff), i * sz) if kind is None else [bool(num_eval(L.call("NurbsSurface::is_closed_%s() const" % x, out), R.env)) for x in "uv"]
                    closing(S)
                    nobody += 1
        except (NoValue, Open) as x:
            if not byval: why = why or txt + str(x)
            elif c.debug: print("by value:", dn, txt, x)
            continue
        except Bad as x: bad = txt + str(x) + ("" if not reals else " (sizes %s)" % ", ".join(fmtq(x.v) for x in reals)); break
        finally: Q.by_value = False
    c.count("cases", tried)
    if FL and not bad: c.decide(True if nobody else None, "closed", "%d surfaces are marked closed exactly where they close" % nobody, f)
    if bad: c.refuted("shape", bad, f)
    else: c.decide(True if tried and not why else None, "shape", why or "%d cases" % tried, f)

def patch(S, pts, text):
    """the bilinear surface over the corners in order; a triangle has any one of its corners twice"""
    first = doubt = None
    for q in [list(pts)] if len(pts) == 4 else [list(pts[:i + 1]) + list(pts[i:]) for i in (2, 0, 1)]:
        try: bilinear(S, q, text); return
        except Bad as x: first = first or x
        except Open as x: doubt = x
    raise doubt or first

def one(objs, what):
    if len(objs) != 1: raise Bad("%d surfaces for a %s" % (len(objs), what))
    return objs[0]
def judge(name, kind, objs, reals, points, cur, given, cs):
    if name == "create_circle": circle(objs[0], reals[0])
    elif name == "create_disk": disk(objs[0], reals[0], Q.of(0))
    elif name == "create_sphere":
        S = one(objs, "sphere"); sphere(S, reals[0])
        outward(S, lambda p: p, "the sphere")
    elif name == "create_torus":
        S = one(objs, "torus"); torus(S, *reals)
        if kind is None:
            R = value(reals[0])
            outward(S, lambda p: (p[0] - R * p[0] / math.hypot(p[0], p[1]), p[1] - R * p[1] / math.hypot(p[0], p[1]), p[2]), "the torus")
    elif name == "create_cylinder": cylinder(objs, *reals)
    elif name == "create_box": box(objs, reals)
    elif name == "create_quad": patch(objs[0], points, "the quad")
    elif name == "create_triangle": patch(objs[0], points, "the triangle")
    elif name == "create_curve_from_points": listed(objs[0], given, cs["d"])
    elif name == "extrude": extruded(objs[0], cur[0], points[0])
    elif name == "create_ruled": ruled(objs[0], *cur)
    elif name == "revolve": revolved(objs[0], cur[0])
    elif name == "create_from_mesh":
        live = [i for i in range(cs["nt"]) if i not in cs.get("dead", ())]
        if len(objs) != len(live): raise Bad("%d surfaces for %d live triangles" % (len(objs), len(live)))
        left = list(objs)
        for i in live:
            co = [tuple(Fraction(((3 * i + k) * 5 + a * a * 3) % 11, 2) for a in range(3)) for k in range(3)]
            for S in left:
                try: patch(S, co, "")
                except Bad: continue
                left.remove(S); break
            else: raise Bad("no surface is triangle %d" % i)
