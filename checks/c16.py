"""C16: rotations - the image of a symbolic point under each form, as polynomials in the sines and cosines of the angle."""
from common import *
from ident import *

def run(c):
    c.rule("rodrigues", "every angle/axis form maps p to cos(t) p + sin(t) (v x p) + (1-cos(t)) (v.p) v, as polynomials modulo half-angle, sin^2+cos^2=1 and |v|=1")
    c.rule("rigid", "|image|^2 = |p|^2 modulo the same relations; the axis is mapped to itself")
    c.rule("degrees", "the angle enters as angle*pi/180")
    c.rule("per coordinate", "translation adds and scaling multiplies each coordinate by its own parameter")
    c.rule("identity", "a default-constructed rotation is the identity")
    c.assume("real arithmetic; pi as written in the code up to 1e-9", "the axis is a unit vector")
    X, Y, Z = [A("arg", "p." + a) for a in "xyz"]; p0 = [X, Y, Z]
    for T in ("RotationMatrix", "RotationQuaternion", "RotationAngleAxis"):
        with c.group(T):
            L = Lab(c); f = L.find("%s::apply(Point3&) const" % T)
            r = L.new(T, "r"); p = L.point("p")
            L.call(f, r, p); same(c, "identity", L.coords(p), p0, f)
        with c.group(T + " angle/axis"): angle_axis(c, T, p0)
    with c.group("RotationAngleAxis variants"):
        for i, (ctor, dn) in enumerate((("RotationAngleAxis::RotationAngleAxis(double, Point3 const&)", None), (None, "RotationAngleAxis::set_angle_axis(double, Point3 const&)"))):
            angle_axis(c, "RotationAngleAxis", p0, ctor, dn, "%d" % i)
    with c.group("RotationMatrix set/get"):
        L = Lab(c); r = L.new("RotationMatrix", "r"); src = L.obj("m"); dst = L.obj("o")
        f = L.find("RotationMatrix::set_matrix(double*)")
        L.call(f, r, src); L.call("RotationMatrix::get_matrix(double*) const", r, dst)
        m = [L.load(Ptr(src.obj, P(8 * i)), 8, "double") for i in range(9)]
        same(c, "roundtrip", [L.load(Ptr(dst.obj, P(8 * i)), 8, "double") for i in range(9)], m, f)
        p = L.point("p"); L.call("RotationMatrix::apply(Point3&) const", r, p)
        same(c, "row major", L.coords(p), [m[3 * i] * X + m[3 * i + 1] * Y + m[3 * i + 2] * Z for i in range(3)], f)
    with c.group("RotationQuaternion set"):
        L = Lab(c); r = L.new("RotationQuaternion", "r"); src = L.obj("q")
        f = L.find("RotationQuaternion::set_quaternion(double*)"); L.call(f, r, src)
        q = [L.load(Ptr(src.obj, P(8 * i)), 8, "double") for i in range(4)]
        p = L.point("p"); L.call("RotationQuaternion::apply(Point3&) const", r, p); got = L.coords(p)
        a, b, d, e = q; v = [b, d, e]
        # p' = q p q*, |q| = 1
        cr = cross(v, p0); w = [a * p0[i] + cr[i] for i in range(3)]; dt = dot(v, p0)
        cr2 = cross(w, v); want = [dt * v[i] + a * w[i] - cr2[i] for i in range(3)]
        ids = [atom_of(x) for x in q]
        nf = unit_nf(ids)
        same(c, "q p q*", got, want, f, nf=nf, rel=unit_rel(ids))
        same(c, "rigid", apply(lambda *v: sum((x * x for x in v), ZERO), *got), sum((x * x for x in p0), ZERO), f, nf=nf, rel=unit_rel(ids))
    with c.group("RotationEulerAngles"):
        L = Lab(c); r = L.new("RotationEulerAngles", "r", "RotationEulerAngles::RotationEulerAngles(double, double, double)", *[L.real("old" + x) for x in ("yaw", "pitch", "roll")]); f = L.find("RotationEulerAngles::set_angles(double, double, double)")
        an = [L.real(x) for x in ("yaw", "pitch", "roll")]
        L.call(f, r, *an); p = L.point("p"); g = L.find("RotationEulerAngles::apply(Point3&) const"); L.call(g, r, p); got = L.coords(p)
        same(c, "rigid", apply(lambda *v: sum((x * x for x in v), ZERO), *got), sum((x * x for x in p0), ZERO), g, "length")
        deg(c, got, an, f, 1)
        r2 = L.new("RotationEulerAngles", "r2", "RotationEulerAngles::RotationEulerAngles(double, double, double)", *an)
        p2 = L.point("p2", p0); L.call(g, r2, p2)
        same(c, "constructor", L.coords(p2), got, g, "constructor and set_angles agree")
    again(c, p0)
    with c.group("Translation"):
        L = Lab(c); t = L.point("t"); r = L.new("Translation", "r", "Translation::Translation(Point3 const&)", t)
        p = L.point("p"); f = L.find("Translation::apply(Point3&) const"); L.call(f, r, p)
        same(c, "per coordinate", L.coords(p), [a + b for a, b in zip(p0, L.coords(t))], f)
    with c.group("Scale"):
        L = Lab(c); s = [L.real("s" + a) for a in "xyz"]; r = L.new("Scale", "r", "Scale::Scale(double, double, double)", *s)
        p = L.point("p"); f = L.find("Scale::apply(Point3&) const"); L.call(f, r, p)
        same(c, "per coordinate", L.coords(p), [a * b for a, b in zip(p0, s)], f)

SETTERS = (("RotationEulerAngles", "set_angles(double, double, double)", "ddd"), ("RotationQuaternion", "set_quaternion(double*)", "4"), ("RotationQuaternion", "from_angle_axis(double, Point3 const&)", "dp"),
    ("RotationMatrix", "set_matrix(double*)", "9"), ("RotationMatrix", "from_angle_axis(double, Point3 const&)", "dp"), ("RotationAngleAxis", "set_angle_axis(double, Point3 const&)", "dp"), ("RotationAngleAxis", "from_angle_axis(double, Point3 const&)", "dp"))
def again(c, p0):
    """a rotation that is set a second time is the rotation of the second setting"""
    c.rule("again", "the image of a point depends on the last setting only, whatever was set before")
    for T, sg, kinds in SETTERS:
        dn = T + "::" + sg
        if c.m.find(dn, False) is None: continue
        with c.group(dn.split("(")[0] + " again"):
            L = Lab(c); f = L.find(dn); tie = []
            def args(tag):
                out = []; ts = []
                for i, k in enumerate(kinds):
                    if k == "d": out.append(L.real("%s%d" % (tag, i))); ts.append(out[-1])
                    elif k == "p": out.append(L.point("%s%d" % (tag, i))); ts += L.coords(out[-1])
                    else: out.append(L.obj("%s%d" % (tag, i))); ts += [L.load(Ptr(out[-1].obj, P(8 * n)), 8, "double") for n in range(int(k))]
                return out, [atom_of(x) for x in ts]
            (a1, i1), (a2, i2) = args("first"), args("second")
            if T == "RotationEulerAngles": r, q = [L.new(T, n, T + "::" + T + "(double, double, double)", *a0) for n, a0 in (("r", a1), ("q", [ZERO] * 3))]
            else: r, q = L.new(T, "r"), L.new(T, "q")
            L.call(f, r, *a1); L.call(f, r, *a2); L.call(f, q, *a2)
            p, g = L.point("p"), L.find("%s::apply(Point3&) const" % T); p2 = L.point("p2", p0)
            L.call(g, r, p); L.call(g, q, p2)
            def rel(env, rnd):
                env = dict(env); z = rnd.random() < 0.3
                for x, y in zip(i1, i2):
                    if z and y in env: env[y] = 0
                    if rnd.random() < 0.6 and y in env: env[x] = env[y]
                return env
            same(c, "again", L.coords(p), L.coords(p2), f, "after another setting:", rel=rel)
    for T, n in (("RotationQuaternion", 4), ("RotationMatrix", 9)):
        ctor = "%s::%s(double*)" % (T, T)
        if c.m.find(ctor, False) is None: continue
        with c.group(T + " from array"):
            L = Lab(c); src = L.obj("m"); r = L.new(T, "r", ctor, src); q = L.new(T, "q")
            L.call(T + ("::set_matrix(double*)" if n == 9 else "::set_quaternion(double*)"), q, src)
            p, g = L.point("p"), L.find("%s::apply(Point3&) const" % T); p2 = L.point("p2", p0)
            L.call(g, r, p); L.call(g, q, p2)
            same(c, "constructor", L.coords(p), L.coords(p2), L.find(ctor))

def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def dot(a, b): return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]

def unit_nf(ids):
    """x_n^2 -> 1 - sum of the other squares"""
    last = ids[-1]
    def nf(p):
        while True:
            co = p.coeffs_in(last)
            hi = max([e for e in co] or [0])
            if hi < 2: return p
            r = ZERO; x = P(atom_by_id(last))
            s = ONE
            for i in ids[:-1]: s = s - P(atom_by_id(i)) ** 2
            for e, q in co.items():
                r = r + (q * x ** e if e < 2 else q * x ** (e - 2) * s)
            p = r
    return nf
def unit_rel(ids):
    def rel(env, rnd):
        n = math.sqrt(sum(float(env.get(i, 0)) ** 2 for i in ids))
        if n == 0: return None
        env = dict(env)
        for i in ids:
            if i in env: env[i] = float(env[i]) / n
            else: return None
        return env
    return rel

def trig_atoms(vs):
    return [a for a in deep_atoms(tuple(vs)) if a.kind in ("cos", "sin")]
def deg(c, got, angles, f, half):
    ids = [atom_of(a) for a in angles]
    for a in trig_atoms(got):
        ar = a.args[0]
        if not ar.is_const():
            at = [x for x in ar.atoms()]
            if len(at) == 1 and at[0] in ids and len(ar.t) == 1:
                k = float(ar.coeffs_in(at[0])[1].const()) * 360 / math.pi
                n = k / 1
                ok = abs(abs(n) - 2) < 1e-6 or (half == 2 and abs(abs(n) - 1) < 1e-6) or (half == 2 and abs(n - round(n)) < 1e-6 and round(n) != 0)
                c.decide(True if ok else False, "degrees", "%s(%.9g rad per degree)" % (a.kind, float(ar.coeffs_in(at[0])[1].const())), f)
                continue
        c.unknown("degrees", "argument %s" % ar, f)

def half_angle(ang):
    """rewrite sines and cosines of multiples of the half angle to polynomials in C=cos(t/2), S=sin(t/2)"""
    aid = atom_of(ang); C = A("cos", A("sym", "t2")); S = A("sin", A("sym", "t2"))
    C = cos(A("sym", "t2")); S = sin(A("sym", "t2"))
    def mult(n):
        if n < 0:
            a, b = mult(-n); return a, -b
        a, b = ONE, ZERO
        for _ in range(n): a, b = a * C - b * S, a * S + b * C
        return a, b
    def f(p):
        m = {}
        for a in deep_atoms(p):
            if a.kind in ("cos", "sin"):
                ar = a.args[0]
                co = ar.coeffs_in(aid) if isinstance(ar, Poly) else {}
                if set(co) != {1} or not co[1].is_const(): raise Und("angle argument %s" % ar)
                k = float(co[1].const()) * 360 / math.pi
                if abs(k - round(k)) > 1e-6 or abs(k) > 20: raise Und("angle factor %s" % k)
                x, y = mult(round(k)); m[a.id] = x if a.kind == "cos" else y
        return Subst(m).any(p)
    return f, C, S

def angle_axis(c, T, p0, ctor=None, dn=None, tag=""):
    L = Lab(c); ang = L.real("angle"); ax = L.point("v"); v = L.coords(ax); ids = [atom_of(x) for x in v]
    g = L.find("%s::apply(Point3&) const" % T)
    if ctor: r = L.new(T, "r", ctor, ang, ax); f = L.find(ctor)
    else:
        r = L.new(T, "r"); f = L.find(dn or "%s::from_angle_axis(double, Point3 const&)" % T)
        L.call(f, r, ang, ax)
    p = L.point("p"); L.call(g, r, p); raw = L.coords(p)
    aid = atom_of(ang)
    # numeric expectation in the raw terms (witness), symbolic in the half angle
    t = ang.scale(Fraction(math.pi) / 180)
    def rod(ct, st): 
        cr = cross(v, p0); d = dot(v, p0)
        return [ct * p0[i] + st * cr[i] + (ONE - ct) * d * v[i] for i in range(3)]
    wantn = rod(cos(t), sin(t))
    deg(c, raw, [ang], f, 2)
    fn, C, S = half_angle(ang)
    nf0 = unit_nf(ids)
    try: got = [bind(fn, x) for x in raw]; sym = True
    except Und as e: sym = False; why = str(e)
    if sym:
        want = rod(C * C - S * S, (S * C).scale(2))
        ok, w = compare(got, want, nf=lambda q: nf0(trig_reduce(q)), rel=unit_rel(ids))
    else: ok, w = None, why
    if ok is not True:
        ur = unit_rel(ids)
        def rel(env, rnd):
            env = ur(env, rnd)
            if env and aid in env: env[aid] = env[aid] * rnd.choice((1, 3, 7, 11))     # also angles of more than half a turn
            return env
        ok2, w2 = compare(raw, wantn, nf=nf0, rel=rel)
        if ok2 is False: ok, w = False, w2
        elif ok is False: ok = None
    c.decide(ok, "rodrigues" + tag, w, f)
    if sym:
        nf = lambda q: nf0(trig_reduce(q))
        same(c, "rigid" + tag, sum((x * x for x in got), ZERO) if is_poly(*got) else None, sum((x * x for x in p0), ZERO), f, nf=nf, rel=unit_rel(ids)) if is_poly(*got) else c.unknown("rigid" + tag, "conditional", f)
        m = {atom_of(a): b for a, b in zip(p0, v)}
        same(c, "axis" + tag, [Subst(m).any(x) for x in got], v, f, nf=nf, rel=unit_rel(ids))
