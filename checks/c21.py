"""C21: NURBS objects produced by the library have consistent sizes and ordered knots."""
from common import *
from nurbs import *
from ident import solve_eqs
import os

class View:
    """accessors of a class, read on a concrete content"""
    def __init__(s, c, kind):
        s.L = Lab(c, mesh=False); s.kind = kind; s.cls = kind["cls"]; s.p = s.L.obj("probe"); s.L.st.mem[s.p.obj] = Mem("init", None, s.p.obj)
        s.ptr = {}; s.term = {}
        for n in kind["lists"]: s.ptr[n] = s.L.call("%s::%s() const" % (s.cls, n), s.p)
        for n in kind["ints"]: s.term[n] = s.L.call("%s::%s() const" % (s.cls, n), s.p)
    def read(s, R, o, off):
        """{name: value or list} of the object at (o, off) after the replay"""
        out = {}
        def at(a, env):
            if a.kind in ("ld", "vs"):
                t = a.args if a.kind == "ld" else ("i",) + tuple(a.args)
                if t[0] == "i" and t[1] == s.p.obj: return R.M.read(o, off + int(num_eval(t[2], env)))
            raise NoValue(fmt_atom(a))
        env = {"atoms": at}
        for n, t in s.term.items(): out[n] = int(num_eval(t, env))
        for n, q in s.ptr.items():
            w = 24 if n == "points" else 8; po = off + int(num_eval(q.off, env)); k = int(R.M.read(o, po)); b = ("E", o, po)
            out[n] = [R.M.read(b, 8 * i) for i in range(k)] if w == 8 else k
        return out

def order(k):
    return all(a <= b for a, b in zip(k, k[1:]))
def mults(k):
    out = []
    for x in k:
        if out and out[-1][0] == x: out[-1][1] += 1
        else: out.append([x, 1])
    return [m for x, m in out]
def clamped(k, d):
    m = mults(k)
    return len(m) >= 2 and m[0] == d + 1 and m[-1] == d + 1 and all(x <= d for x in m[1:-1])
def wrong(v, kind):
    """what is inconsistent about the concrete object v"""
    np_ = v["points"]
    if len(v["weights"]) != np_: return "%d weights for %d points" % (len(v["weights"]), np_)
    if kind is CURVE:
        if v["nb_points"] != np_: return "nb_points() is %d with %d points" % (v["nb_points"], np_)
        dirs = [("knots", v["nb_points"], v["degree"])]
    else:
        if v["nb_points_u"] * v["nb_points_v"] != np_: return "%d points for a net of %d x %d" % (np_, v["nb_points_u"], v["nb_points_v"])
        dirs = [("knots_u", v["nb_points_u"], v["degree_u"]), ("knots_v", v["nb_points_v"], v["degree_v"])]
    for n, k, d in dirs:
        if len(v[n]) != k + d + 1: return "%d %s for %d points and degree %d" % (len(v[n]), n, k, d)
        if not order(v[n]): return "%s not in increasing order: %s" % (n, " ".join(fmtq(x) for x in v[n]))
    return None
def fmtq(x): return str(x) if isinstance(x, int) or (isinstance(x, Fraction) and x.denominator < 1000) else "%.4g" % x

def run(c):
    c.rule("sizes", "the effect of the builder is a symbolic state; weights - points, points - nu*nv and knots - points - degree - 1 are zero as terms over the parameters, on every path")
    c.rule("shape", "the counts of the input object do not matter for the result: every combination of sizes, degrees and order type of the knots (clamped, interior multiplicity at most the degree) within the stated bound is put into the effect of the builder or refinement; the lists read off afterwards have consistent sizes and increasing knots, and again satisfy the precondition (so sequences of refinements stay consistent)")
    c.assume("1 <= degree < number of points; knots of an input object are clamped with interior multiplicity at most the degree", "a ruled surface joins curves of equal degree and size", "knots are compared exactly")
    m = c.m
    cfg = [(n, d, mu) for d in (1, 2, 3) for n in range(d + 1, d + 6) for mu in patterns(n - d - 1, d)] + NEAR
    few = [(2, 1, ()), (4, 1, (1, 1)), (3, 2, ()), (6, 2, (2, 1)), (5, 3, (1,))]
    with c.group("NurbsCurve"): refine_curve(c, cfg)
    with c.group("NurbsSurface"): refine_surface(c, few)
    for dn, kinds in BUILDERS:
        with c.group(dn.split("(")[0] + ("(solid)" if "NurbsSolid&" in dn and "create_from_mesh" not in dn else "")): builder(c, dn, kinds, few)

def patterns(total, d):
    """interior multiplicities: compositions of total with parts <= d"""
    if total == 0: return [()]
    return [(a,) + r for a in range(1, min(d, total) + 1) for r in patterns(total - a, d)]

def fills(N, n, d, mu, seed=0, suffix=""):
    P, W = ctrl(n, seed)
    return {x: N.list(x) for x in CURVE["lists"]}, dict(knots=knot_vector(n, d, mu), weights=W, points=P)

def after(R, V, p):
    return V.read(R, num_obj(p.obj, R.env), int(num_eval(p.off, R.env)))

def internal(N, names):
    """(offset, term) of the plain integer members of a symbolic object"""
    out = []
    for name, off, t, sz in N.L.m.fields(N.cls):
        if t in ("int", "unsigned int"): out.append((name, off, N.L.load(Ptr(N.p.obj, N.p.off + off), 4, "i32")))
    return out

def zero_all(v):
    for l in leaves(v):
        x = l[-1] if isinstance(l, tuple) else l
        if not isinstance(x, Poly) or not x.is_zero(): return False
    return True

def sym_sizes(N, st_count):
    """terms that must vanish"""
    k = N.kind; sub = lambda a, b: bind2(lambda x, y: x - y, a, b)
    s = {l: N.size(l) for l in k["lists"]}; i = {l: N.count(l) for l in k["ints"]}
    out = [("weights", sub(s["weights"], s["points"]))]
    if k is CURVE:
        out += [("points", sub(s["points"], i["nb_points"])), ("knots", sub(sub(s["knots"], i["nb_points"]), bind(lambda x: x + 1, i["degree"])))]
    else:
        out += [("points", sub(s["points"], bind2(lambda x, y: x * y, i["nb_points_u"], i["nb_points_v"])))]
        for d in "uv": out += [("knots_" + d, sub(sub(s["knots_" + d], i["nb_points_" + d]), bind(lambda x: x + 1, i["degree_" + d])))]
    return out

# ------------------------------------------------------------------ refinements
def refine_curve(c, cfg):
    V = View(c, CURVE)
    L = Lab(c, mesh=False); n = L.int_("n", 2); d = L.int_("d", 1); u = L.real("u")
    N = Nurbs(L, "C", CURVE, n, d); base = dict(L.st.mem); ints = internal(N, None)
    for what in ("insert_knot", "degree_elevation", "set_uniform", "set_equals_weights"):
        f = c.m.named("NurbsCurve::%s(" % what)
        if len(f) != 1: raise AnalysisError("anchor vanished: NurbsCurve::%s" % what)
        f = f[0]; L.st.mem = dict(base)
        with c.group("NurbsCurve::" + what):
            r = L.it.run(f, [N.p] + ([u] if what == "insert_knot" else []), L.st)
            c.functions.update(x.dn for x in L.visited())
            # symbolic sizes for all counts
            zs = sym_sizes(N, None)
            bufs = {x: ("i", q) for x, q in lists0(L, N, base).items()}
            bad = None; tried = 0; why = None
            for nn, dd, mu in cfg:
                if bad: break
                K = knot_vector(nn, dd, mu); P_, W = ctrl(nn)
                us = [None]
                if what == "insert_knot":
                    ds = sorted(set(K)); us = ds + [(a + b) / 2 for a, b in zip(ds, ds[1:])] + [Fraction(-1, 2), Fraction(3, 2)]
                for uu in us:
                    T = Tables(); T.fill({x: q[1] for x, q in bufs.items()}, dict(knots=K, weights=W, points=P_))
                    env = {atom_of(n - 2): nn - 2, atom_of(d - 1): dd - 1, atom_of(u): uu if uu is not None else 0}
                    txt = "a curve of degree %d with %d points and knots %s%s" % (dd, nn, " ".join(fmtq(x) for x in K), "" if uu is None else ", knot %s inserted" % fmtq(uu))
                    try:
                        R = Replay(L, T, env); R.debug = bool(os.environ.get("CADSA_DEBUG2")); R.run(r.ev); v = after2(R, V, N, L)
                    except NoValue as x: why = why or "%s: %s" % (txt, x); continue
                    tried += 1
                    w = wrong(v, CURVE)
                    if not w and what != "set_equals_weights" and not clamped(v["knots"], v["degree"]): w = "knots %s are not clamped with multiplicity at most the degree %d" % (" ".join(fmtq(x) for x in v["knots"]), v["degree"])
                    if not w: w = stale(R, N, ints, n, d, v)
                    if w: bad = "%s: %s" % (txt, w); break
            c.count("cases", tried)
            if bad: c.refuted("shape", bad, f); continue
            c.decide(True if tried and not why else None, "shape", why or "%d cases" % tried, f)
            if what != "degree_elevation":
                for k, z in zs: c.decide(True if zero_all(z) else None, "sizes " + k, "" if zero_all(z) else str(z)[:200], f)

def lists0(L, N, base):
    keep = L.st.mem; L.st.mem = dict(base)
    try: return {x: N.list(x) for x in N.kind["lists"]}
    finally: L.st.mem = keep

def after2(R, V, N, L):
    """the object after the replay; plain members are read from the final symbolic state"""
    return Final(R, V, N, L).read()

class Final:
    def __init__(s, R, V, N, L): s.R = R; s.V = V; s.N = N; s.L = L
    def read(s):
        R, V, N = s.R, s.V, s.N
        out = {}
        for n in V.term: out[n] = int(num_eval(N.count(n), R.env))
        o = num_obj(N.p.obj, R.env)
        for n, q in V.ptr.items():
            po = int(num_eval(q.off, R.env)); b = ("E", o, po)
            k = int(R.M.read(o, po))
            out[n] = k if n == "points" else [R.M.read(b, 8 * i) for i in range(k)]
        return out

def stale(R, N, ints, n, d, v):
    """a member that the setters would have left with another value"""
    env = dict(R.env); env[atom_of(n - 2)] = v["nb_points"] - 2; env[atom_of(d - 1)] = v["degree"] - 1
    for name, off, t in ints:
        now = N.L.load(Ptr(N.p.obj, N.p.off + off), 4, "i32")
        a = num_eval(now, R.env); b = num_eval(t, env)
        if a != b: return "%s is %s, the setters leave %s for such a curve" % (name, a, b)
    return None

def refine_surface(c, few):
    V = View(c, SURF)
    L = Lab(c, mesh=False); nu = L.int_("nu", 2); du = L.int_("du", 1); nv = L.int_("nv", 2); dv = L.int_("dv", 1); u = L.real("u")
    N = Nurbs(L, "S", SURF, nu, nv, du, dv, closed=True); base = dict(L.st.mem); ints = internal(N, None); bufs = lists0(L, N, base)
    for what in ("insert_knot_u", "insert_knot_v", "degree_elevation_u", "degree_elevation_v", "set_uniform_u", "set_uniform_v", "set_equals_weights"):
        f = c.m.named("NurbsSurface::%s(" % what)
        if len(f) != 1: raise AnalysisError("anchor vanished: NurbsSurface::%s" % what)
        f = f[0]; L.st.mem = dict(base)
        with c.group("NurbsSurface::" + what):
            ins = what.startswith("insert")
            r = L.it.run(f, [N.p] + ([u] if ins else []), L.st)
            c.functions.update(x.dn for x in L.visited())
            bad = None; tried = 0; why = None
            for (n1, d1, m1), (n2, d2, m2), fl in surface_cases():
                if bad: break
                K1, K2 = knot_vector(n1, d1, m1), knot_vector(n2, d2, m2); P_, W = ctrl(n1 * n2)
                us = [None]
                if ins:
                    ds = sorted(set(K1 if what[-1] == "u" else K2)); us = ds[1:-1][:1] + [(ds[0] + ds[1]) / 2, Fraction(1)]
                for uu in us:
                    T = Tables(); T.fill(bufs, dict(knots_u=K1, knots_v=K2, weights=W, points=P_))
                    env = {atom_of(nu - 2): n1 - 2, atom_of(nv - 2): n2 - 2, atom_of(du - 1): d1 - 1, atom_of(dv - 1): d2 - 1, N.flags[0]: fl[0], N.flags[1]: fl[1], atom_of(u): uu if uu is not None else 0}
                    txt = "a surface of degrees %d, %d with %dx%d points%s%s" % (d1, d2, n1, n2, ("", ", closed in u", ", closed in v", ", closed in both directions")[fl[0] + 2 * fl[1]], "" if uu is None else ", knot %s inserted" % fmtq(uu))
                    try:
                        R = Replay(L, T, env); R.debug = bool(os.environ.get("CADSA_DEBUG2")); R.run(r.ev); v = Final(R, V, N, L).read()
                    except NoValue as x: why = why or "%s: %s" % (txt, x); continue
                    tried += 1
                    w = wrong(v, SURF)
                    if not w and what != "set_equals_weights":
                        for q in "uv":
                            if not clamped(v["knots_" + q], v["degree_" + q]): w = "knots_%s %s are not clamped with multiplicity at most the degree %d" % (q, " ".join(fmtq(x) for x in v["knots_" + q]), v["degree_" + q])
                    if w: bad = "%s: %s" % (txt, w); break
            c.count("cases", tried)
            if bad: c.refuted("shape", bad, f); continue
            c.decide(True if tried and not why else None, "shape", why or "%d cases" % tried, f)
            if what.startswith("set"):
                for k, z in sym_sizes(N, None): c.decide(True if zero_all(z) else None, "sizes " + k, "" if zero_all(z) else str(z)[:200], f)

# builder -> (what each pointer argument is); "curve"/"curve2"/"points"/"z"/"mesh" are inputs, "C"/"S"/"solid" outputs
BUILDERS = [("NurbsFactory::create_circle(", None), ("NurbsFactory::create_disk(", None), ("NurbsFactory::create_curve_from_points(", "points"),
            ("NurbsFactory::create_sphere(double, NurbsSurface&", None), ("NurbsFactory::create_sphere(double, NurbsSolid&", None),
            ("NurbsFactory::create_torus(double, double, NurbsSurface&", None), ("NurbsFactory::create_torus(double, double, NurbsSolid&", None),
            ("NurbsFactory::create_cylinder(", None), ("NurbsFactory::create_triangle(", None), ("NurbsFactory::create_quad(", None), ("NurbsFactory::create_box(", None),
            ("NurbsExtrude::extrude(", "curve"), ("NurbsRuled::create_ruled(", "curve"), ("NurbsRevolve::revolve(", "curve"),
            ("NurbsUtil::create_from_z(", "z"), ("NurbsUtil::create_from_mesh(", "mesh")]

def builder(c, dn, what, few):
    fs = c.m.named(dn)
    if len(fs) != 1: raise AnalysisError("anchor vanished: " + dn)
    f = fs[0]
    L = Lab(c, mesh=(what == "mesh")); args = []; n = d = W = H = None; curves = []; out = None; kind = None; mesh = None; zq = None; pq = None
    for i, a in enumerate(f.args):
        T = f.dt[i + 1].replace("const ", "").replace("&", "").replace("*", "").strip()
        cst = "const" in f.dt[i + 1]
        if a["t"] == "ptr":
            if T in ("NurbsExtrude", "NurbsRuled", "NurbsRevolve"): args.append(L.out("tool"))
            elif T == "NurbsCurve" and what == "curve":
                if n is None: n = L.int_("n", 2); d = L.int_("d", 1)
                N = Nurbs(L, "C%d" % len(curves), CURVE, n, d); curves.append(N); args.append(N.p)
            elif T in ("NurbsCurve", "NurbsSurface", "NurbsSolid"):
                kind = {"NurbsCurve": CURVE, "NurbsSurface": SURF, "NurbsSolid": None}[T]; out = L.out("out"); args.append(out)
            elif T == "Point3": args.append(L.point("p%d" % i))
            elif T == "Mesh": mesh = L.mesh("m"); args.append(mesh)
            elif T.startswith("vector<Point3"): n = L.int_("n", 2); pq = L.out("pts"); L.it.set_vsize(L.st, pq, n); args.append(pq)
            elif T.startswith("vector<double"): zq = L.out("z"); args.append(zq)
            else: raise Und("argument " + T)
        elif a["t"] == "double": args.append(L.real("r%d" % i))
        elif a["t"] == "i32":
            if what == "points": d = L.int_("d", 1); args.append(d)
            else:
                x = L.int_("k%d" % i, 2 if W is None or H is None else 1)
                if W is None: W = x
                elif H is None: H = x; L.it.set_vsize(L.st, zq, W * H)
                else: d = x
                args.append(x)
        else: raise Und("argument type " + a["t"])
    lists = {N.name: {x: N.list(x) for x in CURVE["lists"]} for N in curves}
    keep = dict(L.st.mem)
    r = L.run(f, *args); c.functions.update(x.dn for x in L.visited())
    V = View(c, kind or SURF)
    # --- concrete parameters
    cases = []
    if what == "curve": cases = [dict(n=x, d=y, mu=mu) for x, y, mu in few]
    elif what == "points": cases = [dict(n=x, d=y) for y in (1, 2, 3) for x in range(y + 1, y + 5)]
    elif what == "z": cases = [dict(W=x, H=y, d=z) for z in (1, 2, 3) for x in (z + 1, z + 3) for y in (z + 1, z + 2)]
    elif what == "mesh": cases = [dict(nt=1), dict(nt=3), dict(nt=4, dead=(1,))]
    else: cases = [dict()]
    bad = why = None; tried = 0
    for cs in cases:
        env = {}
        for i, a in enumerate(f.args):
            if a["t"] == "double": env[one_atom(args[i])] = Fraction(7 + 2 * i, 3)
            elif a["t"] == "ptr" and "Point3" in f.dt[i + 1] and "vector" not in f.dt[i + 1]:
                for j, co in enumerate(L.coords(args[i])): env[one_atom(co)] = Fraction(3 * i + j * j + 1, 2)
        T = Tables()
        if n is not None: env[atom_of(n - 2)] = cs["n"] - 2
        if d is not None: env[atom_of(d - 1)] = cs["d"] - 1
        for N in curves:
            P_, Ws = ctrl(cs["n"], len(env)); T.fill(lists[N.name], dict(knots=knot_vector(cs["n"], cs["d"], cs["mu"]), weights=Ws, points=P_))
            for name, off, t, sz in L.m.fields("NurbsCurve"):
                if t == "int" : T.t[(norm(num_obj(N.p.obj, {})), off)] = None
        if pq is not None: T.fill({"p": pq}, {"p": ctrl(cs["n"])[0]})
        if zq is not None:
            T.fill({"z": zq}, {"z": [Fraction((i * i) % 7, 2) for i in range(cs["W"] * cs["H"])]})
            env[atom_of(W - 2)] = cs["W"] - 2; env[atom_of(H - 2)] = cs["H"] - 2
        if mesh is not None:
            meshtable(L, T, mesh, cs)
            for x, y in ((L.nt(mesh), cs["nt"]), (L.nv(mesh), 3 * cs["nt"])):
                if isinstance(x, Poly) and not x.is_const(): env[one_atom(x)] = y
        txt = ", ".join("%s=%s" % kv for kv in cs.items()) or "any parameters"
        try:
            R = Replay(L, T, env); R.debug = bool(os.environ.get("CADSA_DEBUG2")); R.run(r.ev)
            objs = outputs(c, L, R, V, out, kind)
        except NoValue as x: why = why or "%s: %s" % (txt, x); continue
        tried += 1
        for i, v in enumerate(objs):
            w = wrong(v, kind or SURF)
            if w: bad = "%s%s: %s" % (txt, ", surface %d" % i if kind is None else "", w); break
        if not objs and kind is None and what != "mesh": bad = txt + ": the solid has no surface"
        if bad: break
    c.count("cases", tried)
    if bad: c.refuted("shape", bad, f); return
    c.decide(True if tried and not why else None, "shape", why or "%d cases" % tried, f)
    if kind is not None:
        O = Nurbs.__new__(Nurbs); O.L = L; O.kind = kind; O.cls = kind["cls"]; O.name = "out"; O.p = out
        for k, z in sym_sizes(O, None): c.decide(True if zero_all(z) else None, "sizes " + k, "" if zero_all(z) else str(z)[:200], f)

def outputs(c, L, R, V, out, kind):
    o = num_obj(out.obj, R.env); off = int(num_eval(out.off, R.env))
    if kind is not None:
        O = Nurbs.__new__(Nurbs); O.L = L; O.kind = kind; O.cls = kind["cls"]; O.name = "out"; O.p = out
        return [Final(R, V, O, L).read()]
    q = L.call("NurbsSolid::surfaces() const", out); sz = L.m.sizeof("NurbsSurface")
    so = num_obj(q.obj, R.env); soff = int(num_eval(q.off, R.env)); k = int(R.M.read(so, soff))
    return [V.read(R, ("E", so, soff), i * sz) for i in range(k)]

def meshtable(L, T, mesh, cs):
    k = norm(num_obj(L.kernel(mesh), {})); nt = cs["nt"]; dead = cs.get("dead", ())
    T.t[(("M", k), 0)] = 3 * nt; T.t[(("M", k), 8)] = nt
    for i in range(3 * nt):
        for a in range(3): T.t[(("MV", k), 24 * i + 8 * a)] = Fraction((i * 5 + a * a * 3) % 11, 2)
    for i in range(nt):
        for a in range(3): T.t[(("MT", k), 16 * i + 4 * a)] = 3 * i + a
        T.t[(("MT", k), 16 * i + 12)] = 1 if i in dead else 0
