"""C17: applying a transform replaces every point by its image exactly once and changes nothing else."""
from common import *
from ident import *
from replay import *
import kernel

def run(c):
    c.rule("points", "after the call the coordinates of every point are tf(x,y,z) of its former coordinates, tf an uninterpreted map: content read back at a symbolic index; nested containers: one application per cell of an exact loop nest over all cells")
    c.rule("rest", "every other cell of the object (connectivity, removed marks, weights, knots, degrees, sizes, colour) has its former content")
    c.assume("apply(p) of a transform replaces the coordinates of p (and nothing else) by a function of them")
    with c.group("storage"): kernel.contract(c)
    for f in sorted(c.m.match(r"::apply_transform\(Transform const&\)$|^Transform::apply_all\("), key=lambda f: f.dn):
        if f.decl: continue
        with c.group(f.dn.split("(")[0]): subject(c, f)

class TF:
    """the transform argument: a virtual call with a point"""
    def __init__(s): s.L = None
    def __call__(s, it, call):
        mm = s.L.mm
        if len(call.args) != 2: return NotImplemented
        t, p = call.args
        if not all(isinstance(l, Ptr) and l.obj == ("arg", "t") for l in leaves(t)): return NotImplemented
        co = [it.load(call.st, bind(lambda q, o=o: Ptr(q.obj, q.off + o), p), 8, "double") for o in mm.pt]
        it.emit("tf", "tf", [p, co])
        for o, v in zip(mm.pt, [apply(lambda *x, n=n: A("tf", n, *x), *co) for n in range(3)]):
            it.store(call.st, bind(lambda q, o=o: Ptr(q.obj, q.off + o), p), v, 8)
        return None

def tfnum(n, x, y, z): return [3 * x + 5 * y + 7 * z + 11, 2 * x - y + 13 * z - 17, x + 4 * y - 6 * z + 29][n]

SCAL = {"double": (8, "double"), "float": (4, "float"), "int": (4, "i32"), "bool": (1, "i8"), "unsigned char": (1, "i8"), "unsigned int": (4, "i32")}
def vecelem(t):
    m = re.match(r"(?:std::)?vector<(.*?), std::allocator<.*> ?>$", t)
    return m.group(1) if m else None

def leaves_of(m, T, obj, base, path=""):
    """[(path, kind, obj, offset, size, ty)], kind point|data|vec ; vec entries carry the element type"""
    out = []
    if T == "Point3": return [(path, "point", obj, base, 24, None)]
    if T in SCAL: return [(path, "data", obj, base) + SCAL[T]]
    e = vecelem(T)
    if e: return [(path, "vec", obj, base, e, None)]
    for n, off, t, sz in m.fields(T):
        if n.startswith("_vptr"): continue
        if t.endswith("*"): raise Und("pointer member %s of %s" % (n, T))
        out += leaves_of(m, t, obj, base + off, path + "." + n)
    return out

KNOWN = {"QuadBezierTriangle": 6, "NurbsSurface": 1, "SmoothMesh": 1, "NurbsSolid": 1, "Point3 list": 1}

def subject(c, f):
    T = f.dn.split("::")[0]
    tf = TF(); L = Lab(c, {"<virtual>": tf}); tf.L = L
    t = L.obj("t")
    if T == "Mesh": m = L.mesh("m"); k = L.kernel(m)
    elif T == "Transform": m = L.out("o"); T = "vector<Point3, std::allocator<Point3> >"; k = None
    else: m = L.out("o"); k = None
    if vecelem(T) is None and T not in ("Mesh", "SmoothMesh", "QuadBezierTriangle", "NurbsSurface", "NurbsSolid"): raise Und("class " + T)
    before = State(dict(L.st.mem))
    r = L.run(f, *([t, m] if "apply_all" in f.dn else [m, t]))
    c.functions.update(x.dn for x in L.visited())
    wit = witness(c, L, r, f, T, m, k)
    if wit is not None:
        c.refuted("points" if wit[0] else "rest", wit[1], wit[2] or f); return
    if k is not None: mesh(c, L, r, f, m, k, before); return
    prove(c, L, r, f, T, m, before)

def want(x): return [A("tf", n, *x) for n in range(3)]
def cut(v, *conds):
    for g in conds: v = restrict(v, g)
    return v

def mesh(c, L, r, f, m, k, before):
    j = L.int_("j"); it = L.it; V = ("MV", k); Tt = ("MT", k)
    nv, nt = L.mm.nv(it, before, k), L.mm.nt(it, before, k)
    def pos(st): return [it.read(it.getmem(st, V), V, j.scale(24) + 8 * a, 8, "double") for a in range(3)]
    g = gt0(nv - j, True)
    same(c, "points", [cut(x, g) for x in pos(L.st)], want(pos(before)), f)
    same(c, "rest.sizes", [L.mm.nv(it, L.st, k), L.mm.nt(it, L.st, k)], [nv, nt], f)
    g = gt0(nt - j, True)
    same(c, "rest.triangles", [cut(it.read(it.getmem(L.st, Tt), Tt, j.scale(16) + 4 * a, 4, "i32"), g) for a in range(4)], [it.read(it.getmem(before, Tt), Tt, j.scale(16) + 4 * a, 4, "i32") for a in range(4)], f)
    for n, off, T, sz in L.m.fields("Mesh"):
        if T in SCAL: same(c, "rest" + n, L.load(Ptr(m.obj, P(off)), *SCAL[T]), it.load(before, Ptr(m.obj, P(off)), *SCAL[T]), f)
    ok = kernel_of(it, L.st, m) == k
    c.decide(True if ok else None, "rest.store", "the mesh keeps its store", f)

def prove(c, L, r, f, T, m, before):
    it = L.it; npt = 0
    def cells(obj, off, w, ty, st): return it.read(it.getmem(st, obj), obj, off, w, ty)
    def go(lv, obj, base, conds, depth):
        nonlocal npt
        for path, kind, o, off, a, ty in lv:
            key = path.strip(".") or "list"
            if kind == "point":
                npt += 1
                get = lambda st: [cells(o, base + off + x, 8, "double", st) for x in L.mm.pt]
                same(c, "points." + key, [cut(x, *conds) for x in get(L.st)], want(get(before)), f)
            elif kind == "data": same(c, "rest." + key, cut(cells(o, base + off, a, ty, L.st), *conds), cells(o, base + off, a, ty, before), f)
            else:
                n0 = it.vsize(before, Ptr(o, base + off)); n1 = it.vsize(L.st, Ptr(o, base + off))
                same(c, "rest." + key + ".size", cut(n1, *conds), n0, f)
                el = leaves_of(L.m, a, ("E", o, base + off), 0, path + "[]")
                if any(x[1] == "vec" for x in el): npt += 1; nest(c, L, r, f, o, base + off, a, key, before); continue
                j = A("idx", key, ints=True); declare_nonneg(j)
                go(el, ("E", o, base + off), j.scale(L.m.sizeof(a)), conds + [gt0(n0 - j, True)], depth + 1)
    go(leaves_of(L.m, T, m.obj, 0), m.obj, ZERO, [], 0)
    exp = KNOWN.get(T, 1)
    if T == "SmoothMesh": exp = 6
    if npt != exp: c.unknown("points.members", "%d point members, %d known" % (npt, exp), f)

def nest(c, L, r, f, o, off, E, key, before):
    """containers of objects that hold containers: every effect belongs to a transform application, one per cell of the loop nest"""
    it = L.it; sz = L.m.sizeof(E)
    n0 = it.vsize(before, Ptr(o, off)); B = ("E", o, off)
    el = leaves_of(L.m, E, B, 0)
    pts = [x for x in el if x[1] == "vec" and x[4] == "Point3"]
    if len(pts) != 1 or any(x[1] == "point" for x in el): raise Und("points of " + E)
    poff = pts[0][3]
    tfs = []; why = None
    for e, fors in walk(r.ev):
        if not isinstance(e, Ev): continue
        if e.kind == "tf": tfs.append((e, fors))
        elif e.kind in ("store",):
            ob = e.args[0].obj
            if not (tfs and any(a.kind == "tf" for a in deep_atoms(e.args[1]))): why = "other store %s" % e
        elif e.kind in ("index", "new", "delete"): pass
        elif e.kind == "vec" and e.x.get("local"): pass
        else: why = "effect %s" % e
    if why is None and len(tfs) != 1: why = "%d applications" % len(tfs)
    if why is None:
        e, fors = tfs[0]; p = e.args[0]
        if len(fors) != 2 or not isinstance(p, Ptr): why = "shape of the loops"
        else:
            F, G = fors; i, j = F.k, G.k
            obj = ("E", B, i.scale(sz) + poff)
            inner = it.vsize(before, Ptr(B, i.scale(sz) + poff))
            if not (F.exact and G.exact and F.trip == n0 and G.trip == inner): why = "ranges %s and %s" % (F.trip, G.trip)
            elif trip_free(G.guard, [F]) != ONE or trip_free(e.guard, [F, G]) != ONE: why = "conditional application"
            elif not (p.obj == obj and p.off == j.scale(24)): why = "applied to %s" % (p,)
            elif not all(isinstance(x, Poly) and len(x.t) == 1 and one(x).kind == "ld" and (one(x).args[0] == "i" or one(x).args[0][0] == "L") and one(x).args[1] == obj and one(x).args[2] == j.scale(24) + o2 for x, o2 in zip(e.args[1], L.mm.pt)): why = "argument %s" % (e.args[1],)
    c.decide(True if why is None else None, "points." + key, why or "one application per point of each of the %s" % E, f)
    c.decide(True if why is None else None, "rest." + key, why or "nothing else is written", f)
def one(p): return atom_by_id(one_atom(p))

# ------------------------------------------------------------------ witnesses
STYLES = (lambda n: Fraction(n * n + 3 * n, 2), lambda n: Fraction(n * n + n) * 10 ** 7, lambda n: Fraction(n + 2, 10 ** 8), lambda n: Fraction(-n * n - 5), lambda n: Fraction(0), lambda n: Fraction(n % 3), lambda n: Fraction(n * n * (-1) ** n, 3))
CHAIN = lambda n: Fraction(n)       # each point is the image of the one before
def witness(c, L, r, f, T, m, k):
    for size, style in [(z, STYLES[0]) for z in ((1, 1), (2, 3), (3, 2), (0, 0), (4, 4))] + [((2, 3), y) for y in STYLES[1:] + (CHAIN,)] + [((3, 2), CHAIN)]:
        try: w = try_one(c, L, r, f, T, m, k, size, style)
        except NoValue as x:
            if c.debug: print("NoValue", f.dn, size, x)
            continue
        if w: return w
    return None

def accessor(L, dn):
    """offset of the data member an accessor returns"""
    try: f = L.m.find(dn)
    except Exception: return None
    M = Lab(L.c); v = M.call(f, M.out("q"))
    for l in leaves(v):
        if isinstance(l, Poly) and len(l.t) == 1:
            a = one(l)
            if a.kind == "ld" and a.args[1] == ("arg", "q"): return int(a.args[2].const())
    return None

def try_one(c, L, r, f, T, m, k, size, style):
    cells = {}; points = []; data = []; cnt = [0]
    def val(): cnt[0] += 1; return style(cnt[0])
    last = []
    def point():
        v = [val() for _ in range(3)]
        if style is CHAIN: last[:] = v = [tfnum(n, *last) for n in range(3)] if last else v
        return v
    def fill(lv, dims, over=None):
        for path, kind, o, off, a, ty in lv:
            if kind == "point":
                for x, v in zip(L.mm.pt, point()): cells[(o, off + x)] = v
                points.append((path, o, off))
            elif kind == "data":
                cells[(o, off)] = (over or {}).get(off, 1 if a == 1 else cnt[0] % 5 + 1 if ty.startswith("i") else val()); data.append((path, o, off)); cnt[0] += 1
            else:
                n = dims[0] if over is None else dims[0] * dims[1] if off in over["pts"] else 3
                cells[(o, off)] = n; data.append((path, o, off)); sz = L.m.sizeof(a)
                for i in range(n):
                    ov = surf(a, i * sz) if a == "NurbsSurface" else None
                    fill(leaves_of(L.m, a, ("E", o, off), i * sz, "%s[%d]" % (path, i)), (dims[1:] or (2,)) if ov is None else (dims[1], i + 1), ov)
    def surf(T, base):
        nu, nv = accessor(L, "NurbsSurface::nb_points_u() const"), accessor(L, "NurbsSurface::nb_points_v() const")
        pts = [x[3] for x in leaves_of(L.m, "NurbsSurface", ("q",), 0) if x[1] == "vec" and (x[4] == "Point3" or "weight" in x[0])]
        return {"nu": nu, "nv": nv, "pts": {base + p for p in pts}, "base": base}
    if k is not None:
        nv = 3 * max(1, size[0]); nt = size[0]
        for i in range(nv):
            for a, v in enumerate(point()): cells[(("MV", k), 24 * i + 8 * a)] = v
            points.append(("vertex %d" % i, ("MV", k), 24 * i))
        for i in range(nt):
            for a in range(4): cells[(("MT", k), 16 * i + 4 * a)] = 3 * i + a if a < 3 else (i % 2 if size[1] > 1 else 0); data.append(("triangle %d" % i, ("MT", k), 16 * i + 4 * a))
        cells[(("M", k), 0)] = nv; cells[(("M", k), 8)] = nt
        data += [("number of vertices", ("M", k), 0), ("number of triangles", ("M", k), 8)]
        names = {atom_of(A("nv", "m", ints=True)): nv, atom_of(A("nt", "m", ints=True)): nt}
        nk = num_obj(k, {})
        cells = {(num_obj(o, {}), n): v for (o, n), v in cells.items()}
    else:
        ov = surf(T, 0) if T == "NurbsSurface" else None
        fill(leaves_of(L.m, T, m.obj, 0), size, ov); names = {}
        # numbers of control points agree with the lists
        def dims(o, base, d):
            s = surf("NurbsSurface", 0)
            if s["nu"] is not None: cells[(o, base + s["nu"])] = d[0]
            if s["nv"] is not None: cells[(o, base + s["nv"])] = d[1]
        if T == "NurbsSurface": dims(m.obj, 0, size)
        if T == "NurbsSolid":
            for path, kind, o, off, a, ty in leaves_of(L.m, T, m.obj, 0):
                if kind == "vec":
                    for i in range(size[0]): dims(("E", o, off), i * L.m.sizeof(a), (size[1:] + (2,))[0:1] + (i + 1,))
    cells = {(num_obj(o, {}), n): v for (o, n), v in cells.items()}
    def init(o, n):
        v = cells.get((o, n))
        if v is None: raise NoValue("%s %s" % (fmt_obj(o), n))
        return v
    R = Replay(L, init, names, {"tf": tfnum}, ignore=("tf",))
    if k is not None:
        for n, off, Tt, sz in L.m.fields("Mesh"):
            if Tt in SCAL:
                R.names[atom_of(A("fld", "m", n, ints=Tt != "double"))] = 7
                cells[(m.obj, off)] = 7; data.append((n, m.obj, off))
    R.run(r.ev)
    where = {(num_obj(o, {}), n): e for o, n, e in R.log}
    txt = "with %s " % ("%d vertices and %d triangles" % (cells[(num_obj(("M", k), {}), 0)], cells[(num_obj(("M", k), {}), 8)]) if k is not None else "sizes %s" % (size,))
    for path, o, off in points:
        o = num_obj(o, {}); old = [cells[(o, off + x)] for x in (L.mm.pt if k is None else (0, 8, 16))]
        new = [R.M.read(o, off + x) for x in (L.mm.pt if k is None else (0, 8, 16))]
        if any(x is None for x in new): raise NoValue("coordinates")
        w1 = [tfnum(n, *old) for n in range(3)]
        if new != w1:
            w2 = [tfnum(n, *w1) for n in range(3)]
            return True, txt + "%s %s" % (path.strip("."), "is not moved" if new == old else "is moved twice" if new == w2 else "becomes %s instead of the image %s of %s" % tuple(tuple(map(float, x)) for x in (new, w1, old))), where.get((o, off))
    for path, o, off in data:
        o = num_obj(o, {}); v = R.M.read(o, off)
        if v is None: raise NoValue("content")
        if v != cells[(o, off)]: return False, txt + "%s changes from %s to %s" % (path.strip("."), cells[(o, off)], v), where.get((o, off))
    return None
