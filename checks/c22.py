"""C22: builders do not depend on the former content of their output."""
import time
from common import *
from ident import *
from c17 import leaves_of, vecelem, SCAL
from cadsa.stream import *
from small import flat, root, terms
import c24, c11, kernel
from iocheck import Io, io_pred

RX = (r"^(MeshFactory::create_\w+|SmoothMeshFactory::create_\w+|NurbsFactory::create_\w+|NurbsUtil::(create_\w+|to_\w*mesh)|MeshUtil::create_\w+"
      r"|MeshTessellate::compute|MeshBoolean::split_meshes|NurbsExtrude::extrude|NurbsRuled::create_ruled|NurbsRevolve::revolve|NurbsCurve::(to_polyline|evaluate)"
      r"|NurbsSurface::(evaluate|create_\w_curves)|OBJFile::load|STLFile::load|BezierUtil::\w+|GeometryUtil::compute_random_axis|Image::to_double|ImageGenerator::\w+|ImageUtil::convert_to_bw|ImageIoBmp::read)\(")
OUT = "OUT"
CLASSES = ("Mesh", "SmoothMesh", "NurbsCurve", "NurbsSurface", "NurbsSolid", "Image", "Point3")
# pieces modelled as one step of their own (each is analysed as a builder itself)
DEEP = {"NurbsUtil::to_mesh(NurbsSolid": "NurbsUtil::to_mesh(NurbsSurface const&, Mesh&, int, bool)"}

def outputs(c, f):
    """[(argument number, class)] of the objects a builder fills"""
    out = []
    for n, a in enumerate(f.args):
        if a["t"] != "ptr" or a["n"] == "this": continue
        T = f.dt[n + 1]
        if T.startswith("const") or " const" in T: continue
        if f.dn.startswith("MeshBoolean::") and len(out) == 2: break    # the last two outputs are not produced yet
        B = T.rstrip("*& ").strip()
        if B in CLASSES or vecelem(B): out.append((n, B))
    return out

def pick_bool(c, f, n):
    """a flag that asks for emptying the target is given; other flags are free"""
    return ONE if re.search("clear|Clear", f.args[n]["n"]) else None

def run(c):
    c.rule("reset", "every list and store of the output is emptied or replaced, on every path that succeeds, before anything is added to it")
    c.rule("old content", "no value kept by the builder (stored, appended, returned in the output), no condition and no loop bound is a function of the former content of the output")
    c.rule("coverage", "where the storage is only resized, every element of it is stored afterwards")
    c.rule("emptying", "clear of the mesh store, of surfaces, solids and smooth meshes leaves the state of a new object")
    with c.group("storage"): kernel.contract(c)
    fs = sorted(c.m.match(RX), key=lambda f: f.dn)
    n = 0
    for f in fs:
        o = outputs(c, f)
        if not o: continue
        n += 1
        with c.group(f.dn.split("(")[0] + "(" + ", ".join(t.split("::")[-1] for t in f.dt[1:])[:60] + ")"): builder(c, f, o)
    c.count("builders", n)
    if n < 30: c.unknown("builders", "only %d builders found" % n)
    for T in ("NurbsSurface", "NurbsSolid", "SmoothMesh"):
        with c.group(T + "::clear"): emptying(c, T)

def emptying(c, T):
    f = c.m.find("%s::clear()" % T, False)
    if f is None: return
    L = Lab(c); p = L.out(OUT); q = L.new(T, "fresh"); L.call(f, p)
    c.functions.add(f.dn)
    for (path, kind, o, off, a, ty), (_, _, o2, off2, _, _) in zip(leaves_of(L.m, T, p.obj, 0), leaves_of(L.m, T, q.obj, 0)):
        k = path.strip("._")
        if kind == "vec": same(c, k, L.it.vsize(L.st, Ptr(o, P(off))), L.it.vsize(L.st, Ptr(o2, P(off2))), f, "length of %s:" % k)
        elif kind == "data": same(c, k, L.load(Ptr(o, P(off)), a, ty), L.load(Ptr(o2, P(off2)), a, ty), f)

def is_out(o): 
    r = root(o)
    return isinstance(r, tuple) and len(r) > 1 and (r[0] == "arg" and isinstance(r[1], str) and r[1].startswith(OUT)
        or r[0] == "heap" and OUT in str(r[1]) or r[0] == "setup" and OUT in str(r))
def old_atoms(x, done):
    """former content of an output in a value; done(object): was it replaced before any loop that may be in between"""
    bad = []
    for a in deep_atoms(x):
        if a.kind == "ld" and is_out(a.args[1]) and (a.args[0] == "i" or not done(a.args[1])): bad.append(a)
        elif a.kind == "vs" and is_out(a.args[0]): bad.append(a)
        elif a.kind in ("nv", "nt", "fld") and str(a.args[0]).startswith(OUT): bad.append(a)
    return bad

def builder(c, f, outs):
    models = {}; S = Streams(c.m); models.update(S.models())
    for k, v in DEEP.items():
        if f.dn.startswith(k):
            def h(it, call): it.emit("piece", v, list(call.args)); return None
            models[v] = h
    if f.dn.startswith("MeshBoolean::"):
        def split(it, call): it.emit("piece", "split_triangle", list(call.args)); return None
        models["Mesh::split_triangle(int, Triangle3 const&)"] = split
        models[re.compile(r"^BoundingBox3::intersect_with\(BoundingBox3")] = lambda it, call: A("meet", call.i.get("id", 0), ints=True)
    if not f.dn.startswith(("NurbsSurface::", "NurbsCurve::evaluate")):
        # points of a surface: evaluated into a point of their own (evaluate is itself analysed as a builder)
        def ev(it, call):
            p = call.args[-1]; it.emit("piece", "evaluate", list(call.args))
            for o in L.mm.pt: it.store(call.st, bind(lambda q, o=o: Ptr(q.obj, q.off + o), p), A("evaluated", o, *[x for x in call.args[1:-1] if isinstance(x, Poly)]), 8)
            return None
        models["NurbsSurface::evaluate(double, double, Point3&) const"] = ev
    L = Lab(c, models); args = []; out = []
    for n, a in enumerate(f.args):
        T = f.dt[n + 1]; B = T.replace("const ", "").rstrip("*& ").strip(); o = n in [x for x, _ in outs]
        nm = (OUT if o else "") + a["n"]
        if a["t"] == "ptr" and B == "Mesh": p = L.mesh(nm)
        elif a["t"] == "ptr": p = L.out(nm)
        elif a["t"] in ("double", "float"): p = L.real(nm)
        elif a["t"] in ("i1", "i8"): p = pick_bool(c, f, n) or A("arg", nm, ints=True)
        else: p = L.int_(nm)
        args.append(p)
        if o: out.append((nm, B, p))
    imgs = {nm: c24.Img(L, nm) for nm, B, p in out if B == "Image"}
    r = L.run(f, *args)
    c.functions.update(z.dn for z in L.visited())
    ok = to_cond(r.ret) if f.dt[0] == "bool" and r.ret is not None else ONE
    evs = list(walk(r.ev))
    comps = []          # (label, kind, data)
    for nm, B, p in out:
        lab = nm[len(OUT):]
        if B == "Mesh": comps.append((lab, "mesh", L.kernel(p), p))
        elif B == "Image":
            im = imgs[nm]
            for g, t in (("width", im.W), ("height", im.H), ("planes", im.P)): comps.append((lab + "." + g, "val", L.call("Image::%s() const" % g, p), None))
            comps.append((lab + ".pixels", "buffer", im.buf, im))
        else:
            for path, kind, o, off, a, ty in leaves_of(L.m, B, p.obj, 0):
                if kind == "vec": comps.append((lab + path, "vec", Ptr(o, P(off)), a))
                elif kind == "point": comps += [(lab + path + "." + x, "val", L.load(Ptr(o, P(off + d)), 8, "double"), None) for x, d in zip("xyz", L.mm.pt)]
                else: comps.append((lab + path, "val", L.load(Ptr(o, P(off)), a, ty), None))
    if any(e.kind in ("call", "vcall", "havoc") and any(isinstance(l, Ptr) and is_out(l.obj) for a in e.args for l in (leaves(a) if isinstance(a, (Ptr, Node)) else [])) for e, _ in evs if isinstance(e, Ev)): hidden = True
    else: hidden = False
    # which components are replaced before anything else happens to them
    reset = set(); verdicts = []
    for lab, kind, x, extra in comps:
        if kind == "mesh":
            mine = lambda e: e.kind == "mesh" and e.args[0] == x or e.kind == "piece" and extra in e.args
            drop = lambda e: e.name == "clear" or e.kind == "piece" and e.args[-1] != ZERO and isinstance(e.args[-1], (Poly, Node))
            s, why, e = resets(evs, ok, mine, drop)
            if s is True: reset |= {("M", x), ("MV", x), ("MT", x)}
            elif not hidden:
                w = stays(evs, ok, mine, drop, lambda e: True)
                if w: s = False; why = "the former content stays (%s)" % w
            verdicts.append((lab, kind, x, extra, s, why, e))
        elif kind == "vec":
            mine = lambda e: e.kind == "vec" and same_place(e.args[0], x)
            drop = lambda e: e.name in ("clear", "new", "set") or e.name == "copy" and not (len(e.args) > 2 and isinstance(e.args[2], Ptr) and is_out(e.args[2].obj)) or e.name == "resize" and e.args[1] == ZERO or e.name == "swap" and len(e.args) > 1 and isinstance(e.args[1], Ptr) and not is_out(e.args[1].obj)
            s, why, e = resets(evs, ok, mine, drop)
            if s is True: reset.add(L.it.vbuf(x))
            elif not hidden:
                w = stays(evs, ok, mine, drop, lambda e: e.name == "push")
                if w: s = False; why = "the former content stays (%s)" % w
            verdicts.append((lab, kind, x, extra, s, why, e))
        else: verdicts.append((lab, kind, x, extra, None, "", None))
    def done(o):
        while isinstance(o, tuple):
            if o in reset: return True
            if o and o[0] == "E" and len(o) > 1: o = o[1]
            else: return False
        return False
    # nothing that is kept comes from the former content
    own = {x for lab, kind, x, extra in comps if kind == "buffer" and f.dn.startswith("ImageIoBmp")}     # what the reader stores is decided pixel by pixel below
    taint = None
    for e, fors in evs:
        if isinstance(e, For): xs = [e.guard, e.trip if e.trip is not None else ZERO, e.stay if e.stay is not None else ZERO] + [y for v in (e.recs or {}).values() for y in (v[1], v[2])]
        elif e.kind == "vec" and e.name == "resize": xs = [e.guard] + list(e.args[1:2])
        elif e.kind == "index": continue
        elif e.kind == "store" and isinstance(e.args[0], Ptr) and e.args[0].obj in own: xs = [e.guard]
        elif e.kind in ("call", "vcall", "havoc") and any(isinstance(l, Ptr) and is_out(l.obj) for a in e.args for l in (leaves(a) if isinstance(a, (Ptr, Node)) else [])):
            taint = (None, "%s may use the output" % e.name, e); break
        elif e.kind == "copy" and isinstance(e.args[1], Ptr) and is_out(e.args[1].obj) and not done(e.args[1].obj):
            taint = (None, "former content is copied", e); break
        else: xs = [e.guard] + [y for y in flat(terms(e)) if isinstance(y, (Poly, Node))] + [y for y in flat(e.args) if isinstance(y, (Poly, Node))]
        for y in xs:
            if y is None: continue
            if isinstance(y, Node) or isinstance(y, Poly):
                b = old_atoms(y, done)
                if b: taint = (None, "%s depends on %s" % (e if not isinstance(e, For) else "a loop", fmt_atom(b[0])[:120]), e); break
        if taint: break
    bad = False
    for lab, kind, x, extra, s, why, e in verdicts:
        bad |= judge(c, L, r, f, lab, kind, x, extra, s, why, e, ok, evs, taint, args)
    if not bad:
        c.decide(True if taint is None else None, "independence", "no kept value, condition or loop bound mentions the former content" if taint is None else taint[1], taint[2] if taint and isinstance(taint[2], Ev) else f)

def same_place(p, q): return isinstance(p, Ptr) and p.obj == q.obj and p.off == q.off

def resets(evs, ok, mine, is_reset):
    """(True / None / False, why, event): every event on the component happens after a reset"""
    G = ZERO; first = None; any_ = False
    for e, fors in evs:
        if isinstance(e, For) or not mine(e): continue
        any_ = True
        g = e.guard
        if is_reset(e) and not fors: G = c_or(G, g); continue
        if c_and(c_and(g, ok), c_not(G)) != ZERO and first is None: first = e
    if first is not None: return None, "%s before the former content is dropped" % first, first
    left = c_and(ok, c_not(G))
    if left != ZERO: return None, ("nothing is done to it" if not any_ else "not emptied when %s" % str(left)[:160]), None
    return True, "emptied or replaced first", None

def prime(v):
    """the same value for another former content"""
    amap = {}
    for a in deep_atoms(v):
        if a.kind in ("nv", "nt", "fld") and str(a.args[0]).startswith(OUT) or a.kind in ("ld", "vs") and is_out(a.args[1] if a.kind == "ld" else a.args[0]):
            b = A("sym", "other", a.kind, *[repr(x) if not isinstance(x, (Poly, Node, int, str)) else x for x in a.args], ints=a.ints)
            if a.kind in ("nv", "nt", "vs"): declare_nonneg(b)
            amap[a.id] = b
    return Subst(amap).any(v)

def differs(v, ok=ONE, dom=ONE):
    """a witness that the value differs between two former contents"""
    if not isinstance(v, (Poly, Node)): return None
    if not any(a.kind in ("nv", "nt", "vs", "fld") and OUT in repr(a.args) or a.kind == "ld" and is_out(a.args[1]) for a in deep_atoms(v)): return None
    g = calm(c_and(ok, dom))
    try:
        v = calm(restrict(v, ok) if ok != ONE else v)
        d = c_and(g, prime(g))
        s, t = compare(ite(d, v, ZERO), ite(d, prime(v), ZERO))
    except (Und, Blowup): return None
    return t if s is False else None

def calm(v):
    """the case in which no operation on the file fails"""
    g = ONE
    for q in preds_of(v) if isinstance(v, Node) else []:
        k = io_pred(q)
        if k: g = c_and(g, mk(q.id, ZERO, ONE) if k[0] != "ioopen" else mk(q.id, ONE, ZERO))
    return restrict(v, g) if g != ONE else v

def sat(g):
    """an input for which the condition holds, as text"""
    g = calm(g)
    if g == ZERO or not isinstance(g, (Poly, Node)): return None
    if tainted(g): return None
    if g == ONE: return "every input"
    try: ps = [p for p, l in paths(g) if isinstance(l, Poly) and not l.is_zero()]
    except Und: return None
    ats = free_atoms(g); th = thresholds(g)
    for p in ps[:12]:
        if any(q.kind != "gt" for q, v in p): continue
        for env in samples(ats, th, 80):
            env = solve_eqs(p, env)
            if any(a in _nn_() and v < 0 for a, v in env.items()): continue
            # the former content is not empty
            if any(v <= 0 for a, v in env.items() if atom_by_id(a).kind in ("nv", "nt") and str(atom_by_id(a).args[0]).startswith(OUT) or atom_by_id(a).kind == "vs" and is_out(atom_by_id(a).args[0])): continue
            try:
                if all((num_eval(q.poly, env) > 0) == v for q, v in p): return fmt_env(env)
            except (NoValue, ZeroDivisionError, TypeError, OverflowError): continue
    return None
def _nn_():
    from cadsa import val
    return val._nonneg

def stays(evs, ok, mine, is_reset, plain):
    """an input for which no reset happens and the former content stays"""
    D = ok
    for e, fors in evs:
        if isinstance(e, For) or not mine(e): continue
        if is_reset(e):
            if not fors: D = c_and(D, c_not(e.guard))
            else:
                F = fors[0]
                if F.trip is None or not F.exact: return None
                D = c_and(D, c_not(gt0(F.trip, True)))
        elif not plain(e): return None
    return sat(D)

def judge(c, L, r, f, lab, kind, x, extra, s, why, e, ok, evs, taint, args):
    if kind == "val":
        v = restrict(x, ok) if ok != ONE else x
        b = old_atoms(v, lambda o: False)
        if not b and not has_undef(v): c.proved(lab, "a function of the inputs", f); return False
        w = differs(v, ok)
        if w: c.refuted(lab, "%s depends on the former content: %s" % (lab, w), f); return True
        c.unknown(lab, "%s" % str(v)[:200], f); return False
    if kind == "buffer": return pixels(c, L, r, f, lab, x, extra, ok, args)
    if s is True: c.proved(lab, why, f); return False
    if s is False: c.refuted(lab, why, e or f); return True
    if kind == "mesh" and re.match("(STL|OBJ)File::load", f.dn):
        w = load_keeps(c, f)
        if w: c.refuted(lab, w, e or f); return True
    vals = [("number of vertices", L.mm.nv(L.it, r.st, x)), ("number of triangles", L.mm.nt(L.it, r.st, x))] if kind == "mesh" else [("length of %s" % lab, L.it.vsize(r.st, x))]
    for what, v in vals:
        w = differs(v, ok, gt0(A("nv", OUT + lab, ints=True), True) if kind == "mesh" else ONE)
        if w: c.refuted(lab, "the %s depends on the former content of the output: %s" % (what, w), e or f); return True
    if kind == "vec":
        n = L.it.vsize(r.st, x); j = A("idx", lab, ints=True); declare_nonneg(j)
        Z = {"double": [(0, 8, "double")], "Point3": [(d, 8, "double") for d in L.mm.pt], "int": [(0, 4, "i32")]}.get(extra)
        if Z and isinstance(n, Poly):
            B = L.it.vbuf(x); dom = gt0(n - j, True)
            for d, w_, ty in Z:
                v = L.it.load(r.st, Ptr(B, j.scale(L.m.sizeof(extra)) + d), w_, ty)
                w = differs(v, ok, dom)
                if w: c.refuted(lab, "element %s depends on the former content: %s" % (lab, w), e or f); return True
        if e is not None and e.name == "resize" or f.dn.startswith("Image::to_double"):
            if f.dn.startswith("Image::to_double"): return doubles(c, L, r, f, lab, x, args)
    c.unknown(lab, why, e or f); return False

def load_keeps(c, f):
    """a file whose loading succeeds and leaves the former content"""
    import c12
    from filesim import TextSim
    io = Io(c, f); k, nm = c12.mesh_arg(io)
    V = ["v 0 0 0", "v 1 0 0", "v 0 1 0"]
    if f.dn.startswith("OBJ"): files = [("lines %s" % "; ".join(ls), {"lines": ls}) for ls in ([], ["# nothing"], V, V + ["f 1 2 3"], ["# x"] + V + ["f 1 2 3", "f 3 2 1"])]
    else:
        files = []
        for n in (0, 1, 2):
            s = TextSim(io, {}); F = [65] * 80 + s.field(n, 4)
            for i in range(n):
                for x in range(12): F += s.field(Fraction(x + i), 4)
                F += [0, 0]
            files.append(("%d facets" % n, {"file": F}))
    for what, kw in files:
        env, sm = c12.small_env(io, k, (0, 1))
        try: t = TextSim(io, env, **kw).run(); good = num_eval(io.r.ret, t.env)
        except (NoValue, IndexError, TypeError, KeyError) as x:
            if c.debug: print("NoValue", what, x)
            continue
        if good and not any(o[0] == "clear" for o in t.meshes): return "loading a file with %s succeeds and the former content stays" % what
    return None

def has_undef(v): return any(isinstance(l, Undef) for l in leaves(v)) if not isinstance(v, Undef) else True

def doubles(c, L, r, f, lab, x, args):
    im = c24.Img(Lab(c), "this"); buf = L.it.vbuf(x)
    def e0(d): y = im.env(d); y["dims"] = (d[0], d[1], 1); return y
    same(c, lab + ".length", L.it.vsize(r.st, x), im.W * im.H, f)
    c24.visit(c, lab, L, r, buf, (im.W, im.H, ONE), 8, f, e0)
    return True

def pixels(c, L, r, f, lab, buf, im, ok, args):
    """the storage of an image is only resized: every byte is stored"""
    if f.dn.startswith("ImageIoBmp::read"):
        io = Io(c, f); nm = [a["n"] for a in f.args if "Image" in f.dt[f.args.index(a) + 1]][0]
        i2 = c24.Img(Lab(c), nm); n = 0
        for p in (1, 3, 4):
            for w, h in c11.DIMS:
                for old in ((0, 0, 1), (w + 3, h + 3, p), (w, h, p % 4 + 1), (h, w, p), (w, h, p)):
                    b = c11.simulate_read(io, i2, p, w, h, old)
                    if b and b[0] == "size": c.refuted(lab, "a file with an image of %dx%d with %d planes read into one of %dx%d with %d planes: %s" % ((w, h, p) + old + (b[1],)), f); return True
                    if b and "is not set" in b[1]: break
                n += 1
                if b and "is not set" in b[1]: c.refuted(lab, "a file with an image of %dx%d with %d planes: %s and keeps its former value" % (w, h, p, b[1]), f); return True
        with c.group("bmp"): return bmp(c, io, i2, f, lab)
    W, H, Q = [L.call("Image::%s() const" % g, im.p) for g in ("width", "height", "planes")]
    if not all(is_poly(x) for x in (W, H, Q)) or not Q.is_const(): c.unknown(lab, "size %s" % ((W, H, Q),), f); return False
    q = int(Q.const()); ats = [None, None]
    src = [c24.Img(Lab(c), a["n"]) for n, a in enumerate(f.args) if "Image" in f.dt[n + 1] and f.dt[n + 1].startswith("const")]
    def e0(d):
        y = src[0].env(d) if src else {}
        if not src: y[atom_of(W)] = d[0]; y[atom_of(H)] = d[1]
        y["dims"] = (d[0], d[1], q); return y
    more = {atom_of(a): 2 for n, a in enumerate(args) if f.args[n]["t"] == "i32" and a not in (W, H)}
    c24.visit(c, lab, L, r, buf, (W, H, P(q)), 1, f, e0, extra=more)
    return False

def bmp(c, io, im, f, lab):
    """each file layout: the rows read cover the storage (the argument of the reader of C11)"""
    k = [k for k in io.keys() if io.ops(k, "read")][0]
    class Quiet:        # what the reader stores is the business of C11; here only that everything is stored
        def __getattr__(s, n): return getattr(c, n)
        def refuted(s, key, why="", loc=""): c.unknown(key, why, loc)
        def decide(s, ok, key, why="", loc=""): return c.decide(True if ok is True else None, key, why, loc)
    q = Quiet()
    for n in (1, 3, 4):
        for r in range(4):
            cs = c11.Case(n, r)
            with c.group("read %s" % cs.name): c11.prove_read(q, io, k, im, cs, f)
    return False
