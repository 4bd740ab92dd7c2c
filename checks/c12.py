"""C12: the layout of STL and OBJ files, written and read."""
from filesim import *
from triloop import TriLoop
import small

FLAGS = [(0,), (1, 0), (0, 1), (0, 0, 0), (0, 1, 0), (1, 0, 1, 0), (), (2, 0), (0, 2, 1)]      # 0 live, 1 removed, 2 live with two equal corners
Q = Fraction(1, 4)
PTS = [(Fraction(x) + Q, Fraction(y) + Q * 3, Fraction(z) - Q) for x, y, z in small.PTS + [(11, 3, 1), (2, 9, 4), (5, 5, -7)]]

def fn(c, rx):
    fs = c.m.match(rx)
    if len(fs) != 1: raise Und("%s: %d functions" % (rx, len(fs)))
    return fs[0]
def mesh_arg(io): 
    for a, x in zip(io.f.args, io.args):
        if isinstance(x, Ptr) and x.obj in [("arg", n) for n in io.L.mm.names.values()]: return io.L.kernel(x), a["n"]
    raise Und("no mesh argument")

def small_env(io, k, fl, extra=None, fld=7):
    s = small.Small(io.L, k, [(3 * i, 3 * i + 2, 3 * i + (2 if f == 2 else 1), f % 2) for i, f in enumerate(fl)], PTS[:3 * len(fl) + 1])
    s.pts = PTS[:3 * len(fl) + 1]
    def others(o, n, e):
        if extra: return extra(o, n)
        return None
    env = small.env_of([s], others=others)
    at = env["atoms"]
    env["atoms"] = lambda a, e: fld if a.kind == "fld" else at(a, e)
    return env, s
def whole(v, facts=()):
    return succeed(v)

# ------------------------------------------------------------------ STL
def stl_write(c):
    f = fn(c, r"^STLFile::save\("); io = Io(c, f); k, nm = mesh_arg(io)
    key = [x for x in io.keys() if io.ops(x, "write")]
    if len(key) != 1: raise Und("%d streams" % len(key))
    S = key[0]
    bad = None
    for fl in FLAGS:
        b = sim_stl_write(io, k, fl)
        if b: bad = (b, fl); break
    if bad: c.refuted("stl.save", "a mesh of %d triangles with removal flags %s: %s" % (len(bad[1]), bad[1], bad[0]), f); return
    if io.ops(S, "unknown", "seek", "text"): raise Und("operation %s" % io.ops(S, "unknown", "seek", "text")[0][0].name)
    L = io.L; TL = TriLoop(L, io.r, k); nt = A("nt", nm, ints=True)
    evs = special(io.r.ev, Subst({}))
    ws = [(e, fs) for e, fs in plain_events(evs) if e.kind == "io" and e.name == "write"]
    flat_ = [(e, fs) for e, fs in ws if not fs]; loop = [(e, fs) for e, fs in ws if fs]
    # header and count
    head = 0; cnt = None
    for e, fs in ws:
        p = e.x["pos"]; n = e.args[2]
        if not isinstance(p, Poly) or not p.is_const() or not n.is_const() or e.guard != ONE: continue
        head = max(head, int(p.const() + n.const()))
        if p.const() == 80 and n.const() == 4: cnt = e
    if cnt is None: c.unknown("stl.count", "no 4 bytes written at offset 80", f)
    else:
        v = cnt.x["val"]
        c.decide(True if is_live_count(TL, v, nt) else None, "stl.count", "the count at offset 80 is the number of triangles that are not removed" if is_live_count(TL, v, nt) else "count is %s" % str(v)[:200], cnt)
    # facets
    loops = {fs[0].lid: fs[0] for e, fs in loop if not (isinstance(e.x["pos"], Poly) and e.x["pos"].is_const()) and len(fs) == 1}
    deep = [e for e, fs in loop if len(fs) != 1 and not fixed_header(e, fs)]
    if deep or len(loops) != 1: c.unknown("stl.facets", "the facets are written by %d loops, %d nested writes" % (len(loops), len(deep)), f); return
    F = list(loops.values())[0]
    if [e for e, fs in flat_ if not (isinstance(e.x["pos"], Poly) and e.x["pos"].is_const())]: c.unknown("stl.facets", "something is written around the facets", f); return
    orig = io.fors[F.lid]
    if id(orig) not in TL.loops: c.unknown("stl.facets", "the loop does not run over the triangles", F); return
    idx = TL.loops[id(orig)][1]; live = TL.live(idx)
    if TL.complete((F, idx), nt) is not True or F.guard != ONE: c.unknown("stl.facets", "loop range", F); return
    mus = [r for v, r in F.recs.items() if v[0] == "c" and v[1] == io.S.obj(S) and str(v[2]) == "8"]
    if len(mus) != 1: c.unknown("stl.facets", "position in the file", F); return
    mu, ini, nxt = mus[0]
    ini, nxt = succeed(ini), succeed(nxt)
    ini = restrict(ini, ONE)
    g50 = ite(live, mu + 50, mu)
    adv = nxt == g50 or (restrict(nxt, live) == mu + 50 and restrict(nxt, c_not(live)) == mu)
    why = None
    if not (isinstance(ini, Poly) and ini == P(84)): why = "facets start at %s" % (ini,)
    elif not adv: why = "a triangle advances the file by %s" % (str(nxt)[:200],)
    cor = TL.corners((F, idx)); got = {}
    for e, fs in loop:
        if fs[0] is not F: continue
        if trip_free(e.guard, fs) != live: why = why or "written only if %s" % str(e.guard)[:150]; continue
        o = e.x["pos"] - mu if isinstance(e.x["pos"], Poly) else None
        if o is None or not o.is_const() or not e.args[2].is_const(): why = why or "position %s" % (e.x["pos"],); continue
        o, n = int(o.const()), int(e.args[2].const())
        for t in range(9):
            q = 12 + 4 * t
            if o == q and n == 4 and e.x.get("val") is not None: got[t] = e.x["val"]
            elif o <= q and q + 4 <= o + n and n > 4 and isinstance(e.args[1], Ptr): got[t] = L.it.read(e.x["mem"], e.args[1].obj, e.args[1].off + (q - o), 4, "float")
    for t in range(9):
        v = got.get(t)
        if isinstance(v, Node): v = restrict(succeed(v), live)
        if v is None: why = why or "corner %d coordinate %s not found" % (t // 3, "xyz"[t % 3])
        elif not (isinstance(v, Poly) and v == cor[t // 3][t % 3]): why = why or "at offset %d of a facet: %s" % (12 + 4 * t, str(v)[:150])
    if why: c.unknown("stl.facets", why, F)
    else: c.proved("stl.facets", "50 bytes for every triangle that is not removed; nine coordinates in place", F)
def fixed_header(e, fs): return isinstance(e.x["pos"], Poly) and all(F.trip is not None and F.trip.is_const() for F in fs)
def is_live_count(TL, v, nt):
    """v = sum over the triangles of (1 if the triangle is not removed)"""
    if not isinstance(v, Poly): return False
    tot = ZERO
    for m, c in v.t.items():
        if len(m) != 1 or m[0][1] != 1: return False
        a = atom_by_id(m[0][0])
        if m[0][0] == one_atom(nt): x = P(1)
        elif a.kind == "sum" and (a.args[1] - nt).is_zero():
            k = a.args[0]; k = P(k) if not isinstance(k, Poly) else k
            x = Subst({one_atom(k): TL_IDX}).any(a.args[2])
        else: return False
        tot = bind2(lambda p, q: p + q.scale(c), tot, x)
    return tot == ite(TL.live(TL_IDX), ONE, ZERO)
TL_IDX = A("triangle index", ints=True)

def sim_stl_write(io, k, fl):
    env, s = small_env(io, k, fl)
    try: t = TextSim(io, env).run(); ok = num_eval(io.r.ret, t.env)
    except (NoValue, IndexError, TypeError): return None
    live = [x for x in s.tris if not x[3]]
    if not t.file: return None
    if len(t.file) != 84 + 50 * len(live): return "%d bytes are written, %d facets need %d" % (len(t.file), len(live), 84 + 50 * len(live))
    def cmp(o, want, what):
        got = t.file[o:o + len(want)]
        if None in got: return None
        return None if got == want else "%s at offset %d is wrong" % (what, o)
    b = cmp(80, t.field(len(live), 4), "the number of facets")
    for n, x in enumerate(live):
        for j in range(3):
            for a in range(3): b = b or cmp(84 + 50 * n + 12 + 12 * j + 4 * a, t.field(s.pts[x[j]][a], 4), "coordinate %s of corner %d of facet %d" % ("xyz"[a], j, n))
    return b or (None if ok else "saving reports failure")

def stl_read(c):
    f = fn(c, r"^STLFile::load\("); io = Io(c, f); k, nm = mesh_arg(io)
    S = [x for x in io.keys() if io.ops(x, "read")]
    if len(S) != 1: raise Und("%d streams" % len(S))
    S = S[0]
    for n in (0, 1, 2, 3, 4):
        b = sim_stl_read(io, k, n)
        if b: c.refuted("stl.load", "a file with %d facets: %s" % (n, b), f); return
    evs = special(io.r.ev, Subst({}))
    ev = list(plain_events(evs))
    reads = [(e, fs) for e, fs in ev if e.kind == "io" and e.name == "read"]
    where = {}
    for e, fs in reads:
        for a in top_status(e.x["ver"]): where.setdefault(a.id, (e, fs))
    def pos(v):
        """position of a value read, or None"""
        if not isinstance(v, Poly): return None
        if len(v.t) != 1 or list(v.t.values()) != [1]: return None
        a = atom_by_id(list(v.t)[0][0][0])
        if a.kind == "ld" and isinstance(a.args[1], tuple) and a.args[1][:1] == ("rdblk",) and a.args[2].is_const():
            h = [where[x.id] for x in top_status(a.args[1][2]) if x.id in where]
            return (h[0][0].x["pos"] + a.args[2], 4) if len(h) == 1 and isinstance(h[0][0].x["pos"], Poly) else None
        if a.kind != "rd": return None
        h = [where[x.id] for x in top_status(a.args[1]) if x.id in where]
        if len(h) != 1: return None
        return h[0][0].x["pos"], int(h[0][0].args[2].const())
    av = [(e, fs) for e, fs in ev if e.kind == "mesh" and e.name == "add_vertex"]; at = [(e, fs) for e, fs in ev if e.kind == "mesh" and e.name == "add_triangle"]
    if len(at) != 1 or len(at[0][1]) != 1: c.unknown("stl.read", "%d sites add triangles" % len(at), f); return
    T, fs = at[0]; F = fs[0]; why = None
    order = []
    for i in T.args[1:4]:
        i = restrict(i, T.guard) if isinstance(i, Node) else i
        h = [e for e, g in av if g == fs and (e.ret == i or (isinstance(e.ret, Node) and restrict(e.ret, T.guard) == i))]
        order.append(h[0] if len(h) == 1 else None)
    if None in order: c.unknown("stl.read", "corners %s are not the vertices just added" % (T.args[1:4],), T); return
    for j, e in enumerate(order):
        if e.guard != T.guard: why = why or "a vertex is added only if %s" % str(e.guard)[:150]
        for a in range(3):
            v = e.args[1][a]; v = restrict(v, e.guard) if isinstance(v, Node) else v
            p = pos(v); w = P(84 + 12 + 12 * j + 4 * a) + F.k.scale(50)
            if p is None or p[1] != 4 or not (isinstance(p[0], Poly) and (p[0] - w).is_zero()): why = why or "coordinate %s of corner %d is %s from position %s" % ("xyz"[a], j, str(v)[:80], p and p[0])
    if len(av) != 3: why = why or "%d sites add vertices" % len(av)
    if not (F.guard == ONE or True): pass
    # one facet for every number below the count
    cnt = None
    g = succeed(T.guard)
    for q in preds_of(T.guard):
        if q.kind == "gt":
            x = q.poly + F.k
            p = pos(x)
            if p and isinstance(p[0], Poly) and p[0] == P(80) and p[1] == 4: cnt = q
    if cnt is None: why = why or "no test of the facet number against the count at offset 80"
    else:
        r = assume(g, cnt.id, True); others = [q for q in preds_of(r) if not (q.kind == "gt" and pos(q.poly))] if isinstance(r, Node) else []
        rest = [q for q in (preds_of(r) if isinstance(r, Node) else []) if not nonneg_of_count(q, pos)]
        if rest: why = why or "facets are skipped if not %s" % rest[0]
    first = [e for e, fs in ev if e.kind == "mesh"]
    if not first or first[0].name != "clear": why = why or "the mesh is not emptied first"
    if why: c.unknown("stl.read", why, T)
    else: c.proved("stl.read", "the nine coordinates of facet i come from offset 84 + 50 i + 12, for every i below the count at offset 80", T)
def nonneg_of_count(q, pos):
    """a sign test of the count, true or irrelevant once a facet exists"""
    if q.kind != "gt": return False
    for x in (q.poly, -q.poly, q.poly - 1, -q.poly - 1, q.poly + 1):
        p = pos(x)
        if p and isinstance(p[0], Poly) and p[0] == P(80): return True
    return False
def sim_stl_read(io, k, n):
    F = [0x41] * 80; s = TextSim(io, {}); F += s.field(n, 4); exp = []
    for i in range(n):
        F += s.field(Q * 7, 4) * 3
        for j in range(3):
            q = tuple(x + i * 16 for x in PTS[(3 * i + (DEGEN[i] if n == 4 else (0, 1, 2))[j]) % len(PTS)])
            for a in range(3): F += s.field(q[a], 4)
            exp.append(q)
        F += [9, 9]
    env, sm = small_env(io, k, (0, 1))
    try: t = TextSim(io, env, file=F).run(); ok = num_eval(io.r.ret, t.env)
    except (NoValue, IndexError, TypeError): return None
    return judge(t.meshes, exp, [(3 * i, 3 * i + 1, 3 * i + 2) for i in range(n)], ok, len(sm.pts), strict=True)
DEGEN = [(0, 1, 2), (0, 0, 1), (0, 1, 0), (0, 1, 1)]
def judge(ops, pts, tris, ok, nv0, strict=False):
    """the mesh built by the operations, against the corner points of the triangles"""
    if not ok: return "loading reports failure"
    V = None; T = []
    for o in ops:
        if o[0] == "clear": V = []; T = []
        elif V is None: return "the previous content of the mesh stays"
        elif o[0] == "add_vertex": V.append(o[1])
        elif o[0] == "add_triangle": T.append(o[1:4])
        else: return None
    if V is None: return "the previous content of the mesh stays"
    if len(T) != len(tris): return "%d triangles are loaded, the file has %d" % (len(T), len(tris))
    def rot(t): return t if strict else min(t[i:] + t[:i] for i in range(3))
    try: got = [tuple(V[int(i)] for i in t) for t in T]
    except IndexError: return "a triangle refers to a vertex that does not exist"
    for g, t in zip(got, tris):
        w = tuple(pts[i] for i in t)
        if rot(g) != rot(w): return "a triangle with corners %s is loaded as %s" % (fmt(w), fmt(g))
    return None
def fmt(w): return " ".join("(%s)" % ",".join("%g" % float(x) for x in p) for p in w)

# ------------------------------------------------------------------ OBJ, writing
class Writer:
    def __init__(s, c, f):
        s.c = c; s.f = f; s.io = Io(c, f)
        s.lists = [x for a, x in zip(f.args, s.io.args) if isinstance(x, Ptr) and a["n"] != "this"]
        s.k = s.nm = None
        try: s.k, s.nm = mesh_arg(s.io)
        except Und: pass

def cases(evs, fors):
    """[(path, events)]: the events that happen together, for every outcome of the tests of their conditions"""
    g = [(e, trip_free(e.guard, fors)) for e in evs]
    out = [((), [(e, x) for e, x in g])]
    for _ in range(12):
        nxt = []; done = True
        for path, l in out:
            qs = [q for e, x in l if isinstance(x, Node) for q in [top_pred(x)]]
            if not qs: nxt.append((path, l)); continue
            done = False; q = qs[0]
            for v in (True, False): 
                m = [(e, assume(x, q.id, v) if isinstance(x, Node) else x) for e, x in l]
                nxt.append((path + ((q, v),), [(e, x) for e, x in m if x != ZERO]))
        out = nxt
        if done: return [(p, [e for e, x in l]) for p, l in out]
        if len(out) > 64: break
    raise Und("too many cases")
def top_pred(x):
    return [q for q in preds_of(x) if q.id == x.p][0]
def tokens(S, evs, path):
    items = []
    for e in evs:
        if e.name != "text": continue
        it = e.args[1]
        if it[0] == "num":
            v = it[1]
            for q, b in path: v = assume(v, q.id, b) if isinstance(v, Node) else v
            items.append(v)
        elif it[0] in ("str", "lit"):
            t = it[1] if isinstance(it[1], str) else S.literal(it[1])
            if t is None: raise Und("text %s" % (it[1],))
            items.append(t)
        elif it[0] == "chr" and isinstance(it[1], Poly) and it[1].is_const(): items.append(chr(int(it[1].const())))
        else: raise Und("text %s" % str(it)[:80])
    return lines_of(items)
def blank(l): return not l or (isinstance(l[0], str) and l[0][0] in "#gosu")

def obj_writers(c):
    fs = sorted(c.m.match(r"^OBJWriter::\w+\("), key=lambda f: f.dn)
    cls = [f for f in fs if re.match(r"^OBJWriter::OBJWriter\(", f.dn)]
    ws = []
    for f in fs:
        if f in cls: continue
        w = Writer(c, f)
        if any(e.name == "text" for e, _ in w.io.io): ws.append(w)
    opens = [f for f in fs if any(e.name == "open" for e, _ in Io(c, f).io) and f not in cls]
    bases = {}
    for w in ws:
        n = re.sub(r"\(.*", "", w.f.dn.replace("OBJWriter::", "")) + ("(mesh)" if w.k else "(polyline)")
        with c.group("obj." + n): obj_write(c, w, "obj." + n, bases)
    vals = {str(b): b for b in bases.values()}
    if len(vals) > 1 and all(isinstance(b, Poly) for b in vals.values()):
        l = list(vals.values())
        odd = [b for b in l if (b - l[0]).is_const() and not (b - l[0]).is_zero()]
        if odd and all((b - l[0]).is_const() for b in l): c.refuted("obj.shift", "the indices written for meshes and polylines are counted from %s and %s: one of them is off" % (l[0] + 1, odd[0] + 1), ws[0].f); return
    if len(vals) != 1: c.unknown("obj.shift", "the writers shift by %s" % list(vals), fs[0]); return
    b = list(vals.values())[0]
    if not ws: raise Und("nothing writes text")
    for f in opens:
        io = Io(c, f); v = at_end(io, b)
        if isinstance(v, Poly) and v.is_zero(): c.proved("obj.start." + f.dn, "the shift is 0 when a file is opened", f)
        elif isinstance(v, Poly) and v == b: 
            # only constructors and close may have set it
            oth = [g for g in fs if g not in opens and g not in [w.f for w in ws] and "~" not in g.dn]
            z = {g.dn: at_end(Io(c, g), b) for g in oth}
            cl = [d for d in z if "close" in d and isinstance(z[d], Poly) and z[d].is_zero()]
            if cl: c.proved("obj.start." + f.dn, "the shift is 0 whenever a file is closed", f)
            else: c.refuted("obj.start." + f.dn, "opening a second file keeps the shift of the first: its faces refer to vertices after its own", f)
        else: c.unknown("obj.start." + f.dn, "shift after opening: %s" % (v,), f)
    for f in cls:
        v = at_end(Io(c, f), b)
        c.decide(True if isinstance(v, Poly) and v.is_zero() else None, "obj.start.ctor", "shift of a new writer: %s" % (v,), f)
    for f in fs:
        if f in opens or f in cls or f in [w.f for w in ws] or "~" in f.dn: continue
        v = at_end(Io(c, f), b)
        if isinstance(v, Poly) and (v == b or v.is_zero() and "close" in f.dn): c.proved("obj.keep." + f.dn, "the shift is kept", f)
        else: c.unknown("obj.keep." + f.dn, "the shift becomes %s" % (v,), f)
def at_end(io, b):
    """the shift, as a term of the writer's data, after the function"""
    amap = {}
    for a in deep_atoms(b):
        if a.kind == "ld" and a.args[0] == "i": amap[a.id] = io.L.it.read(io.L.it.getmem(io.r.st, a.args[1]), a.args[1], a.args[2], 4, "i32")
    return Subst(amap).any(b)

BASE = 100
def obj_write(c, w, key, bases):
    io = w.io; L = io.L; f = w.f
    this = ("arg", f.args[0]["n"])
    own = {}
    def extra(o, n):
        if o == this: return BASE + n * 1000
        if w.k is None and isinstance(o, tuple) and o[0] == "E" and n % 8 == 0: 
            i, j = divmod(n // 8, 3)
            if i < len(PTS): return PTS[i][j]
        return None
    bad = None
    for fl in FLAGS if w.k else [0, 1, 2, 5]:
        for fld in ((7, -1, 0, 0x123456, 0xFF8001) if w.k else (7, -1)):
            b = sim_obj_write(w, fl, fld, extra)
            if b: bad = bad or (b, fl)
    if bad: c.refuted(key, ("a mesh with removal flags %s: %s" if w.k else "a polyline of %s points: %s") % (bad[1], bad[0]), f); return
    S = [x for x in io.keys() if io.ops(x, "text")]
    if len(S) != 1: raise Und("%d streams" % len(S))
    evs = special(io.r.ev, Subst({}))
    # straight-line text and loops, in order
    segs = []; cur = []
    for e in evs:
        if isinstance(e, For):
            if any(isinstance(x, Ev) and x.kind == "io" for x, _ in walk(e.body)): segs.append(("t", cur)); segs.append(("l", e)); cur = []
        elif e.kind == "io":
            if e.name == "text": cur.append(e)
            elif e.name not in ("flush", "query"): raise Und("operation %s" % e.name)
    segs.append(("t", cur))
    for kind, x in segs:
        if kind == "t" and any(e.guard != ONE for e in x): raise Und("text written only if %s" % str([e.guard for e in x if e.guard != ONE][0])[:100])
    if w.k: mesh_layout(c, w, key, segs, bases)
    else: line_layout(c, w, key, segs, bases)

def body(F):
    if any(isinstance(e, For) for e in F.body): raise Und("nested loop")
    if not F.exact or F.trip is None: raise Und("loop bounds")
    return [e for e in F.body if e.kind == "io" and e.name == "text"]
def plain(S, l):
    t, rest = tokens(S, l, ())
    return t, rest

def is_count(x, w, nm="nv"):
    if w.k: return isinstance(x, Poly) and x == A(nm, w.nm, ints=True)
    return False
def vertex_line(l, want):
    if not (len(l) >= 4 and l[0] == "v"): return "line %s" % [str(t)[:40] for t in l][:5]
    for t, x in zip(l[1:4], want):
        if not (isinstance(t, Poly) and t == x): return "%s where %s belongs" % (str(t)[:60], x)
    if len(l) not in (4, 7): return "%d fields" % len(l)
    return None

def mesh_layout(c, w, key, segs, bases):
    io = w.io; L = io.L; TL = TriLoop(L, io.r, w.k); nv = A("nv", w.nm, ints=True); nt = A("nt", w.nm, ints=True)
    V = ("MV", w.k); seen = []; base = None; why = None; F0 = w.f
    for kind, x in segs:
        if kind == "t":
            ls, rest = plain(io.S, x)
            if rest or any(not blank(l) for l in ls): raise Und("text %s between the parts" % (ls + [rest]))
            continue
        F = x; evs = body(F)
        o = io.fors[F.lid]
        if id(o) in TL.loops:
            idx = TL.loops[id(o)][1]; live = TL.live(idx)
            if TL.complete((F, idx), nt) is not True or F.guard != ONE: why = why or "loop over the triangles"
            corner = [TL.index(idx, j) for j in range(3)]
            for path, es in cases(evs, [F]):
                lv = live
                for q, v in path: lv = assume(lv, q.id, v)
                try: ls, rest = tokens(io.S, es, path)
                except Bad as b: raise Und(str(b))
                ls = [l for l in ls if l]
                if lv == ONE:
                    if rest or len(ls) != 1 or len(ls[0]) != 4 or ls[0][0] != "f": why = why or "lines %s for a triangle" % str(ls)[:100]; continue
                    bs = [t - i for t, i in zip(ls[0][1:], corner)] if is_poly(*ls[0][1:]) else [None]
                    if None in bs or any(b != bs[0] for b in bs): why = why or "indices %s" % (str(ls[0][1:])[:150],)
                    else: base = bs[0] - 1
                elif ls or rest: why = why or "lines %s although the triangle may be removed (%s)" % (str(ls)[:80], lv)
            seen.append("f")
        else:
            if not (F.trip - nv).is_zero() or F.guard != ONE: why = why or "loop over the vertices 0..%s" % (F.trip,)
            want = None
            for path, es in cases(evs, [F]):
                ls, rest = tokens(io.S, es, path); ls = [l for l in ls if l]
                if rest or len(ls) != 1: why = why or "%d lines for a vertex" % len(ls); continue
                want = [L.it.read(Mem("init", None, V), V, F.k.scale(24) + 8 * j, 8, "double") for j in range(3)]
                why = why or vertex_line(ls[0], want)
            seen.append("v")
    if seen != ["v", "f"]: why = why or "parts %s" % (seen,)
    finish(c, w, key, why, base, nv, bases)
def finish(c, w, key, why, base, n, bases):
    if why or base is None: c.unknown(key, why or "no index found", w.f); return
    c.proved(key, "every vertex once, in order; every index is vertex + 1 + %s" % base, w.f)
    bases[w.f.dn] = base
    v = at_end(w.io, base)
    if isinstance(v, Poly) and v == base + n: c.proved(key + ".shift", "the shift grows by the vertices written", w.f)
    else:
        import itertools
        ids = sorted(set(free_atoms(v, base, n)))
        for vals in itertools.product((0, 1, 2, 5), repeat=len(ids)) if len(ids) <= 4 else ():
            env = dict(zip(ids, vals))
            try: got, exp = num_eval(v, env), num_eval(base + n, env)
            except NoValue: continue
            if got != exp and (w.k is None or num_ok(w, env)):
                c.refuted(key + ".shift", "the shift becomes %s: with %s it is %s, not %s" % (str(v)[:150], ", ".join("%s=%s" % (atom_by_id(i), x) for i, x in env.items()), got, exp), w.f); return
        c.unknown(key + ".shift", "the shift becomes %s" % str(v)[:150], w.f)

def num_ok(w, env):
    """triangles need vertices"""
    nv, nt = (env.get(atom_of(A(x, w.io.L.mm.names[w.k], ints=True))) for x in ("nv", "nt"))
    return not (nv == 0 and nt)

def line_layout(c, w, key, segs, bases):
    io = w.io; L = io.L; why = None; base = None
    sz = [a for e, _ in io.events for a in ()]
    p = w.lists[0] if len(w.lists) == 1 else None
    if p is None: raise Und("arguments")
    n = io.L.it.vsize(io.L.st, p); buf = io.L.it.vbuf(p)
    obj = buf.obj if isinstance(buf, Ptr) else buf
    items = []; loops = []; seen = []
    line = []
    for kind, x in segs:
        if kind == "t": ls, rest = plain(io.S, x); items.append((ls, rest)); continue
        evs = body(x)
        if any(trip_free(e.guard, [x]) != ONE for e in evs): raise Und("text written only sometimes")
        if not (x.trip - n).is_zero() or x.guard != ONE: why = why or "loop 0..%s" % (x.trip,)
        ls, rest = tokens(io.S, evs, ())
        items.append((x, ls, rest, evs))
    # shape: v-loop, then "l", indices, end of line
    flatl = []
    for it in items:
        if len(it) == 2: flatl += [("line", l) for l in it[0]] + ([("open", it[1])] if it[1] else [])
        else: flatl.append(("loop", it))
    flatl = [x for x in flatl if not (x[0] == "line" and blank(x[1]))] if True else flatl
    loops = [x for x in flatl if x[0] == "loop"]
    if len(loops) != 2: raise Und("%d loops write text" % len(loops))
    (F, ls, rest, evs) = loops[0][1]; ls = [l for l in ls if l]
    want = [L.it.read(Mem("init", None, obj), obj, F.k.scale(24) + 8 * j, 8, "double") for j in range(3)]
    if rest or len(ls) != 1: why = why or "%d lines for a point" % len(ls)
    else: why = why or vertex_line(ls[0], want)
    i0 = flatl.index(loops[0]); i1 = flatl.index(loops[1])
    (G, ls, rest, evs) = loops[1][1]
    if i0 != 0: why = why or "text before the points"
    if [x[0] for x in flatl[i0 + 1:i1]] != ["open"] or flatl[i1 - 1][1] != ["l"]: why = why or "the line starts with %s" % (flatl[i0 + 1:i1],)
    if ls or len(rest) != 1 or not isinstance(rest[0], Poly): why = why or "indices %s" % str(rest)[:100]
    else:
        base = rest[0] - G.k - 1
        if occurs(base, one_atom(G.k)): why = why or "index %s" % rest[0]
    finish(c, w, key, why, base, n, bases)

def sim_obj_write(w, fl, fld, extra):
    io = w.io; n = None
    if w.k: env, s = small_env(io, w.k, fl, extra, fld); pts = s.pts; n = len(pts)
    else:
        pts = PTS[:fl]; n = fl
        sz = io.L.it.vsize(io.L.st, w.lists[0])
        env = {one_atom(sz): n}
        def at(a, e):
            if a.kind == "ld" and a.args[0] == "i":
                v = extra(num_obj(a.args[1], e), int(num_eval(a.args[2], e)))
                if v is not None: return v
            raise NoValue(str(a)[:50])
        env["atoms"] = at
    try: t = TextSim(io, env).run(); ls, rest = lines_of([x if x is not None else "?" for x in t.text])
    except (NoValue, IndexError, TypeError): return None
    except Bad as b: return str(b)
    if rest: return "the last line is not ended"
    vs = [l for l in ls if l and l[0] == "v"]; fs = [l for l in ls if l and l[0] in ("f", "l")]
    odd = [l for l in ls if not blank(l) and l not in vs and l not in fs]
    if odd: return "line '%s'" % " ".join(map(str, odd[0]))
    if any("?" in l for l in ls): return None
    if len(vs) != n: return "%d vertices are written, there are %d" % (len(vs), n)
    for l, p in zip(vs, pts):
        if list(l[1:4]) != list(p): return "vertex (%s) is written as %s" % (fmt((p,)), " ".join(str(x) for x in l[1:4]))
        if w.k and (fld == -1 or 0 <= fld < 1 << 24):
            rgb = [] if fld == -1 else [Fraction(fld >> k & 255, 255) for k in (16, 8, 0)]
            if len(l) - 4 != len(rgb) or any(abs(Fraction(x) - y) > Fraction(1, 10 ** 9) for x, y in zip(l[4:], rgb)): return "a vertex of a mesh with the colour %s gets the colour fields %s" % (fld if fld < 0 else "%#x" % fld, [str(x) for x in l[4:]] or "none")
    it = [i for i, l in enumerate(ls) if l and l[0] == "v"]; jt = [i for i, l in enumerate(ls) if l and l[0] in ("f", "l")]
    if it and jt and min(jt) < max(it): return "a face is written before its vertices"
    if w.k: exp = [t[:3] for t in s.tris if not t[3]]
    else: exp = [tuple(range(n))]
    if len(fs) != len(exp): return "%d faces are written, the mesh has %d" % (len(fs), len(exp))
    sh = set()
    for l, e in zip(fs, exp):
        if len(l) - 1 != len(e): return "a face with %d corners" % (len(l) - 1)
        d = {x - i for x, i in zip(l[1:], e)}
        if len(d) > 1: return "corners %s are written as %s" % (e, tuple(int(x) for x in l[1:]))
        sh |= d
    if len(sh) > 1: return "faces are shifted differently"
    for x in sh:
        b = x - 1
        fields = {BASE + 1000 * o: o for o in range(0, 4096, 4)}
        near = [o for v, o in fields.items() if abs(v - b) < 50]
        if not near: return "indices are not shifted by the vertices written before (shift %s)" % b
        o = near[0]
        try: a = num_eval(io.L.it.read(io.L.it.getmem(io.r.st, ("arg", io.f.args[0]["n"])), ("arg", io.f.args[0]["n"]), P(o), 4, "i32"), t.env)
        except NoValue: continue
        if a - (BASE + 1000 * o) != n: return "the shift grows by %s after %d vertices" % (a - (BASE + 1000 * o), n)
    return None

# ------------------------------------------------------------------ OBJ, reading
def obj_read(c):
    f = fn(c, r"^OBJFile::load\("); io = Io(c, f); k, nm = mesh_arg(io)
    P4 = [PTS[i] for i in range(4)]
    def vl(p): return "v " + " ".join("%g" % float(x) for x in p)
    files = [([vl(p) for p in P4] + ["", "f 1 2 3", "f 3 2 4"], P4, [(0, 1, 2), (2, 1, 3)]),
             (["# comment"] + [vl(p) + " 0.5 0.25 1" for p in P4[:3]] + ["f 2 3 1"], P4[:3], [(1, 2, 0)]),
             ([vl(p) for p in P4[:3]] + ["", "f 1 2 3"] + [vl(p) for p in PTS[4:7]] + ["l 1 2", "f 4 5 6", "f 6 5 1"], P4[:3] + PTS[4:7], [(0, 1, 2), (3, 4, 5), (5, 4, 0)]),
             ([vl(P4[0]), "vn 1 2 3", "vt 0 1", "g x", vl(P4[1]), vl(P4[2]), "fx 1 2 3", "f 3 1 2"], P4[:3], [(2, 0, 1)])]
    for ls, pts, tris in files:
        env, sm = small_env(io, k, (0, 1))
        try: t = TextSim(io, env, lines=ls).run(); ok = num_eval(io.r.ret, t.env)
        except (NoValue, IndexError, TypeError, KeyError): break
        b = judge(t.meshes, pts, tris, ok, len(sm.pts))
        if b: c.refuted("obj.load", "a file with lines %s: %s" % ("; ".join(l for l in ls if l)[:120], b), f); return
    ev = [(e, fs) for e, fs in plain_events(special(io.r.ev, Subst({})))]
    av = [(e, fs) for e, fs in ev if e.kind == "mesh" and e.name == "add_vertex"]; at = [(e, fs) for e, fs in ev if e.kind == "mesh" and e.name == "add_triangle"]
    if len(av) != 1 or len(at) != 1: raise Und("%d and %d sites add vertices and triangles" % (len(av), len(at)))
    for kind, (e, fs), vals in (("v", av[0], list(av[0][0].args[1])), ("f", at[0], [x + 1 if isinstance(x, Poly) else x for x in at[0][0].args[1:4]])):
        why = None; ats = []
        for v in vals:
            v = restrict(succeed(v), e.guard) if isinstance(v, Node) else v
            a = atom_by_id(list(v.t)[0][0][0]) if isinstance(v, Poly) and len(v.t) == 1 and list(v.t.values()) == [1] and len(list(v.t)[0]) == 1 else None
            if a is None or a.kind != "rd": why = why or "value %s" % str(v)[:80]; break
            ats.append(a)
        if not why:
            chain = []
            for a in ats:
                vs = top_status(a.args[1])
                chain.append(vs[0] if len(vs) == 1 else None)
            if None in chain: why = "reads"
            else:
                # consecutive reads of the line, after the keyword
                for p, q in zip(chain, chain[1:]):
                    if [x.id for x in top_status(q.args[1])] != [p.id]: why = why or "fields are not read one after the other"
                before = lambda v: top_status(other_words(v, e.guard, kind))
                h = before(chain[0].args[1])
                while len(h) == 1 and h[0].kind == "sv" and h[0].args[0] == "read" and not word(io, h[0]): h = before(h[0].args[1]); why = why or "another field is read before"
                if not why and not (len(h) >= 1 and all(x.kind == "sv" and word(io, x) for x in h)): why = "the first field does not follow the keyword"
        g = trip_free(e.guard, fs)
        if not keyword(g, kind): why = why or "the keyword is not tested: %s" % str(g)[:150]
        if why: c.unknown("obj.load." + kind, why, e)
        else: c.proved("obj.load." + kind, "the three fields after '%s' are %s" % (kind, "the coordinates" if kind == "v" else "the corners plus one"), e)
    first = [e for e, fs in ev if e.kind == "mesh"]
    c.decide(True if first and first[0].name == "clear" and not [fs for e, fs in ev if e is first[0]][0] else None, "obj.load.clear", "the mesh is emptied before", first[0] if first else f)
def word(io, a):
    return any(e.name == "extract" and e.args[2] == "string" and a.id in {x.id for x in top_status(e.x["ver"])} for e, _ in io.io)
def other_words(v, g, kind):
    """v when the event happens: the word equals `kind`, so it equals no other literal"""
    if not isinstance(v, Node): return v
    v = restrict(v, g)
    mine = [q.key for q in preds_of(g) if q.kind == "b" and q.key[0] == "streq" and kind in q.key[1:3]]
    for q in preds_of(v) if isinstance(v, Node) else ():
        if q.kind != "b" or q.key[0] != "streq": continue
        for m in mine:
            w = [x for x in m[1:3] if x != kind]; o = [x for x in q.key[1:3] if x not in w]
            if len(o) == 1 and isinstance(o[0], str) and o[0] != kind: v = assume(v, q.id, False)
    return v
def keyword(g, kind):
    """the condition implies that the keyword of the line is the given one"""
    for q in preds_of(g) if isinstance(g, Node) else ():
        if q.kind == "b" and q.key[0] == "streq" and kind in q.key[1:3] and assume(g, q.id, False) == ZERO: return True
    return False

def run(c):
    c.rule("stl", "bytes written before, at and inside every facet as polynomials of the facet number, against 80 + 4 + 50 n; the same offsets on reading")
    c.rule("obj", "tokens of every line written, per path; the shift of the indices and its change are terms of the writer's data")
    with c.group("stl.save"): stl_write(c)
    with c.group("stl.load"): stl_read(c)
    with c.group("obj.save"): obj_writers(c)
    with c.group("obj.load"): obj_read(c)
