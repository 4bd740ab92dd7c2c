"""C25: mesh measurements cover every live triangle and combine correctly; merging vertices."""
from c03 import *

def run(c):
    c.rule("sum", "surface / volume is the sum over all live triangles of the area / of one sixth of the determinant of the corners, as a polynomial identity of the addend")
    c.rule("all", "a yes/no measurement answers no exactly if some live triangle has the defect: the loop covers all triangles and leaves early under exactly that condition")
    c.rule("conjunction", "clean is the conjunction of the individual checks, each read as an unknown truth value")
    c.rule("merge", "a vertex is only aliased to an earlier vertex that is its own representative and closer than the tolerance; triangles are re-added with the representatives of their corners in order")
    kernel.contract(c)
    with c.group("surface"): total(c, "surface", lambda p: area(p), lambda p: narea(p))
    with c.group("volume"): total(c, "volume", lambda p: det(p).scale(Fraction(1, 6)), lambda p: ndet(p) / 6)
    with c.group("is_closed"): forall(c, "is_closed", lambda L, TL, k, i: [A("near", k, i, n, ints=True) for n in range(3)], lambda near, pts: any(x == -1 for x in near))
    with c.group("has_no_degenerated_triangles"): forall(c, "has_no_degenerated_triangles", None, lambda near, pts: narea(pts) == 0)
    with c.group("is_oriented_outside"):
        L = Lab(c, Ops(c, []).models); f = L.find("MeshMeasurements::is_oriented_outside(Mesh const&)"); m = L.mesh("m")
        v = L.call("MeshMeasurements::volume(Mesh const&)", m)
        r = L.run(f, m)
        ok = None; w = None
        sv = [x for x in deep_atoms(v) if x.kind == "sum"]; sq = [x for x in deep_atoms(r.ret) if x.kind == "sum"]
        if is_poly(v) and len(sv) == 1 and len(sq) == 1 and same_sum(sv[0], sq[0]):
            want = L.it.cmp("oge", Subst({sv[0].id: P(sq[0])}).any(v), ZERO, False)
            if r.ret == want: ok = True
            else:
                for x in (-3, 2):
                    try:
                        if num_eval(r.ret, {sq[0].id: x}) != (x >= 0): ok = False; w = "with a volume of %s/6 the answer is %s" % (x, x < 0)
                    except NoValue: pass
        c.decide(ok, "sign of the volume", "yes exactly if the volume is not negative" if ok else w or "answer %s" % str(r.ret)[:200], f)
        c.functions.update(x.dn for x in L.visited())
    with c.group("is_clean"): clean(c)
    with c.group("merge_vertices"): merging(c)
    with c.group("remove_empty_triangles"): empties(c)

def same_sum(a, b):
    ka, Ka, da = a.args; kb, Kb, db = b.args
    ka = ka if isinstance(ka, Poly) else P(ka); kb = kb if isinstance(kb, Poly) else P(kb)
    return Ka == Kb and Subst({atom_of(kb): ka}).any(db) == da

def vec(p, q): return [b - a for a, b in zip(p, q)]
def crs(u, v): return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
def area(p):
    n = crs(vec(p[0], p[1]), vec(p[0], p[2]))
    return A("sqrt", n[0] * n[0] + n[1] * n[1] + n[2] * n[2]).scale(Fraction(1, 2))
def det(p):
    n = crs(p[1], p[2]); return p[0][0] * n[0] + p[0][1] * n[1] + p[0][2] * n[2]
def narea(p):
    n = crs(vec(p[0], p[1]), vec(p[0], p[2])); return 0.5 * math.sqrt(sum(float(x) * float(x) for x in n))
def ndet(p):
    n = crs(p[1], p[2]); return float(sum(a * b for a, b in zip(p[0], n)))

SHAPES = [[], [(0, 1, 2, 0)], [(0, 1, 2, 1)], [(0, 1, 2, 0), (3, 4, 5, 0)], [(0, 1, 2, 1), (3, 4, 5, 0)], [(0, 1, 2, 0), (3, 4, 5, 1), (6, 7, 8, 0)], [(3, 4, 5, 0), (0, 1, 2, 0), (2, 7, 8, 1)], [(8, 4, 5, 0), (1, 2, 1, 0), (2, 7, 6, 0)], [(0, 1, 1, 0)], [(3, 4, 5, 0), (1, 1, 1, 1)], [(3, 4, 5, 0), (7, 1, 2, 0), (1, 1, 5, 0)]]

def total(c, name, want, num):
    L = Lab(c); f = L.find("MeshMeasurements::%s(Mesh const&)" % name); m = L.mesh("m"); r = L.run(f, m); k = L.kernel(m); TL = TriLoop(L, r, k)
    v = r.ret; nt = A("nt", "m", ints=True); ok = None; why = str(v)[:160]
    if is_poly(v) and len(v.t) == 1:
        (mono, co), = v.t.items()
        if len(mono) == 1 and mono[0][1] == 1 and atom_by_id(mono[0][0]).kind == "sum":
            kat, K, d = atom_by_id(mono[0][0]).args; kp = kat if isinstance(kat, Poly) else P(kat)
            fwd = [kp, nt - 1 - kp]
            if K == nt:
                used = {x.args[2] for x in deep_atoms(d) if x.kind == "ld" and x.args[1] == TL.T}
                for i in fwd:
                    if i.scale(16) + 12 not in used: continue
                    live = TL.live(i); p = TL.corners((None, i))
                    a = restrict(d, live); b = restrict(d, c_not(live))
                    w = want(p)
                    s, t = compare(a.scale(co) if is_poly(a) else a, w)
                    if s is True and is_poly(b) and b.is_zero(): ok = True
                    why = t
    w = None
    if ok is None:
        for sc in (1, -1, Fraction(1, 10 ** 7), 10 ** 5):
            pts = [tuple(x * sc for x in q) for q in PTS]
            for tr in SHAPES:
                env = env_of([Small(L, k, tr, pts)])
                try:
                    num_events(r.ev, env, lambda *a: None); got = float(num_eval(v, env))
                except (NoValue, OverflowError, ValueError, TypeError): continue
                terms = [num([pts[x] for x in t[:3]]) for t in tr if not t[3]]; exp = float(sum(terms))
                if abs(got - exp) > 1e-9 * sum(abs(float(x)) for x in terms): w = w or "for the triangles %s the result is %.6g, expected %.6g" % ([tuple(tuple(map(float, pts[x])) for x in t[:3]) + (("removed",) if t[3] else ()) for t in tr], got, exp)
    if w: c.refuted("sum", w, f)
    else: c.decide(ok, "sum", "sum over 0..nt of the live addends" if ok else why, f)
    c.functions.update(x.dn for x in L.visited())

def forall(c, name, _, bad):
    L = Lab(c); f = L.find("MeshMeasurements::%s(Mesh const&)" % name); m = L.mesh("m"); r = L.run(f, m); k = L.kernel(m); TL = TriLoop(L, r, k)
    v = r.ret; nt = A("nt", "m", ints=True)
    # proof: one loop over all triangles, left early under live and defect only, answer = the loop ran to its end
    ok = None; why = str(v)[:200]
    loops = list({id(F): F for F, i in TL.loops.values()}.values())
    if len(loops) == 1 and isinstance(v, Node) and len(preds_of(v)) == 1 and preds_of(v)[0].kind == "b" and preds_of(v)[0].key[:2] == ("exit", loops[0].lid):
        F = loops[0]; idx = TL.loops[id(F)][1]; n = preds_of(v)[0].key[2]
        if F.trip == nt and idx == F.k and F.guard == ONE and (v.hi, v.lo) == (ONE, ZERO):
            inn = c_not(gt0_(nt - F.k))
            own = F.exits[n][0]; oth = ZERO
            for j, x in enumerate(F.exits):
                if j != n: oth = c_or(oth, x[0])
            live = TL.live(idx)
            if name == "is_closed":
                d = ZERO
                for q in range(3): d = c_or(d, L.it.cmp("eq", near_of(L, r, k, idx, q), P(-1), True))
                want = c_and(c_not(inn), c_and(live, d))
            else:
                p = TL.corners((None, idx)); a = area(p)
                want = c_and(c_not(inn), c_and(live, feq(L, a)))
            if own == inn and oth == want: ok = True
            else: why = "leaves early if %s" % str(oth)[:200]
    w = None
    if ok is None: w = differs(L, r, k, v, bad)
    if w: c.refuted("all", w, f)
    else: c.decide(ok, "all", "yes exactly if no live triangle has the defect" if ok else why, f)
    c.functions.update(x.dn for x in L.visited())
def gt0_(p): return gt0(p, True)
def L_cmp_gt(p): return gt0(p, False)
def near_of(L, r, k, i, q):
    for a in deep_atoms(flat([x[0] for e, _ in walk(r.ev) if isinstance(e, For) for x in e.exits] + [e.stay for e, _ in walk(r.ev) if isinstance(e, For)])):
        if a.kind == "near" and a.args[1] == i and a.args[2] == q: return P(a)
    return A("near", "unused", q, ints=True)
def feq(L, a): return L.it.cmp("oeq", a, ZERO, False)

def differs(L, r, k, v, bad):
    for sc, tr in itertools.product((1, Fraction(1, 10 ** 7), 10 ** 5), SHAPES):
        PT = [tuple(x * sc for x in q) for q in PTS]
        for nb in itertools.product((5, -1), repeat=min(3, len(tr) * 3)) if tr else [()]:
            def near(a, e, nb=nb, n=len(tr)):
                i = int(num_eval(a.args[1], e)); q = int(a.args[-1]) if not isinstance(a.args[-1], Poly) else int(num_eval(a.args[-1], e))
                return nb[q] if i == n - 1 else 5
            env = env_of([Small(L, k, tr, PT)], near=near)
            try:
                num_events(r.ev, env, lambda *a: None); got = int(num_eval(v, env))
            except (NoValue, OverflowError, ValueError, TypeError) as x:
                if L.c.debug: print("NoValue", x)
                continue
            exp = not any(bad(list(nb) if i == len(tr) - 1 else [5, 5, 5], [PT[x] for x in t[:3]]) for i, t in enumerate(tr) if not t[3])
            if got != int(exp): return "for the triangles %s%s with neighbours %s of the last the answer is %d, expected %d" % (tr, "" if sc == 1 else " (coordinates scaled by %g)" % float(sc), list(nb), got, exp)
    return None

def num_pred(key, e): raise NoValue(str(key))

def clean(c):
    checks = [f for f in c.m.match(r"^MeshMeasurements::(has_\w+|is_\w+)\(Mesh const&\)$") if "is_clean" not in f.dn]
    seen = {}
    def h(it, call):
        nm = call.dn.split("(")[0].split("::")[1]; seen[nm] = 1
        return opaque_bool(("check", nm))
    L = Lab(c, {re.compile(r"^MeshMeasurements::(?!is_clean)\w+\("): h}); f = L.find("MeshMeasurements::is_clean(Mesh const&)")
    m = L.mesh("m"); v = L.run(f, m).ret
    trivial = set()
    for g in checks:
        nm = g.dn.split("(")[0].split("::")[1]
        L2 = Lab(c); 
        try:
            if L2.run(g, L2.mesh("m")).ret == ONE: trivial.add(nm)
        except (Und, NoValue, Unsupported, TooBig, Blowup): pass
    names = [g.dn.split("(")[0].split("::")[1] for g in checks]
    ps = preds_of(v) if isinstance(v, Node) else []
    if any(not (p.kind == "b" and p.key[0] == "check") for p in ps):
        an, at = atom_of(A("nv", "m", ints=True)), atom_of(A("nt", "m", ints=True))
        for n, (a, b) in itertools.product([x for x in names if x not in trivial] + [None], ((4, 4), (5, 6), (3, 1), (8, 12), (100, 196), (2000, 3996))):
            try: got = int(num_eval(v, {"preds": lambda key, e: key[1] != n if key[0] == "check" else num_pred(key, e), an: a, at: b}))
            except (NoValue, TypeError, KeyError, IndexError): continue
            if got != (n is None): c.refuted(n or "all hold", "a mesh of %d vertices and %d triangles that %s is reported %s" % (a, b, "fails only %s" % n if n else "passes every check", "clean" if got else "not clean"), f); return
        c.unknown("conjunction", "also depends on %s" % [str(p) for p in ps if not (p.kind == "b" and p.key[0] == "check")][:3], f); return
    live = [n for n in names if n not in trivial]
    for n in live:
        def ev(vals):
            return int(num_eval(v, {"preds": lambda key, e: vals.get(key[1], True)}))
        # all others hold, this one does not
        if ev({n: False}) != 0: c.refuted(n, "a mesh that fails only %s is reported clean" % n, f)
        else:
            x = restrict(v, c_not(opaque_bool(("check", n))))
            c.decide(True if x == ZERO else None, n, "failing %s makes the mesh not clean" % n, f)
    ok = num_eval(v, {"preds": lambda key, e: True})
    c.decide(bool(ok), "all hold", "a mesh that passes every check is clean" if ok else "a mesh that passes every check is not reported clean", f)
    c.count("individual checks", len(names)); c.functions.update(x.dn for x in L.visited())

def merging(c):
    Cp = Copies(c); L = Lab(c, Cp.models); Cp.bind(L)
    f = L.find("MeshUtil::merge_vertices(Mesh&, double)"); m = L.mesh("m"); k = L.kernel(m); tol = L.real("tol")
    nv = L.nv(m); r = L.run(f, m, tol)
    c.functions.update(x.dn for x in L.visited())
    evs = [(e, fors) for e, fors in walk(r.ev) if isinstance(e, Ev)]
    clr = [i for i, (e, _) in enumerate(evs) if e.kind == "mesh" and e.name == "clear" and e.args[0] == k]
    tri = [(e, fors) for e, fors in evs if e.kind == "mesh" and e.name == "add_triangle" and e.args[0] == k]
    if len(clr) != 1 or not tri or any(not fs or fs[-1] is not tri[0][1][-1] for x, fs in tri): raise Und("shape: %d clears, %d triangles" % (len(clr), len(tri)))
    e, fors = tri[0]
    # the alias table: the vector the corners of the new triangles come from
    objs = {a.args[1] for e_, _ in tri for x in e_.args[1:4] for a in deep_atoms(x) if a.kind == "ld" and a.args[1][0] == "E"}
    if len(objs) != 1: raise Und("table of representatives")
    T, = objs
    st = [(i, x, fs) for i, (x, fs) in enumerate(evs) if x.kind == "store" and isinstance(x.args[0], Ptr) and x.args[0].obj == T]
    p1 = [(x, fs) for i, x, fs in st if i < clr[0]]; p2 = [(x, fs) for i, x, fs in st if i > clr[0]]
    V = ("MV", k)
    def vert(i): return [L.it.read(Mem("init", None, V), V, i.scale(24) + 8 * j, 8, "double") for j in range(3)]
    # phase 1
    for n, (x, fs) in enumerate(p1):
        key = "alias.%d" % n; i = x.args[0].off.scale(Fraction(1, 4)); j = x.args[1]
        if not is_poly(i, j) or len(fs) != 2 or i != fs[0].k or j != fs[1].k or fs[1].trip != fs[0].k or fs[0].trip != nv: c.unknown(key, "alias[%s]=%s" % (i, j), x); continue
        a, b = vert(i), vert(j); d2 = ZERO
        for s, t in zip(a, b): d2 = d2 + (s - t) * (s - t)
        g = trip_free(x.guard, fs)
        near = c_and(L_cmp_gt(tol * tol - d2), ONE)
        rep = gt0(-P_ld(g, T, j), True) if P_ld(g, T, j) is not None else None
        if rep is not None and c_and(g, ONE) == c_and(rep, near): c.proved(key, "aliased exactly to an earlier representative closer than the tolerance", x); continue
        w = None
        # instance: three vertices in a row; the table is all -1 except where an earlier step has stored 0 into entry 1
        for (ii, jj, tab, d, exp) in ((1, 0, {0: -1, 1: -1}, 0.5, 1), (1, 0, {0: -1, 1: -1}, 1.5, 0), (2, 1, {0: -1, 1: 0, 2: -1}, 0.6, 0), (2, 1, {0: -1, 1: -1, 2: -1}, 0.5, 1), (1, 0, {0: -1, 1: -1}, 2.5, None), (2, 0, {0: -1, 1: -1, 2: -1}, 0.5, 1)):
            for tv, ax in itertools.product((1, 2), range(3)):
                if exp is None: ex = 0
                elif tab.get(jj) != -1: ex = 0
                else: ex = 1 if d < tv else 0
                def at(y, en):
                    if y.kind == "ld" and y.args[1] == T: return tab[int(num_eval(y.args[2], en)) // 4]
                    if y.kind == "ld" and y.args[1] == V:
                        o = int(num_eval(y.args[2], en)); return (d if o // 24 == ii else 0) if o % 24 == 8 * ax else 0
                    raise NoValue(y.kind)
                try: got = int(num_eval(x.guard, {"atoms": at, atom_of(fs[0].k): ii, atom_of(fs[1].k): jj, atom_of(nv): 3, atom_of(tol): tv}))
                except (NoValue, KeyError, TypeError): continue
                if got != ex and not w: w = "vertices %d and %d at distance %s, tolerance %s, representatives %s: %s" % (jj, ii, d, tv, tab, "merged" if got else "not merged")
        if w: c.refuted(key, w, x)
        else: c.unknown(key, "condition %s" % str(g)[:200], x)
    # phase 2
    adds = [(x, fs) for x, fs in evs if x.kind == "mesh" and x.name == "add_vertex" and x.args[0] == k]
    if len(adds) != 1 or len(adds[0][1]) != 1: raise Und("vertices re-added")
    av, afs = adds[0]; F = afs[0]
    same(c, "vertex re-added", list(av.args[1]), vert(F.k), av, "the representative keeps its position:")
    for n, (x, fs) in enumerate(p2):
        i = x.args[0].off.scale(Fraction(1, 4))
        if not fs or fs[0] is not F or i != F.k: c.unknown("renumber.%d" % n, "entry %s" % i, x); continue
        if x.args[1] == av.ret:
            c.decide(True if x.guard == av.guard else None, "renumber.%d" % n, "a representative gets the index of the vertex added for it", x)
        else:
            v = x.args[1]; ok = None; why = "value %s" % str(v)[:200]
            if is_poly(v) and len(v.t) == 1 and list(v.t.values()) == [1]:
                a = atom_by_id(list(v.t)[0][0][0])
                if a.kind == "ld" and a.args[1] == T:
                    inner = a.args[2].scale(Fraction(1, 4))
                    b = atom_by_id(list(inner.t)[0][0][0]) if len(inner.t) == 1 and list(inner.t.values()) == [1] else None
                    if b is not None and b.kind == "ld" and b.args[1] == T and b.args[2] == F.k.scale(4) and a.args[0] == b.args[0]: ok = True
                    elif inner == F.k: ok = False; why = "an alias keeps the old number of its representative: with vertices 0=1 and 2=3 merged, vertex 3 is renumbered 2 and not 1"
            c.decide(ok, "renumber.%d" % n, "an alias gets the new index of its representative" if ok else why, x)
    tot = ZERO
    for x, fs in p2: tot = c_or(tot, trip_free(x.guard, fs))
    ok = True if tot == ONE else None; why = "every entry is renumbered" if ok else "renumbered if %s" % str(tot)[:200]
    lds = {a for a in deep_atoms(flat([tot])) if a.kind == "ld" and a.args[1] == T}
    if ok is None and lds:
        try:
            if not num_eval(tot, {a.id: 2 for a in lds}): ok = False; why = "an entry with alias 2 keeps it: with vertices 0=1 and 2=3 merged, vertex 3 becomes 2, which is then another vertex or none"
        except NoValue: pass
    c.decide(ok, "renumber all", why, f)
    # which entries are representatives: -1
    g = trip_free(av.guard, afs)
    lds = {a for a in deep_atoms(flat([g])) if a.kind == "ld" and a.args[1] == T}
    bad = None
    if len(lds) == 1:
        a, = lds
        for val, exp in ((-1, 1), (0, 0), (3, 0)):
            try: got = int(num_eval(g, {a.id: val}))
            except NoValue: got = exp
            if got != exp: bad = "entry %d: %s" % (val, "re-added" if got else "not re-added")
        c.decide(False if bad else True, "representatives", bad or "exactly the vertices without alias are re-added", av)
    else: c.unknown("representatives", str(g)[:200], av)
    # triangles
    ks = None
    F = fors[-1]
    for s, info in Cp.src.items():
        if info[1] == F.trip: ks = info
    if ks is None or len(fors) != 1: c.unknown("triangles", "source of the triangles (range %s)" % F.trip, e); return
    MT = ks[2]
    want = [L.it.read(Mem("init", None, MT), MT, F.k.scale(16) + 4 * q, 4, "i32") for q in range(3)]
    got = []
    for x in e.args[1:4]:
        a = atom_by_id(list(x.t)[0][0][0]) if is_poly(x) and len(x.t) == 1 else None
        got.append(a.args[2].scale(Fraction(1, 4)) if a is not None and a.kind == "ld" and a.args[1] == T else None)
    rots = [want[q:] + want[:q] for q in range(3)]
    if len(tri) == 1 and got in rots: c.proved("triangles", "every triangle of the copy is re-added with the representatives of its corners in order", e)
    elif len(tri) == 1 and all(x in want for x in got): c.refuted("triangles", "a triangle with corners (0,1,2) is re-added as corners %s" % [want.index(x) for x in got], e)
    else:
        w = None
        for tab, tri_ in itertools.product(((0, 1, 2, 3), (0, 0, 1, 2), (0, 1, 0, 1), (0, 1, 1, 2)), itertools.permutations(range(4), 3)):
            def at(y, en):
                o = int(num_eval(y.args[2], en)) if y.kind == "ld" else 0
                if y.kind == "ld" and y.args[1] == T: return tab[o // 4]
                if y.kind == "ld" and y.args[1] == MT and 0 <= o < 16: return tri_[o // 4] if o < 12 else 0
                raise NoValue(y.kind)
            try:
                en = {"atoms": at, atom_of(F.k): 0}
                now = [tuple(int(num_eval(x, en)) for x in e_.args[1:4]) for e_, fs in tri if num_eval(trip_free(e_.guard, fs), en)]
                if len(now) > 1 or (not now and len(tri) > 1): w = w or "with the representatives %s the triangle %s becomes %s" % (tab, tri_, now)
                now = now[0] if now else None
            except (NoValue, KeyError, IndexError, TypeError): continue
            ex = tuple(tab[x] for x in tri_)
            if now is not None and now not in (ex, ex[1:] + ex[:1], ex[2:] + ex[:2]): w = w or "with the representatives %s the triangle %s becomes %s" % (tab, tri_, now)
        if w: c.refuted("triangles", w, e)
        else: c.unknown("triangles", "corners %s" % str(e.args[1:4])[:200], e)

def P_ld(g, T, j):
    for a in deep_atoms(flat([g])):
        if a.kind == "ld" and a.args[1] == T and a.args[2] == j.scale(4): return P(a)
    return None

def empties(c):
    L = Lab(c); f = L.find("MeshUtil::remove_empty_triangles(Mesh&, double)"); m = L.mesh("m"); k = L.kernel(m); tol = L.real("tol"); nt = L.nt(m)
    r = L.run(f, m, tol); TL = TriLoop(L, r, k)
    un = [(e, fors) for e, fors in mesh_events(r.ev, "unlink", k)]
    if not un: raise Und("nothing is removed")
    g = ZERO; F = un[0][1][-1]
    for e, fors in un:
        if fors[-1] is not F or e.args[1] != F.k: raise Und("index %s" % e.args[1])
        g = c_or(g, trip_free(e.guard, fors))
    c.decide(True if F.trip == nt and F.exact and F.guard == ONE else None, "all triangles", "loop over 0..%s" % F.trip, f)
    # earlier turns of the loop only set the flag of their own index: the flag read is the one on entry
    sub = {a.id: TL.flag(F.k) for a in deep_atoms(flat([g])) if a.kind == "ld" and a.args[1] == TL.T and a.args[0] == ("L", F.lid, ()) and a.args[2] == F.k.scale(16) + 12}
    for a in deep_atoms(flat([g])):
        for q in range(3):
            if a.kind == "ld" and a.args[1] == TL.T and a.args[0] == ("L", F.lid, ()) and a.args[2] == F.k.scale(16) + 4 * q: sub[a.id] = TL.index(F.k, q)
    if sub: g = Subst(sub).any(g)
    p = TL.corners((F, F.k)); want = ZERO
    for a, b in ((0, 1), (1, 2), (2, 0)):
        d2 = ZERO
        for s, t in zip(p[a], p[b]): d2 = d2 + (s - t) * (s - t)
        want = c_or(want, L_cmp_gt(tol * tol - d2))
    want = c_and(TL.live(F.k), want)
    d = apply(lambda x, y: ZERO if x == y else ONE, restrict(g, TL.live(F.k)), restrict(want, TL.live(F.k)))
    if d == ZERO: c.proved("short edge", "removed exactly if one of the three edges is shorter than the tolerance", f); return
    w = None
    for tr in ((0, 0, 1), (0, 1, 0), (1, 0, 0), (0, 1, 2), (0, 0, 0), (2, 3, 1)):
        pts = [(0, 0, 0), (3, 0, 0), (0, 4, 0), (3, 1.5, 0)]
        for tv in (1, 2, 0.5, 4.5):
            sm = Small(L, k, [tr + (0,)], pts); env = env_of([sm], {atom_of(tol): tv}); hit = []
            rd = env["atoms"]
            env["atoms"] = lambda a, en: rd(atom_by_id(atom_of(sub[a.id])), en) if a.id in sub and is_poly(sub[a.id]) else rd(a, en)
            try: num_events(r.ev, env, lambda e, en: hit.append(1) if e.kind == "mesh" and e.name == "unlink" else None)
            except NoValue: continue
            q = [pts[x] for x in tr]; exp = any(sum((a - b) ** 2 for a, b in zip(q[u], q[(u + 1) % 3])) < tv * tv for u in range(3))
            if bool(hit) != exp: w = "the triangle %s with tolerance %s is %s" % (q, tv, "removed" if hit else "kept")
    if w: c.refuted("short edge", w, f)
    else: c.unknown("short edge", "condition %s" % str(g)[:200], f)
