"""C08: grid surfaces: one quad per cell, one orientation, wrap-around cells for closed directions, valid indices."""
import itertools
from common import *
from ident import *
from replay import Replay
import re, os, sys
from cadsa import bounds

def run(c):
    c.rule("vertices", "the vertex loops are exact and vertex number N(u,v), a polynomial in the loop counters, gets the position of grid node (u,v) of the specification")
    c.rule("cells", "the triangle loops are exact and run over all cells; on every path through the conditions of one iteration exactly two triangles are added whose oriented boundaries sum to the boundary of that cell (with the wrap-around node for a closed direction), with the same sign on every path")
    c.rule("safe", "every vertex number used is N of a grid node that has been added before")
    c.rule("small grids", "refutation: the effect tree is unrolled for all grid sizes up to 4x4 and every closed/open combination and compared cell by cell with the specification")
    c.rule("net", "control point number u + nu*v of a surface built from a height map is (u, v, z[u + nu*v]) with nu x nv = size x times size y")
    c.rule("solid", "the mesh of a solid is cleared once and then receives every surface, in a loop over all of them, without clearing in between")
    c.assume("grid sizes >= 1 and the value vector has size x times size y elements", "evaluation of a surface point is one function of the surface and (u,v) (its own properties are C20)", "integers do not overflow")
    for spec in (height, grid, ctrl, surface):
        dn = spec.__doc__
        with c.group(dn.split("(")[0] + ("(surface)" if spec is surface else "")): one(c, spec, dn)
    with c.group("NurbsUtil::create_from_z"): net(c)
    with c.group("NurbsUtil::to_mesh(solid)"): solid(c)

class G: pass
def pids(v): return {q.id for q in preds_of(v)}

def vec_at(L, p, off, size): return L.load(vbuf(L, p, off), 8, "double")
def vbuf(L, p, off=ZERO): return Ptr(L.it.vbuf(p), off)

def height(L, f):
    """MeshUtil::create_from_z("""
    v, W, H = L.out("vz"), L.int_("W"), L.int_("H"); m = L.mesh("m")
    g = G(); g.args = [v, W, H, m]; g.m = m; g.dim = [W, H]; g.cells = [W - 1, H - 1]; g.nodes = [W, H]; g.closed = [ZERO, ZERO]; g.free = []
    g.pos = lambda u, w: [u, w, vec_at(L, v, (u + W * w).scale(8), 8)]
    return g
def grid(L, f):
    """MeshUtil::create_from_grid("""
    v, W, H = L.out("vp"), L.int_("W"), L.int_("H"); m = L.mesh("m")
    g = G(); g.args = [v, W, H, m]; g.m = m; g.dim = [W, H]; g.cells = [W - 1, H - 1]; g.nodes = [W, H]; g.closed = [ZERO, ZERO]; g.free = []
    sz = L.m.sizeof("Point3")
    g.pos = lambda u, w: [vec_at(L, v, (u + W * w).scale(sz) + o, 8) for o in L.mm.pt]
    return g
def nurbs(L):
    n = L.out("n"); st = L.st.copy()
    def get(m, ty): return L.call("NurbsSurface::%s() const" % m, n)
    return n, L.call("NurbsSurface::nb_points_u() const", n), L.call("NurbsSurface::nb_points_v() const", n)
def ctrl(L, f):
    """NurbsUtil::to_controlpoints_mesh("""
    n, W, H = nurbs(L); m = L.mesh("m")
    for x in (W, H): declare_nonneg(x)
    pts = L.call("NurbsSurface::points() const", n)
    g = G(); g.args = [n, m]; g.m = m; g.dim = [W, H]; g.cells = [W - 1, H - 1]; g.nodes = [W, H]; g.closed = [ZERO, ZERO]; g.free = []
    sz = L.m.sizeof("Point3")
    g.pos = lambda u, w: [vec_at(L, pts, (u + W * w).scale(sz) + o, 8) for o in L.mm.pt]
    return g
def surface(L, f):
    """NurbsUtil::to_mesh(NurbsSurface"""
    n, W, H = nurbs(L); m = L.mesh("m"); s = L.int_("seg")
    for x in (W, H): declare_nonneg(x)
    g = G(); g.args = [n, m, s, ZERO]; g.m = m; g.dim = [W, H]; g.cells = [s * W, s * H]; g.nodes = [s * W + 1, s * H + 1]; g.seg = s
    g.flags = [L.call("NurbsSurface::is_closed_%s() const" % d, n) for d in "uv"]
    g.closed = [to_cond(x) for x in g.flags]; g.free = []
    g.pos = lambda u, w: [A("S", i, u * inv(g.cells[0]), w * inv(g.cells[1])) for i in range(3)]
    return g

def evaluate_model(box):
    def ev(it, call):
        L = box[0]; p = call.args[-1]
        for n, o in enumerate(L.mm.pt):
            it.store(call.st, bind(lambda q, o=o: Ptr(q.obj, q.off + o), p), bind2(lambda u, v, n=n: A("S", n, u, v), call.args[1], call.args[2]), 8)
        return None
    return {"NurbsSurface::evaluate(double, double, Point3&) const": ev}

def find1(c, dn):
    fs = c.m.named(dn)
    if len(fs) != 1: raise AnalysisError("anchor vanished: " + dn)
    return fs[0]

def one(c, spec, dn):
    f = find1(c, dn); box = [None]
    L = Lab(c, evaluate_model(box)); box[0] = L
    L.mm.record_pos = True; L.mm.record_nv = True
    g = spec(L, f)
    if len(g.args) != len(f.args): raise Und("another signature")
    r = L.run(f, *g.args); k = L.kernel(g.m)
    c.functions.update(x.dn for x in L.visited())
    if any(True for _ in mesh_events(r.ev, "unlink", k)): raise Und("triangles are removed while building")
    w, done = small(c, L, g, r, k)
    if w:
        c.refuted(w[0], w[1], w[2] or f); return
    c.count("small grids compared", done)
    n0 = len(c.obs)
    try: prove(c, L, g, r, k, f); ok = all(o["status"] != "unknown" for o in c.obs[n0:])
    except Und: ok = False; why = sys.exc_info()
    if ok: return
    # no proof: larger grids around the constants of the code
    lim = sorted({int(abs(v)) for e, fors in walk(r.ev) if isinstance(e, Ev) for q in preds_of(e.guard) + [q for x in e.args if isinstance(x, Node) for q in preds_of(x)] if q.kind == "gt" and isinstance(q.poly, Poly)
                  for m, v in q.poly.t.items() if 4 < abs(v) <= 400 and v == int(v)} | {5, 256})[:6]
    for n in lim:
        for W, H in ((n + 1, 3), (3, n + 1), (n + 2, 2), (n, 3)):
            w, d = small(c, L, g, r, k, [(W, H)], (1,))
            if w: c.obs[n0:] = []; c.refuted(w[0], w[1], w[2] or f); return
            c.count("larger grids compared", d)
    if len(c.obs) == n0: raise Und(str(why[1]))

# ------------------------------------------------------------------ refutation on small grids
def small(c, L, g, r, k, sizes=None, segs=(1, 2)):
    done = 0
    nv0 = one_atom(A("nv", "m", ints=True)); nt0 = one_atom(A("nt", "m", ints=True))
    has = hasattr(g, "flags")
    for W, H in sizes or itertools.product(range(1, 5), repeat=2):
        for fl in (itertools.product((0, 1), repeat=2) if has else [(0, 0)]):
            for seg in (segs if has else (1,)):
                env = {one_atom(g.dim[0]): W, one_atom(g.dim[1]): H, nv0: 3, nt0: 2}
                if has:
                    env[one_atom(g.seg)] = seg
                    for x, v in zip(g.flags, fl):
                        for q in pids(x) if isinstance(x, Node) else []: env[("pred", q)] = bool(v); env[q] = bool(v)
                        if isinstance(x, Poly) and not x.is_const(): env[one_atom(x)] = v
                for seed in ((1, 2, 3) if W > 1 and H > 1 and not sizes else (1,)):
                    e2 = dict(env); e2["atoms"] = values(seed)
                    w = small1(L, g, r, k, e2, W, H, fl, seg)
                    if w is None: return None, done
                    if w is not True: return w, done
                    done += 1
    return None, done
def values(seed):
    """arbitrary distinct coordinates for the contents of the inputs and the sampled points"""
    memo = {}
    def val(key):
        if key not in memo:
            h = 2166136261 + seed
            for ch in repr(key): h = ((h ^ ord(ch)) * 16777619) & 0xffffffff
            memo[key] = Fraction((h >> 4) % 100003, 997) + len(memo) * Fraction(1, 10**7)
        return memo[key]
    def f(a, env):
        if a.kind == "S": return val(("S", a.args[0]) + tuple(num_eval(x, env) for x in a.args[1:]))
        if a.kind == "ld" and a.args[0] == "i": return val((num_obj(a.args[1], env), int(num_eval(a.args[2], env))))
        raise NoValue(fmt_atom(a))
    return f
def label(p, en): return tuple(num_eval(x, en) for x in p)

def small1(L, g, r, k, env, W, H, fl, seg):
    """True: agrees; None: cannot be read off; tuple: a defect"""
    pos = {}; tris = []; st = {"n": 3}
    def emit(e, en):
        if e.kind != "mesh" or e.args[0] != k: return
        if e.name == "clear": pos.clear(); tris.clear(); st["n"] = 0
        elif e.name == "add_vertex":
            pos[st["n"]] = label(e.args[1], en); st["n"] += 1
        elif e.name == "set_vertex": raise NoValue("set_vertex")
        elif e.name == "add_triangle":
            tris.append((tuple(int(num_eval(x, en)) for x in e.args[1:4]), e, st["n"]))
    try: num_events(r.ev, env, emit)
    except NoValue as x:
        return None
    what = "grid of %d x %d nodes" % (W, H)
    if hasattr(g, "flags"): what = "%d x %d control points, %d segment(s), %s in u, %s in v" % (W, H, seg, "closed" if fl[0] else "open", "closed" if fl[1] else "open")
    for t, e, n in tris:
        b = [i for i in t if not 0 <= i < n]
        if b: return ("safe", "%s: triangle %s uses vertex %d of %d" % (what, t, b[0], n), e)
        b = [i for i in t if i not in pos]
        if b: return ("safe", "%s: triangle %s uses vertex %d, which is not one of the grid" % (what, t, b[0]), e)
    CU, CV = [max(0, int(num_eval(x, env))) for x in g.cells]
    node = {}
    NU, NV = [max(0, int(num_eval(x, env))) for x in g.nodes]
    if CU == 0 or CV == 0:
        if tris: return ("cells", "%s: %d triangles although there is no cell" % (what, len(tris)), tris[0][1])
        return True
    for u in range(NU):
        for v in range(NV): node[label(g.pos(P(u), P(v)), env)] = (u, v)
    if len(node) != NU * NV: return None
    cell = {}
    for i in range(CU):
        for j in range(CV):
            iu = 0 if fl[0] and i == CU - 1 else i + 1
            jv = 0 if fl[1] and j == CV - 1 else j + 1
            cell[(i, j)] = [(i, j), (iu, j), (iu, jv), (i, jv)]
    got = {}; left = []
    for t, e, n in tris:
        try: lab = tuple(node[pos[i]] for i in t)
        except KeyError:
            bad = [i for i in t if pos[i] not in node][0]
            return ("vertices", "%s: vertex %d at %s is not a grid node" % (what, bad, tuple(str(x) for x in pos[bad])), e)
        left.append((lab, e))
    # assign triangles to cells: backtracking is unnecessary, the three corners name the cell except on 1-cell wraps
    deg = (fl[0] and CU <= 2) or (fl[1] and CV <= 2)
    if deg:
        if len(tris) != 2 * len(cell): return ("cells", "%s: %d triangles for %d cells" % (what, len(tris), len(cell)), tris[0][1] if tris else None)
        return True if 1 in (CU, CV) or halves([t for t, _ in left], list(cell.values())) else ("cells", "%s: the triangles are not the halves of the cells, all with one orientation" % what, left[0][1])
    by = {}
    for cc, q in cell.items(): by[frozenset(q)] = cc
    sgn = None
    for lab, e in left:
        cs = [s for s in by if set(lab) <= s]
        if len(set(lab)) < 3: return ("cells", "%s: triangle on nodes %s is degenerate" % (what, lab), e)
        if len(cs) != 1: return ("cells", "%s: triangle on nodes %s is not inside one cell" % (what, lab), e)
        got.setdefault(by[cs[0]], []).append((lab, e))
    for cc, q in sorted(cell.items()):
        ts = got.get(cc, [])
        if len(ts) != 2: return ("cells", "%s: cell %s has %d triangles" % (what, cc, len(ts)), ts[0][1] if ts else (tris[0][1] if tris else None))
        ch = {}
        for lab, e in ts:
            for a, b in zip(lab, lab[1:] + lab[:1]):
                s = 1 if a < b else -1; key = (min(a, b), max(a, b)); ch[key] = ch.get(key, 0) + s
        ch = {x: y for x, y in ch.items() if y}
        ex = {}
        for a, b in zip(q, q[1:] + q[:1]): ex[(min(a, b), max(a, b))] = 1 if a < b else -1
        s = 1 if ch == ex else -1 if ch == {x: -y for x, y in ex.items()} else 0
        if not s: return ("cells", "%s: the two triangles of cell %s (%s) do not make up the quad %s" % (what, cc, [l for l, _ in ts], q), ts[0][1])
        if sgn is None: sgn = s
        elif sgn != s: return ("cells", "%s: cell %s is oriented the other way" % (what, cc), ts[0][1])
    return True

def halves(tris, quads):
    """the triangles are the quads, each cut along one of its diagonals, all with one orientation (cells that wrap onto each other share corners)"""
    rot = lambda t: min(t[i:] + t[:i] for i in range(3))
    for flip in (False, True):
        cnt = {}
        for t in tris: t = rot(t[::-1] if flip else t); cnt[t] = cnt.get(t, 0) + 1
        def fit(n):
            if n == len(quads): return True
            a, b, c, d = quads[n]
            for x, y in (((a, b, c), (a, c, d)), ((a, b, d), (b, c, d))):
                x = rot(x); y = rot(y); cnt[x] = cnt.get(x, 0) - 1; cnt[y] = cnt.get(y, 0) - 1
                if cnt[x] >= 0 and cnt[y] >= 0 and fit(n + 1): return True
                cnt[x] += 1; cnt[y] += 1
            return False
        if fit(0): return True
    return False

def ite_pred(p): return mk(p.id, ONE, ZERO)
# ------------------------------------------------------------------ proof for every size
def prove(c, L, g, r, k, f):
    te = list(mesh_events(r.ev, "add_triangle", k)); ve = list(mesh_events(r.ev, "add_vertex", k))
    if not te or not ve: raise Und("no triangles or vertices")
    nests = {tuple(id(F) for F in fors) for _, fors in te}
    if len(nests) != 1: raise Und("triangles are added in several loop nests")
    fors = te[0][1]
    if len(fors) != 2 or not all(F.exact for F in fors): raise Und("the triangle loops are not a plain nest of two")
    same_nest = {tuple(id(F) for F in fo) for _, fo in ve} == nests
    N = None
    if not same_nest:
        if len(ve) != 1: raise Und("vertices are added at several places")
        e, fo = ve[0]
        if len(fo) != 2 or not all(F.exact for F in fo) or not isinstance(e.ret, Poly): raise Und("the vertex loops are not a plain nest of two")
        if cleanguard(e, fo, g) is not True: raise Und("vertices are added conditionally: %s" % e.guard)
        u, v = A("node", "u", ints=True), A("node", "v", ints=True)
        for au, av in ((0, 1), (1, 0)):
            if fo[au].trip == g.nodes[0] and fo[av].trip == g.nodes[1]:
                s = Subst({one_atom(fo[au].k): u, one_atom(fo[av].k): v})
                if all(s.any(a) == b for a, b in zip(e.args[1], g.pos(u, v))):
                    ret = s.any(e.ret)
                    N = lambda a, b, ret=ret: Subst({one_atom(u): a, one_atom(v): b}).any(ret); break
        if N is None: raise Und("vertex positions do not match the grid of the specification in closed form")
        c.proved("vertices", "N(u,v) = %s over %s x %s nodes" % (N(u, v), g.nodes[0], g.nodes[1]), e)
    lab = (lambda e, n: [e.args[1 + n]]) if N else (lambda e, n: e.x["pos"][n])
    want = (lambda a, b: [N(a, b)]) if N else g.pos
    if not N and any(p is None for e, _ in te for p in e.x.get("pos", [None])): raise Und("corner positions unknown")
    last = None
    for au, av in ((0, 1), (1, 0)):
        if fors[au].trip != g.cells[0] or fors[av].trip != g.cells[1]: continue
        i, j = fors[au].k, fors[av].k
        eu = ite(c_and(g.closed[0], c_not(gt0(g.cells[0] - 1 - i, True))), ZERO, i + 1)
        ev = ite(c_and(g.closed[1], c_not(gt0(g.cells[1] - 1 - j, True))), ZERO, j + 1)
        exp = []
        for a, b in ((i, j), (eu, j), (eu, ev), (i, ev)):
            vals = bind2(lambda x, y: Tup(want(x, y)), a, b) if isinstance(a, Node) or isinstance(b, Node) else Tup(want(a, b))
            exp.append(vals)
        last = paths_ok(te, fors, lab, exp, g)
        if last[0]: break
    if last is None: raise Und("loop bounds %s do not match the cells %s" % ([str(F.trip) for F in fors], [str(x) for x in g.cells]))
    c.decide(True if last[0] else None, "cells", last[1], te[0][0])
    if N: c.decide(True if last[0] else None, "safe", "corners are N(u,v) of nodes inside the vertex loops, which end before the triangle loops start" if before(r.ev, ve[0][1][0], fors[0]) else "order", te[0][0])
    else: c.decide(True if last[0] else None, "safe", "every corner is a vertex stored in the same iteration", te[0][0])
    if N is None: c.proved("vertices", "corner positions are the control points of the cell", te[0][0])

def before(evs, a, b):
    tops = [x for x in evs if isinstance(x, For)]
    return a in tops and b in tops and tops.index(a) < tops.index(b)

class Tup:
    """several values as one leaf"""
    def __init__(s, v): s.v = tuple(v)
    def __eq__(s, o): return isinstance(o, Tup) and s.v == o.v
    def __hash__(s): return hash(s.v)

def cleanguard(e, fors, g):
    x = trip_free(e.guard, fors)
    if x == ONE: return True
    facts = bounds.loop_facts(fors)
    return all(infeasible(p, facts, [g.cells[0] - 1, g.cells[1] - 1]) for p, val in paths(x) if val == ZERO)      # there is a cell

def infeasible(path, facts, cells=None):
    """no value satisfies the path, the loop ranges and (cells) that there is a cell"""
    mine = bounds.facts_of(path); fs = list(facts) + mine
    try:
        if bounds.nonneg(P(-1), fs): return True
    except Exception: pass
    if cells:
        ex = cells + [cells[0] * cells[1]]
        for m in mine:
            for k in range(1, 4):
                for sub in itertools.combinations(ex, k):
                    t = m
                    for x in sub: t = t + x
                    if t.is_const() and t.const() < 0: return True
    return False

def nonneg(e, facts):
    """e >= 0 as a sum of facts (each at most twice) and obviously non-negative terms"""
    fs = [f for f in facts if not f.is_const()]
    for k in range(0, 4):
        for sub in itertools.combinations_with_replacement(fs, k):
            t = e
            for x in sub: t = t - x
            if bounds.obviously(t): return True
    return False
def unrem(v, facts):
    """x % y with 0 <= x < 2y as a case distinction"""
    if isinstance(v, Node): return v
    for a in sorted(v.atoms()):
        at = atom_by_id(a)
        if at.kind == "srem" and isinstance(at.args[0], Poly) and isinstance(at.args[1], Poly):
            x, y = at.args
            if nonneg(x, facts) and nonneg(y.scale(2) - 1 - x, facts):
                return ite(gt0(y - x, True), Subst({a: x}).any(v), Subst({a: x - y}).any(v))
    return v
def forced(facts):
    """an equation f = 0 (f >= 0 and -f >= 0) solved for an atom with coefficient +-1"""
    for f, g in itertools.combinations(facts, 2):
        if not (f + g).is_zero(): continue
        for a in sorted(f.atoms()):
            co = bounds._linear(f, a)
            if co is not None: return {a: P(atom_by_id(a)) - f.scale(co)}
    return {}

def paths_ok(te, fors, lab, exp, g, limit=4000):
    """every joint path of one iteration has two triangles making up the cell, always with the same sign"""
    items = []
    for e, _ in te:
        gd = trip_free(e.guard, fors)
        comps = [lab(e, n) for n in range(3)]
        items.append((gd, comps))
    facts = bounds.loop_facts(fors)
    sign = [None]; n = [0]; bad = []
    def first(vals):
        for v in vals:
            if isinstance(v, Node): return v.p
        return None
    def go(items, exp, path):
        if bad or n[0] > limit: return
        fs = facts + bounds.facts_of(path)
        R = lambda x: unrem(x, fs)
        items = [(gd, [[R(x) for x in co] for co in cs]) for gd, cs in items]
        vs = [gd for gd, _ in items] + [x for gd, cs in items if gd != ZERO for co in cs for x in co] + list(exp)
        q = first(vs)
        if q is not None:
            for val in (True, False):
                cnd = ite_pred(pred(q)) if val else c_not(ite_pred(pred(q)))
                p2 = path + [(pred(q), val)]
                if infeasible(p2, facts, [g.cells[0] - 1, g.cells[1] - 1]): continue
                R = lambda x: restrict(x, cnd) if isinstance(x, Node) else x
                go([(R(gd), [[R(x) for x in co] for co in cs]) for gd, cs in items], [R(x) for x in exp], p2)
            return
        n[0] += 1
        eq = forced(fs); S = Subst(eq).any if eq else (lambda x: x)
        act = [[tuple(S(x) for x in co) for co in cs] for gd, cs in items if gd == ONE]
        q4 = [tuple(S(x) for x in x.v) for x in exp]
        if len(act) != 2: bad.append("path %s adds %d triangles" % (fmt(path), len(act))); return
        ch = {}
        def edge(a, b, s):
            if str(a) > str(b): a, b, s = b, a, -s
            ch[(a, b)] = ch.get((a, b), 0) + s
        for t in act:
            for a, b in zip(t, t[1:] + t[:1]): edge(a, b, 1)
        got = {x: y for x, y in ch.items() if y}
        ch.clear() if False else None
        ch = {}
        for a, b in zip(q4, q4[1:] + q4[:1]):
            if str(a) > str(b): ch[(b, a)] = ch.get((b, a), 0) - 1
            else: ch[(a, b)] = ch.get((a, b), 0) + 1
        s = 1 if got == ch else -1 if got == {x: -y for x, y in ch.items()} else 0
        if not s: bad.append("path %s: boundary differs" % fmt(path)); return
        if sign[0] is None: sign[0] = s
        elif sign[0] != s: bad.append("orientation differs on path %s" % fmt(path))
    def fmt(path): return " & ".join(("" if v else "not ") + str(p) for p, v in path)[:200] or "true"
    go(items, exp, [])
    if n[0] > limit: bad.append("too many paths")
    return (not bad, bad[0] if bad else "%d paths per cell, %s x %s cells" % (n[0], g.cells[0], g.cells[1]))

# ------------------------------------------------------------------ control net of a height map, mesh of a solid
def net(c):
    f = find1(c, "NurbsUtil::create_from_z(")
    if len(f.args) != 5: raise Und("another signature")
    L = Lab(c, mesh=False); z, W, H, d = L.out("z"), L.int_("W"), L.int_("H"), L.int_("d"); n = L.out("n")
    r = L.run(f, z, W, H, d, n)
    c.functions.update(x.dn for x in L.visited())
    pts = L.call("NurbsSurface::points() const", n); nu = L.call("NurbsSurface::nb_points_u() const", n); nv = L.call("NurbsSurface::nb_points_v() const", n)
    buf = vbuf(L, pts)
    zb = vbuf(L, z)
    done = 0
    for w, h, dg in ((2, 2, 1), (3, 2, 1), (2, 4, 1), (4, 4, 2)):
        def init(o, k):
            if o == num_obj(zb.obj, {}): return 1000 + k // 8
            if o == z.obj: return w * h if k == int(z.off.const()) else None
            return 77
        R = Replay(L, init, {one_atom(W): w, one_atom(H): h, one_atom(d): dg})
        try:
            R.run(r.ev)
            gu, gv = int(num_eval(nu, R.env)), int(num_eval(nv, R.env))
            got = {(u, v): tuple(R.M.read(num_obj(buf.obj, R.env), 24 * (u + gu * v) + o) for o in L.mm.pt) for u in range(gu) for v in range(gv)}
        except NoValue as x:
            if os.environ.get('CADSA_DEBUG'): print('net', x)
            break
        want = {(u, v): (u, v, 1000 + u + w * v) for u in range(w) for v in range(h)}
        if (gu, gv) != (w, h) and (gu, gv) == (h, w): want = {(v, u): p for (u, v), p in want.items()}      # u and v exchanged
        for key in sorted(want):
            g = got.get(key)
            if g is None or any(x is None for x in g) or tuple(g) != want[key]:
                if g is not None and any(x is None for x in g): break
                c.refuted("net", "height map of %d x %d: control point %s is %s, the grid has %s there" % (w, h, key, g and tuple(str(x) for x in g), want[key]), f); return
        done += 1
    c.count("small grids compared", done)
    pe = [(e, fo) for e, fo in walk(r.ev) if isinstance(e, Ev) and e.kind == "vec" and e.name == "push" and len(fo) == 2]
    if len(pe) != 1: raise Und("control points are not pushed at one place in a nest of two loops")
    e, fo = pe[0]
    if not all(F.exact for F in fo) or trip_free(e.guard, fo) != ONE: raise Und("control points are pushed conditionally")
    idx = e.args[1]; el = e.x.get("elem")
    if el is None: raise Und("pushed value unknown")
    co = [L.it.read(e.x["mem"], el.obj, el.off + o, 8, "double") for o in L.mm.pt]
    ok = None
    for (iu, iv), sizes in (((1, 0), (W, H)), ((0, 1), (H, W))):
        u, v = fo[1].k, fo[0].k
        if iu == 0: u, v = fo[0].k, fo[1].k
        if (fo[1 if iu else 0].trip, fo[0 if iu else 1].trip) != (W, H): continue
        if iu == 0 and (nu, nv) != (H, W) or iu == 1 and (nu, nv) != (W, H): continue
        if iu == 0 and idx != v + H * u or iu == 1 and idx != u + W * v: continue
        zv = L.it.read(L.it.getmem(L.st, zb.obj), zb.obj, (u + W * v).scale(8), 8, "double")
        if co == [u, v, zv]: ok = True
    cp = [x for x, _ in walk(r.ev) if isinstance(x, Ev) and x.kind == "vec" and x.args and x.args[0] == pts]
    if ok and (not cp or cp[-1].name not in ("copy", "set", "push", "swap") or cp[-1].name == "copy" and cp[-1].args[2] != e.args[0]): ok = None
    c.decide(ok, "net", "node (u,v) = (u, v, z[u + W*v]) over W x H" if ok else "index %s value %s" % (idx, [str(x) for x in co]), e)

def solid(c):
    f = find1(c, "NurbsUtil::to_mesh(NurbsSolid")
    L = Lab(c, {re.compile(r"^NurbsUtil::to_mesh\(NurbsSurface"): lambda it, call: it.emit("piece", "to_mesh", list(call.args)) and None})
    n = L.out("n"); m = L.mesh("m"); s = L.int_("seg")
    r = L.run(f, n, m, s); k = L.kernel(m)
    c.functions.update(x.dn for x in L.visited())
    sv = L.call("NurbsSolid::surfaces() const", n)
    N = L.it.vsize(L.st, sv); T = L.m.sizeof("NurbsSurface"); B = vbuf(L, sv)
    ev = [(e, fo) for e, fo in walk(r.ev) if isinstance(e, Ev) and (e.kind == "piece" or e.kind == "mesh" and e.name not in ("get_vertex",))]
    pieces = [(e, fo) for e, fo in ev if e.kind == "piece"]
    if not pieces: c.refuted("solid", "no surface is converted", f); return
    # small instances
    for cnt, val in itertools.product((0, 1, 3), (55, 3, 2)):
        seen = []; names = {one_atom(N): cnt, one_atom(s): 2}
        R = Replay(L, lambda o, x: val, names, ignore=("piece",))
        base = R.apply
        def apply(e, env):
            if e.kind == "piece":
                o, x = R.ptr(e.args[0], env); fl = num_eval(e.args[3], env); sg = num_eval(e.args[2], env)
                if fl: seen.clear()
                seen.append(((x - int(num_eval(B.off, env))) / T if o == num_obj(B.obj, env) else None, sg, e))
            elif e.kind == "mesh" and e.name == "clear": seen.clear(); st[0] = True
            else: base(e, env)
        st = [False]
        try: num_events(r.ev, R.env, apply)
        except NoValue: break
        got = [x for x, _, _ in seen]
        if None in got: break
        if sorted(got) != list(range(cnt)): c.refuted("solid", "%d surfaces: the mesh ends up with surfaces %s" % (cnt, [int(x) for x in got]), f); return
        if any(sg != 2 for _, sg, _ in seen): c.refuted("solid", "surfaces are not sampled with the given number of segments", seen[0][2]); return
    ok = None; why = ""
    if len(pieces) == 1:
        e, fo = pieces[0]
        others = [x for x, _ in ev if x.kind == "mesh"]
        ok = len(fo) == 1 and fo[0].exact and fo[0].trip == N and trip_free(e.guard, fo) == ONE and e.args[0] == Ptr(B.obj, B.off + fo[0].k.scale(T)) and (e.args[3] == ZERO or restrict(e.args[3], gt0(fo[0].k, True)) == ZERO) and e.args[2] == s and e.args[1] == m
        ok = ok and all(x.name == "clear" and x.guard == ONE for x in others) and len(others) <= 1 and all(not fo2 for x, fo2 in ev if x.kind == "mesh") and (not others or ev[0][0] is others[0])
        why = "clear, then every surface of %s" % N
    c.decide(True if ok else None, "solid", why, pieces[0][0])
