"""C13: STEP files: syntax, instance names, references, order and length of the surface lists."""
from filesim import *
from step21 import *
import small

WRITER = "StepWriter"
NEEDS = {"ADVANCED_FACE": {"B_SPLINE_SURFACE", "PLANE"}, "CLOSED_SHELL": {"ADVANCED_FACE"}, "OPEN_SHELL": {"ADVANCED_FACE"}, "MANIFOLD_SOLID_BREP": {"CLOSED_SHELL"},
         "ADVANCED_BREP_SHAPE_REPRESENTATION": {"MANIFOLD_SOLID_BREP"}, "SHAPE_REPRESENTATION_RELATIONSHIP": {"SHAPE_REPRESENTATION", "ADVANCED_BREP_SHAPE_REPRESENTATION"},
         "SHAPE_DEFINITION_REPRESENTATION": {"PRODUCT_DEFINITION_SHAPE", "SHAPE_REPRESENTATION"}, "PRODUCT_DEFINITION_SHAPE": {"PRODUCT_DEFINITION"}, "PRODUCT_DEFINITION": {"PRODUCT_DEFINITION_CONTEXT", "PRODUCT_DEFINITION_FORMATION"}}
FIELDS = ["degree_u", "degree_v", "nb_points_u", "nb_points_v", "is_closed_u", "is_closed_v"]
LISTS = ["knots_u", "knots_v", "weights", "points"]
START = 5000            # instance number before a write

# ------------------------------------------------------------------ a surface as the accessors show it
class Access:
    """terms of the accessors of a surface object, and where its data lie relative to the object"""
    def __init__(s, c):
        L = Lab(c); p = L.obj("S"); s.L = L
        s.val = {}; s.off = {}; s.list = {}
        for n in FIELDS:
            v = L.call("NurbsSurface::%s() const" % n, p)
            s.val[n] = v
            at = [a for a in deep_atoms(v) if a.kind == "ld"]
            if len(at) != 1 or at[0].args[1] != p.obj or not at[0].args[2].is_const(): raise Und("accessor %s" % n)
            s.off[n] = int(at[0].args[2].const())
        for n in LISTS:
            v = L.call("NurbsSurface::%s() const" % n, p)
            if not isinstance(v, Ptr) or v.obj != p.obj or not v.off.is_const(): raise Und("accessor %s" % n)
            s.list[n] = int(v.off.const())
    def terms(s, it, st, p):
        """the same as terms over the surface at p"""
        f = {}
        for n in FIELDS: f[n] = it.read(it.getmem(st, p.obj), p.obj, p.off + s.off[n], 1 if n.startswith("is_") else 4, "i8" if n.startswith("is_") else "i32")
        for n in LISTS: f[n] = Ptr(p.obj, p.off + s.list[n])
        return f

class Surf:
    def __init__(s, nu, nv, pu, pv, cu, cv, seed=0):
        s.v = dict(degree_u=pu, degree_v=pv, nb_points_u=nu, nb_points_v=nv, is_closed_u=cu, is_closed_v=cv)
        def kn(n, p, sh): return [Fraction(sh)] * (p + 1) + [Fraction(i + 1, 8) + sh for i in range(n - p - 1)] + [Fraction(sh + 1)] * (p + 1)
        s.l = dict(knots_u=kn(nu, pu, 100 + seed), knots_v=kn(nv, pv, 200 + seed), weights=[Fraction(2 * i + 1, 4) + 10 * seed for i in range(nu * nv)],
                   points=[(Fraction(i) + Fraction(1, 4) + 1000 * seed, Fraction(i * i) + Fraction(1, 2), Fraction(-i) - Fraction(1, 8)) for i in range(nu * nv)])
    def idx(s, i, j): return s.v["nb_points_u"] * j + i
SIZES = [(2, 2, 1, 1, 0, 0), (3, 2, 2, 1, 1, 0), (2, 4, 1, 3, 0, 1), (4, 3, 2, 2, 0, 0), (3, 5, 2, 1, 1, 1)]

class StepSim(TextSim):
    """text of a writer for given surfaces; which files are open is followed"""
    def __init__(s, io, env, opened=True):
        TextSim.__init__(s, io, env); s.opened = opened; s.openv = {}; s.log = []
    def pred(s, key, env):
        if key[0] == "ioopen":
            for a in top_status(key[2]):
                if a.id in s.openv: return s.openv[a.id]
            return s.opened
        if key[0] == "iofail":
            for a in top_status(key[2]):
                if a.id in s.openv: return not s.openv[a.id]
            return False
        return TextSim.pred(s, key, env)
    def event(s, e, env):
        if e.kind == "io" and e.name in ("open", "close", "dtor", "text"):
            if e.name == "text":
                it = e.args[1]
                if it[0] in ("str", "lit") and isinstance(it[1], Node): it = (it[0], s.pick(it[1], env))
                s.log.append(("text", s.item(it, env)))
            else:
                if e.name == "open": s.opened = True
                if e.name in ("close", "dtor"):
                    if s.opened: s.log.append(("close",))
                    s.opened = False
                if e.name == "open": s.log.append(("open",))
            for v in s.vids(e.x.get("ver", ZERO), env): s.openv[v] = s.opened
        elif e.kind == "io": TextSim.event(s, e, env)
        elif e.kind in ("store", "copy"):
            try: Sim.event(s, e, env)
            except NoValue: pass
    def items(s): return [(ONE, x[1] if isinstance(x[1], str) else P(x[1])) for x in s.log if x[0] == "text" and x[1] is not None]
    def parts(s):
        """texts between openings and closings: [(event before, items)]"""
        out = [(None, [])]
        for x in s.log:
            if x[0] == "text": out[-1][1].append((ONE, x[1] if isinstance(x[1], str) else P(x[1])))
            else: out.append((x[0], []))
        return out

def surf_env(acc, places, extra=None):
    """assignment for surfaces at [(object, offset, Surf)]"""
    cells = {}; sizes = {}
    for o, b, sf in places:
        for n in FIELDS: cells[(o, b + acc.off[n])] = sf.v[n]
        for n in LISTS:
            sizes[(o, b + acc.list[n])] = len(sf.l[n])
            E = ("E", o, b + acc.list[n])
            for i, x in enumerate(sf.l[n]):
                for j, y in enumerate(x if isinstance(x, tuple) else (x,)): cells[(E, (24 * i + 8 * j) if isinstance(x, tuple) else 8 * i)] = y
    def at(a, e):
        if a.kind == "ld" and a.args[0] == "i":
            o = norm(num_obj(a.args[1], e)); n = int(num_eval(a.args[2], e))
            if (o, n) in cells: return cells[(o, n)]
            v = extra(o, n) if extra else None
            if v is not None: return v
        if a.kind == "vs":
            o = norm(num_obj(a.args[0], e)) if isinstance(a.args[0], tuple) else a.args[0]; n = a.args[1]
            n = int(num_eval(n, e)) if isinstance(n, (Poly, Node)) else int(n)
            if (o, n) in sizes: return sizes[(o, n)]
            v = extra(("size", o), n) if extra else None
            if v is not None: return v
        raise NoValue(str(a)[:60])
    return {"atoms": at}
def norm(o):
    if isinstance(o, tuple): return tuple(norm(x) for x in o)
    if isinstance(o, Poly) and o.is_const(): return int(o.const())
    if isinstance(o, Fraction) and o == int(o): return int(o)
    return o

# ------------------------------------------------------------------ judging a parsed text
def insts(tree): return [x for x in tree if isinstance(x, Inst)]
def refs_of(e):
    if isinstance(e, (list,)):
        for x in e: yield from refs_of(x)
    elif e[0] == "ref": yield e[1]
    elif e[0] == "list": yield from refs_of(e[1])
    elif e[0] == "typed": yield from refs_of(e[2])
    elif e[0] == "rep": yield from refs_of(e[2])
def num(x): return x.const() if isinstance(x, Poly) and x.is_const() else None
def plain_list(e):
    if e[0] != "list": raise Malformed("a list is missing")
    return e[1]
def nums(e):
    r = []
    for x in plain_list(e):
        if x[0] != "v": raise Malformed("'%s' in a list of numbers" % (x[1],))
        r.append(num(x[1]))
    return r

def judge_insts(tree, header, lo=None, hi=None):
    """names and references of a parsed text without repetitions"""
    defs = dict(header)
    own = {}
    for x in tree:
        if isinstance(x, Stmt): return "the statement '%s' among the instances" % x.kw
        n = num(x.name)
        if n is None: return None
        if n in own: return "instance #%d is defined twice" % n
        if lo is not None and n < lo: return "instance #%d is defined although the numbers below %d are already used" % (n, lo)
        if hi is not None and n >= hi: return "instance #%d is defined, and the next free number is said to be %d" % (n, hi)
        own[n] = x
    defs.update({n: x.kinds for n, x in own.items()})
    for n, x in own.items():
        for kw in x.kinds:
            for r in refs_of(x.args[kw]):
                r = num(r)
                if r is None: return None
                if r not in defs and None in header: return None      # the header was not readable
                if r not in defs: return "#%d %s refers to #%d, which is not defined" % (n, kw, r)
                if kw in NEEDS and not (NEEDS[kw] & set(defs[r])): return "#%d %s refers to #%d, which is a %s" % (n, kw, r, "/".join(defs[r]))
    return None
def judge_surface(tree, surfs):
    own = {num(x.name): x for x in tree}
    bs = [x for x in tree if "B_SPLINE_SURFACE" in x.kinds]
    if len(bs) != len(surfs): return "%d surfaces are described, %d were given" % (len(bs), len(surfs))
    for x, sf in zip(bs, surfs):
        v, l = sf.v, sf.l
        for kw in ("B_SPLINE_SURFACE_WITH_KNOTS", "RATIONAL_B_SPLINE_SURFACE"):
            if kw not in x.kinds: return "a surface without %s" % kw
        a = x.args["B_SPLINE_SURFACE"]; k = x.args["B_SPLINE_SURFACE_WITH_KNOTS"]; w = x.args["RATIONAL_B_SPLINE_SURFACE"]
        if len(a) != 7 or len(k) != 5 or len(w) != 1: return "a surface with %d, %d and %d attributes" % (len(a), len(k), len(w))
        if [num(a[0][1]), num(a[1][1])] != [v["degree_u"], v["degree_v"]]: return "degrees %s, %s are written for (%d,%d)" % (a[0][1], a[1][1], v["degree_u"], v["degree_v"])
        size = "%d x %d points of degrees %d and %d" % (v["nb_points_u"], v["nb_points_v"], v["degree_u"], v["degree_v"])
        rows = plain_list(a[2])
        if len(rows) != v["nb_points_u"]: return "%s: %d rows of control points" % (size, len(rows))
        for i, r in enumerate(rows):
            r = plain_list(r)
            if len(r) != v["nb_points_v"]: return "%s: %d control points in a row" % (size, len(r))
            for j, e in enumerate(r):
                q = own.get(num(e[1])) if e[0] == "ref" else None
                if q is None or q.kinds != ["CARTESIAN_POINT"]: return "%s: control point (%d,%d) is %s" % (size, i, j, e)
                co = nums(q.args["CARTESIAN_POINT"][1]) if len(q.args["CARTESIAN_POINT"]) == 2 else None
                if co is None or tuple(co) != l["points"][sf.idx(i, j)]: return "%s: control point (%d,%d) has coordinates %s" % (size, i, j, co and [float(z) for z in co])
        for n, e in (("u", a[4]), ("v", a[5])):
            if e != ("w", ".T." if v["is_closed_" + n] else ".F."): return "%s: closed in %s is written as %s" % (size, n, e[1])
        for n, m, z in (("u", k[0], k[2]), ("v", k[1], k[3])):
            m, z = nums(m), nums(z)
            if len(m) != len(z): return "%s: %d multiplicities and %d knots in %s" % (size, len(m), len(z), n)
            full = [t for c_, t in zip(m, z) for _ in range(int(c_))]
            if len(full) != len(l["knots_" + n]): return "%s: the multiplicities in %s sum up to %d instead of %d" % (size, n, len(full), len(l["knots_" + n]))
            if full != l["knots_" + n]: return "%s: knots %s in %s, the surface has %s" % (size, [float(t) for t in full], n, [float(t) for t in l["knots_" + n]])
        rows = plain_list(w[0])
        if len(rows) != v["nb_points_u"]: return "%s: %d rows of weights" % (size, len(rows))
        for i, r in enumerate(rows):
            r = nums(r)
            if len(r) != v["nb_points_v"]: return "%s: %d weights in a row" % (size, len(r))
            for j, t in enumerate(r):
                if t != l["weights"][sf.idx(i, j)]: return "%s: weight (%d,%d) is %s" % (size, i, j, t)
    return None

# ------------------------------------------------------------------ symbolic text
def sym_items(io, evs, fors=()):
    out = []
    for e in evs:
        if isinstance(e, For):
            body = sym_items(io, e.body, fors + (e,))
            if not body: continue
            if not e.exact or e.trip is None or isinstance(e.trip, Node): raise Und("loop bounds")
            out.append((trip_free(e.guard, fors), Rep(e, e.k, e.trip, body)))
        elif e.kind == "io" and e.name == "text":
            g = trip_free(e.guard, fors); it = e.args[1]
            if it[0] == "num": x = it[1]
            elif it[0] in ("str", "lit"):
                x = it[1] if isinstance(it[1], str) else bind(lambda p: io.S.literal(p), it[1])
                if x is None or (isinstance(x, Node) and any(l is None for l in leaves(x))): raise Und("text %s" % (it[1],))
            elif it[0] == "chr" and isinstance(it[1], Poly) and it[1].is_const(): x = chr(int(it[1].const()))
            else: raise Und("text %s" % str(it)[:60])
            out.append((g, x))
        elif e.kind == "io" and e.name not in ("flush", "query"): raise Und("operation %s" % e.name)
    return out

def counter_of(b):
    a = [x for x in deep_atoms(b) if x.kind == "ld" and x.args[0] == "i" and x.args[1] == ("arg", "this")]
    return a[0] if len(a) == 1 else None
def field_end(io, a):
    return io.L.it.read(io.L.it.getmem(io.r.st, a.args[1]), a.args[1], a.args[2], 4, "i32")

def prove_write(c, io, acc, surf_arg, header):
    """[(key, ok, text)], the counter atom"""
    S = io.L; res = []
    evs = special(io.r.ev, Subst({}))
    ps = Parser(); tree = ps.file(lex(sym_items(io, evs)))
    res.append(("syntax", True, "brackets, commas and semicolons are balanced for every size"))
    t = acc.terms(S.it, State(), surf_arg)
    nu, nv, pu, pv = (t[n] for n in ("nb_points_u", "nb_points_v", "degree_u", "degree_v"))
    size = {n: S.it.vsize(State(), t[n]) for n in LISTS}
    buf = {n: S.it.vbuf(t[n]) for n in LISTS}
    def read(n, i, o=0, st=8): return S.it.read(Mem("init", None, buf[n]), buf[n], i.scale(st) + o, 8, "double")
    # names: consecutive numbers
    cur = base = None; where = []
    for x in tree:
        body = [x] if isinstance(x, Inst) else x[2] if isinstance(x, tuple) else None
        if body is None: return res + [("names", None, "statement %s" % x.kw)], None
        nm = body[0].name if isinstance(body[0], Inst) else None
        if not isinstance(nm, Poly): return res + [("names", None, "name %s" % (nm,))], None
        if base is None: base = cur = nm if isinstance(x, Inst) else Subst({one_atom(x[1].k): ZERO}).any(nm)
        if isinstance(x, Inst):
            if not (nm - cur).is_zero(): return res + [("names", None, "#%s where #%s is next" % (nm, cur))], None
            where.append((cur, None, x)); cur = cur + 1
        else:
            if len(body) != 1 or not (nm - cur - x[1].k).is_zero(): return res + [("names", None, "#%s where #%s is next" % (nm, cur))], None
            where.append((cur, x[1], body[0])); cur = cur + x[1].n
    a = counter_of(base)
    if a is None or not (base - P(a)).is_zero(): return res + [("names", None, "numbering starts at %s" % base)], None
    end = field_end(io, a)
    ok = isinstance(end, Poly) and (end - cur).is_zero()
    res.append(("names", True if ok else None, "instances are numbered on from the counter, which ends at %s behind the last" % (end,)))
    # references
    def target(r):
        for h in header:
            if h is not None and (r - h).is_zero(): return header[h]
        for p, R, x in where:
            if R is None and (r - p).is_zero(): return x.kinds
        return None
    pts = [(p, R, x) for p, R, x in where if R is not None and x.kinds == ["CARTESIAN_POINT"]]
    bad = None; cp = None
    for p, R, x in where:
        for kw in x.kinds:
            for r in refs_of(x.args[kw]):
                k = target(r)
                if k is None and kw == "B_SPLINE_SURFACE": continue
                if k is None: bad = bad or "%s refers to %s" % (kw, r)
                elif kw in NEEDS and not (NEEDS[kw] & set(k)): bad = bad or "%s refers to %s" % (kw, k)
    res.append(("references", None if bad else True, bad or "%d references, each to an instance of the right kind" % len(ps.refs)))
    # the points
    if len(pts) != 1: return res + [("points", None, "%d families of points" % len(pts))], a
    p0, R, x = pts[0]
    co = x.args["CARTESIAN_POINT"]
    co = [e[1] for e in co[1][1]] if len(co) == 2 and co[1][0] == "list" else []
    okp = len(co) == 3 and all(isinstance(v, Poly) and v == read("points", R.k, 8 * j, 24) for j, v in enumerate(co)) and (R.n - size["points"]).is_zero()
    res.append(("points", True if okp else None, "one CARTESIAN_POINT for every control point, in order" if okp else "points %s" % str(co)[:100]))
    bs = [x for p, R, x in where if R is None and "B_SPLINE_SURFACE" in x.kinds]
    if len(bs) != 1 or not {"B_SPLINE_SURFACE_WITH_KNOTS", "RATIONAL_B_SPLINE_SURFACE"} <= set(bs[0].kinds): return res + [("surface", None, "%d surfaces" % len(bs))], a
    A_, K, W = (bs[0].args[k] for k in ("B_SPLINE_SURFACE", "B_SPLINE_SURFACE_WITH_KNOTS", "RATIONAL_B_SPLINE_SURFACE"))
    if len(A_) != 7 or len(K) != 5 or len(W) != 1: return res + [("surface", None, "attributes")], a
    def eq(e, v): return e[0] == "v" and isinstance(e[1], Poly) and (e[1] - v).is_zero()
    res.append(("degrees", True if eq(A_[0], pu) and eq(A_[1], pv) else None, "degrees in u and v"))
    def grid(e, cell):
        if e[0] != "list" or len(e[1]) != 1 or e[1][0][0] != "rep": return "not one repetition of rows"
        R, r = e[1][0][1], e[1][0][2]
        if not (R.n - nu).is_zero(): return "%s rows" % R.n
        if r[0] != "list" or len(r[1]) != 1 or r[1][0][0] != "rep": return "not one repetition in a row"
        Q, z = r[1][0][1], r[1][0][2]
        if not (Q.n - nv).is_zero(): return "%s entries in a row" % Q.n
        return cell(z, nu * Q.k + R.k)
    g1 = grid(A_[2], lambda z, i: None if z[0] == "ref" and isinstance(z[1], Poly) and (z[1] - p0 - i).is_zero() else "control point %s" % (z[1],))
    res.append(("control points", True if g1 is None else None, g1 or "row i, entry j is point nu*j+i, for all i < nu and j < nv"))
    g2 = grid(W[0], lambda z, i: None if z[0] == "v" and z[1] == read("weights", i) else "weight %s" % (z[1],))
    res.append(("weights", True if g2 is None else None, g2 or "row i, entry j is weight nu*j+i, for all i < nu and j < nv"))
    for n, e in (("u", A_[4]), ("v", A_[5])):
        f = t["is_closed_" + n]; okc = False
        if e[0] == "c":
            ps_ = preds_of(e[1])
            okc = len(ps_) == 1 and ps_[0].kind == "b" and ps_[0].key[0] == "nz" and ps_[0].key[1] == f and assume(e[1], ps_[0].id, True) == ".T." and assume(e[1], ps_[0].id, False) == ".F."
        res.append(("closed " + n, True if okc else None, "the flag is the one of the surface"))
    for n, p, m, z in (("u", pu, K[0], K[2]), ("v", pv, K[1], K[3])):
        why = None; sz = size["knots_" + n]
        m, z = m[1] if m[0] == "list" else [], z[1] if z[0] == "list" else []
        if not (len(m) == 3 and eq(m[0], p + 1) and eq(m[2], p + 1) and m[1][0] == "rep" and eq(m[1][2], ONE) and (m[1][1].n - (sz - p.scale(2) - 2)).is_zero()): why = "multiplicities %s" % str(m)[:100]
        elif not (len(z) == 1 and z[0][0] == "rep" and (z[0][1].n - (sz - p.scale(2))).is_zero() and z[0][2][0] == "v" and z[0][2][1] == read("knots_" + n, z[0][1].k + p)): why = "knots %s" % str(z)[:100]
        res.append(("knots " + n, None if why else True, why or "first and last knot p+1 times, every other once: the clamped knot vector of the surface"))
    return res, a

# ------------------------------------------------------------------ driver
def header_of(log):
    """(statements, instances) of the text written by opening, as parsed"""
    return Parser().file(lex(log))
def stmt(x): return x.kw if isinstance(x, Stmt) else "#"
def shape(tree):
    """kinds of the statements, instances and header entities collapsed"""
    out = []
    for x in tree:
        k = "#" if not isinstance(x, Stmt) else x.kw if x.args is None else "entity"
        if not out or out[-1] != k or k not in ("#", "entity"): out.append(k)
    return out
TRAILER = ["ENDSEC", "END-ISO-10303-21"]
HEADER = ["ISO-10303-21", "HEADER", "entity", "ENDSEC", "DATA"]

def run(c):
    c.rule("syntax", "the text of every write as a word over numbers and counted repetitions, parsed with the Part 21 grammar")
    c.rule("names", "defined names are the counter and its successors; the counter ends behind the last one in every function")
    c.rule("lists", "control points, weights, degrees, multiplicities and knots against the accessors of the surface, for every size")
    fs = sorted(c.m.match(r"^%s::[~\w]+\(" % WRITER), key=lambda f: f.dn)
    if not fs: raise AnalysisError("no functions of " + WRITER)
    acc = Access(c)
    ios = {}
    is_surf = lambda f: bool(f.dt and len(f.dt) > 2 and "NurbsSurface" in f.dt[2])
    is_solid = lambda f: bool(f.dt and len(f.dt) > 2 and "NurbsSolid" in f.dt[2])
    for f in fs:
        if f.dn.startswith(WRITER + "::" + WRITER + "("): continue
        try: ios[f.dn] = Io(c, f)
        except Und as e: c.unknown("analyse", str(e), f)
    opens = [i for i in ios.values() if any(e.name == "open" for e, _ in i.io)]
    if len(opens) != 1: raise Und("%d functions open the file" % len(opens))
    header = {None: []}; counter = [None]; start = [None]
    with c.group("open"): open_file(c, opens[0], header, start)
    closers = [i for i in ios.values() if i is not opens[0] and any(e.name in ("close", "dtor") for e, _ in i.io)]
    with c.group("close"):
        if not closers: c.refuted("close", "nothing closes the file", fs[0])
        for i in closers: close_file(c, i)
    surf = [i for i in ios.values() if is_surf(i.f) and any(e.name == "text" for e, _ in i.io)]
    with c.group("surface"):
        if not surf: raise AnalysisError("no function writes a surface")
        for i in surf: write_surface(c, i, acc, header, counter)
    with c.group("solid"):
        for i in ios.values():
            if is_solid(i.f): write_solid(c, i, acc, header, surf)
    with c.group("counter"): counters(c, counter[0], start[0], header, opens[0], [i for i in ios.values() if i is not opens[0] and i not in surf and not is_solid(i.f) and "~" not in i.f.dn], ios)

def open_file(c, io, header, start):
    f = io.f; key = "open"
    ask = [q for e, fs in io.events for q in preds_of(e.guard) if q.kind == "b" and q.key[0] == "streq"]
    for opened, eq in [(False, False), (True, True), (True, False)] if ask else [(False, None), (True, None)]:
        ex = extra_cells(f.args[0]["n"])
        def at(a, en):
            if a.kind == "ld" and a.args[0] == "i" and a.ints and ex(norm(num_obj(a.args[1], en)), 0) is not None: return ex(norm(num_obj(a.args[1], en)), 0)
            raise NoValue(str(a)[:60])
        try:
            s = StepSim(io, {"atoms": at}, opened)
            if eq is not None:        # the comparison of the names of the two files has this answer
                old = s.pred; s.env["preds"] = s.pred = lambda key, env, old=old, eq=eq: eq if key[0] == "streq" else old(key, env)
            s.run(); parts = s.parts()
        except NoValue as e: c.unknown(key, "text of the header: %s" % e, f); return
        try: trees = [(k, header_of(it)) for k, it in parts]
        except Malformed as m: c.refuted(key, "the header is malformed: %s" % m, f); return
        last = [t for k, t in trees if k == "open"]
        if len(last) != 1 or trees[-1][0] != "open": c.refuted(key, "the header is not written to the file just opened", f); return
        sh = shape(last[0])
        if sh[:5] != HEADER or sh[5:] not in ([], ["#"]): c.refuted(key, "opening writes the sections %s" % " ".join(sh), f); return
        ins = insts(last[0])
        b = judge_insts(ins, {})
        if b: c.refuted(key + ".names", b, f); return
        before = [x for k, t in trees[:-1] for x in t]
        if opened:
            if [k for k, t in trees[:-1]] != [None, "close"] or shape(before) != TRAILER or trees[1][1]: c.refuted(key + ".again", "opening a second file leaves the first one without its trailer", f)
            else: c.proved(key + ".again", "a file in progress is finished first", f)
        elif before: c.unknown(key, "text before opening", f)
    if not any(num(x.name) is None or num(x.name) >= START for x in ins): header.pop(None)
    header.update({num(x.name): x.kinds for x in ins})
    plain = all(succeed(e.guard) == ONE or any(q.kind == "b" and q.key[0] == "ioopen" for q in preds_of(succeed(e.guard))) or any(q.kind == "b" and q.key[0] == "ioopen" for q in preds_of(e.guard)) for e, fs in io.io if e.name == "text") and not any(fs for e, fs in io.io)
    c.decide(True if plain else None, key, "header, data section and %d instances, each defined once, references resolved" % len(ins), f)
    start[0] = max([h for h in header if h is not None], default=0)
def close_file(c, io):
    f = io.f; key = re.sub(r".*::", "", f.dn).split("(")[0]
    try: s = StepSim(io, {}, True); s.run(); parts = s.parts()
    except NoValue as e: c.unknown(key, "text of the trailer: %s" % e, f); return
    try: trees = [(k, header_of(it)) for k, it in parts]
    except Malformed as m: c.refuted(key, "the trailer is malformed: %s" % m, f); return
    if [k for k, t in trees] != [None, "close"]: c.refuted(key, "an open file is not closed once", f); return
    if shape(trees[0][1]) != TRAILER: c.refuted(key, "before the file is closed, %s is written instead of the trailer" % (" ".join(shape(trees[0][1])) or "nothing"), f); return
    c.proved(key, "the trailer is written once, directly before an open file is closed", f)

def extra_cells(this="this"):
    def ex(o, n):
        if o == ("arg", this) : return START
        return None
    return ex
def run_numeric(io, acc, places, more=None):
    ex = extra_cells(io.f.args[0]["n"])
    env = surf_env(acc, places, lambda o, n: (more(o, n) if more else None) if (more and more(o, n) is not None) else ex(o, n))
    s = StepSim(io, env, True); s.run()
    if any(x[0] != "text" for x in s.log): raise Malformed("the file is opened or closed in between")
    if any(x[1] is None for x in s.log): raise NoValue("a value in the text")
    return s
def verdict(io, s, header, surfs):
    try: tree = Parser().file(lex(s.items()))
    except Malformed as m: return str(m)
    except Und: return None
    if any(isinstance(x, tuple) for x in tree): return None
    if any(num(x.name) is None for x in insts(tree)): return None
    b = judge_insts(tree, header, START)
    if b: return b
    try: b = judge_surface(tree, surfs)
    except Malformed as m: return str(m)
    return b

def write_surface(c, io, acc, header, counter):
    f = io.f; key = "surface"; p = io.args[1]
    hk = dict(header)
    for z in SIZES:
        sf = Surf(*z)
        try: s = run_numeric(io, acc, [(norm(p.obj), 0, sf)]); b = verdict(io, s, hk, [sf])
        except Malformed as m: b = str(m)
        except (NoValue, IndexError, TypeError) as e:
            if c.debug: print("NoValue", z, e)
            continue
        if not b: b = end_counter(io, s)
        if b: c.refuted(key, b if " points of degrees" in b else "%d x %d points of degrees %d and %d: %s" % (z[0], z[1], z[2], z[3], b), f); return
    try: res, a = prove_write(c, io, acc, p, hk)
    except Malformed as m: c.unknown(key, str(m), f); return
    counter[0] = a
    for n, ok, txt in res: c.decide(ok, key + "." + n, txt, f)

def end_counter(io, s):
    """some number kept by the writer is behind all the names given"""
    names = [num(x.name) for x in insts(Parser().file(lex(s.items())))]
    ends = []
    m = io.L.it.getmem(io.r.st, ("arg", io.f.args[0]["n"]))
    for e, fs in io.events:
        if e.kind == "store" and isinstance(e.args[0], Ptr) and e.args[0].obj == ("arg", io.f.args[0]["n"]) and e.args[0].off.is_const() and e.x.get("size") == 4:
            try: ends.append(num_eval(io.L.it.read(m, e.args[0].obj, e.args[0].off, 4, "i32"), s.env))
            except NoValue: return None
    if not ends or max(ends) <= max(names): return "the counter ends at %s although #%d is already defined" % (max(ends) if ends else "its old value", max(names))
    return None

def write_solid(c, io, acc, header, surf):
    f = io.f; p = io.args[1]
    # as given, with two surfaces
    so = [v for v in [io.L.call("NurbsSolid::surfaces() const", p)] if isinstance(v, Ptr)]
    if len(so) != 1: raise Und("surfaces of a solid")
    v = so[0]; vo = (norm(v.obj), int(v.off.const())); E = ("E",) + vo
    st = [a for a in [stride(c, io, v)] if a]
    for n in (0, 1, 2, 3):
        sfs = [Surf(*SIZES[(2 * i + n) % len(SIZES)], seed=i + 1) for i in range(n)]
        more = lambda o, k: n if o == ("size", vo[0]) and k == vo[1] else None
        try: s = run_numeric(io, acc, [(E, st[0] * i, sf) for i, sf in enumerate(sfs)], more) if st else None; b = verdict(io, s, dict(header), sfs) if s else None
        except Malformed as m: b = str(m)
        except (NoValue, IndexError, TypeError) as e:
            if c.debug: print("NoValue solid", n, e)
            continue
        if b: c.refuted("solid", "a solid of %d surfaces: %s" % (n, b), f); return
    calls = []
    def h(it, call): it.emit("call", "surface", list(call.args)); return None
    i2 = Io(c, f, models={x.f.dn: h for x in surf})
    ev = [(e, fs) for e, fs in i2.events if e.kind == "io" and e.name == "text" or (e.kind == "call" and e.name == "surface")]
    if any(e.kind == "io" for e, fs in ev) or len(ev) != 1 or len(ev[0][1]) != 1: c.unknown("solid", "not one loop that writes surfaces", f); return
    e, (F,) = ev[0]; n = i2.L.it.vsize(State(), v); q = e.args[1]; b = i2.L.it.vbuf(v)
    ok = F.exact and (F.trip - n).is_zero() and trip_free(e.guard, (F,)) == ONE and isinstance(q, Ptr) and q.obj == b and st and (q.off - F.k.scale(st[0])).is_zero()
    c.decide(True if ok else None, "solid", "every surface is written once, in order", f)
def stride(c, io, v):
    """size of an element of the list of surfaces"""
    offs = set()
    for e, fs in io.events:
        for a in deep_atoms(flat(tuple(x for x in list(e.args) + [e.guard] if not isinstance(x, str)))):
            if a.kind == "ld" and isinstance(a.args[1], tuple) and a.args[1][:1] == ("E",) and norm(a.args[1][1:]) == (norm(v.obj), int(v.off.const())):
                for F in fs:
                    k = one_atom(F.k)
                    for m, cf in a.args[2].t.items():
                        if m == ((k, 1),): offs.add(int(cf))
    return offs.pop() if len(offs) == 1 else None

def counters(c, a, top, header, opn, others, ios):
    if a is None: c.unknown("counter", "the counter was not identified", opn.f); return
    v = field_end(opn, a)
    if not (isinstance(v, Poly) and v.is_const()): c.unknown("counter.open", "counter after opening: %s" % (v,), opn.f)
    elif top is None: c.unknown("counter.open", "names of the header not known", opn.f)
    elif v.const() > top: c.proved("counter.open", "numbering starts at %s, behind the header's last name #%s" % (v, top), opn.f)
    else: c.refuted("counter.open", "the first name given to a surface is #%s, and the header already defines #%s" % (v, top), opn.f)
    for i in others:
        v = field_end(i, a)
        same_ = isinstance(v, Poly) and (v - P(a)).is_zero()
        up = isinstance(v, Poly) and (v - P(a)).is_const() and (v - P(a)).const() >= 0
        part = [j for j in ios.values() if j is not i and i.f.dn in {z.dn for z in j.L.visited()}]
        if not (same_ or up) and part: continue       # a helper: its effect is part of its callers' summaries
        c.decide(True if same_ or up else None, "counter." + i.f.dn.split("(")[0], "counter after the call: %s" % (v,), i.f)
