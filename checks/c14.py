"""C14: the renderer stays inside its buffers; cut spans and trapezes keep their shape and depth; nearer things win."""
import re, random
from common import *
from ident import *
from cadsa.bounds import *
from cadsa.bounds import nonneg as nonneg0_
from cadsa import linear
from cadsa.nanwalk import *
from cadsa.val import guard_paths

EPS = Fraction(1, 10000)
TOL = Fraction(8, 5)        # columns left of the screen are rounded towards zero after adding a half
PROJECT = r"^RendererCamera::project\(Point3 const&, int&, int&, double&\)"

class Buf:
    """where the renderer keeps its buffers and sizes, read off its constructor"""
    def __init__(s, c):
        f = [g for g in c.m.match(r"^Renderer::Renderer\(int\*, int, int\)$")][0]
        L = Lab(c, mesh=False); o = L.obj("this"); L.st.mem[o.obj] = Mem("undef", None, None)
        W, H = A("arg", "width", ints=True), A("arg", "height", ints=True); pix = Ptr(("arg", "pixels"), ZERO)
        r = L.run(f, o, pix, W, H); s.f = f; s.r = r; s.W = s.H = s.pix = s.dep = None; s.size = None
        off = 0; last = {}
        for e, fors in walk(r.ev):
            if isinstance(e, Ev) and e.kind == "store" and not fors and isinstance(e.args[0], Ptr) and e.args[0].obj == o.obj and e.args[0].off.is_const():
                last[int(e.args[0].off.const())] = e.args[1]
            if isinstance(e, Ev) and e.kind == "new" and s.size is None: s.size = e
        for k, v in last.items():
            if v == W: s.W = k
            elif v == H: s.H = k
            elif isinstance(v, Ptr) and v.obj == pix.obj and v.off == ZERO: s.pix = k
            elif isinstance(v, Ptr) and v.obj[0] == "heap": s.dep = k; s.heap = v.obj
        s.ok = None not in (s.W, s.H, s.pix, s.dep)
    def dim(s, L, k): return L.load(Ptr(("arg", "this"), P(k)), 4, "i32")
    def kind(s, o):
        """which buffer an object is"""
        if o[0] == "D" and o[1] == "i" and o[2] == ("arg", "this"):
            return "pixel" if o[3] == P(s.pix) else "depth" if o[3] == P(s.dep) else None
        return None

class Run:
    """the effects of one member function: projection opaque, the named drawing steps recorded"""
    def __init__(s, c, B, f, opaque):
        s.n = 0; s.c = c; s.f = f; s.proj = []
        models = {re.compile(PROJECT): s.project, re.compile(r"^Triangle3::|^Mesh::"): s.other, re.compile(r"^Renderer::compute_color"): s.other}
        for g in opaque:
            if g is not f: models[g.dn] = s.step
        s.L = L = Lab(c, models, mesh=False); s.args = []
        for a in f.args:
            if a["t"] == "ptr":
                p = L.obj(a["n"]); L.st.mem[p.obj] = Mem("init", None, p.obj); s.args.append(p)
            elif a["t"][0] == "i": s.args.append(A("arg", a["n"], ints=True))
            else: s.args.append(L.real(a["n"]))
        if s.args: s.args[0] = L.obj("this"); L.st.mem[("arg", "this")] = Mem("init", None, ("arg", "this"))
        s.r = L.run(f, *s.args)
        s.W, s.H = B.dim(L, B.W), B.dim(L, B.H)
        c.functions.update(z.dn for z in L.visited())
        s.free = [atom_of(x) for x in s.args if isinstance(x, Poly)]
    def project(s, it, call):
        s.n += 1; k = s.n
        xs = [A("scr", P(k), P(0), ints=True), A("scr", P(k), P(1), ints=True), A("scr", P(k), P(2))]
        for p, v, z in zip(call.args[2:5], xs, (4, 4, 8)): it.store(call.st, p, v, z, ev=False)
        s.proj.append(xs)
    def step(s, it, call):
        it.emit("step", call.dn, list(call.args))
        t = call.i.get("t")
        return None if t in (None, "void") else opaque_bool(("op", call.dn, it.ctx, call.i["i"], it.kst)) if t == "i1" else A("call", call.dn, it.ctx, call.i["i"], it.kst)
    def other(s, it, call):
        t = call.i.get("t")
        return None if t in (None, "void") else opaque_bool(("op", call.dn, it.ctx, call.i["i"], it.kst)) if t == "i1" else call.args[0] if t == "ptr" else A("call", call.dn, it.ctx, call.i["i"], it.kst, ints=t[0] == "i")
    def accesses(s, B):
        """[(event, fors, "pixel"|"depth", offset, value, guard)]"""
        out = []
        for e, fors in walk(s.r.ev):
            if not isinstance(e, Ev) or e.kind != "store": continue
            for path, p in [([], e.args[0])] if isinstance(e.args[0], Ptr) else paths(e.args[0]):
                if isinstance(p, Ptr) and B.kind(p.obj): out.append((e, fors, B.kind(p.obj), p.off, e.args[1]))
        return out
    def loads(s, B):
        """[(atom, guard it is used under or None)]"""
        out = {}
        for e, fors in walk(s.r.ev):
            if not isinstance(e, Ev): continue
            for a in deep_atoms((e.guard,) + flat(e.args)):
                if a.kind == "ld" and B.kind(a.args[1]): out.setdefault(a, []).append((e, fors))
        return out

def flat(x):
    if isinstance(x, (list, tuple)): return tuple(flat(y) for y in x)
    return x

# ------------------------------------------------------------------ proving
def nonneg_(e, facts): return linear.nonneg(e, facts)
def round_facts(e, path):
    """facts about conversions to integer in e: t <= fptosi(t) bounds that follow from the path"""
    out = []
    for a in deep_atoms((e,) + tuple(q.poly for q, v in path if q.kind == "gt")):
        if a.kind not in ("fptosi", "floor", "trunc"): continue
        t = a.args[0]; i = P(a)
        for q, v in path:
            if q.kind != "gt": continue
            for sg in (1, -1):
                r = q.poly - t.scale(sg)            # q.poly = sg*t + r, compared with 0
                if any(x in t.atoms() for x in r.atoms()) or not is_int_poly(r): continue
                if sg == -1 and v: out.append(r - 1 - i)              # t < r, r integer: conversion <= r-1 when r >= 1
                elif sg == -1 and not v: out.append(i - r)            # t >= r (>= 0): conversion >= r
                elif sg == 1 and not v: out.append(-r - i)            # t <= -r
                elif sg == 1 and v: out.append(i + r)                 # t > -r: conversion >= -r
    return out

def inside(e, guard, fors, W, H):
    """proof that the index e lies in 0..W*H-1"""
    for goal in (e, W * H - 1 - e):
        for p in guard_paths(guard) if guard != ONE else [[]]:
            extra = loop_facts(fors) + facts_of(p) + round_facts(e, p)
            if linear.nonneg(goal, extra): continue
            rows = split(e, W)
            if rows is None: return False
            y, x = rows
            cs = [y, x, W - 1 - x, H - 1 - y]
            eq = equalities(p)
            for z in cs:
                fs = [f for f in (subst(f, eq) for f in extra) if isinstance(f, Poly)] if eq else extra
                z2 = subst(z, eq) if eq else z
                if not isinstance(z2, Poly) or not (nonneg_(z2, fs) or nonneg0_(z2, fs)): return False
    return True

def split(e, W):
    """e = y*W + x"""
    w = atom_of(W); co = e.coeffs_in(w)
    if set(co) - {0, 1}: return None
    return co.get(1, ZERO), co.get(0, ZERO)

# ------------------------------------------------------------------ replaying a summary at a point
class World:
    def __init__(s, B, runs, W, H, color=7):
        s.B = B; s.runs = runs; s.W = W; s.H = H; s.dep = {}; s.pix = {}; s.log = []
    def call(s, R, vals, scr=None, depth=0):
        """vals: atom id -> value of the function's numeric arguments"""
        env = dict(vals)
        if scr:
            for k, xs in enumerate(R.proj):
                for a, v in zip(xs, scr[k]): env[atom_of(a)] = v
        start = dict(s.dep); wr = {"pixel": {}, "depth": {}}; inv = dict(fn=R.f, vals=dict(vals), scr=scr, steps=[], start=start, wr=wr)
        s.log.append(inv)
        B = s.B
        def atoms(a, e):
            if a.kind == "ld" and a.args[1] == ("arg", "this"):
                if a.args[2] == P(B.W): return s.W
                if a.args[2] == P(B.H): return s.H
                return 1000 + int(num_eval(a.args[2], e))
            if a.kind == "ld" and B.kind(a.args[1]) == "depth":
                n = num_eval(a.args[2], e)
                if n % 4 or not 0 <= n < 4 * s.W * s.H: raise Out("reads depth %s" % (n // 4), n)
                return start.get(n // 4, 0)
            if a.kind == "call": return 77
            raise NoValue(fmt_atom(a))
        env["atoms"] = atoms
        env["preds"] = lambda key, e: True if key[0] == "op" else nov(key)
        def f(e, en):
            if e.kind == "step":
                g = s.runs.get(e.name)
                if g is None: raise NoValue("unknown step " + e.name)
                v = {}; lst = []
                for x, y in zip(g.args, e.args):
                    if isinstance(x, Poly): v[atom_of(x)] = num_eval(y, en); lst.append(v[atom_of(x)])
                inv["steps"].append((e, lst))
                if depth < 4: s.call(g, v, depth=depth + 1)
            elif e.kind == "store":
                p = e.args[0]
                while isinstance(p, Node): p = p.hi if num_pred(p.p, en) else p.lo
                if not isinstance(p, Ptr): raise NoValue("pointer")
                k = B.kind(p.obj)
                if not k: return
                n = num_eval(p.off, en)
                if n % 4 or not 0 <= n < 4 * s.W * s.H: raise Out("writes %s %s" % (k, n // 4), n, e)
                v = num_eval(e.args[1], en); wr[k][n // 4] = (v, e)
                if k == "depth": s.dep[n // 4] = v
                else: s.pix[n // 4] = v
        num_events(R.r.ev, env, f, [20000])
        return inv
def nov(k): raise NoValue(str(k))
class Out(Exception): pass

def check_world(w):
    """first defect of what one drawing call did, or None: (rule, text, event or function)"""
    B = w.B
    for inv in w.log:
        wr = inv["wr"]; nm = inv["fn"].dn.split("(")[0]
        at = fmt_inv(w, inv)
        if nm == "Renderer::clear": continue
        for n, (v, e) in wr["depth"].items():
            if v < inv["start"].get(n, 0) - EPS: return "nearer", "%s: pixel (%d,%d) of depth %s is overwritten by something farther, %s" % (at, n % w.W, n // w.W, num_s(inv["start"].get(n, 0)), num_s(v)), e
            if n not in wr["pixel"]: return "pairs", "%s: the depth of pixel (%d,%d) is replaced but not its colour" % (at, n % w.W, n // w.W), e
        for n, (v, e) in wr["pixel"].items():
            if n not in wr["depth"]: return "pairs", "%s: the colour of pixel (%d,%d) is replaced but not its depth" % (at, n % w.W, n // w.W), e
    return None
def num_s(v): return "%.6g" % float(v)
def fmt_inv(w, inv):
    a = ", ".join("%s=%s" % (fmt_atom_short(k), num_s(v)) for k, v in inv["vals"].items())
    if inv["scr"]: a += "; projected " + " ".join("(%s,%s;%s)" % tuple(num_s(x) for x in t) for t in inv["scr"])
    return "%s(%s) in a %dx%d window" % (inv["fn"].dn.split("(")[0], a, w.W, w.H)

def lerp(a, b, t): return a + (b - a) * t
def rnd_(x): return int(x + Fraction(1, 2)) if x + Fraction(1, 2) >= 0 else -int(-(x + Fraction(1, 2)))

def span_defect(w, inv):
    """draw_horizontal_line(ax, aw, bx, bw, y, color) against its specification"""
    ax, aw, bx, bw, y, col = list(inv["vals"].values())
    if not ax <= bx: return None
    want = {}
    if 0 <= y < w.H:
        for i in range(max(ax, 0), min(bx, w.W - 1) + 1):
            ds = [lerp(aw, bw, Fraction(i - ax, bx - ax))] if bx > ax else [aw, bw]
            want[y * w.W + i] = ds
    got = inv["wr"]["depth"]
    for n, (v, e) in got.items():
        if n not in want: return "pixel (%d,%d) does not belong to the span" % (n % w.W, n // w.W), e
        if not any(abs(v - d) < 1e-9 * (1 + abs(d)) for d in want[n]): return "pixel (%d,%d) gets the depth %s instead of %s" % (n % w.W, n // w.W, num_s(v), num_s(want[n][0])), e
    for n, ds in want.items():
        if n not in got and min(ds) > inv["start"].get(n, 0) + EPS: return "pixel (%d,%d) is left out though it is nearer" % (n % w.W, n // w.W), None
    for n, (v, e) in inv["wr"]["pixel"].items():
        if v != col: return "pixel (%d,%d) gets the colour %s instead of %s" % (n % w.W, n // w.W, v, col), e
    return None

def trapeze_defect(w, inv, spans):
    """draw_trapeze(ax,aw,bx,bw,ay,cx,cw,dx,dw,cy,color): rows and their ends"""
    ax, aw, bx, bw, ay, cx, cw, dx, dw, cy, col = list(inv["vals"].values())
    if not (ax <= bx and cx <= dx and ay <= cy): return None
    rows = {}
    for e, a in inv["steps"]:
        if e.name not in spans: return None
        rows.setdefault(a[4], []).append((e, a))
    for y in range(max(ay, 0), min(cy, w.H)):
        if y not in rows: return "row %d is not drawn" % y, None
        if len(rows[y]) > 1: return "row %d is drawn twice" % y, rows[y][1][0]
    for y, l in rows.items():
        if not max(ay, 0) <= y < min(cy, w.H): return "row %s is drawn" % y, l[0][0]
        e, a = l[0]; t = Fraction(y - ay, cy - ay)
        for got, want, what in ((a[0], rnd_(lerp(ax, cx, t)), "begins at column"), (a[1], lerp(aw, cw, t), "begins with depth"), (a[2], rnd_(lerp(bx, dx, t)), "ends at column"), (a[3], lerp(bw, dw, t), "ends with depth")):
            if abs(float(got - want)) > 1e-9 * (1 + abs(float(want))): return "row %d %s %s instead of %s" % (y, what, num_s(got), num_s(want)), e
        if a[5] != col: return "row %d has another colour" % y, e
    return None

def triangle_spans(w, inv, traps):
    """the rows the two trapezes of a triangle cover, without clipping: row -> [(left x, w, right x, w)]"""
    rows = {}
    for e, a in inv["steps"]:
        if e.name not in traps: return None
        ax, aw, bx, bw, ay, cx, cw, dx, dw, cy, col = a
        if not (ax <= bx and cx <= dx and ay <= cy): return "the trapeze %s is not ordered" % [num_s(x) for x in a[:10]], e
        for y in range(int(ay), int(cy)):
            t = Fraction(y - ay, cy - ay)
            rows.setdefault(y, []).append((e, lerp(ax, cx, t), lerp(aw, cw, t), lerp(bx, dx, t), lerp(bw, dw, t)))
    return rows

def triangle_defect(w, inv, traps):
    S = inv["scr"]
    if S is None or len(S) != 3: return None
    rows = triangle_spans(w, inv, traps)
    if rows is None: return None
    if isinstance(rows, tuple): return rows
    pts = S
    (ax, ay, _), (bx, by, _), (cx, cy, _) = pts
    area = (ax - bx) * (ay - cy) - (ay - by) * (ax - cx)
    two = any(v for k, v in inv["vals"].items() if "Two" in fmt_atom_short(k) or "two" in fmt_atom_short(k))
    out = all(p[0] < 0 for p in pts) or all(p[1] < 0 for p in pts) or all(p[0] >= w.W for p in pts) or all(p[1] >= w.H for p in pts)
    if not rows:
        if out or (area <= 0 and not two): return None
        ys = [p[1] for p in pts]
        if max(max(min(ys), 0), 0) < min(max(ys), w.H): return "nothing is drawn though the triangle faces the viewer and reaches into the window", None
        return None
    if area <= 0 and not two: return "a triangle seen from behind is drawn", None
    lo, hi = min(p[1] for p in pts), max(p[1] for p in pts)
    for y in range(lo, hi):
        l = rows.get(y, [])
        if len(l) != 1: return "row %d is covered %d times" % (y, len(l)), l[0][0] if l else None
    for y, l in rows.items():
        if not lo <= y < hi: return "row %d is outside of the triangle" % y, l[0][0]
        e, x1, w1, x2, w2 = l[0]
        # crossings of the edges with the row
        xs = []
        for i in range(3):
            p, q = pts[i], pts[(i + 1) % 3]
            if p[1] == q[1]:
                if p[1] == y: xs += [(p[0], p[2]), (q[0], q[2])]
                continue
            t = Fraction(y - p[1], q[1] - p[1])
            if 0 <= t <= 1: xs.append((lerp(p[0], q[0], t), lerp(p[2], q[2], t)))
        L, R = min(x for x, _ in xs), max(x for x, _ in xs)
        if abs(x1 - L) > TOL or abs(x2 - R) > TOL: return "row %d runs from %s to %s instead of %s to %s" % (y, num_s(x1), num_s(x2), num_s(L), num_s(R)), e
        for x, z in ((x1, w1), (x2, w2)):
            c2 = [v for u, v in xs if abs(u - x) <= TOL]
            if not any(abs(float(z - v)) < 1e-9 * (1 + abs(float(v))) for v in c2): return "row %d: the end at column %s has depth %s instead of %s" % (y, num_s(x), num_s(z), num_s(c2[0])), e
    return None

SIZES = [(4, 3), (6, 5), (1, 1), (7, 2), (2, 6)]
def hunt(c, B, runs, roots, spans, traps, tri, n):
    """replay the summaries from the public drawing functions: rule -> (text, location)"""
    found = {}; rnd = random.Random(5); used = 0
    def note(rule, text, e): found.setdefault(rule, (text, e))
    for R in roots:
        for k in range(n):
            W, H = SIZES[k % len(SIZES)] if k % 7 else (5, 40)
            w = World(B, runs, W, H)
            if k % 3 == 0: w.dep = {i: Fraction(rnd.randint(0, 30), rnd.choice((1, 3, 7))) for i in range(W * H)}
            big = k % 5 == 4
            def co(m):
                return rnd.choice((-1, 0, 1, m - 2, m - 1, m, m + 1)) if rnd.random() < .4 else rnd.randint(-5, m + 6) if not big else rnd.randint(-60, 60)
            scr = [(co(W), co(H), Fraction(rnd.randint(1, 30), rnd.choice((1, 3, 7)))) for _ in R.proj]
            vals = {a: (rnd.choice((0, 1)) if str(fmt_atom_short(a)).startswith("b") else 9) for a in R.free}
            try: w.call(R, vals, scr)
            except Out as x:
                inv = w.log[-1]; note("bounds", "%s %s of %d" % (fmt_inv(w, inv), x.args[0], W * H), x.args[2] if len(x.args) > 2 else inv["fn"]); continue
            except (NoValue, ZeroDivisionError, TypeError, OverflowError) as x:
                if c.debug and not used: print("no value", R.f.dn, x)
                continue
            used += 1
            d = check_world(w)
            if d: note(*d)
            for inv in w.log:
                for names, fn, rule in ((spans, span_defect, "span"), (traps, lambda w, i: trapeze_defect(w, i, spans), "trapeze"), (tri, lambda w, i: triangle_defect(w, i, traps), "triangle")):
                    if inv["fn"].dn in names:
                        d = fn(w, inv)
                        if d: note(rule, fmt_inv(w, inv) + ": " + d[0], d[1] or inv["fn"])
    c.count("summaries replayed", used)
    return found, used

# ------------------------------------------------------------------ the rules
def bounds_rule(c, B, R, bad):
    W, H = R.W, R.H
    acc = R.accesses(B); fails = []
    for e, fors, kind, off, v in acc:
        q = off.scale(Fraction(1, 4))
        if not inside(q, e.guard, fors, W, H): fails.append((kind, off, e))
    lds = R.loads(B)
    for a, uses in lds.items():
        q = a.args[2].scale(Fraction(1, 4))
        # the load happens where its value is compared: the guard with that comparison (and what follows it) left out
        for e, fors in uses:
            g = without(e.guard, a)
            if not inside(q, g, fors, W, H): fails.append(("depth (read)", a.args[2], e)); break
    return acc, lds, fails

def without(g, at):
    """the weakest condition under which the comparison with the loaded value is evaluated"""
    def uses(n):
        p = pred(n.p); return any(x is at for x in deep_atoms(p.poly if p.kind == "gt" else p.key))
    memo = {}
    def go(n):
        if not isinstance(n, Node): return n
        if id(n) in memo: return memo[id(n)]
        if uses(n): r = ONE if n.hi != ZERO or n.lo != ZERO else ZERO
        else: r = ite(mk(n.p, ONE, ZERO), go(n.hi), go(n.lo))
        memo[id(n)] = r; return r
    return go(g)

def depth_rule(c, B, R):
    """(ok, text, event): every store is guarded by the depth test at its own index and comes in pairs"""
    acc = R.accesses(B); by = {}
    for e, fors, kind, off, v in acc: by.setdefault((off, tuple(id(F) for F in fors)), {}).setdefault(kind, []).append((e, v))
    for key, d in by.items():
        if set(d) != {"pixel", "depth"}: return None, "only the %s at %s is stored" % (list(d)[0], str(key[0])[:60]), list(d.values())[0][0][0]
        gp = [e.guard for e, _ in d["pixel"]]; gd = [e.guard for e, _ in d["depth"]]
        u = lambda gs: gs[0] if len(gs) == 1 else c_or_all(gs)
        if u(gp) != u(gd): return None, "pixel and depth are stored under different conditions", d["pixel"][0][0]
        for e, v in d["depth"]:
            for p in guard_paths(e.guard):
                x = v
                for q, t in p: x = assume(x, q.id, t)
                for p2, leaf in paths(x):
                    if infeasible2(p + p2): continue
                    if not tested(B, leaf, key[0], p + p2): return None, "stored depth %s is not compared with the depth there" % str(leaf)[:80], e
    return True, "%d pairs of stores, each where the new depth exceeds the old one (tolerance at most %s)" % (len(by), EPS), acc[0][0]

def c_or_all(gs):
    r = ZERO
    for g in gs: r = c_or(r, g)
    return r
def infeasible2(p):
    seen = {}
    for q, t in p:
        if seen.setdefault(q.id, t) != t: return True
    return False
def tested(B, v, off, path):
    """the path contains  v + eps - old(off) > 0  or  v + eps - old >= 0"""
    for q, t in path:
        if q.kind != "gt": continue
        for a in q.poly.atoms():
            at = atom_by_id(a)
            if at.kind != "ld" or B.kind(at.args[1]) != "depth" or at.args[2] != off: continue
            co = q.poly.coeffs_in(a)
            if set(co) - {0, 1} or not co[1].is_const(): continue
            k = co[1].const()
            if (k < 0) != t: continue                  # v - old > 0 holds, or old - v > 0 does not hold
            d = co.get(0, ZERO).scale(Fraction(1) / -Fraction(k)) - v
            if clear_denoms(d).is_zero(): return True
            if d.is_const() and 0 <= d.const() <= EPS: return True
    return False

def span_rule(c, B, R):
    """symbolic: stored depth = interpolation between the given ends at the pixel's column, on every path"""
    ax, aw, bx, bw, y, col = R.args[1:7]; n = 0
    for e, fors, kind, off, v in R.accesses(B):
        sp = split(off.scale(Fraction(1, 4)), R.W)
        if sp is None: return None, "index %s" % str(off)[:60], e
        row, x = sp
        for p in guard_paths(e.guard):
            if infeasible(p, R): continue
            eq = equalities(p)
            if not zero_under(row - y, eq): return None, "row %s" % str(row)[:60], e
            if not all(nonneg_(z, facts_of(p) + loop_facts(fors)) for z in (x - ax, bx - x)): return None, "column %s not between the ends" % str(x)[:60], e
            if kind == "pixel":
                if v != col: return None, "colour %s" % str(v)[:60], e
                n += 1; continue
            u = v
            for q, t in p: u = assume(u, q.id, t)
            for p2, leaf in paths(u):
                if infeasible(p + p2, R): continue
                q2 = equalities(p + p2); n += 1
                want = aw + (bw - aw) * (x - ax) * inv(bx - ax)
                if equal_depth(leaf, want, q2, p + p2, ax, bx, aw, bw, x): continue
                return None, "depth %s" % str(leaf)[:120], e
    return True, "%d cases: the depth is the interpolation between the given ends at the column" % n, R.f

def infeasible(p, R):
    """the facts of the path contradict each other (tightest integer bounds), given bx >= ax"""
    if infeasible2(p): return True
    return linear.infeasible(facts_of(p) + [R.args[3] - R.args[1]])
def zero_under(e, eq):
    e = subst(e, eq) if eq else e
    return isinstance(e, Poly) and clear_denoms(e).is_zero()
def equal_depth(leaf, want, eq, p, ax, bx, aw, bw, x):
    if not isinstance(leaf, Poly): return False
    try:
        if clear_denoms(leaf - want).is_zero(): return True
    except Exception: pass
    fs = facts_of(p)
    pins = [{}]
    # equalities forced by the inequalities of the path: pin the column to an end when both bounds meet
    for z in forced(p, ax, bx, x): pins.append(z)
    for m in pins:
        m = {**eq, **m}
        d0 = subst(bx - ax, m)
        if isinstance(d0, Poly) and d0.is_zero():
            for w0 in (aw, bw):
                if zero_under(leaf - w0, m): return True
            continue
        try:
            if zero_under(leaf - want, m): return True
        except (ZeroDivisionError, Und): pass
    return False
def forced(p, ax, bx, x):
    """substitutions {atom: poly} for equalities u = v that the path forces between the quantities it compares"""
    fs = facts_of(p); cand = []
    for q, t in p:
        if q.kind == "gt" and q.isint and not t: cand.append(q.poly)
        elif q.kind == "gt" and q.isint: cand.append(q.poly - 1)
    cand += [bx - ax, x - ax, bx - x]
    out = []; acc = {}
    for z in cand:
        if z.is_const(): continue
        if nonneg_(z, fs + [bx - ax]) and nonneg_(-z, fs + [bx - ax]):
            z = subst(z, acc) if acc else z
            if not isinstance(z, Poly): continue
            from cadsa.bounds import _linear
            for a in sorted(z.atoms()):
                k = _linear(z, a)
                if k is not None:
                    acc = {b: subst(v, {a: (P(atom_by_id(a)).scale(k) - z).scale(k)}) for b, v in acc.items()}
                    acc[a] = (P(atom_by_id(a)).scale(k) - z).scale(k); out.append(dict(acc)); break
    return out

def unround(v):
    """the real value whose rounding (add a half, cut) the integer v is, or v itself"""
    if len(v.t) == 1:
        (m, k), = v.t.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            at = atom_by_id(m[0][0])
            if at.kind == "fptosi" and isinstance(at.args[0], Poly): return at.args[0] - Fraction(1, 2)
    return v

def trapeze_rule(c, R, spans):
    ax, aw, bx, bw, ay, cx, cw, dx, dw, cy, col = R.args[1:12]; n = 0
    base = [cy - ay]
    evs = [(e, fors) for e, fors in walk(R.r.ev) if isinstance(e, Ev) and e.kind == "step"]
    if not evs or any(e.name not in spans for e, _ in evs): return None, "no rows recognised", R.f
    for e, fors in evs:
        if len(fors) != 1: return None, "not in one loop", e
        F = fors[0]; kat = atom_of(F.k)
        for p in guard_paths(e.guard):
            fs = facts_of(p) + loop_facts(fors) + base
            vals = []
            for x in e.args[1:7]:
                for q, t in p: x = assume(x, q.id, t)
                vals.append(x)
            if not all(isinstance(x, Poly) for x in vals): return None, "arguments have further cases", e
            y = vals[4]; n += 1
            y0 = subst(y, {kat: ZERO})
            if y - y0 != F.k: return None, "rows are not consecutive: %s" % str(y)[:60], e
            if not (y0 == ay and nonneg_(ay, facts_of(p)) or y0 == ZERO and nonneg_(-ay, facts_of(p))): return None, "first row %s" % str(y0)[:60], e
            if not (nonneg_(cy - 1 - y, fs) and nonneg_(R.H - 1 - y, fs)): return None, "last row not below the end and the border", e
            for got, u, v in ((vals[0], ax, cx), (vals[1], aw, cw), (vals[2], bx, dx), (vals[3], bw, dw)):
                want = u + (v - u) * (y - ay) * inv(cy - ay)
                g = unround(got) if u in (ax, bx) else got
                if not clear_denoms(g - want).is_zero(): return None, "%s instead of the interpolation %s" % (str(g)[:80], str(want)[:80]), e
            if vals[5] != col: return None, "colour", e
    # the loop goes on until the end or the border is reached, and is entered when there is a row
    F = evs[0][1][0]; kat = atom_of(F.k)
    for g, src, dst in [(x[0], x[1], x[2]) for x in F.exits]:
        for p in guard_paths(g):
            y = evs[0][0].args[5]
            for q, t in p: y = assume(y, q.id, t)
            if not isinstance(y, Poly): return None, "exit", evs[0][0]
            fs = facts_of(p) + [F.k] + base
            if not (nonneg_(y - cy, fs) or nonneg_(y - R.H, fs)): return None, "the loop may stop at row %s" % str(y)[:60], evs[0][0]
    for p in guard_paths(c_not(F.guard)):
        fs = facts_of(p) + base
        if not (nonneg_(-cy, fs) or nonneg_(ay - R.H, fs) or nonneg_(ay - cy, fs)): return None, "left out although it has rows in the window", R.f
    return True, "%d cases: rows max(top,0)..min(bottom,height)-1, ends interpolated between the given corners" % n, evs[0][0]

def triangle_rule(c, R, traps):
    """each trapeze corner is one affine combination of the projected corners, in column, row and depth alike; the trapezes
    cover the rows from the topmost to the lowest corner and share their common side"""
    if len(R.proj) != 3: return None, "%d corners projected" % len(R.proj), R.f
    evs = [(e, fors) for e, fors in walk(R.r.ev) if isinstance(e, Ev) and e.kind == "step"]
    if len(evs) != 2 or any(fors or e.name not in traps for e, fors in evs) or evs[0][0].guard != evs[1][0].guard: return None, "not two trapezes", R.f
    X = {atom_of(t[0]): k for k, t in enumerate(R.proj)}
    n = 0
    def toz(q, j):
        """replace the columns of the corners by their rows (j=1) or depths (j=2)"""
        return subst(q, {a: R.proj[k][j] for a, k in X.items()})
    (e1, _), (e2, _) = evs
    both_ = tuple(e1.args[1:11]) + tuple(e2.args[1:11])
    preds = sorted({p.id for x in both_ for p in (preds_of(x) if isinstance(x, Node) else [])})
    cases = [[]]
    def go(vals, path):
        nonlocal n
        nd = [x for x in vals if isinstance(x, Node)]
        if nd:
            p = min((x.p for x in nd), key=lambda z: preds.index(z) if z in preds else 0)
            for t in (True, False):
                q = path + [(pred(p), t)]
                fs = facts_of(q)
                if linear.infeasible(fs): continue
                r = go([assume(x, p, t) if isinstance(x, Node) else x for x in vals], q)
                if r is not True: return r
            return True
        n += 1; fs = facts_of(path); eq = equalities(path)
        for k, (ix, iw, iy) in enumerate(((0, 1, 4), (2, 3, 4), (5, 6, 9), (7, 8, 9), (10, 11, 14), (12, 13, 14), (15, 16, 19), (17, 18, 19))):
            q = unround(vals[ix])
            yy = vals[iy]
            if not zero_under(vals[iw] - toz(q, 2), eq): return "corner %d: the depth %s does not go with the column %s" % (k, str(vals[iw])[:60], str(q)[:60])
            if not zero_under(yy - toz(q, 1), eq): return "corner %d: the row %s does not go with the column %s" % (k, str(yy)[:60], str(q)[:60])
        for k in range(3):
            yk = R.proj[k][1]
            for z in (yk - vals[4], vals[19] - yk):
                if not nonneg_(subst(z, eq) if eq else z, [subst(f, eq) for f in fs] if eq else fs): return "row %s is not the extreme one" % str(vals[4])[:50]
        for i, j in ((5, 10), (6, 11), (7, 12), (8, 13), (9, 14)):
            if vals[i] != vals[j] and not zero_under(vals[i] - vals[j], eq): return "the trapezes do not share their side"
        return True
    r = go(list(both_), [])
    if r is not True: return None, r, e1
    return True, "%d orders of the corners" % n, e1

def discard_rule(c, R):
    """a triangle is left out only if it lies beyond one border, or is seen from behind"""
    evs = [e for e, fors in walk(R.r.ev) if isinstance(e, Ev) and e.kind == "step"]
    if not evs: return None, "nothing drawn", R.f
    g = c_not(evs[0].guard); n = 0
    for p in guard_paths(g):
        n += 1
        xs = [t[0] for t in R.proj]; ys = [t[1] for t in R.proj]; fs = facts_of(p)
        if any(all(nonneg_(z, fs) for z in l) for l in ([-1 - x for x in xs], [-1 - y for y in ys], [x - R.W for x in xs], [y - R.H for y in ys])): continue
        if all(nonneg_(-y, fs) for y in ys): continue           # rows run to the lowest corner, which is not drawn itself
        (a, b, d) = R.proj
        cr = (a[0] - b[0]) * (a[1] - d[1]) - (a[1] - b[1]) * (a[0] - d[0])
        if any(q.kind == "gt" and not t and (q.poly - cr).is_zero() for q, t in p): continue
        return None, "left out when %s" % " and ".join(("" if t else "not ") + str(q)[:60] for q, t in p[-4:]), R.f
    return True, "%d cases" % n, R.f

def clear_rule(c, B, R):
    """every pixel and every depth is reset"""
    acc = R.accesses(B)
    for kind in ("pixel", "depth"):
        l = [a for a in acc if a[2] == kind]
        if len(l) != 1: return None, "%d stores to the %s buffer" % (len(l), kind), R.f
        e, fors, _, off, v = l[0]
        if len(fors) == 1 and fors[0].exact and off == fors[0].k * 4 and fors[0].trip == R.W * R.H: pass
        elif len(fors) == 2:
            t = {F.k: F.trip for F in fors}; q = off.scale(Fraction(1, 4)); sp = split(q, R.W)
            if sp is None or sp[0] not in t or sp[1] not in t or t[sp[0]] != R.H or t[sp[1]] != R.W or not all(F.exact for F in fors): return None, "%s loop" % kind, e
            for p in guard_paths(c_not(e.guard)):
                fs = facts_of(p); (y, x) = sp
                if not (nonneg_(y - R.H, fs) or nonneg_(x - R.W, fs)): return None, "%s skipped" % kind, e
        else: return None, "%s loop" % kind, e
        if kind == "depth" and v != ZERO: return None, "depth reset to %s" % str(v)[:40], e
        if kind == "pixel" and not (isinstance(v, Poly) and len(v.atoms()) == 1 and atom_by_id(list(v.atoms())[0]).kind == "ld"): return None, "pixel reset to %s" % str(v)[:40], e
    return True, "all of both buffers", R.f

def clear_defect(c, B, R):
    for W, H in SIZES + [(3, 3)]:
        w = World(B, {R.f.dn: R}, W, H)
        try: inv_ = w.call(R, {})
        except Out as x: return "in a %dx%d window %s of %d" % (W, H, x.args[0], W * H), x.args[2] if len(x.args) > 2 else R.f
        except (NoValue, TypeError): return None
        for kind in ("pixel", "depth"):
            d = inv_["wr"][kind]
            for i in range(W * H):
                if i not in d: return "in a %dx%d window the %s (%d,%d) is not reset" % (W, H, kind, i % W, i // W), R.f
            if kind == "depth":
                for i, (v, e) in d.items():
                    if v != 0: return "the depth is reset to %s" % v, e
            elif len({v for v, e in d.values()}) > 1: return "pixels are reset to different colours", R.f
    return None

# ------------------------------------------------------------------ projection
def projection(c):
    """conversions of the projected coordinates to int have bounded arguments"""
    f = c.m.match(PROJECT)[0]
    L = Lab(c, {re.compile(r"^RotationEulerAngles::apply\("): rot}, mesh=False); o = L.out("camera")
    xs = [L.obj("sx"), L.obj("sy"), L.obj("w")]
    for p in xs: L.st.mem[p.obj] = Mem("undef", None, None)
    r = L.run(f, o, L.point("pt"), *xs); c.functions.update(z.dn for z in L.visited())
    for p, nm in zip(xs[:2], ("column", "row")):
        v = L.load(p, 4, "i32"); bad = None; n = 0
        for path, leaf in paths(v):
            n += 1
            if not isinstance(leaf, Poly): bad = str(leaf)[:60]; break
            for a in deep_atoms(leaf):
                if a.kind != "fptosi": continue
                lo, hi = fbounds(a.args[0], path)
                if lo is None or hi is None or lo <= -2 ** 31 - 1 or hi >= 2 ** 31: bad = "the argument of the conversion is not bounded (%s..%s)" % (lo, hi)
        if bad is None: c.proved("project." + nm, "%d cases: constant, or a conversion with bounded argument" % n, f); continue
        # a point that reaches an unbounded conversion
        wit = None
        for path, leaf in paths(v):
            if not isinstance(leaf, Poly) or wit: continue
            for a in deep_atoms(leaf):
                if a.kind != "fptosi": continue
                ats = free_atoms(leaf, [q.poly for q, t in path if q.kind == "gt"])
                rot_ = sorted({b.id for b in deep_atoms((leaf, tuple(q.poly for q, t in path if q.kind == "gt"))) if b.kind == "rot"})
                for k in range(200):
                    rnd = random.Random(k); env = {x: Fraction(rnd.randint(1, 50)) for x in ats}
                    for i, x in enumerate(rot_): env[x] = Fraction(rnd.choice((-1, 1)) * rnd.choice((10 ** 10, 1, 3, Fraction(1, 10 ** 10))))
                    try:
                        if all((num_eval(q.poly, dict(env)) > 0) == t for q, t in path if q.kind == "gt" and not any(b.kind == "fptosi" for b in deep_atoms(q.poly))):
                            z = num_eval(a.args[0], dict(env))
                            if abs(z) > 2 ** 31 + 1: wit = z; break
                    except (NoValue, ZeroDivisionError, TypeError): pass
                if wit: break
        if wit: c.refuted("project." + nm, "a point near the camera plane projects to %s %.3g, whose conversion to int is undefined" % (nm, float(wit)), f)
        else: c.unknown("project." + nm, bad, f)
    # ---- not a number: 0/0 or infinities
    for g in L.visited():
        if g.decl: continue
        src = {i["i"] for b in g.blocks for i in g.blocks[b] if i["op"] == "fdiv"}
        if g is not f: src |= {a["i"] for a in g.args if a["t"] == "double"} if all(a["t"] == "double" for a in g.args) else set()
        hits, conv = walk_nan(g, src)
        if not conv: continue
        for i in conv:
            if i["i"] not in hits: c.proved("nan", "not reached by a coordinate that is not a number", Loc(g.file, i.get("l", g.line), g.dn, ()))
            elif hits[i["i"]] and not guarded_select(g, i["i"]): c.refuted("nan", "a coordinate that is not a number (the camera plane) reaches the conversion to int", Loc(g.file, i.get("l", g.line), g.dn, ()))
            else: c.unknown("nan", "may be reached by a coordinate that is not a number", Loc(g.file, i.get("l", g.line), g.dn, ()))
def rot(it, call):
    p = call.args[1]
    for k in range(3):
        v = it.load(call.st, bind(lambda q: Ptr(q.obj, q.off + 8 * k), p), 8, "double")
        it.store(call.st, bind(lambda q: Ptr(q.obj, q.off + 8 * k), p), A("rot", P(k), v), 8, ev=False)
def fbounds(t, path):
    lo = hi = None
    for q, v in path:
        if q.kind != "gt": continue
        for sg in (1, -1):
            d = q.poly - t.scale(sg)
            if not d.is_const(): continue
            b = -Fraction(d.const()) * sg
            if (sg == 1) == v: lo = b if lo is None else max(lo, b)
            else: hi = b if hi is None else min(hi, b)
    return lo, hi

# ------------------------------------------------------------------ driver
def run(c):
    c.rule("bounds", "every pixel and depth access is at row*width+column with 0<=column<width, 0<=row<height under its guard")
    c.rule("nearer", "every store is guarded by new depth + tolerance > old depth at the same index; pixel and depth are stored together")
    c.rule("span", "the stored depth is the interpolation between the original ends at the pixel's column")
    c.rule("trapeze", "the rows are those inside the window, with ends and depths interpolated between the original corners")
    c.rule("triangle", "the corners of the trapezes are the same affine combination of the projected corners in column, row and depth")
    c.rule("projection", "screen coordinates are converted to int only when bounded")
    with c.group("projection"): projection(c)
    B = None
    with c.group("buffers"):
        B = Buf(c)
        if not B.ok: c.unknown("buffers", "fields of the renderer not recognised", B.f); return
        sz = B.size.args[1] if B.size is not None and len(B.size.args) > 1 else None
        c.proved("fields", "pixels at %d, depths at %d, width at %d, height at %d" % (B.pix, B.dep, B.W, B.H), B.f)
        size_rule(c, B)
    if B is None or not B.ok: return
    fs = sorted((f for f in c.m.match(r"^Renderer::(?!Renderer\(|~|operator)\w+\(") if not f.decl), key=lambda f: f.dn)
    named = [f for f in fs if re.match(r"^Renderer::(draw_trapeze|draw_horizontal_line)\(", f.dn)]
    spans = {f.dn for f in named if "draw_horizontal_line(int, double, int, double, int, int)" in f.dn}
    traps = {f.dn for f in named if "draw_trapeze(double, double, double, double, int, double, double, double, double, int, int)" in f.dn}
    tri = {f.dn for f in fs if f.dn.startswith("Renderer::draw_triangle_1color(")}
    runs = {}
    for f in fs:
        nm = f.dn.split("(")[0].split("::")[1]
        if nm in ("set_camera", "add_ambient_light", "add_diffuse_light", "compute_color_with_lights", "set_background", "draw_mesh", "draw_polyline"): continue
        with c.group("effects of " + nm):
            runs[f.dn] = Run(c, B, f, named)
    roots = [R for dn, R in runs.items() if dn.split("(")[0].split("::")[1] in ("draw_triangle_1color", "draw_line", "draw_pixel")]
    found, used = {}, 0
    with c.group("replay", 300): found, used = hunt(c, B, runs, roots, spans, traps, tri, 400 if c.tier == "quick" else 3000)
    for rule, (text, e) in sorted(found.items()):
        c.refuted("witness." + rule, text, e)
    # ---- proofs
    PUBLIC = ("clear", "draw_triangle_1color", "draw_line", "draw_pixel") + tuple(f.dn.split("(")[0].split("::")[1] for f in named)
    for dn, R in runs.items():
        nm = dn.split("(")[0].split("::")[1]
        if nm not in PUBLIC and any(f.dn == dn for d2, R2 in runs.items() if d2 != dn for f in R2.L.visited()): continue      # a helper: judged where it is used
        with c.group(nm):
            acc, lds, fails = bounds_rule(c, B, R, None)
            c.count("buffer accesses", len(acc) + len(lds))
            if acc or lds:
                if not fails: c.proved("bounds", "%d stores and %d loads inside the buffers" % (len(acc), len(lds)), R.f)
                elif "bounds" not in found: c.unknown("bounds", "%s at %s" % (fails[0][0], str(fails[0][1])[:120]), fails[0][2])
            if nm == "clear":
                ok, t, e = clear_rule(c, B, R)
                if ok: c.proved("all", t, e)
                else:
                    d = clear_defect(c, B, R)
                    if d: c.refuted("all", d[0], d[1])
                    else: c.unknown("all", t, e)
            elif acc:
                ok, t, e = depth_rule(c, B, R)
                if ok: c.proved("nearer", t, e)
                elif not ({"nearer", "pairs"} & set(found)): c.unknown("nearer", t, e)
            for names, rule, fn in ((spans, "span", lambda: span_rule(c, B, R)), (traps, "trapeze", lambda: trapeze_rule(c, R, spans)), (tri, "triangle", lambda: triangle_rule(c, R, traps))):
                if dn in names:
                    ok, t, e = fn()
                    if ok: c.proved(rule, t, e)
                    elif rule not in found: c.unknown(rule, t, e)
            if dn in tri:
                ok, t, e = discard_rule(c, R)
                if ok: c.proved("discard", t, e)
                elif "triangle" not in found: c.unknown("discard", t, e)

def size_rule(c, B):
    """the depth buffer has one entry per pixel"""
    e = B.size; W, H = A("arg", "width", ints=True), A("arg", "height", ints=True)
    if e is None: c.unknown("size", "no allocation", B.f); return
    n = e.args[1] if len(e.args) > 1 else e.x.get("size")
    ls = [l for l in leaves(n) if isinstance(l, Poly)] if n is not None else []
    for l in ls:
        if l == W * H * 4: c.proved("size", "4*width*height bytes of depths", e); return
    for p, l in paths(n) if n is not None else []:
        if not isinstance(l, Poly): continue
        for w, h in ((3, 5), (5, 3), (1, 1), (2, 7)):
            env = {atom_of(W): w, atom_of(H): h}
            try:
                v = num_eval(n, dict(env))
                if v < 4 * w * h: c.refuted("size", "for a %dx%d window only %s bytes of depths are allocated" % (w, h, v), e); return
            except (NoValue, TypeError): pass
    c.unknown("size", "allocated %s" % str(n)[:80], e)
