"""C36: the renderer shows the scene the camera, background and colours prescribe."""
import random, math, itertools
from common import *
from ident import *
from cadsa.chain import trip_free
from small import Small, env_of, flags, mesh_of
from triloop import *
from c14 import Buf, Run, World, Out, PROJECT, flat, num_s

PROJ = "RendererCamera::project(Point3 const&, int&, int&, double&)"
SETCAM = "Renderer::set_camera(double, double, double, double, double, double, double, double)"
CTOR = "Renderer::Renderer(int*, int, int)"

def run(c):
    c.rule("projection", "after the renderer is created and its camera set, the column, row and depth of a projected point equal those of its perspective image: position minus origin, rotated by the Euler angles, moved ahead, zoomed over depth, centred on the window, nearest pixel; depth 1/z")
    c.rule("setters", "the camera set last counts, whatever was set before, and each setter changes only its own part")
    c.rule("background", "clearing stores the background colour last set in every pixel and the depth 0 everywhere; a new renderer is black and cleared")
    c.rule("colour", "every pixel stored by draw_pixel and draw_line has the colour given; those of a triangle have the colour the lighting gives for its colour and its unit normal")
    c.rule("place", "a pixel is drawn at the projection of its point with its depth; a line stores pixels next to the straight path between its projected ends, with interpolated depth, one at least per step in the window")
    c.rule("polyline", "one line per pair of consecutive points, in the colour given")
    c.rule("mesh", "every live triangle is drawn with its corners, in the colour given or else the mesh's; edges only if asked for, joining corners of the triangle")
    with c.group("camera"): camera(c)
    with c.group("camera setters"): setters(c)
    B = Buf(c)
    with c.group("background"): background(c, B)
    if not B.ok: c.unknown("buffers", "fields of the renderer not recognised", B.f); return
    with c.group("colours"): colours(c, B)
    with c.group("Renderer::draw_line"): place(c, B)
    with c.group("Renderer::draw_polyline"): polyline(c)
    with c.group("Renderer::draw_mesh"): mesh(c)

# ------------------------------------------------------------------ camera
def euler(L, y, p, r, pt):
    """a point rotated by the Euler angles, by the library's own rotation (C16 decides that one)"""
    o = L.obj("rot%d" % L.n); L.st.mem[o.obj] = Mem("undef", None, None)
    L.call("RotationEulerAngles::RotationEulerAngles(double, double, double)", o, y, p, r)
    q = L.point("rp%d" % L.n, pt); L.call("RotationEulerAngles::apply(Point3&) const", o, q)
    return L.coords(q)

def fields(L, cls, suffix):
    return [(n, off, t) for n, off, t, sz in L.m.fields(cls) if t.endswith(suffix)]

def scene(c, twice=False):
    L = Lab(c, mesh=False); f = L.find(SETCAM)
    o = L.obj("r"); W, H = L.int_("W"), L.int_("H")
    L.call(CTOR, o, Ptr(("arg", "pixels"), ZERO), W, H)
    names = ("ox", "oy", "oz", "ahead", "yaw", "pitch", "roll", "zoom")
    if twice: L.call(f, o, *[L.real("old_" + n) for n in names])
    a = [L.real(n) for n in names]; L.call(f, o, *a)
    cam = fields(L, "Renderer", "RendererCamera")
    if len(cam) != 1: raise Und("camera of the renderer")
    return L, f, Ptr(o.obj, P(cam[0][1])), W, H, a

def project(L, cam, pt):
    xs = [L.obj("sx%d" % L.n), L.obj("sy%d" % L.n), L.obj("sw%d" % L.n)]
    for p in xs: L.st.mem[p.obj] = Mem("undef", None, None)
    L.call(PROJ, cam, pt, *xs)
    return L.load(xs[0], 4, "i32"), L.load(xs[1], 4, "i32"), L.load(xs[2], 8, "double")

def camera(c):
    L, f, cam, W, H, a = scene(c); pt = L.point("pt"); co = L.coords(pt)
    got = project(L, cam, pt); z = euler(L, *a[4:7], [x - y for x, y in zip(co, a[:3])]); z[2] = z[2] + a[3]
    judge(c, "projection", f, L, got, z, a[7], W, H, a + co)
    L, f, cam, W, H, a = scene(c, True); pt = L.point("pt"); co = L.coords(pt)
    got = project(L, cam, pt); z = euler(L, *a[4:7], [x - y for x, y in zip(co, a[:3])]); z[2] = z[2] + a[3]
    judge(c, "camera set again", f, L, got, z, a[7], W, H, a + co)

def envs(atoms, W, H, n=60):
    for k in range(n):
        rnd = random.Random(k); env = {}
        for x in atoms: env[atom_of(x)] = Fraction(rnd.randint(-40, 40), rnd.choice((1, 2, 4))) if k % 2 or rnd.random() < .4 else Fraction(0)
        if k % 8 == 2:
            for x in atoms[4:7]: env[atom_of(x)] = Fraction(0)         # no rotation
        env[atom_of(W)], env[atom_of(H)] = rnd.choice(((640, 480), (101, 77), (3, 9), (1, 1), (0, 6)))
        yield k, env

def judge(c, key, f, L, got, z, zoom, W, H, atoms):
    """witness first, then every case of the code's value"""
    extra = {i for i in free_atoms(*[x for x in list(got) + z])} - {atom_of(x) for x in atoms + [W, H]}
    seen = 0
    for k, env in envs(atoms, W, H):
        for i in extra: env[i] = Fraction(k * 7 + 3, 5)          # (former settings)
        try: x, y, d = (float(num_eval(v, dict(env))) for v in z)
        except NoValue: continue
        if abs(d) < 1e-6: continue
        zz, ww, hh = float(env[atom_of(zoom)]), env[atom_of(W)], env[atom_of(H)]
        want = [x * zz / d + ww // 2 + .5, y * zz / d + hh // 2 + .5, 1 / d]
        show = "point at (%.4g, %.4g, %.4g) seen by the camera, zoom %.4g, window %dx%d" % (x, y, d, zz, ww, hh)
        for v, w, nm in zip(got, want, ("column", "row", "depth")):
            try: g = float(num_eval(v, dict(env)))
            except Definite as e: c.refuted(key, "%s: no %s (%s)" % (show, nm, e), f); return
            except NoValue as e:
                if c.debug: print("NoValue", nm, e)
                continue
            seen += 1
            if nm == "depth": bad = abs(g - w) > 1e-9 * max(1, abs(w))
            else: bad = abs(w) < 2 ** 27 and not (math.floor(w - .001) <= g <= math.floor(w + .001) or w < 0 and g == -int(-w))
            if bad: c.refuted(key, "%s: the %s is %.6g, not %.6g" % (show, nm, g, w), f); return
    for v, w, nm in zip(got, [z[0] * zoom * inv(z[2]) + A("sdiv", W, P(2), ints=True) + Fraction(1, 2), z[1] * zoom * inv(z[2]) + A("sdiv", H, P(2), ints=True) + Fraction(1, 2), inv(z[2])], ("column", "row", "depth")):
        bad = None
        for l in leaves(v):
            if nm == "depth": ok = isinstance(l, Poly) and (l.is_const() or zero_poly(l - w))
            elif isinstance(l, Poly) and l.is_const(): ok = abs(l.const()) >= 2 ** 20
            else:
                at = [b for b in deep_atoms(l) if b.kind == "fptosi"] if isinstance(l, Poly) else []
                ok = len(at) == 1 and l == A(at[0].kind, *at[0].args, ints=True) and zero_poly(at[0].args[0] - w)
            if not ok: bad = bad or str(l)[:150]
        c.decide(None if bad or not seen else True, key + "." + nm, bad or "nearest pixel of the perspective image" if nm != "depth" else bad or "1/z", f)

def setters(c):
    """one setter of the camera changes its own part only"""
    base = Lab(c, mesh=False); cls = "RendererCamera"
    S = {"RendererCamera::set_origin(double, double, double, double)": (0, 4), "RendererCamera::set_angles(double, double, double)": (4, 7), "RendererCamera::set_screen(int, int, double)": (7, 8)}
    if any(n not in c.m.bydn for n in S): return
    for last in sorted(S):
        L = Lab(c, mesh=False); cam = L.new(cls, "cam"); W, H = L.int_("W"), L.int_("H")
        a = [L.real(n) for n in ("ox", "oy", "oz", "ahead", "yaw", "pitch", "roll", "zoom")]
        def put(n, vals, w, h): L.call(n, cam, *([w, h] + vals if "screen" in n else vals))
        for n in sorted(S):
            if n == last: put(n, [L.real("old%d" % i) for i in range(*S[n])], L.int_("oldW"), L.int_("oldH"))
            else: put(n, a[S[n][0]:S[n][1]], W, H)
        put(last, a[S[last][0]:S[last][1]], W, H)
        pt = L.point("pt"); co = L.coords(pt)
        got = project(L, cam, pt); z = euler(L, *a[4:7], [x - y for x, y in zip(co, a[:3])]); z[2] = z[2] + a[3]
        judge(c, "after " + last.split("(")[0].split("::")[1], c.m.find(last), L, got, z, a[7], W, H, a + co)

# ------------------------------------------------------------------ background
def fills(c, key, evs, f, is_pix, is_dep, env0, W, H, colour, what):
    """every pixel and depth stored, for small windows; colour: expected term"""
    for (w, h), former in itertools.product([(3, 2), (1, 4), (5, 1), (4, 4)] + [q for x in probe_sizes(evs) if 5 < x < 400 for q in ((x, 2), (2, x))], ("other", "fresh", "same")):
        env = dict(env0); env[atom_of(W)] = w; env[atom_of(H)] = h; pix = {}; dep = {}; want = num_eval(colour, env)
        fp, fd = {"other": (want + 1, 0.25), "fresh": (want + 1, 0), "same": (want, 0.5)}[former]      # what the window showed before
        def held(a, en):
            """what the memory of a new renderer held before is anything; every pixel is set once, so what is read is what was there before"""
            if a.kind == "ld" and is_pix(a.args[1]): return fp
            if a.kind == "ld" and is_dep(a.args[1]): return fd
            if a.kind in ("ld", "fld") and a.args[0 if a.kind == "fld" else 1] in (("arg", "this"), "this"): return 991
            raise NoValue(fmt_atom(a))
        env["atoms"] = held
        def emit(e, en):
            if e.kind != "store": return
            p = e.args[0]
            while isinstance(p, Node): p = p.hi if num_pred(p.p, en) else p.lo
            if not isinstance(p, Ptr): return
            d = pix if is_pix(p.obj) else dep if is_dep(p.obj) else None
            if d is not None: d[num_eval(p.off, en)] = (num_eval(e.args[1], en), e)
        try: num_events(evs, env, emit)
        except NoValue as x:
            if c.debug: print("NoValue", x)
            c.unknown(key, str(x)[:150], f); return
        for i in range(w * h):
            for d, v, old, nm in ((pix, want, fp, "pixel"), (dep, 0, fd, "depth")):
                g, e = d.get(4 * i, (old, f))
                if g != v: c.refuted(key, "%s: in a %dx%d window showing %s before, the %s (%d,%d) is left %s, not %s" % (what, w, h, {"same": "the background colour", "fresh": "another background", "other": "another colour"}[former], nm, i % w, i // w, g, v), e or f); return
    c.proved(key, "%s: all pixels %s, all depths 0, whatever was there before (windows of 4 sizes and of the sizes the code compares with)" % (what, colour), f)

def background(c, B):
    pixels = ("arg", "pixels")
    L = Lab(c, mesh=False); o = L.obj("this"); W, H = A("arg", "width", ints=True), A("arg", "height", ints=True)
    f = L.find(CTOR); _, ev = L.call(f, o, Ptr(pixels, ZERO), W, H, ev=True)
    dep = lambda q: q[0] == "heap"
    fills(c, "new renderer", ev, f, lambda q: q == pixels, dep, {}, W, H, ZERO, "a new renderer")
    g = L.find("Renderer::set_background(int)"); clear = L.find("Renderer::clear()"); col = A("arg", "col", ints=True)
    L.call(g, o, A("arg", "oldcol", ints=True)); _, e1 = L.call(g, o, col, ev=True)
    _, ev = L.call(clear, o, ev=True)
    env = {atom_of(col): 123456, atom_of(A("arg", "oldcol", ints=True)): 77}
    fills(c, "clear", ev, clear, lambda q: q == pixels, dep, env, W, H, col, "clearing after setting the background")
    _, ev = L.call(clear, o, ev=True)
    fills(c, "clear again", ev, clear, lambda q: q == pixels, dep, env, W, H, col, "clearing again")
    c.functions.update(x.dn for x in L.visited())

# ------------------------------------------------------------------ pixels
class Paint(Run):
    """a drawing function whose ends are projected to given places; the lighting answers one colour"""
    def __init__(s, c, B, f, opaque, place=None, corners=False):
        s.n = 0; s.c = c; s.f = f; s.proj = []; s.lit = A("lit", f.dn, ints=True); s.place = place; s.asked = []
        models = {re.compile(PROJECT): s.project, re.compile(r"^Renderer::compute_color"): s.light}
        for g in opaque:
            if g is not f: models[g.dn] = s.step
        s.L = L = Lab(c, models, mesh=False); s.args = []
        for k, a in enumerate(f.args):
            if k == 0: s.args.append(L.obj("this"))
            elif a["t"] == "ptr": s.args.append(L.point(a["n"]))
            elif a["t"] == "i1": s.args.append(opaque_bool(("arg", a["n"])))
            elif a["t"][0] == "i": s.args.append(A("arg", a["n"], ints=True))
            else: s.args.append(L.real(a["n"]))
        L.st.mem[("arg", "this")] = Mem("init", None, ("arg", "this"))
        s.points = [L.coords(p) for p in s.args[1:] if isinstance(p, Ptr)]
        s.W, s.H = B.dim(L, B.W), B.dim(L, B.H)
        s.r = L.run(f, *s.args)
        c.functions.update(z.dn for z in L.visited())
        s.free = [atom_of(x) for x in s.args if isinstance(x, Poly)]
    def project(s, it, call):
        if s.place is None: return Run.project(s, it, call)
        xs = s.place[s.n]; s.n += 1
        for p, v, z in zip(call.args[2:5], xs, (4, 4, 8)): it.store(call.st, p, v, z, ev=False)
        s.proj.append(xs)
    def light(s, it, call):
        a = list(call.args); p = [x for x in a[1:] if isinstance(x, Ptr)]; i = [x for x in a[1:] if not isinstance(x, Ptr)]
        if len(p) != 1 or len(i) != 1: raise Und("arguments of the lighting")
        s.asked.append((i[0], [it.load(call.st, Ptr(p[0].obj, p[0].off + 8 * j), 8, "double") for j in range(3)]))
        return s.lit
    def colour(s):
        """the last whole number among the arguments"""
        k = [i for i, a in enumerate(s.f.args) if i and a["t"] == "i32"]
        return s.args[k[-1]], k[-1]

def octants():
    """the ends of a line, by the direction it takes: (first end, second end, steps)"""
    for sx, sy, steep in itertools.product((1, -1), (1, -1), (False, True, None)):
        m, n = A("arg", "minor", ints=True), A("arg", "more", ints=True); declare_nonneg(m); declare_nonneg(n)
        X, Y, z1, z2 = A("arg", "X", ints=True), A("arg", "Y", ints=True), A("arg", "z1"), A("arg", "z2")
        im = m + 1 if steep is None else m + n + 1
        dx, dy = (im * sx, im * sy) if steep is None else (m * sx, im * sy) if steep else (im * sx, m * sy)
        yield [[X, Y, z1], [X + dx, Y + dy, z2]], dx, dy, im, (sx, sy, steep, m, n)

def steps_of(c):
    return [f for f in sorted((f for f in c.m.match(r"^Renderer::(draw_trapeze|draw_horizontal_line)\(") if not f.decl), key=lambda f: f.dn)]

def same_colour(c, key, R, v, want, e, what):
    for l in leaves(v):
        if isinstance(l, Poly) and l == want: continue
        ok = None
        if isinstance(l, (Poly, Node)):
            for col in (0x204060, -1, 0, 5):
                env = {a: 3 for a in free_atoms(l)}; env[atom_of(want)] = col
                try:
                    if num_eval(l, env) != col: ok = False
                except NoValue: pass
        c.decide(ok, key, "%s has the colour %s" % (what, str(l)[:80]), e); return False
    return True

def colours(c, B):
    named = steps_of(c); dns = {f.dn: f for f in named}
    fs = [f for f in c.m.match(r"^Renderer::(draw_pixel|draw_line|draw_triangle_1color)\(") if not f.decl] + named
    for f in sorted(fs, key=lambda f: f.dn):
        nm = f.dn.split("(")[0].split("::")[1]; key = "colour of " + nm
        Rs = [Paint(c, B, f, named, place=o[0]) for o in octants()] if nm == "draw_line" else [Paint(c, B, f, named)]
        R = Rs[0]; col, _ = R.colour(); want = R.lit if nm == "draw_triangle_1color" else col
        acc = [a for R in Rs for a in R.accesses(B) if a[2] == "pixel"]; n = 0; good = True
        for e, fors, k, off, v in acc: n += 1; good = good and same_colour(c, key, R, v, want, e, "a pixel stored by " + nm)
        for e, fors in walk(R.r.ev):
            if not isinstance(e, Ev) or e.kind != "step": continue
            g = dns[e.name]; k = [i for i, a in enumerate(g.args) if i and a["t"] == "i32"][-1]
            n += 1; good = good and same_colour(c, key, R, e.args[k], want, e, "a part of what %s draws" % nm)
        if not good: continue
        if not n: c.unknown(key, "no pixels stored", f); continue
        c.proved(key, "%d stores and parts have the colour %s" % (n, "of the lighting" if want == R.lit else "given"), f)
        if want == R.lit: lighting(c, f, R, col)

def lighting(c, f, R, col):
    """the lighting is asked for the colour given and the unit normal of the corners in their order"""
    key = "lighting"; tri = "Triangle3::normal() const"
    L = Lab(c, mesh=False); t = L.obj("t"); L.st.mem[t.obj] = Mem("undef", None, None); ps = [L.point("q%d" % i, co) for i, co in enumerate(R.points)]
    L.call("Triangle3::Triangle3(Point3 const&, Point3 const&, Point3 const&)", t, *ps)
    n = L.obj("n"); L.st.mem[n.obj] = Mem("undef", None, None); L.call(tri, n, t); ref = L.coords(n)
    if not R.asked: c.unknown(key, "the lighting is not asked", f); return
    for ic, nn in R.asked:
        if ic != col: c.decide(False if isinstance(ic, Poly) and (ic.is_const() or zero_poly(ic - col) is False) else None, key, "the lighting is asked for the colour %s" % (ic,), f); return
        for k in range(40):
            rnd = random.Random(k); env = {atom_of(x): rnd.randint(-6, 6) for p in R.points for x in p}
            pt = [[env[atom_of(x)] for x in p] for p in R.points]; u = [b - a for a, b in zip(pt[0], pt[1])]; v = [b - a for a, b in zip(pt[0], pt[2])]
            cr = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]; ln = math.sqrt(sum(x * x for x in cr))
            if not ln: continue
            env[atom_of(col)] = 5
            env["preds"] = lambda q, e: False
            for pr in R.proj:
                for x in pr: env[atom_of(x)] = rnd.randint(0, 9)
            try: got = [float(num_eval(x, dict(env))) for x in nn]
            except NoValue: continue
            if any(abs(g - x / ln) > 1e-9 for g, x in zip(got, cr)):
                c.refuted(key, "corners %s: the lighting is asked for the normal (%.4g, %.4g, %.4g) instead of (%.4g, %.4g, %.4g)" % ((pt,) + tuple(got) + tuple(x / ln for x in cr)), f); return
        if nn != ref: c.unknown(key, "normal %s" % str(nn)[:120], f); return
    c.proved(key, "asked for the colour given and the normal of the corners", f)

# ------------------------------------------------------------------ where
def place(c, B):
    for f in c.m.match(r"^Renderer::draw_pixel\("):
        if f.decl: continue
        R = Paint(c, B, f, []); key = "a pixel"
        if len(R.proj) != 1: c.unknown(key, "%d projections" % len(R.proj), f); continue
        x, y, w = R.proj[0]; bad = point_defect(c, B, R)
        if bad: c.refuted(key, bad, f); continue
        why = None
        for e, fors, k, off, v in R.accesses(B):
            if fors or not zero_poly(off - (y * R.W + x) * 4): why = "offset %s" % off
            elif k == "depth" and (not isinstance(v, Poly) or not zero_poly(v - w)): why = "depth %s" % (v,)
            else:
                why = why or shape(c, B, e.guard, [x, y, R.W - 1 - x, R.H - 1 - y], w)
        if not R.accesses(B): why = "nothing stored"
        c.decide(None if why else True, key, why or "stored at the projection, if inside and nearer", f)
    for f in c.m.match(r"^Renderer::draw_line\("):
        if f.decl: continue
        key = "a line"; Rs = [(Paint(c, B, f, [], place=pl), pl, dx, dy, im, how) for pl, dx, dy, im, how in octants()]
        if any(len(R.proj) != 2 for R, *_ in Rs): c.unknown(key, "%d projections" % len(Rs[0][0].proj), f); continue
        bad = line_defect(c, B, Rs)
        if bad: c.refuted(key, bad, f); continue
        for R, pl, dx, dy, im, how in Rs: c.decide(*line_shape(c, B, R, pl[0][0], pl[0][1], pl[0][2], pl[1][2], dx, dy, im), f)

def shape(c, B, guard, ins, w):
    """the guard asks nothing but that the place is inside and the depth nearer (with a tolerance); None if so"""
    ok = [[P(0) + x for x in ins], [x + 1 for x in ins]]
    inv_ = {}
    for p in preds_of(guard) if guard != ONE else []:
        if p.kind != "gt": return "condition %s" % (p,)
        q = p.poly
        if any(zero_poly(q - (x + 1)) for x in ins): inv_[p.id] = True; continue          # x >= 0
        if any(zero_poly(q + x) for x in ins): inv_[p.id] = False; continue               # not x < 0
        if any(zero_poly(q - x) for x in ins): return "condition %s" % (q,)
        at = [a for a in deep_atoms(q) if a.kind == "ld" and B.kind(a.args[1]) == "depth"]
        if len(at) == 1:
            r = q + P(at[0]) - w; r2 = q - P(at[0]) + w
            if r.is_const() and 0 <= r.const() <= Fraction(1, 1000): inv_[p.id] = True; continue
            if r2.is_const() and 0 <= -r2.const() <= Fraction(1, 1000): inv_[p.id] = False; continue
        return "condition %s > 0" % (q,)
    g = guard
    while isinstance(g, Node): g = g.hi if inv_[g.p] else g.lo
    return None if g == ONE else "not stored though inside and nearer"

def point_defect(c, B, R):
    col, _ = R.colour()
    for W, H in ((4, 3), (1, 5), (7, 1)):
        for x, y in itertools.product(range(-2, W + 2), range(-2, H + 2)):
            w = World(B, {}, W, H)
            try: w.call(R, {atom_of(col): 9}, scr=[(x, y, Fraction(1, 2))])
            except (NoValue, Out) as e:
                if c.debug: print("NoValue", e)
                continue
            want = {y * W + x} if 0 <= x < W and 0 <= y < H else set()
            if set(w.pix) != want: return "a point projected to (%d,%d) of an empty %dx%d window is drawn at %s" % (x, y, W, H, [(k % W, k // W) for k in w.pix] or "no pixel")
            for k in want:
                if abs(w.dep.get(k, 0) - Fraction(1, 2)) > 1e-6: return "a point of depth 0.5 leaves the depth %s" % float(w.dep.get(k, 0))

def line_defect(c, B, Rs):
    rnd = random.Random(5); n = 0
    for t in range(160):
        W, H = ((8, 6), (5, 9), (12, 3))[t % 3]; lo, hi = (0, 1) if t % 2 else (-4, 5)
        a = [(rnd.randrange(lo, W + hi - 1), rnd.randrange(lo, H + hi - 1), Fraction(rnd.randint(1, 20), 4)) for _ in range(2)]
        if t % 11 == 3: a[1] = (a[0][0], a[1][1], a[1][2])
        if t % 11 == 7: a[1] = (a[1][0], a[0][1], a[1][2])
        w = World(B, {}, W, H)
        dx, dy = a[1][0] - a[0][0], a[1][1] - a[0][1]
        if max(abs(dx), abs(dy)) == 0: continue
        R, pl, how = [(R, pl, how) for R, pl, _, _, _, how in Rs if how[:3] == (1 if dx >= 0 else -1, 1 if dy >= 0 else -1, None if abs(dy) == abs(dx) else abs(dy) > abs(dx))][0]
        col, _ = R.colour(); env = {atom_of(col): 9, atom_of(how[3]): min(abs(dx), abs(dy)) - (abs(dx) == abs(dy)), atom_of(how[4]): abs(abs(dx) - abs(dy)) - 1}
        for x, v in zip(pl[0] + [pl[1][2]], a[0] + (a[1][2],)): env[atom_of(x)] = v
        try: w.call(R, env)
        except (NoValue, Out) as e:
            if c.debug: print("NoValue", e)
            continue
        d = [a[1][0] - a[0][0], a[1][1] - a[0][1]]; big = 0 if abs(d[0]) > abs(d[1]) else 1; im = abs(d[big])
        at = "a line from (%d,%d) depth %s to (%d,%d) depth %s in an empty %dx%d window" % (a[0][0], a[0][1], num_s(a[0][2]), a[1][0], a[1][1], num_s(a[1][2]), W, H)
        def ideal(k): return [a[0][j] + Fraction(k * (a[1][j] - a[0][j]), im) for j in range(3)]
        for p in w.pix:
            xy = (p % W, p // W)
            if not im:
                if xy != a[0][:2]: return "%s: pixel %s is drawn" % (at, xy)
                continue
            k = abs(xy[big] - a[0][big]); q = ideal(k)
            if k > im or (xy[big] - a[0][big]) * d[big] < 0: return "%s: pixel %s beyond its ends is drawn" % (at, xy)
            if abs(xy[1 - big] - q[1 - big]) > 1: return "%s: pixel %s is drawn, the path is at (%s, %s) there" % (at, xy, num_s(q[0]), num_s(q[1]))
            if abs(w.dep.get(p, 0) - q[2]) > 1e-6 * (1 + abs(q[2])): return "%s: pixel %s gets the depth %s, not %s" % (at, xy, num_s(w.dep.get(p, 0)), num_s(q[2]))
            n += 1
        for k in range(im):
            q = ideal(k)
            if not (0 <= q[big] < (W, H)[big] and 1 <= q[1 - big] <= (W, H)[1 - big] - 2): continue
            if not any((p % W, p // W)[big] == q[big] for p in w.pix): return "%s: no pixel is drawn at the step (%s, %s)" % (at, num_s(q[0]), num_s(q[1]))
    return None

def line_shape(c, B, R, X, Y, z1, z2, dx, dy, im):
    key = "a line"; acc = R.accesses(B)
    if not acc: return None, key, "nothing stored"
    for e, fors, k, off, v in acc:
        if len(fors) != 1: return None, key, "%d loops" % len(fors)
        F = fors[0]
        if not F.exact or F.trip is None or F.guard != ONE or not (F.trip == im or F.trip == im + 1): return None, key, "loop 0..%s under %s" % (F.trip, F.guard)
        t = P(F.k) if not isinstance(F.k, Poly) else F.k; iv = inv(im)
        fx, fy, fz = X + dx * t * iv, Y + dy * t * iv, z1 + (z2 - z1) * t * iv
        def conv(p, full):
            """the whole number the code makes of a coordinate"""
            for a in deep_atoms(p):
                if a.kind in ("fptosi", "floor", "trunc") and zero_poly(a.args[0] - full): return A(a.kind, *a.args, ints=True)
            return full
        gx, gy = conv(off, fx), conv(off, fy)
        if not zero_poly(off - (gy * R.W + gx) * 4): return None, key, "offset %s" % str(off)[:120]
        if k == "depth" and not (isinstance(v, Poly) and zero_poly(v - fz)): return None, key, "depth %s" % str(v)[:120]
        why = lshape(c, B, trip_free(e.guard, fors), [(fx, R.W - fx), (fy, R.H - fy)], fz)
        if why: return None, key, why
    return True, key, "steps along the straight path with interpolated depth, wherever inside the window and nearer"

def lshape(c, B, guard, ins, w):
    val = {}
    for p in preds_of(guard) if guard != ONE else []:
        if p.kind != "gt": return "condition %s" % (p,)
        q = p.poly
        if any(zero_poly(q + lo) for lo, hi in ins): val[p.id] = False; continue
        if any(zero_poly(q - hi) for lo, hi in ins): val[p.id] = True; continue
        if any(zero_poly(q - (lo + 1)) or zero_poly(q - lo) for lo, hi in ins): val[p.id] = True; continue
        at = [a for a in deep_atoms(q) if a.kind == "ld" and B.kind(a.args[1]) == "depth"]
        if len(at) == 1:
            r = q + P(at[0]) - w
            if zero_poly(r - r.const() if hasattr(r, "const") and r.is_const() else r) or r.is_const() and 0 <= r.const() <= Fraction(1, 1000): val[p.id] = True; continue
            for cst in (Fraction("0.00001"), Fraction(1, 10000), Fraction(1, 1000)):
                if zero_poly(r - cst): val[p.id] = True; break
            if p.id in val: continue
        return "condition %s > 0" % str(q)[:120]
    g = guard
    while isinstance(g, Node): g = g.hi if val[g.p] else g.lo
    return None if g == ONE else "not stored though inside and nearer"
# ------------------------------------------------------------------ polylines and meshes
class Parts:
    """drawing one triangle or line is recorded with the places of its corners"""
    LINE = "Renderer::draw_line(Point3 const&, Point3 const&, int)"; TRI = "Renderer::draw_triangle_1color(Point3 const&, Point3 const&, Point3 const&, int, bool)"
    def __init__(s, c): s.models = {s.LINE: s.part, s.TRI: s.part}
    def part(s, it, call):
        a = call.args; ps = [x for x in a[1:] if isinstance(x, Ptr)]
        if len(ps) != (2 if call.dn == s.LINE else 3): return NotImplemented
        co = [it.load(call.st, Ptr(p.obj, p.off + 8 * j), 8, "double") for p in ps for j in range(3)]
        it.emit("part", "line" if call.dn == s.LINE else "triangle", [tuple(co)] + [x for x in a[1:] if not isinstance(x, Ptr)])
        return None if call.dn == s.LINE else opaque_bool(("op", call.dn, it.ctx, call.i["i"], it.kst))

def other_effects(evs):
    """an effect on anything but locals, other than the recorded parts"""
    for e, F in walk(evs):
        if isinstance(e, Ev) and (e.kind == "vcall" or e.kind == "store" and any(isinstance(p, Ptr) and (p.obj == ("arg", "r") or p.obj[0] in ("D", "E", "G")) for p in leaves(e.args[0]))): return e

def polyline(c):
    f = c.m.find("Renderer::draw_polyline(std::vector<Point3, std::allocator<Point3> > const&, int)", False) or c.m.match(r"^Renderer::draw_polyline\(")[0]
    L = Lab(c, Parts(c).models, mesh=False); rd = L.obj("r"); pl = L.obj("pl"); col = A("arg", "color", ints=True)
    r = L.run(f, rd, pl, col); c.functions.update(x.dn for x in L.visited())
    size = A("vs", pl.obj, ZERO, ints=True); E = ("E", pl.obj, 0)
    ev = [(e, F) for e, F in walk(r.ev) if isinstance(e, Ev) and e.kind == "part"]
    o = other_effects(r.ev)
    if o is not None: c.unknown("lines", "other effect %s" % o, o); return
    objs = {a.args[1] for e, F in ev for x in e.args[0] for a in deep_atoms(x) if a.kind == "ld"}
    for n, closed in [(x, False) for x in [0, 1, 2, 3, 4, 7] + [x for x in probe_sizes(r.ev) if x > 7]] + [(4, True), (7, True)]:
        got = []      # closed: the last point lies where the first does
        def at(a, en):
            if a.kind == "ld" and a.args[1][0] == "E":
                k = num_eval(a.args[2], en)
                if not 0 <= k < 24 * n: raise Definite("a polyline of %d points: point %s is used" % (n, k // 24))
                return k - 24 * (n - 1) if closed and k >= 24 * (n - 1) else k
            raise NoValue(fmt_atom(a))
        def emit(e, en):
            if e.kind != "part": return
            v = [num_eval(x, en) for x in e.args[0]]
            if len(v) == 6 and all(v[3 * i + j] == v[3 * i] + 8 * j and v[3 * i] % 24 == 0 for i in (0, 1) for j in range(3)): got.append((v[0] // 24, v[3] // 24, num_eval(e.args[1], en), e))
            else: got.append((None, None, 0, e))
        try: num_events(r.ev, {atom_of(size): n, atom_of(col): 4711, "atoms": at}, emit)
        except Definite as x: c.refuted("lines", str(x), f); return
        except NoValue as x:
            if c.debug: print("NoValue", x)
            continue
        want = sorted(tuple(sorted((i, 0 if closed and i + 1 == n - 1 else i + 1))) for i in range(n - 1))
        if sorted(tuple(sorted((g[0], g[1]))) if g[0] is not None else (-1, -1) for g in got) != want:
            c.refuted("lines", "of a %spolyline of %d points the lines between %s are drawn, not the %d between consecutive points" % ("closed " if closed else "", n, [g[:2] for g in got][:8], len(want)), got[-1][3] if got else f); return
        bad = [g for g in got if g[2] != 4711]
        if bad: c.refuted("lines", "a line of the polyline gets the colour %s, not %s" % (bad[0][2], 4711), bad[0][3]); return
    why = None if len(ev) == 1 else "%d drawing calls" % len(ev)
    for e, F in ev[:1]:
        if len(F) != 1 or not F[0].exact or F[0].trip is None or trip_free(e.guard, F) not in (ONE,) and len(F) != 1: why = "loop"; break
        k = F[0].k; it = L.it; hi = [it.read(Mem("init", None, q), q, k.scale(24) + 24 + 8 * j, 8, "double") for q in objs for j in range(3)]; lo = [it.read(Mem("init", None, q), q, k.scale(24) + 8 * j, 8, "double") for q in objs for j in range(3)]
        if len(objs) != 1: why = "points of %s" % (objs,)
        elif list(e.args[0]) not in (lo + hi, hi + lo): why = "ends %s" % (e.args[0],)
        elif e.args[1] != col: why = "colour %s" % (e.args[1],)
        else:
            g = c_and(F[0].guard, trip_free(e.guard, F)) if F[0].guard != trip_free(e.guard, F) else F[0].guard
            t = [l for q, l in paths(F[0].trip)]
            if any(not (isinstance(x, Poly) and zero_poly(x - (size - 1))) for x in t) or not implies(gt0(size - 1, True), g): why = "loop 0..%s under %s" % (F[0].trip, g)
    c.decide(None if why else True, "lines", str(why)[:200] if why else "point k to point k+1 for every k below the size less one", f)

def mesh(c):
    f = c.m.find("Renderer::draw_mesh(Mesh const&, bool, int)")
    L = Lab(c, Parts(c).models); rd = L.obj("r"); m = L.mesh("m"); k = L.kernel(m); col = A("arg", "color", ints=True); ed = opaque_bool(("arg", "edges"))
    r = L.run(f, rd, m, ed, col); c.functions.update(x.dn for x in L.visited())
    own = L.call("Mesh::get_color() const", m)
    ev = [(e, F) for e, F in walk(r.ev) if isinstance(e, Ev) and e.kind == "part"]
    o = other_effects(r.ev)
    if o is not None or any(e.kind == "mesh" and e.name in ("clear", "add_vertex", "set_vertex", "add_triangle", "unlink") for e, F in walk(r.ev) if isinstance(e, Ev)): c.unknown("triangles", "other effects", o or f); return
    tris = [(e, F) for e, F in ev if e.name == "triangle"]
    if not tris: c.refuted("triangles", "no triangle is drawn", f); return
    # --- small meshes
    ocol = one_atom(own) if isinstance(own, Poly) else None
    for fl in flags(3):
        for edges, visible, ic in itertools.product((False, True), (False, True), (-1, 0, 0x334455, -2, 0xFF334455 - 2**32)):
            sm = Small(L, k, mesh_of(fl)); env = env_of([sm], {atom_of(col): ic, "preds": lambda key, e: edges if key == ("arg", "edges") else visible})
            base = env["atoms"]
            if ocol is not None: env[ocol.id if hasattr(ocol, "id") else atom_of(own)] = 0x112233
            got = []
            def emit(e, en):
                if e.kind == "part": got.append((e.name, tuple(tuple(num_eval(x, en) for x in e.args[0][3 * i:3 * i + 3]) for i in range(len(e.args[0]) // 3)), num_eval(e.args[1], en), e))
            try: num_events(r.ev, env, emit)
            except NoValue as x:
                if c.debug: print("NoValue", x)
                continue
            show = "a mesh of %d triangles, %s removed, drawn %s edges and colour %d" % (len(fl), [i for i, x in enumerate(fl) if x] or "none", "with" if edges else "without", ic)
            live = [i for i, x in enumerate(fl) if not x]; T = {i: [sm.pts[3 * i + j] for j in range(3)] for i in live}; wc = 0x112233 if ic == -1 else ic
            tg = [g for g in got if g[0] == "triangle"]
            rot = lambda t: [tuple(t[j:] + t[:j]) for j in range(3)]
            for i in live:
                n = [g for g in tg if tuple(map(tuple, g[1])) in [tuple(map(tuple, q)) for q in rot(T[i])]]
                if len(n) != 1: c.refuted("triangles", "%s: triangle %d is drawn %d times with its corners in order" % (show, i, len(n)), tris[0][0]); return
                if n[0][2] != wc: c.refuted("colour", "%s: triangle %d gets the colour %#x, not %#x" % (show, i, n[0][2], wc), n[0][3]); return
            if len(tg) != len(live): c.refuted("triangles", "%s: %d triangles are drawn" % (show, len(tg)), tg[-1][3]); return
            ln = [g for g in got if g[0] == "line"]
            if not edges and ln: c.refuted("edges", "%s: edges are drawn though not asked for" % show, ln[0][3]); return
            pairs = {frozenset(map(tuple, (T[i][a], T[i][b]))): i for i in live for a, b in ((0, 1), (1, 2), (0, 2))}
            for g in ln:
                if frozenset(map(tuple, g[1])) not in pairs: c.refuted("edges", "%s: a line from %s to %s is drawn, which is no edge of a triangle" % (show, g[1][0], g[1][1]), g[3]); return
            if edges and visible:
                d = set(pairs) - {frozenset(map(tuple, g[1])) for g in ln}
                if d: c.refuted("edges", "%s: the edge between %s of a visible triangle is not drawn" % (show, sorted(list(d)[0])), f); return
    # --- shape
    TL = TriLoop(L, r, k); nt = A("nt", L.mm.names[k], ints=True); why = None if len(tris) == 1 else "%d calls" % len(tris)
    for e, F in ev:
        lp, inner = TL.split(F)
        if lp is None or inner or len(F) != 1: why = "loop"; break
        g = trip_free(e.guard, F); live = TL.live(lp[1])
        if TL.complete(lp, nt) is not True or lp[0].guard != ONE: why = "loop 0..%s" % lp[0].trip; break
        if not implies(g, live): why = "removed triangles"; break
        co = TL.corners(lp); arg = [list(e.args[0][3 * i:3 * i + 3]) for i in range(len(e.args[0]) // 3)]
        if e.name == "triangle":
            if arg not in [co[j:] + co[:j] for j in range(3)]: why = "corners %s" % str(arg)[:100]; break
            if not implies(live, g): why = "drawn only if %s" % g; break
            why = colour_choice(e.args[1], own, col)
            if why: break
        elif any(x not in co for x in arg) or arg[0] == arg[1]: why = "edge %s" % str(arg)[:100]; break
    c.decide(None if why else True, "triangles", why or "every live triangle with its corners and colour; edges join its own corners", f)

def colour_choice(v, own, col):
    """the mesh's colour if the colour asked for is -1, else that one; tests compare the colour with constants only"""
    cid = atom_of(col); cuts = {-1}
    for p in preds_of(v):
        q = getattr(p, "poly", None)
        if q is None or set(free_atoms(q)) - {cid}: return "the colour depends on %s" % (p,)
        co = q.coeffs_in(cid)
        if set(co) - {0, 1} or not co[1].is_const(): return "the colour depends on %s" % (p,)
        cuts.add(math.floor(-(co.get(0, ZERO).const() if 0 in co else 0) / co[1].const()))
    for x in sorted({y + d for y in cuts for d in (-1, 0, 1)}):
        w = v
        while isinstance(w, Node): w = w.hi if num_pred(w.p, {cid: x}) else w.lo
        if not (w == own and x == -1 or isinstance(w, Poly) and zero_poly(w - (own if x == -1 else col)) or isinstance(w, Poly) and w.is_const() and w.const() == x and x != -1): return "for the colour %d the triangle gets %s" % (x, w)
    return None
