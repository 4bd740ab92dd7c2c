"""C15: lighting keeps every colour channel in range and separate."""
import itertools
from common import *
from ident import *
from small import flat

CH = ("red", "green", "blue")
SHIFT = (16, 8, 0)
STRONG = [-3, 0, Fraction(3, 10), Fraction(1, 2), Fraction(999, 1000), 1, Fraction(12, 10), 5]
CONV = tuple(ROUND)
ARITH = CONV + ("and", "or", "xor", "shl", "shr", "sdiv", "srem", "poly", "fabs", "fptoui")

def color_bits(x, col):
    """mask of the bits of colour atom col that the term depends on (None: unknown)"""
    def poly(p):
        r = 0
        for a in p.atoms():
            b = atom(a)
            if b is None: return None
            r |= b
        return r
    def atom(a):
        if a == col: return -1
        at = atom_by_id(a)
        if at.kind == "and":
            u, v = at.args
            for m, y in ((u, v), (v, u)):
                if m.is_const() and m.const() >= 0:
                    s = source(y)
                    if s is not None: return (int(m.const()) << s[0]) & s[1]
            # fall through
        r = 0
        for y in at.args:
            b = any_(y)
            if b is None: return None
            r |= b
        return r
    def source(y):
        """(shift, mask) if y is the colour, or a right shift of it or of masked bits of it"""
        if len(y.t) != 1 or list(y.t.values()) != [1]: return None
        m = list(y.t)[0]
        if len(m) != 1 or m[0][1] != 1: return None
        a = m[0][0]
        if a == col: return 0, -1
        at = atom_by_id(a)
        if at.kind == "shr" and at.args[1].is_const():
            s = source(at.args[0])
            return None if s is None else (s[0] + int(at.args[1].const()), s[1])
        return None
    def any_(y):
        if isinstance(y, Poly): return poly(y)
        if isinstance(y, Node):
            r = 0
            for z in preds_of(y):
                b = any_(z.poly if z.kind == "gt" else z.key)
                if b is None: return None
                r |= b
            for z in leaves(y):
                b = any_(z)
                if b is None: return None
                r |= b
            return r
        if isinstance(y, tuple):
            r = 0
            for z in y:
                b = any_(z)
                if b is None: return None
                r |= b
            return r
        if isinstance(y, Ptr): return any_((y.obj, y.off))
        return 0
    return any_(x)

def own_byte(c, key, terms, col, k, loc, others, env0, text):
    """the terms depend on nothing of the colour but byte k, and not on the other channels' inputs"""
    mask = color_bits(tuple(terms), col); ats = set(free_atoms(*terms))
    bad = ats & set(others)
    if mask is not None and mask & ~(0xff << SHIFT[k]) == 0 and not bad:
        c.proved(key, "%s: only bits %#x of the colour, only the %s input" % (text, mask, CH[k]), loc); return
    # vary everything else
    rest = [a for a in ats if a != col]
    for n, env in enumerate(samples(rest, n=12, seed=3)):
        for base in (0x204060, 0x808080, 0xffffff, 0):
            for delta in (0xff, 0x30):
                for sh in [s for j, s in enumerate(SHIFT) if j != k] + [24]:
                    e1 = dict(env); e1[col] = base; e1.update({a: v for a, v in env0.items()}); e2 = dict(e1); e2[col] = (base ^ (delta << sh)) & 0x7fffffff
                    try: x, y = [[num_eval(t, dict(e)) for t in terms] for e in (e1, e2)]
                    except (NoValue, TypeError, ZeroDivisionError, OverflowError): continue
                    if any(abs(float(p - q)) > 1e-9 for p, q in zip(x, y)) and not tainted(*terms):
                        c.refuted(key, "%s: %s changes from %s to %s when the colour changes from %#x to %#x (same %s byte)" % (text, CH[k], [float(v) for v in x], [float(v) for v in y], e1[col], e2[col], CH[k]), loc); return
        for a in bad:
            e1 = dict(env); e1[col] = 0x6496c8; e2 = dict(e1); e2[a] = e1[a] + 1
            try: x, y = [[num_eval(t, dict(e)) for t in terms] for e in (e1, e2)]
            except (NoValue, TypeError, ZeroDivisionError, OverflowError): continue
            if any(abs(float(p - q)) > 1e-9 for p, q in zip(x, y)) and not tainted(*terms):
                c.refuted(key, "%s: %s depends on %s" % (text, CH[k], fmt_atom_short(a)), loc); return
    c.unknown(key, "%s: depends on colour bits %s and %s: %s" % (text, mask, [fmt_atom_short(a) for a in bad], str(terms[0])[:150]), loc)

# ------------------------------------------------------------------ the lights
def lights(c):
    fs = sorted((f for f in c.m.match(r"^\w+::apply\(double&, double&, double&, Point3 const&\)$")), key=lambda f: f.dn)
    fs = [f for f in fs if not f.decl]
    c.count("kinds of light", len(fs))
    if not fs: c.unknown("lights", "no light found")
    for f in fs:
        cls = f.dn.split("::")[0]
        ctors = [g for g in c.m.match(r"^%s::%s\(int, double.*\)$" % (cls, cls))]
        if not ctors: c.unknown(cls, "no constructor from a colour and a factor", f); continue
        with c.group(cls): light(c, cls, f, lambda L, o, col, fac, d: L.call(ctors[0], *([o, col, fac] + ([d] if "Point3" in ctors[0].dn else []))))
        with c.group(cls + " strength"): strength(c, f, cls, ctors[0])
    for g in sorted(c.m.match(r"^Renderer::add_\w*light\(int, double.*\)$"), key=lambda g: g.dn):
        with c.group(g.dn.split("(")[0]):
            added(c, g)

def light(c, cls, f, build, key=None):
    L = Lab(c); o = L.obj("light"); L.st.mem[o.obj] = Mem("undef", None, None)
    col, fac, d = A("arg", "color", ints=True), L.real("factor"), L.point("direction")
    n = build(L, o, col, fac, d)
    shade(c, key or cls, L, f, o, col)

COLOURS = (0x010203, 0xFF80C0, 0x00FF00, 0xFFFFFF, 0, 0xFF102030 - (1 << 32))
def strength(c, f, cls, ctor):
    """what the light gives: surface value * factor * byte / 256, for a directed light times the cosine of the normal if that is positive"""
    dirn = "Point3" in ctor.dn
    ok = True; why = ""
    for col in COLOURS:
        L = Lab(c); o = L.obj("light"); L.st.mem[o.obj] = Mem("undef", None, None)
        fac = L.real("factor"); d = L.point("direction"); n = L.point("normal")
        L.call(ctor, *([o, P(col), fac] + ([d] if dirn else [])))
        outs = []; ins = []
        for ch in CH:
            p = L.obj("d" + ch); v = A("arg", "in." + ch); ins.append(v); outs.append(p)
            L.st.mem[p.obj] = Mem("undef", None, None); L.it.store(L.st, p, v, 8, ev=False)
        L.run(f, o, *outs, n)
        dd = sum((x * y for x, y in zip(L.coords(d), L.coords(n))), ZERO)
        for k in range(3):
            w = (ins[k] * fac).scale(Fraction(col >> (16 - 8 * k) & 255, 256))
            v = L.load(outs[k], 8, "double")
            s, t = compare(v, ite(gt0(-dd, False), ZERO, w * dd) if dirn else w)
            if dirn and s is not True: s, t = compare(v, ite(gt0(dd, False), w * dd, ZERO))
            if s is None:
                for t0 in [q * x for x in (1, Fraction(1, 3), Fraction(1, 50), Fraction(1, 5000), Fraction(1, 10 ** 8)) for q in (1, -1)] + [0]:
                    env = {atom_of(fac): Fraction(1, 2), atom_of(ins[0]): 200, atom_of(ins[1]): 100, atom_of(ins[2]): 50}
                    for x, y, z in zip(L.coords(d), (1, 2, -2), L.coords(n)): env[atom_of(x)] = y
                    for x, y in zip(L.coords(n), (t0 / Fraction(9), 2 * t0 / Fraction(9) + 1, -2 * t0 / Fraction(9) + 1)): env[atom_of(x)] = y
                    try: a = num_eval(v, env)
                    except NoValue: continue
                    b = Fraction((200, 100, 50)[k], 2) * Fraction(col >> (16 - 8 * k) & 255, 256) * (max(0, t0) if dirn else 1)
                    if abs(a - b) > Fraction(1, 10 ** 12): s = False; t = "the surface value %d becomes %.9g, not %.9g, with the factor 1/2%s" % ((200, 100, 50)[k], float(a), float(b), " and normal * direction = %g" % float(t0) if dirn else ""); break
            if s is not True and (ok is True or s is False): ok = s; why = "%s for the light colour %#x: %s" % (CH[k], col & 0xFFFFFFFF, t)
            if s is False: break
        if ok is False: break
    c.decide(ok, cls + ".strength", why or "surface value, factor, byte/256%s" % (", cosine if positive" if dirn else ""), f)

def shade(c, key, L, f, o, col):
    outs = []; ins = []
    for ch in CH:
        p = L.obj("d" + ch); v = A("arg", "in." + ch); ins.append(v)
        L.st.mem[p.obj] = Mem("undef", None, None); L.it.store(L.st, p, v, 8, ev=False); outs.append(p)
    L.run(f, o, *outs, L.point("normal"))
    for k in range(3):
        v = L.load(outs[k], 8, "double")
        own_byte(c, "%s.%s" % (key, CH[k]), [v], atom_of(col), k, f, [atom_of(ins[j]) for j in range(3) if j != k], {}, "light")
    c.functions.update(z.dn for z in L.visited())

def added(c, g):
    """the light stored in the renderer was built from the arguments"""
    L = Lab(c); r = L.obj("r"); col, fac, d = A("arg", "color", ints=True), L.real("factor"), L.point("direction")
    n = L.run(g, *([r, col, fac] + ([d] if "Point3" in g.dn else [])))
    key = g.dn.split("(")[0]
    news = [e for e, _ in walk(n.ev) if isinstance(e, Ev) and e.kind == "new"]
    objs = [e.args[0] for e in news if isinstance(e.args[0], Ptr)]
    done = False
    for p in objs:
        vt = L.load(p, 8, "ptr")
        name = fmt_obj(vt.obj) if isinstance(vt, Ptr) else ""
        for f in c.m.match(r"^\w+::apply\(double&, double&, double&, Point3 const&\)$"):
            cls = f.dn.split("::")[0]
            if "%d%s" % (len(cls), cls) in name or "vtable for %s" % cls in name:
                shade(c, key, L, f, p, col); done = True
    if not done: c.unknown(key, "no light of a known kind is created: %s" % [str(e.ret) for e in news][:3], g)

# ------------------------------------------------------------------ the sum of the lights
def which(x, env):
    """number of the light an object pointer was loaded from"""
    while isinstance(x, Ptr) or isinstance(x, tuple) and x and x[0] != "D": x = x.obj if isinstance(x, Ptr) else None
    if not isinstance(x, tuple) or len(x) < 4 or not isinstance(x[3], Poly): raise NoValue("light")
    return int(num_eval(x[3], env)) // 8

def every_light(c, f, ret, U, ca):
    """a list of lights gives the colour of one light as strong as all of them together"""
    def value(vals):
        env = {ca: 0x123456}
        def atoms(a, e):
            if a.kind == "lit": return vals[int(num_eval(a.args[0], e))][which(a.args[2], e)]
            if a.kind in ("vs", "ld"): return len(vals[0])
            raise NoValue(fmt_atom(a))
        env["atoms"] = atoms
        return num_eval(ret, env)
    w = None
    try:
        for n in (1, 2, 3, 5, 8):
            for k in range(3):
                for j in range(n):
                    v = [[Fraction(1 + 3 * (i == j and q == k), 64) for i in range(n)] for q in range(3)]
                    a, b = value(v), value([[sum(x)] for x in v])
                    if a != b and not w: w = "with %d lights, %s of light %d being %s and all other values 1/64, the colour is %#x, not %#x" % (n, CH[k], j, float(v[k][j]), int(a), int(b))
    except (NoValue, IndexError) as e:
        w = None if not isinstance(e, IndexError) else "a light that does not exist is used"
        if w is None: c.unknown("every light", "not evaluated: %s" % e, f); return
    if w: c.refuted("every light", w, f); return
    ok = U and all(at.kind == "sum" and is_poly(at.args[1], at.args[2]) and [m for m in at.args[1].t] == [m for m in at.args[1].t if len(m) == 1]
                   and len(at.args[1].t) == 1 and len(at.args[2].t) == 1 and list(at.args[2].t.values()) == [1] for at in U.values())
    c.decide(True if ok else None, "every light", "each channel is the sum over all lights of what the light makes of the surface colour" if ok else "the accumulated values are %s" % str([str(x) for x in U.values()])[:150], f)

def combine(c):
    def virt(it, call):
        ins = []
        if len(call.args) < 4: raise Und("virtual call with %d arguments" % len(call.args))
        for k in range(3): ins.append(it.load(call.st, call.args[1 + k], 8, "double"))
        for k in range(3): it.store(call.st, call.args[1 + k], bind(lambda x: A("lit", P(k), x, call.args[0]), ins[k]), 8, ev=False)
        seen.append((call.args[0], ins))
        return None
    seen = []
    L = Lab(c, {"<virtual>": virt})
    f = L.find("Renderer::compute_color_with_lights(int, Point3 const&)")
    col = A("arg", "color", ints=True); ca = atom_of(col)
    r = L.obj("r"); n = L.run(f, r, col, L.point("normal"))
    c.functions.update(z.dn for z in L.visited())
    ret = n.ret
    plain, ors = unor(ret)
    # ---- the unknowns: what the lights add up to
    U = {}
    def look(x):
        if isinstance(x, Poly):
            for a in x.atoms():
                at = atom_by_id(a)
                if at.kind in ARITH:
                    for y in at.args: look(y)
                else: U[a] = at
        elif isinstance(x, Node):
            for p in preds_of(x): look(p.poly if p.kind == "gt" else p.key)
            for l in leaves(x): look(l)
        elif isinstance(x, (tuple, list)):
            for y in x: look(y)
    look(ret)
    def chans(at): return {int(a.args[0].const()) for a in deep_atoms(at) if a.kind == "lit"}
    C = {a: chans(at) for a, at in U.items()}
    c.count("accumulated light values", len(U))
    # ---- what is fed into the lights
    for k in range(3):
        lits = sorted({a for at in U.values() for a in deep_atoms(at) if a.kind == "lit" and a.args[0].const() == k}, key=lambda a: a.id)
        if not lits: c.unknown("surface.%s" % CH[k], "not found in the result", f); continue
        own_byte(c, "surface.%s" % CH[k], [a.args[1] for a in lits], ca, k, f, [], {}, "surface colour given to the lights")
    def value(vals, one=True, colour=0x123456, conv=None):
        """ret for channel values (the value of every lit at channel k)"""
        env = {ca: colour, "atoms": None}
        def atoms(a, e):
            if a.kind == "lit": return vals[int(num_eval(a.args[0], e))]
            if a.kind == "vs": return 1
            if a.kind == "ld": return 1
            raise NoValue(fmt_atom(a))
        env["atoms"] = atoms
        return num_eval(ret, env)
    usable = not any(at.kind not in ("sum",) and chans(at) for at in U.values())
    # ---- range
    w = None
    if usable:
        for v in itertools.product(STRONG, repeat=3):
            try: x = value(v)
            except NoValue: continue
            if not 0 <= x <= 0xffffff: w = "one light giving the channels %s yields colour %#x" % ([float(t) for t in v], x); break
    every_light(c, f, ret, U, ca)
    # ---- separation, refuted numerically
    ws = None
    if usable and not w:
        for v in itertools.product(STRONG, repeat=3):
            for k in range(3):
                for t in STRONG:
                    u = list(v); u[k] = t
                    try: x, y = int(value(v)), int(value(u))
                    except NoValue: continue
                    if (x ^ y) & ~(0xff << SHIFT[k]): ws = "changing only the %s light from %s to %s (others %s) changes the colour from %#x to %#x" % (CH[k], float(v[k]), float(t), [float(z) for z in v], x, y); break
                if ws: break
            if ws: break
    # ---- separation and range, proved
    mixed = [a for a, s in C.items() if len(s) != 1]
    zero = lambda ks: {a: ZERO for a, s in C.items() if s & set(ks)}
    if w: c.refuted("range", w, f)
    if ws: c.refuted("separate", ws, f)
    if mixed:
        if not ws: c.unknown("separate", "%s combines channels %s" % (str(U[mixed[0]])[:120], C[mixed[0]]), f)
        if not w: c.unknown("range", "channels not separated", f)
        return
    R = [subst(plain, zero([j for j in range(3) if j != k])) for k in range(3)]
    R0 = subst(plain, zero(range(3)))
    # no light: every sum is empty
    empty = {a: ZERO for a, at in U.items() if at.kind == "sum" and subst(at.args[1], {b.id: ZERO for b in deep_atoms(at.args[1]) if b.kind == "vs"}) == ZERO}
    black = subst(ret, empty)
    if set(empty) >= {a for a, s in C.items() if s}: same(c, "no light", black, ZERO, f, "colour without lights:")
    elif not set(empty): c.unknown("no light", "number of lights not recognised", f)
    if ors: c.unknown("disjoint", "%s may combine overlapping bits" % str(ors[0])[:120], f)
    if not ws:
        tot = bind2(lambda x, y: x + y, bind2(lambda x, y: x + y, R[0], R[1]), R[2])
        tot = bind2(lambda x, y: x - y * 2, tot, R0)
        ok, why = compare(plain, tot, taint_ok=True)
        c.decide(True if ok else None, "separate", "the colour is a sum of one term per channel" if ok else why, f)
    if w: return
    for k in range(3): rng(c, "range.%s" % CH[k], R[k], SHIFT[k], [a for a, s in C.items() if s == {k}], f)

def unor(v):
    """v with every bitwise or in a leaf written as a sum, and whether that is justified (disjoint bits on every path)"""
    bad = []
    def bits(x, path):
        r = x.t.get((), 0)
        if r < 0 or Fraction(r).denominator != 1: return None
        r = int(r)
        for m, co in x.t.items():
            if m == (): continue
            e = Poly({m: 1}); lo, hi = interval(e, path); at = atom_by_id(m[0][0])
            lo = lo and lo[0]; hi = hi and hi[0]
            if len(m) == 1 and m[0][1] == 1 and at.kind in CONV:
                l2, h2, _ = conv_bounds(at, path)
                if l2 is not None and (lo is None or l2 > lo): lo = l2
                if h2 is not None and (hi is None or h2 < hi): hi = h2
            if lo is None or hi is None or lo < 0 or co < 0 or Fraction(co).denominator != 1: return None
            b = ((1 << int(hi).bit_length()) - 1) * int(co)
            if r & b or int(co) & (int(co) - 1): return None
            r |= b
        return r
    def flat_or(x, path):
        def atom(a):
            at = atom_by_id(a)
            if at.kind != "or" or not all(isinstance(y, Poly) for y in at.args): return None
            u, w = [flat_or(y, path) for y in at.args]
            p, q = bits(u, path), bits(w, path)
            if p is None or q is None or p & q: bad.append(at)
            return u + w
        return x.subst(atom)
    def go(v, path):
        if isinstance(v, Node): return ite(mk(v.p, ONE, ZERO), go(v.hi, path + [(pred(v.p), True)]), go(v.lo, path + [(pred(v.p), False)]))
        return flat_or(v, path) if isinstance(v, Poly) else v
    return go(v, []), bad

def interval(e, path):
    """bounds of the expression e that the predicates of the path give: (lo, hi), each None or (value, strict)"""
    lo = hi = None
    for p, v in path:
        if p.kind != "gt": continue
        for s in (1, -1):
            # p.poly = s*q*e' with e' = e + const ?
            for sc in (1, 256, Fraction(1, 256), 255, Fraction(1, 255)):
                d = p.poly - e.scale(Fraction(s) * sc)
                if not d.is_const(): continue
                t = -Fraction(d.const()) / Fraction(s * sc)        # s*sc*(e - t) > 0
                up = (s > 0) == v                                   # e bounded below
                strict = v
                if up:
                    if p.isint and strict: t2, st = Fraction(math.floor(t) + 1), False
                    else: t2, st = t, strict
                    if lo is None or t2 > lo[0]: lo = (t2, st)
                else:
                    if p.isint and strict: t2, st = Fraction(math.ceil(t) - 1), False
                    else: t2, st = t, strict
                    if hi is None or t2 < hi[0]: hi = (t2, st)
    return lo, hi

def conv_bounds(at, path):
    """integer interval of a conversion atom on a path, and whether its argument is bounded"""
    arg = at.args[0]
    if not isinstance(arg, Poly): return None, None, False
    # bounds of the argument through its single unknown part
    c0 = arg.t.get((), 0); body = Poly({m: x for m, x in arg.t.items() if m != ()})
    if not body.t: return None, None, True
    lm = max(body.t); sc = Fraction(body.t[lm]); e = body.scale(Fraction(1) / sc)
    lo, hi = interval(e, path)
    if sc < 0: lo, hi = hi, lo
    f = lambda b: None if b is None else Fraction(c0) + sc * b[0]
    lo, hi = f(lo), f(hi)
    bounded = lo is not None and hi is not None and -2 ** 31 < lo and hi < 2 ** 31
    def conv(x):
        if x is None: return None
        return ROUND[at.kind](x)
    ilo, ihi = conv(lo), conv(hi)
    return ilo, ihi, bounded

def rng(c, key, R, sh, unknowns, f):
    unit = 1 << sh
    bad = None
    for path, leaf in paths(R):
        convs = {a for q in [p.poly for p, v in path if p.kind == "gt"] + [leaf] if isinstance(q, Poly) for a in deep_atoms(q) if a.kind in CONV}
        lo = hi = None
        if not isinstance(leaf, Poly): bad = ("?", str(leaf)[:100], path); break
        for at in convs:
            _, _, bd = conv_bounds(at, path)
            if not bd:
                # the path is reachable by a value for which the conversion is undefined?
                x = strong(path, unknowns)
                if x is not None:
                    c.refuted(key, "a light of strength %s reaches the conversion of %s to int, which is undefined there" % ("%.3g" % float(x), str(at.args[0])[:60]), f); return
                bad = ("?", "argument of %s not bounded" % str(at)[:80], path)
        if leaf.is_const():
            v = leaf.const()
            if v % unit or not 0 <= v // unit <= 255: bad = bad or ("?", "constant %s" % v, path)
            continue
        c0 = leaf.t.get((), 0); body = Poly({m: x for m, x in leaf.t.items() if m != ()})
        if len(body.t) != 1: bad = bad or ("?", str(leaf)[:100], path); continue
        (m, co), = body.t.items()
        if len(m) != 1 or m[0][1] != 1 or co % unit or c0 % unit: bad = bad or ("?", "term %s" % str(leaf)[:100], path); continue
        at = atom_by_id(m[0][0]); e = Poly({m: 1})
        lo, hi = interval(e, path)
        lo = None if lo is None else lo[0]; hi = None if hi is None else hi[0]
        if at.kind in CONV:
            l2, h2, _ = conv_bounds(at, path)
            if l2 is not None: lo = l2 if lo is None else max(lo, l2)
            if h2 is not None: hi = h2 if hi is None else min(hi, h2)
        if lo is None or hi is None: bad = bad or ("?", "%s is not bounded" % str(at)[:60], path); continue
        a, b = sorted((c0 + co * lo, c0 + co * hi))
        if not (0 <= a and b <= 255 * unit): bad = bad or ("?", "%s lies in %s..%s" % (str(at)[:60], a, b), path)
    if bad: c.unknown(key, "%s (%s)" % (bad[1], bad[0]), f)
    else: c.proved(key, "every case is a multiple of %#x between 0 and %#x; conversions in range" % (unit, 255 * unit), f)

def strong(path, unknowns):
    """a huge light value that satisfies every predicate of the path that is decidable without the conversion itself"""
    for v in (10 ** 12, -10 ** 12):
        env = {a: v for a in unknowns}
        ok = True
        for p, val in path:
            if p.kind != "gt": return None
            if any(a.kind in CONV for a in deep_atoms(p.poly)): continue       # its value is undefined, either way is possible
            try:
                if (num_eval(p.poly, dict(env)) > 0) != val: ok = False; break
            except NoValue: return None
        if ok: return v
    return None

def run(c):
    c.rule("own channel", "the value a light gives a channel is a function of the same channel's input and of the same byte of the light colour only")
    c.rule("strength", "for sample light colours and every surface value, factor, direction and normal: the value of a channel is surface * factor * byte / 256, times the cosine where that is positive and 0 elsewhere for a directed light (exact diagram)")
    c.rule("separate", "the colour is a sum of three terms, one per channel, each depending on that channel's accumulated light only")
    c.rule("range", "on every path the term of a channel is a multiple of its unit between 0 and 255 units; every conversion to int has a bounded argument")
    c.rule("every light", "what is accumulated for a channel is the sum, over every light of the list, of that light's result (loop summary; numeric instances of the summary with up to 8 lights as witness)")
    c.rule("no light", "with an empty list of lights the colour is 0")
    lights(c)
    with c.group("combine"): combine(c)
