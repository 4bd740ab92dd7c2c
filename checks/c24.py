"""C24: image pixels are addressed consistently and in range."""
import itertools
from common import *
from ident import *
from small import flat, terms

DIMS = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 3, 1), (3, 2, 1), (2, 3, 3), (3, 2, 4), (1, 1, 4), (4, 3, 2), (5, 1, 3)]

class Img:
    """a symbolic image: size terms and pixel buffer"""
    def __init__(s, L, name):
        s.L = L; s.p = L.obj(name)
        s.W = L.call("Image::width() const", s.p); s.H = L.call("Image::height() const", s.p); s.P = L.call("Image::planes() const", s.p)
        for x in (s.W, s.H, s.P): declare_nonneg(x)
        d = L.call("Image::data()", s.p)
        if not isinstance(d, Ptr): raise Und("pixel buffer")
        s.buf = d.obj
    def env(s, dim): return {atom_of(s.W): dim[0], atom_of(s.H): dim[1], atom_of(s.P): dim[2]}

def layout(off, x, y, p, W, H, P_):
    """the mixed radix number that the offset is, or None"""
    for o in itertools.permutations(((x, W, "x"), (y, H, "y"), (p, P_, "plane"))):
        t = o[0][0] + o[0][1] * (o[1][0] + o[1][1] * o[2][0])
        if t == off: return " , ".join(n for _, _, n in o)
    return None

def accessors(c):
    fs = [f for f in c.m.match(r"^Image::(pixel|operator\(\))\(int, int, int\)( const)?$")]
    c.count("accessors", len(fs))
    if len(fs) < 3: c.unknown("accessors", "only %s" % [f.dn for f in fs])
    ref = None
    for f in sorted(fs, key=lambda f: f.dn):
        key = f.dn.replace("(int, int, int)", "")
        L = Lab(c); im = Img(L, "im"); x, y, p = L.int_("x"), L.int_("y"), L.int_("p")
        n = L.run(f, im.p, x, y, p); v = n.ret
        ev = [e for e, _ in walk(n.ev) if isinstance(e, Ev) and e.kind in ("store", "vec")]
        if ev: c.unknown(key, "has effects", ev[0]); continue
        if isinstance(v, Ptr): obj, off = v.obj, v.off
        elif is_poly(v) and len(v.t) == 1 and list(v.t.values()) == [1] and atom_by_id(list(v.t)[0][0][0]).kind == "ld":
            a = atom_by_id(list(v.t)[0][0][0]); obj, off = a.args[1], a.args[2]
        else: c.unknown(key, "result %s" % str(v)[:200], f); continue
        if obj != im.buf: c.unknown(key, "designates %s" % fmt_obj(obj), f); continue
        lay = layout(off, x, y, p, im.W, im.H, im.P)
        if lay: c.proved(key + ".layout", "mixed radix number with digits %s below their radices: distinct triples, distinct bytes, all below width*height*planes" % lay, f)
        else:
            w = None
            for dim in DIMS:
                seen = {}
                try:
                    for t in itertools.product(*[range(d) for d in dim]):
                        env = im.env(dim); env.update({atom_of(x): t[0], atom_of(y): t[1], atom_of(p): t[2]})
                        o = num_eval(off, env)
                        if not 0 <= o < dim[0] * dim[1] * dim[2]: w = "in an image of size %dx%dx%d pixel %s designates byte %d of %d" % (dim + (t, o, dim[0] * dim[1] * dim[2])); break
                        if o in seen: w = "in an image of size %dx%dx%d pixels %s and %s designate the same byte" % (dim + (seen[o], t)); break
                        seen[o] = t
                except NoValue: continue
                if w: break
            if w: c.refuted(key + ".layout", w, f)
            else: c.unknown(key + ".layout", "offset %s" % off, f)
        if ref is None: ref = (f, off)
        else: same(c, key + ".agrees", off, ref[1], f, "same byte as %s:" % ref[0].dn)
        c.functions.update(z.dn for z in L.visited())
    return ref

def sizes(c):
    with c.group("resize"):
        for fn in ("Image::resize(int, int, int)", "Image::Image(int, int, int)"):
            L = Lab(c); f = L.find(fn) if "resize" in fn else c.m.find(fn, False)
            if f is None: continue
            p = L.obj("im")
            if "resize" not in fn: L.st.mem[p.obj] = Mem("undef", None, None)
            w, h, q = L.int_("w"), L.int_("h"), L.int_("p")
            L.call(f, p, w, h, q)
            k = "" if "resize" in fn else "constructor "
            same(c, k + "dimensions", [L.call("Image::%s() const" % g, p) for g in ("width", "height", "planes")], [w, h, q], f)
            n = storage(L, p)
            same(c, k + "storage", n, w * h * q, f, "bytes of storage:")
            if c.m.find("Image::size() const", False): same(c, k + "size", L.call("Image::size() const", p), w * h * q, f)
            c.functions.update(z.dn for z in L.visited())
def storage(L, p):
    """length of the pixel storage"""
    d = L.call("Image::data()", p)
    if not isinstance(d, Ptr) or d.obj[0] != "E": raise Und("pixel storage")
    _, o, off = d.obj
    return L.it.vsize(L.st, Ptr(o, off))

def writes(evs, buf):
    return [(e, fors) for e, fors in walk(evs) if isinstance(e, Ev) and e.kind in ("store", "copy") and isinstance(e.args[0], Ptr) and e.args[0].obj == buf]

def visit(c, key, L, r, buf, dims, esz, f, env0, reads=None, extra=None):
    """every element 0..D0*D1*D2-1 of the buffer (esz bytes each) is stored, and nothing else"""
    W, H, P_ = dims
    ws = writes(r.ev, buf)
    if not ws: c.unknown(key + ".visits", "nothing is stored", f); return
    groups = {}
    for e, fors in ws: groups.setdefault((tuple(id(F) for F in fors), e.args[0].off), []).append((e, fors))
    ok = None; why = ""
    if len(groups) == 1:
        (ids, off), es = list(groups.items())[0]
        e, fors = es[0]
        g = ZERO
        for x, fs in es: g = c_or(g, trip_free(x.guard, fs))
        n = (e.x.get("size") or 0)
        if not all(F.exact and F.trip is not None and trip_free(F.guard, fors[:i]) == ONE for i, F in enumerate(fors)): why = "loop bounds"
        elif g != ONE: why = "stored only if %s" % str(g)[:120]
        else:
            # the digits: loop counters over their whole range; several bytes per store make one digit
            ds = [(F.k, F.trip, str(F.k)) for F in fors]
            o = off
            if n > 1 and esz == 1: ds.append((ZERO, P(n), "bytes"))
            elif n != esz: why = "store of %d bytes" % n
            elif esz > 1: o = div_int(off, esz); 
            total = ONE
            for d in ds: total = total * d[1]
            if not why and o is not None:
                for pm in itertools.permutations(ds):
                    t = ZERO; m = ONE
                    for k, tr, _ in pm: t = t + m * k; m = m * tr
                    if t == o and total == W * H * P_: ok = True; break
                if not ok: why = "offset %s over %s" % (off, [(str(k), str(t)) for k, t, _ in ds])
    else: why = "%d different places" % len(groups)
    w = None
    if ok is None:
        for dim, one in [(d, 1) for d in DIMS] + [(d, 0) for d in DIMS[:6]]:
            env = dict(env0(dim))
            if env.pop("skip", None): continue
            D = env.pop("dims"); hit = {}
            env.update(extra or {})
            rd = lambda a, e, one=one: one if a.kind in ("ld",) and a.args[1] != ("arg", "im") else nov(a)
            env["atoms"] = rd
            def g(e, en):
                if e.kind == "store" and isinstance(e.args[0], Ptr) and e.args[0].obj == buf:
                    o = int(num_eval(e.args[0].off, en))
                    for b in range(e.x.get("size") or 1): hit[o + b] = hit.get(o + b, 0) + 1
            try: num_events(only(r.ev, buf), env, g)
            except NoValue as x:
                if c.debug: print("NoValue", x)
                continue
            n = D[0] * D[1] * D[2] * esz
            bad = [o for o in hit if not 0 <= o < n]; miss = [o for o in range(n) if o not in hit]
            if bad: w = "with sizes %s byte %d of %d is written" % (D, bad[0], n); break
            if miss: w = "with sizes %s byte %d of %d is not written" % (D, miss[0], n); break
    if w: c.refuted(key + ".visits", w, ws[0][0])
    else: c.decide(ok, key + ".visits", "every pixel exactly once, all in range" if ok else why, ws[0][0])

def only(evs, buf):
    """the part of a summary that writes the buffer (loops are kept: values may be computed in them)"""
    import copy
    out = []
    for e in evs:
        if isinstance(e, For): x = copy.copy(e); x.body = only(e.body, buf); out.append(x)
        elif e.kind == "store" and isinstance(e.args[0], Ptr) and e.args[0].obj == buf: out.append(e)
    return out
def nov(a): raise NoValue(fmt_atom(a))


def run(c):
    c.rule("layout", "the byte offset every accessor computes is the same mixed radix numeral of (x, y, plane) with radices width, height, planes")
    c.rule("storage", "resize stores the dimensions and allocates exactly their product")
    c.rule("visits", "the stores of a conversion or generator, over the full range of their loops, are a mixed radix numeral with product width*height*planes: each pixel exactly once")
    c.rule("own place", "the value stored for a pixel is read from the same pixel of the source")
    c.rule("content", "small images: the stored value is the first plane (numbers), the mean of the first three planes or the only one (grey), the nearest integer to factor times value where that is a byte (scaling)")
    ref = None
    with c.group("accessors"): ref = accessors(c)
    sizes(c)
    with c.group("to_double"):
        L = Lab(c); im = Img(L, "im"); v = L.obj("v"); f = L.find("Image::to_double(std::vector<double, std::allocator<double>>&)"); r = L.run(f, im.p, v)
        same(c, "length", L.it.vsize(L.st, v), im.W * im.H, f)
        buf = L.it.vbuf(v)
        def e0(d): x = im.env(d); x["dims"] = (d[0], d[1], 1); return x
        visit(c, "doubles", L, r, buf, (im.W, im.H, ONE), 8, f, e0)
        own(c, r, buf, im, im, lambda off: div_int(off, 8), ONE, f)
        content(c, "doubles", r, buf, im, 8, lambda src, Q, i, x: src(i * Q), f, SMALL)
        c.functions.update(z.dn for z in L.visited())
    with c.group("convert_to_bw"):
        L = Lab(c); im = Img(L, "im"); bw = Img(L, "bw"); f = L.find("ImageUtil::convert_to_bw(Image const&, Image&)"); r = L.run(f, im.p, bw.p)
        same(c, "dimensions", [L.call("Image::%s() const" % g, bw.p) for g in ("width", "height", "planes")], [im.W, im.H, ONE], f)
        def e0(d): x = im.env(d); x["dims"] = (d[0], d[1], 1); return x
        visit(c, "grey", L, r, bw.buf, (im.W, im.H, ONE), 1, f, e0)
        own(c, r, bw.buf, im, im, lambda off: off, ONE, f)
        content(c, "grey", r, bw.buf, im, 1, lambda src, Q, i, x: sum(src(i * Q + k) for k in range(3)) // 3 if Q >= 3 else src(i * Q), f, SMALL)
        c.functions.update(z.dn for z in L.visited())
    with c.group("scale"):
        L = Lab(c); im = Img(L, "im"); f = L.find("ImageUtil::scale(Image&, double)"); sc = L.real("s"); r = L.run(f, im.p, sc)
        def e0(d): x = im.env(d); x["dims"] = d; return x
        visit(c, "scaled", L, r, im.buf, (im.W, im.H, im.P), 1, f, e0)
        own(c, r, im.buf, im, im, lambda off: off, None, f)
        def scaled(src, Q, i, x):
            v = (2 * src(i) * x[atom_of(sc)] + 1) // 2
            return v if v < 256 else None
        content(c, "scaled", r, im.buf, im, 1, scaled, f, SMALL, [{atom_of(sc): Fraction(q)} for q in ("0", "1/2", "1", "1/4", "5/4")])
        c.functions.update(z.dn for z in L.visited())
    for g, ar in (("Shierpinsky", 2), ("Mandelbrot", 3)):
        with c.group(g):
            L = Lab(c); im = Img(L, "im"); f = L.find("ImageGenerator::%s(Image&, int, int%s)" % (g, ", int" if ar == 3 else ""))
            w, h = L.int_("w"), L.int_("h"); it = [L.int_("n")] if ar == 3 else []
            r = L.run(f, im.p, w, h, *it)
            W, H, Q = [L.call("Image::%s() const" % x, im.p) for x in ("width", "height", "planes")]
            same(c, "dimensions", [W, H], [w, h], f)
            if not is_poly(Q) or not Q.is_const(): raise Und("planes %s" % Q)
            q = int(Q.const())
            def e0(d): return {atom_of(w): d[0], atom_of(h): d[1], "dims": (d[0], d[1], q)}
            visit(c, "generated", L, r, im.buf, (w, h, P(q)), 1, f, e0)
            c.functions.update(z.dn for z in L.visited())

def content(c, key, r, buf, im, esz, want, f, sizes, envs=({},)):
    """small images: the value stored for each element is the one meant; want(byte of plane p of pixel i, planes, i, extra)"""
    w = None; m = 0
    for (W, H, Q), x in itertools.product(sizes, envs):
        src = lambda o: (37 * o + 91 * (o % 5) + 200) % 256
        env = {**im.env((W, H, Q)), **x}; got = {}
        def at(a, e):
            if a.kind == "ld" and a.args[1] == im.buf:
                o = int(num_eval(a.args[2], e))
                if not 0 <= o < W * H * Q: raise NoValue("out of range")
                return src(o)
            if a.kind == "trunc8": return int(num_eval(a.args[0], e)) % 256
            return nov(a)
        env["atoms"] = at
        def g(e, en):
            if e.kind == "store" and isinstance(e.args[0], Ptr) and e.args[0].obj == buf and e.x.get("size") == esz: got[int(num_eval(e.args[0].off, en))] = num_eval(e.args[1], en)
        try: num_events(only(r.ev, buf), env, g)
        except (NoValue, TypeError) as z:
            if c.debug: print("NoValue", z)
            continue
        m += 1
        for o, v in got.items():
            i = o // esz; b = want(src, Q, i, x)
            if b is not None and v != b: w = w or "in an image of %d x %d pixels and %d planes the value %d becomes %s, not %s%s" % (W, H, Q, i, float(v), float(b), "".join(" (factor %s)" % float(y) for y in x.values())); break
        if w: break
    if w: c.refuted(key + ".content", w, f)
    else: c.decide(True if m else None, key + ".content", "%d small images" % m, f)
SMALL = [(2, 3, 1), (3, 2, 2), (2, 2, 3), (3, 2, 4), (5, 1, 3), (1, 5, 1)]

def own(c, r, buf, dst, src, scale, planes, f):
    """the loads of the source have the same x and y as the stored pixel"""
    for n, (e, fors) in enumerate(writes(r.ev, buf)):
        lds = {a for a in deep_atoms(flat([e.args[1]])) if a.kind == "ld" and a.args[1] == src.buf}
        if not lds: c.unknown("own place.%d" % n, "the value %s does not come from the image" % str(e.args[1])[:120], e); continue
        off = scale(e.args[0].off)
        ok = True; why = ""
        for a in lds:
            if planes is None:
                s, t = compare(a.args[2], off)
                if s is not True: ok = s; why = "stored at %s, read at %s" % (off, a.args[2])
            else:
                # off = x + W*y (one plane); the load must be plane + P*(x + W*y) with a plane that exists
                d = a.args[2] - src.P * off
                if d.is_const() and d.const() >= 0: continue
                s, t = compare(a.args[2], src.P * off)
                if s is True: continue
                ok = None; why = "stored for pixel %s, read at %s" % (off, a.args[2])
                for dim in DIMS:
                    env = src.env(dim); env.update({atom_of(F.k): v for F, v in zip(fors, (dim[0] - 1, 0, 0))})
                    for vals in itertools.product(range(3), repeat=len(fors)):
                        env.update({atom_of(F.k): v for F, v in zip(fors, vals)})
                        try:
                            if e.guard != ONE and not num_eval(e.guard, env): continue
                            if any(v >= num_eval(F.trip, env) for F, v in zip(fors, vals)): continue
                            o = num_eval(off, env); x = num_eval(a.args[2], env)
                        except NoValue: continue
                        if x // dim[2] != o: ok = False; why = "in a %dx%dx%d image the value of pixel number %d is taken from pixel number %d" % (dim + (o, x // dim[2]))
        c.decide(ok, "own place.%d" % n, "read from the same pixel" if ok else why, e)
