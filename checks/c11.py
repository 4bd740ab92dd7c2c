"""C11: the BMP writer and reader agree with the format for every image size."""
from filesim import *
from c24 import Img
from cadsa.bounds import nonneg
from cadsa.interp import mod_const
from fractions import Fraction
import itertools

PERM = {1: (0,), 3: (2, 1, 0), 4: (2, 1, 0, None)}     # plane of byte b of a pixel in the file (None: alpha, ignored)
DIMS = [(w, h) for w in (1, 2, 3, 4, 5, 7) for h in (1, 2, 3)]
def pad(nw): return -nw % 4
def data0(n): return 54 + (1024 if n == 1 else 0)
def fields(n, W, H, stride):
    d = data0(n); size = stride * H
    return [(0, 2, 0x4D42, "signature"), (2, 4, size + d, "file size"), (10, 4, d, "offset of the pixels"), (14, 4, 40, "header size"), (18, 4, W, "width"), (22, 4, H, "height"),
            (26, 2, 1, "number of planes"), (28, 2, 8 * n, "bits per pixel"), (30, 4, 0, "compression"), (34, 4, size, "image size")]

def setup(io_L, name):
    pass

class Case:
    """n planes, width 4q+r (q >= 0, at least 1), height H >= 1"""
    def __init__(s, n, r):
        s.n, s.r = n, r
        q = A("arg", "q", ints=True); H = A("arg", "h", ints=True); declare_nonneg(q); declare_nonneg(H)
        s.W = q.scale(4) + r + (4 if r == 0 else 0); s.H = H + 1
        s.stride = s.W.scale(n) + pad(n * r)
        s.name = "%d planes, width 4q+%d" % (n, r or 4)

def events(evs, loops=()):
    for e in evs:
        if isinstance(e, For): yield from events(e.body, loops + (e,))
        else: yield e, loops
def full(F, outer=()): return F.exact and trip_free(F.guard, outer) == ONE

# ------------------------------------------------------------------ writer
def writer(c):
    fs = [f for f in c.m.match(r"^ImageIoBmp::write\(")]
    if len(fs) != 1: raise Und("writer: %d functions" % len(fs))
    f = fs[0]; io = Io(c, f)
    k = [k for k in io.keys() if io.ops(k, "write")]
    if len(k) != 1: raise Und("%d streams written" % len(k))
    k = k[0]
    unk = io.ops(k, "unknown", "seek", "text")
    im = Img(io.L, [a["n"] for a in f.args if "Image" in f.dt[f.args.index(a) + 1]][0])
    bad = None
    for n in (1, 3, 4):
        for w, h in DIMS:
            b = simulate_write(io, im, n, w, h)
            if b: bad = bad or {}; bad.setdefault(b[0], (b[1], n, w, h))
    done = set()
    if bad:
        for what, (t, n, w, h) in sorted(bad.items()): c.refuted("write." + what, "an image of %dx%d with %d planes: %s" % (w, h, n, t), f); done.add(what)
    for n in (1, 3, 4):
        for r in range(4):
            cs = Case(n, r)
            with c.group("write %s" % cs.name):
                if unk: raise Und("stream operation %s" % unk[0][0].name)
                prove_write(c, io, k, im, cs, f, done)
    return io

def simulate_write(io, im, n, w, h):
    lay = lambda x, y, p: p + n * (x + w * y)
    buf = num_obj(im.buf, {})
    img = lambda o, off: (off * 37 + 11) % 251 if o == buf and 0 <= off < w * h * n else None
    try: s = Sim(io, im.env((w, h, n)), content=img).run()
    except (NoValue, IndexError) as x:
        return None
    nw = n * w; st = nw + pad(nw); F = s.file; d = data0(n)
    if not F: return None
    def le(p, z):
        b = F[p:p + z]
        return None if len(b) < z or any(not isinstance(x, int) for x in b) else sum(x << (8 * i) for i, x in enumerate(b))
    if len(F) != d + st * h:
        return "total", "%d bytes are written, the format has %d (rows of %d bytes)" % (len(F), d + st * h, st)
    for p, z, v, nm in fields(n, w, h, st):
        x = le(p, z)
        if x is not None and x != v: return "header", "%s is %d, must be %d" % (nm, x, v)
    for r, x, b in itertools.product(range(h), range(w), range(n)):
        if PERM[n][b] is None: continue
        v = F[d + r * st + x * n + b]; e = img(buf, lay(x, h - 1 - r, PERM[n][b]))
        if v is not None and v != e: return "pixels", "byte %d of pixel %d in file row %d is not plane %d of pixel (%d, %d)" % (b, x, r, PERM[n][b], x, h - 1 - r)
    return None

def prove_write(c, io, k, im, cs, f, done):
    n, W, H, st = cs.n, cs.W, cs.H, cs.stride; L = io.L
    sub = Subst({atom_of(im.W): W, atom_of(im.H): H, atom_of(im.P): P(n)})
    evs = special(io.r.ev, sub); key = "write.%d.%d" % (n, cs.r)
    ws = [(e, fs) for e, fs in events(evs) if e.kind == "io" and e.name == "write" and e.args[0] == k]
    if not ws: c.unknown(key, "nothing written", f); return
    for e, fs in ws:
        if trip_free(e.guard, fs) != ONE: c.unknown(key, "written only if %s" % str(e.guard)[:160], e); return
        if not all(full(F, fs[:i]) for i, F in enumerate(fs)): c.unknown(key, "loop bounds", e); return
    tot = succeed(sub.any(io.S.nbytes(L.it, io.r.st, k)))
    if "total" not in done: decide_eq(c, key + ".total", tot, st * H + data0(n), f, "bytes in the file")
    if "header" not in done:
        und = None
        for p, z, v, nm in fields(n, W, H, st):
            x = field(L, sub, ws, p, z)
            if x is None: und = und or "%s not found" % nm
            elif not (x - P(v)).is_zero(): und = und or "%s is %s" % (nm, x)
        if und: c.unknown(key + ".header", und, f)
        else: c.proved(key + ".header", "%d fields of %s" % (len(fields(n, W, H, st)), cs.name), f)
    if "pixels" in done: return
    D = data0(n); ok = 0; und = None
    for e, fs in ws:
        u = e.x["pos"] - D if isinstance(e.x["pos"], Poly) else None
        if u is None: und = und or ("position %s" % e.x["pos"], e); continue
        size = e.args[2]
        if in_header(e.x["pos"], size, fs, D): continue
        row = [F for F in fs if (u - F.k * st).degree_in(one_atom(F.k)) == 0 and not occurs(u - F.k * st, one_atom(F.k))]
        if len(row) != 1: und = und or ("row of position %s" % u, e); continue
        R = row[0]; t = u - R.k * st
        if not (R.trip - H).is_zero(): und = und or ("%s rows" % R.trip, e); continue
        if (t - W.scale(n)).is_zero(): ok += 1; continue      # padding
        sz = size.const() if size.is_const() else None
        if t.is_zero() and (size - W.scale(n)).is_zero():
            x = A("arg", "x", ints=True); declare_nonneg(x); inner = ()
            X = x; pix = [(b, b) for b in range(n)]
            dom = gt0(W - x, True)
        else:
            I = [F for F in fs if F is not R and (t - F.k.scale(n)).is_const()]
            if len(I) != 1 or sz is None or not (I[0].trip - W).is_zero(): und = und or ("bytes at %s" % t, e); continue
            c0 = int((t - I[0].k.scale(n)).const()); X = I[0].k; pix = [(c0 + j, j) for j in range(int(sz))]; dom = gt0(W - X, True)
        for b, j in pix:
            if not 0 <= b < n: und = und or ("byte %d of a pixel" % b, e); continue
            if PERM[n][b] is None: ok += 1; continue
            if e.x.get("val") is not None: v = e.x["val"] if len(pix) == 1 else None
            else:
                p = e.args[1]; off = p.off + (X.scale(n) + j if t.is_zero() and len(pix) == n and sz is None else j)
                v = L.it.read(e.x["mem"], sub.any(p.obj) if False else p.obj, raw(off, sub, io, p), 1, "i8")
                v = succeed(sub.any(v))
            want = A("ld", "i", im.buf, P(PERM[n][b]) + (X + W * (H - 1 - R.k)).scale(n), ints=True)
            v = byte(restrict(v, dom) if isinstance(v, Node) else v)
            if isinstance(v, Poly) and v == want: ok += 1
            else: und = und or ("byte %d of a pixel is %s" % (b, str(v)[:160]), e)
    if und: c.unknown(key + ".pixels", und[0], und[1])
    else: c.proved(key + ".pixels", "%d byte families of a row, all rows" % ok, f)
def raw(off, sub, io, p): return off
def byte(v):
    """strip conversions that keep a byte"""
    while isinstance(v, Poly) and len(v.t) == 1 and list(v.t.values()) == [1]:
        (m, _), = v.t.items()
        if len(m) == 1 and m[0][1] == 1 and atom_by_id(m[0][0]).kind in ("trunc8", "zext8", "sext8") and isinstance(atom_by_id(m[0][0]).args[0], Poly): v = atom_by_id(m[0][0]).args[0]
        else: break
    return v
def in_header(pos, size, fs, D):
    """the bytes lie before the pixels"""
    hi = pos + size
    for F in fs:
        a = one_atom(F.k)
        if occurs(hi, a):
            co = hi.coeffs_in(a)
            if set(co) - {0, 1} or not co[1].is_const() or co[1].const() < 0: return False
            hi = co.get(0, ZERO) + co[1] * (F.trip - 1)
    return hi.is_const() and hi.const() <= D
def field(L, sub, ws, p, z):
    for e, fs in ws:
        if fs or not e.x["pos"].is_const() or not e.args[2].is_const(): continue
        o, n = int(e.x["pos"].const()), int(e.args[2].const())
        if o == p and n == z and isinstance(e.x.get("val"), Poly): return e.x["val"]
        if o <= p and p + z <= o + n and isinstance(e.args[1], Ptr) and e.x.get("mem") is not None:
            v = succeed(sub.any(L.it.read(e.x["mem"], e.args[1].obj, e.args[1].off + (p - o), z, "i%d" % (8 * z))))
            if isinstance(v, Poly) and not any(a.kind == "part" for a in deep_atoms(v)): return v
    if z > 1:
        b = [field(L, sub, ws, p + i, 1) for i in range(z)]
        if all(isinstance(x, Poly) and x.is_const() for x in b): return P(sum((int(x.const()) & 255) << (8 * i) for i, x in enumerate(b)))
    return None
def decide_eq(c, key, got, want, loc, text):
    if isinstance(got, Poly) and (got - want).is_zero(): c.proved(key, "%s: %s" % (text, want), loc)
    else: c.unknown(key, "%s: %s, expected %s" % (text, str(got)[:160], want), loc)

# ------------------------------------------------------------------ reader
def spec_file(n, w, h):
    """the bytes of a BMP file with distinguishable pixels, and its image"""
    nw = n * w; st = nw + pad(nw); d = data0(n)
    F = [0] * (d + st * h)
    for p, z, v, _ in fields(n, w, h, st):
        for i in range(z): F[p + i] = (v >> (8 * i)) & 255
    for i in range(4): F[38 + i] = F[42 + i] = [0x12, 0x0b, 0, 0][i]
    if n == 1:
        for i in range(256): F[54 + 4 * i:57 + 4 * i] = [i, i, i]
    img = {}
    for y, x, p in itertools.product(range(h), range(w), range(n)):
        v = ((p + n * (x + w * y)) * 37 + 11) % 251
        img[(x, y, p)] = v
    for r, x, b in itertools.product(range(h), range(w), range(n)):
        p = PERM[n][b] if PERM[n][b] is not None else b
        F[d + r * st + x * n + b] = img[(x, h - 1 - r, p)]
    for r in range(h):
        for j in range(pad(nw)): F[d + r * st + nw + j] = 0xEE
    return F, img

def reader(c):
    fs = [f for f in c.m.match(r"^ImageIoBmp::read\(")]
    if len(fs) != 1: raise Und("reader: %d functions" % len(fs))
    f = fs[0]; io = Io(c, f)
    ks = [k for k in io.keys() if io.ops(k, "read")]
    if len(ks) != 1: raise Und("%d streams read" % len(ks))
    k = ks[0]
    nm = [a["n"] for a in f.args if "Image" in f.dt[f.args.index(a) + 1]][0]
    im = Img(Lab(c), nm)
    bad = {}
    for n in (1, 3, 4):
        for w, h in DIMS:
            b = simulate_read(io, im, n, w, h)
            if b: bad.setdefault(b[0], (b[1], n, w, h))
    for what, (t, n, w, h) in sorted(bad.items()): c.refuted("read." + what, "a file with an image of %dx%d with %d planes: %s" % (w, h, n, t), f)
    if bad: return io
    for n in (1, 3, 4):
        for r in range(4):
            cs = Case(n, r)
            with c.group("read %s" % cs.name): prove_read(c, io, k, im, cs, f)
    return io

def simulate_read(io, im, n, w, h, old=None):
    """old: former width, height and planes of the image"""
    F, img = spec_file(n, w, h)
    try:
        s = Sim(io, im.env(old) if old else {}, file=F, content=None)
        s.run()
        if not num_eval(io.r.ret, s.env): return "accepted", "reading reports failure"
        get = lambda g: num_eval(io.L.call("Image::%s() const" % g, im.p, st=io.r.st), s.env)
        W, H, N = get("width"), get("height"), get("planes")
    except (NoValue, IndexError, TypeError) as x: return None
    if (W, H, N) != (w, h, n): return "size", "the image becomes %sx%s with %s planes" % (W, H, N)
    for (x, y, p), v in img.items():
        if PERM[n][p] is None: continue
        b = s.mem.get((num_obj(im.buf, {}), p + n * (x + w * y)), "none")
        if b == "none": return "pixels", "plane %d of pixel (%d, %d) is not set" % (p, x, y)
        if b is not None and b != v: return "pixels", "plane %d of pixel (%d, %d) gets another byte of the file" % (p, x, y)
    return None

def position(io, a):
    """file position of a value read"""
    vs = {x.id for x in top_status(a.args[1])}
    for e, fs in io.io:
        if e.name == "read" and vs & {x.id for x in top_status(e.x["ver"])}: return e.x["pos"], e, fs
    return None, None, None

def prove_read(c, io, k, im, cs, f):
    n, W, H, st = cs.n, cs.W, cs.H, cs.stride; L = io.L; key = "read.%d.%d" % (n, cs.r)
    # the header values, by position
    head = {}; amap = {}
    for e, fs in io.io:
        if e.name == "read" and not fs and isinstance(e.x["pos"], Poly) and e.x["pos"].is_const() and e.args[2].is_const(): head[(int(e.x["pos"].const()), int(e.args[2].const()))] = e
    want = {(p, z): v for p, z, v, _ in fields(n, W, H, st)}
    for a in {a for e, _ in io.events for a in deep_atoms(flat(tuple(x for x in e.args if isinstance(x, (Poly, Node, Ptr))) + (e.guard,))) if a.kind == "rd"} | {a for a in deep_atoms(io.r.ret) if a.kind == "rd"}:
        p, e, fs = position(io, a)
        if p is None or not p.is_const() or fs: continue
        z = int(e.args[2].const())
        if (int(p.const()), z) in want: amap[a.id] = P(want[(int(p.const()), z)])
    size = st * H + data0(n)
    for e, _ in io.io:
        if e.name == "tell":
            for l in leaves(e.ret):
                if isinstance(l, Poly):
                    t = io.S.told.get(one_atom(l))
                    if isinstance(t, Poly): amap[one_atom(l)] = Subst({a.id: size for a in deep_atoms(t) if a.kind == "fileend"}).any(t)
    sub = Subst(amap)
    evs = special(io.r.ev, sub)
    got = [succeed(sub.any(L.call("Image::%s() const" % g, im.p, st=io.r.st))) for g in ("width", "height", "planes")]
    # a file of the right size passes the tests of the header
    got = [relax(x, W, H) for x in got]
    if all(isinstance(g, Poly) and (g - w).is_zero() for g, w in zip(got, (W, H, P(n)))): c.proved(key + ".size", "width, height and planes from the header", f)
    else: c.unknown(key + ".size", "the image has %s" % str(got)[:300], f)
    direct = []; stores = []; und = None
    for e, fs in events(evs):
        p = e.args[0] if e.kind in ("store", "copy") else None
        if not isinstance(p, Ptr) or p.obj != im.buf: continue
        g = relax(trip_free(e.guard, fs), W, H)
        if g != ONE: und = und or ("stored only if %s" % str(g)[:200], e); continue
        if not all(F.exact for F in fs): und = und or ("loop bounds", e); continue
        (direct if e.kind == "copy" and e.name == "read" else stores).append((e, fs))
    plane = {}; cover = []
    D = data0(n)
    def pos_of(vs):
        for e, fs in events(evs):
            if e.kind == "io" and e.name == "read" and vs & {x.id for x in top_status(e.x["ver"])}: return e.x["pos"]
    def rows(fs):
        for F in fs:
            if isinstance(F.trip, Poly) and (F.trip - H).is_zero():
                yield F.k; yield H - 1 - F.k
    def place(pos, fs):
        """(file row, pixel, byte) of a position"""
        for r in rows(fs):
            t = pos - D - r * st
            if t.is_const(): 
                b = int(t.const())
                if 0 <= b: yield r, ZERO, b
            for F in fs:
                if not (isinstance(F.trip, Poly) and (F.trip - W).is_zero()): continue
                for x in (F.k, W - 1 - F.k):
                    d = t - x.scale(n)
                    if d.is_const() and 0 <= d.const() < n: yield r, x, int(d.const())
    base = None
    for e, fs in direct:
        vs = {x.id for x in top_status(e.args[1].obj[2])}; pos = pos_of(vs)
        hit = False
        for r, x, b in place(pos, fs) if isinstance(pos, Poly) else ():
            if x.is_zero() and b == 0 and (e.args[2] - W.scale(n)).is_zero() and (e.args[0].off - (W * (H - 1 - r)).scale(n)).is_zero():
                hit = True; base = (e, fs, r); cover = [(b, b) for b in range(n)]
        if not hit: und = und or ("row at %s is read from position %s" % (e.args[0].off, pos), e)
    m = {p: b for p, b in cover}
    for e, fs in stores:
        v = byte(e.args[1]); a = None
        if isinstance(v, Poly) and len(v.t) == 1 and list(v.t.values()) == [1]: a = atom_by_id(list(v.t)[0][0][0])
        pos = None
        if a is not None and a.kind == "ld" and a.args[1] == im.buf and base is not None and base[1] and base[1][0] in fs:
            pos = pos_of({x.id for x in top_status(base[0].args[1].obj[2])}) + (a.args[2] - base[0].args[0].off)
        elif a is not None and a.kind == "ld" and isinstance(a.args[1], tuple) and a.args[1][:1] == ("rdblk",):
            pos = pos_of({x.id for x in top_status(a.args[1][2])})
            if pos is not None: pos = pos + a.args[2]
        elif a is not None and a.kind == "rd": pos = pos_of({x.id for x in top_status(a.args[1])})
        if not isinstance(pos, Poly): und = und or ("value %s stored in the image" % str(v)[:120], e); continue
        hit = False
        for r, x, b in place(pos, fs):
            d = e.args[0].off - (x + W * (H - 1 - r)).scale(n)
            if d.is_const() and 0 <= d.const() < n: hit = True; m[int(d.const())] = b
        if not hit: und = und or ("byte at position %s is stored at %s" % (pos, e.args[0].off), e)
    exp = {p: b for b, p in enumerate(PERM[n]) if p is not None}
    if und: c.unknown(key + ".pixels", und[0], und[1])
    elif all(m.get(p) == b for p, b in exp.items()): c.proved(key + ".pixels", "%d row reads and %d store families put every byte of the file at its plane" % (len(direct), len(stores)), f)
    else: c.unknown(key + ".pixels", "plane to byte map %s, expected %s" % (m, exp), f)

def low(x, facts):
    """a lower bound of x without quotients, when x and the divisors are nonnegative"""
    for a in sorted(x.atoms()):
        A_ = atom_by_id(a)
        if A_.kind != "sdiv": continue
        co = x.coeffs_in(a)
        if set(co) - {0, 1} or not co[1].is_const() or co[1].const() < 0: return None
        n, d = low(A_.args[0], facts), A_.args[1]
        if n is None or not nonneg(d - 1, facts): return None
        e = quot(n, d, facts)
        if e is None: return None
        x = co.get(0, ZERO) + co[1] * e
    return x
def quot(n, d, facts):
    """e <= floor(n / d), with n - e*d >= 0"""
    if d.is_const():
        k = mod_const(n, int(d.const()))
        return None if k is None else (n - k).scale(Fraction(1, int(d.const())))
    for h in sorted(d.atoms()):
        c = d.coeffs_in(h)
        if set(c) <= {0, 1} and c[1] == ONE:
            e = n.coeffs_in(h).get(1, ZERO)
            if not occurs(e, h) and nonneg(n - e * d, facts): return e
    return None
def relax(v, W, H):
    """tests that hold for every size of a well-formed file"""
    if not isinstance(v, Node): return v
    for q in preds_of(v):
        if q.kind != "gt": continue
        if not any(a.kind in ("sdiv", "srem") for a in deep_atoms(q.poly)): continue
        f = [W - 1, H - 1]; lo = low(-q.poly, f)
        if lo is not None and nonneg(lo, f): v = assume(v, q.id, False); continue
        if nonneg(-q.poly, [W - 1, H - 1]): v = assume(v, q.id, False)
        elif nonneg(q.poly - 1, [W - 1, H - 1]): v = assume(v, q.id, True)
    return v

def run(c):
    c.rule("header", "every header field of the format is written at its offset with the value the format demands, for every width and height")
    c.rule("total", "the running byte count at the end equals header + rows of a multiple of four bytes, and equals the size fields")
    c.rule("pixels", "byte b of pixel x in file row r is the prescribed plane of pixel (x, H-1-r), on writing and on reading")
    with c.group("writer"): writer(c)
    with c.group("reader"): reader(c)

