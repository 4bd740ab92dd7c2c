"""C10: loading a malformed file never breaks the mesh or image."""
from iocheck import *
from c09 import direct, branch
from cadsa.bounds import *
from small import flat
import itertools, random

BIG = 10 ** 9

def rds(x): return [a for a in deep_atoms(x) if a.kind == "rd"]
def readers(io): return [(e, fs) for e, fs in io.io if e.name in ("read", "extract", "getline")]

# ------------------------------------------------------------------ assignments of file content
def values(atoms, eq, th, rnd, n=1500):
    """assignments of small numbers to what is read; the equalities of the path are honoured"""
    pool = [1, 2, 3, 0, 5, -1, 4, 7, 24, 32, 8] + [int(t) + d for t in th for d in (0, 1, -1) if abs(t) < 10 ** 6]
    atoms = [a for a in atoms if a not in eq]
    for i in range(n):
        env = {a: (pool[i % len(pool)] if i < len(pool) else rnd.choice(pool if rnd.random() < .4 else (1, 2, 3, 4))) for a in atoms}
        ok = True
        for a, p in eq.items():
            try: env[a] = num_eval(p, env)
            except NoValue: ok = False
        if ok: yield env

def opaque(key, env):
    if key[0] in ("iofail", "iobad", "ioeof"): return False
    if key[0] == "ioopen": return True
    raise NoValue(str(key)[:60])

def atomval(a, env):
    if a.kind == "tellg": return 54 if not end_of_file(a) else 10 ** 7
    if a.kind == "mu":
        # first iteration
        F = env["fors"].get(a.args[0])
        if F is None or num_eval(F.k, env) != 0: raise NoValue(str(a)[:60])
        rec = F.recs.get(a.args[1])
        if rec is None or not isinstance(rec[1], Poly): raise NoValue(str(a)[:60])
        return num_eval(rec[1], env)
    if a.kind == "strlen": return 3
    raise NoValue(str(a)[:60])
def end_of_file(a): return any(x.kind == "sv" and x.args[0] == "seek" for x in top_status(a.args[1]))

def base_atoms(io, *xs):
    """what may be chosen freely: values read, arguments"""
    out = []
    for a in free_atoms(*xs):
        at = atom_by_id(a)
        if at.kind in ("rd", "arg"): out.append(a)
    return out

def growing(io, *xs):
    """counters that may have any value from their initial one on: an iteration that depends on nothing but what it
    reads adds one"""
    out = []
    for a in {a for x in xs for a in deep_atoms(x) if a.kind == "mu"}:
        F = io.fors.get(a.args[0]); rec = F.recs.get(a.args[1]) if F is not None and F.recs else None
        if rec is None or F.stay is None or not isinstance(rec[1], Poly) or not rec[1].is_const() or not isinstance(rec[0], Poly): continue
        mu, ini, nxt = rec
        step = apply(lambda st, nx: nx - mu if st == ONE and isinstance(nx, Poly) else ZERO, F.stay, nxt)
        for p, l in paths(step, 3000):
            if l != ONE or not possible(p): continue
            if all((q.kind == "b" and (q.key[0] == "streq" or (io_pred(q) and v == (q.key[0] == "ioopen")))) or (q.kind == "gt" and v and [atom_by_id(z).kind for z in q.poly.atoms()] == ["strlen"]) for q, v in p): out.append((a.id, int(ini.const()))); break
    return out

def growing2(io, first, *xs):
    """counters that may grow while the first ones stand: an iteration whose conditions on what is read can be met"""
    out = []; base = {a: i + 3 for a, i in first}
    for a in {a for x in xs for a in deep_atoms(x) if a.kind == "mu"}:
        if a.id in base: continue
        F = io.fors.get(a.args[0]); rec = F.recs.get(a.args[1]) if F is not None and F.recs else None
        if rec is None or F.stay is None or not isinstance(rec[1], Poly) or not rec[1].is_const() or not isinstance(rec[0], Poly): continue
        mu, ini, nxt = rec; found = False
        step = apply(lambda st, nx: nx - mu if st == ONE and isinstance(nx, Poly) else ZERO, F.stay, nxt)
        for p, l in paths(step, 3000):
            if found: break
            if l != ONE or not possible(p): continue
            if any(io_pred(q) and v != (q.key[0] == "ioopen") or q.kind == "b" and not io_pred(q) and q.key[0] != "streq" for q, v in p): continue
            gts = [(q, v) for q, v in p if q.kind == "gt"]; rd = []
            for q, v in gts:
                for z in q.poly.atoms():
                    if atom_by_id(z).kind == "rd" and z not in rd: rd.append(z)
            if len(rd) > 4: continue
            for vals in itertools.product((1, 2, 3), repeat=len(rd)):
                env = dict(base); env.update(zip(rd, vals)); env[a.id] = rec[1].const(); env["atoms"] = lambda y, en: 1 if y.kind == "strlen" else atomval(y, en); env["fors"] = {}
                try:
                    if all((num_eval(q.poly, env) > 0) == v for q, v in gts): found = True; break
                except NoValue: continue
        if found: out.append((a.id, rec[1].const()))
    return out

def witness(io, guard, fors, bad, xs):
    """values of the file content and loop counters at which the guard holds and bad(env) is true"""
    rnd = random.Random(3)
    ks = [one_atom(F.k) for F in fors]; grow = growing(io, guard, *xs); grow2 = growing2(io, grow, guard, *xs)
    for p in guard_paths(guard, 200):
        if not possible(p): continue
        if any(io_pred(q) and v and io_pred(q)[0] != "ioopen" for q, v in p): continue
        if any(q.kind != "gt" and not io_pred(q) and q.key[0] != "streq" for q, v in p): continue
        eq = equalities(p)
        ats = [a for a in base_atoms(io, guard, *xs, *[q.poly for q, v in p if q.kind == "gt"], *[F.trip for F in fors if F.trip is not None])]
        th = {Fraction(q.thr) for q, v in p if q.kind == "gt" and q.form is not None}
        ats = [a for a in ats if a not in ks]
        for env in values(ats, eq, th, rnd):
            if grow:
                n = rnd.choice((0, 1, 2, 3)); env.update({a: i + n for a, i in grow}); m = rnd.choice((0, 1, 2, 3)) if n == 3 else 0; env.update({a: i + m for a, i in grow2})
            for kv in itertools.product((0, 1, 2, 4), repeat=len(ks)):
                e = dict(env); e.update(zip(ks, kv)); e["preds"] = lambda k, en: dict_pred(k, p); e["atoms"] = atomval; e["fors"] = io.fors
                try:
                    if not all((num_eval(q.poly, e) > 0) == v for q, v in p if q.kind == "gt"): continue
                    if any(F.trip is not None and kk >= num_eval(F.trip, e) for F, kk in zip(fors, kv)): continue
                    w = bad(e)
                except (NoValue, ZeroDivisionError): continue
                if w: return "%s (%s)" % (w, ", ".join("%s=%s" % (nm(a), v) for a, v in sorted(env.items()) if atom_by_id(a).kind == "rd")[:300])
    return None
def dict_pred(k, p):
    for q, v in p:
        if q.kind == "b" and q.key == k: return v
    return opaque(k, None)
def nm(a):
    at = atom_by_id(a)
    return "value read by %s" % "/".join(str(x.args[3]) for x in top_status(at.args[1])) if at.kind == "rd" and False else str(at)[-40:]

# ------------------------------------------------------------------ (a) triangles
def triangles(c, io, key):
    n = 0
    for e, fs in io.events:
        if e.kind != "mesh" or e.name not in ("add_triangle", "get_vertex", "set_vertex", "unlink"): continue
        idx = e.args[1:4] if e.name == "add_triangle" else e.args[1:2]
        if e.name != "add_triangle" and not rds(flat(tuple(idx))): continue
        nv = e.x.get("nv")
        if nv is None: c.unknown("%s.index.%d" % (key, n), "number of vertices not known", e); n += 1; continue
        k = "%s.triangle.%d" % (key, n); n += 1
        res = []; und = None
        for i, x in enumerate(idx):
            for what, t in (("negative", x), ("beyond the last vertex", None)):
                if t is None: t = bind2(lambda a, b: a - 1 - b if isinstance(a, Poly) and isinstance(b, Poly) else A("nodiff", a, b), nv, x)
                ext = [l for l in leaves(nv) if isinstance(l, Poly) and not l.is_const()] + nn_counts(nv)
                try: ok, p = holds(t, e.guard, fs, ext)
                except Blowup: ok, p = False, None
                if ok: continue
                w = witness(io, e.guard, fs, lambda en: ("corner %d is vertex %s of %s" % (i + 1, num_eval(x, en), num_eval(nv, en))) if num_eval(t, en) < 0 else None, [x, nv])
                if w: res.append(w)
                else: und = und or "corner %d not shown to be a vertex: %s" % (i + 1, str(t)[:160])
        if res: c.refuted(k, "a triangle is stored whose " + res[0], e)
        elif und: c.unknown(k, und, e)
        else: c.proved(k, "3 corners, each shown to be an existing vertex on every path", e)
    return n
def nn_counts(nv): return [P(a) for l in leaves(nv) if isinstance(l, Poly) for x in l.atoms() for a in [atom_by_id(x)] if a.kind in ("mu", "out")]

# ------------------------------------------------------------------ (b) values
def used(c, io, key):
    """every value from the file that reaches the mesh or image was read successfully"""
    by = {}
    for e, fs in io.events:
        if e.kind == "mesh": xs = e.args[1:]
        elif e.kind == "vec": xs = e.args[1:]
        elif e.kind == "store" and isinstance(e.args[0], Ptr) and io.L.it.visible(e.args[0].obj): xs = e.args[1:2]
        else: continue
        for a in rds(flat(tuple(xs))): by.setdefault(a, []).append((e, fs))
    bad = und = None; n = 0
    for a, es in by.items():
        k = a.args[0]; r = {site(y) for y in top_status(a.args[1])}
        for e, fs in es:
            n += 1
            for p in guard_paths(e.guard, 2000):
                if not possible(p): continue
                good = seen = False; failed = None
                for q, v in p:
                    kp = io_pred(q)
                    if not kp or kp[1] != k: continue
                    if direct(r, kp[2], p):
                        if kp[0] == "iofail" and not v: good = True
                        elif kp[0] == "iofail": failed = True
                        else: seen = True
                    elif r <= io.ancestors(kp[2])[0]: seen = True
                if good or not still(a, e, p): continue
                if (seen or failed) and failing(io, a, k, r, p): bad = bad or ("the value is used although reading it failed", e)
                elif failed and not seen: bad = bad or ("the value is used exactly when reading it failed", e)
                elif seen: und = und or ("tested in a way the analysis does not follow", e)
                elif any(q.kind == "b" and q.key[0] == "exit" for q, v in p) and not same_iter(io, a, fs): und = und or ("read in an earlier loop", e)
                else: bad = bad or ("it is stored without testing that it was read", e)
    return n, bad, und
def still(a, e, p):
    """the value occurs in what is stored on this path"""
    g = ONE
    for q, v in p: g = c_and(g, mk(q.id, ONE, ZERO) if v else mk(q.id, ZERO, ONE))
    xs = e.args[1:] if e.kind in ("mesh", "vec") else e.args[1:2]
    return any(a in deep_atoms(flat((restrict(x, g) if isinstance(x, (Poly, Node)) else x,))) for x in xs)
def failing(io, a, k, r, p):
    """the path agrees with a failure of this very read (short read: failed and at end; bad text: failed only; broken device: bad)"""
    if any(e.name in ("clear", "unknown") for e, _ in io.io if e.args[0] == k): return False
    ops = {e.name for e, _ in io.io if e.args[0] == k and e.name in ("read", "extract", "getline") and {site(y) for y in top_status(e.x["ver"])} & r}
    for kinds in ([{"iofail": True, "iobad": False, "ioeof": True}] + ([{"iofail": True, "iobad": False, "ioeof": False}] if ops == {"extract"} else [])):
        ok = True
        for q, v in p:
            kp = io_pred(q)
            if not kp or kp[1] != k or kp[0] not in kinds: continue
            if direct(r, kp[2], p): ok = ok and v == kinds[kp[0]]
            elif r <= io.ancestors(kp[2])[0]: return False
            elif v: ok = False
        if ok: return True
    return False
def same_iter(io, a, fs): return True

def values_used(c, io, key):
    n, bad, und = used(c, io, key)
    if bad: c.refuted(key + ".values", "%s %s: %s" % (bad[1].kind, bad[1].name, bad[0]), bad[1])
    elif und: c.unknown(key + ".values", "%s %s: %s" % (und[1].kind, und[1].name, und[0]), und[1])
    elif n: c.proved(key + ".values", "%d uses of values from the file, each behind a successful status tested after the read" % n, io.f)
    return n

# ------------------------------------------------------------------ (c) work and memory
def size_facts(io):
    """positions at the end of the file: the file's real size"""
    return [P(a) for a in {a for e, _ in io.io if e.name == "tell" for a in deep_atoms(flat([e.ret]))} if a.kind == "tellg"]
def by_size(io, amount, guard, fs):
    """amount <= size of the file under the guard"""
    sz = size_facts(io)
    for t in sz:
        if not end_of_file(atom_by_id(one_atom(t))): continue
        try:
            if holds(t - amount, guard, fs, sz)[0]: return True
        except Blowup: pass
    return False

def bound(c, io, key):
    n = 0
    for F, outer in loops(io.r.ev):
        rd = rds(flat(tuple(x for x in (F.trip,) if x is not None)))
        k = "%s.loop.%d" % (key, n); n += 1
        body = [e for e, fs in io.walk(F.body) if e.kind == "io"]
        if F.trip is not None and not rd and not deep_unknown(F.trip): c.proved(k, "bounded by %s" % str(F.trip)[:80], F.loc); continue
        # every further iteration has read something successfully
        ok = consuming(io, F, body)
        if ok is True: c.proved(k, "every further iteration follows a successful read in the loop", F.loc); continue
        if F.trip is not None:
            amount = F.trip
            for Fo in outer:
                if isinstance(Fo.trip, Poly) and rds(Fo.trip) and not (isinstance(F.trip, Node)): amount = amount * Fo.trip
            if rd and by_size(io, amount, F.guard, outer): c.proved(k, "iterations bounded by the size of the file: %s" % str(F.trip)[:80], F.loc); continue
            if rd:
                w = huge(io, F, amount, outer)
                if w: c.refuted(k, "the number of iterations %s comes from the file and may exceed its content: %s" % (str(F.trip)[:80], w), F.loc); continue
        if F.trip is None and ok is False: c.refuted(k, "the loop goes on after a failed read", F.loc); continue
        c.unknown(k, "loop bound %s" % str(F.trip)[:120], F.loc)
    for e, fs in io.events:
        if e.kind == "new": amount = e.args[1]
        elif e.kind == "reserve": amount = e.args[1]
        elif e.kind == "vec" and e.name in ("resize", "assign", "set", "reserve") and len(e.args) > 1: amount = e.args[1]
        else: continue
        if not isinstance(amount, (Poly, Node)) or not rds(amount): continue
        k = "%s.memory.%d" % (key, n); n += 1
        try: ok = all(by_size(io, l, e.guard, fs) for l in leaves(amount) if isinstance(l, Poly) and rds(l))
        except Blowup: ok = False
        if ok: c.proved(k, "allocated size %s bounded by the size of the file" % str(amount)[:80], e); continue
        w = None
        for p in guard_paths(e.guard, 200):
            if not possible(p) or any(io_pred(q) and v and io_pred(q)[0] != "ioopen" for q, v in p): continue
            w = w or big(io, p, amount)
        if w: c.refuted(k, "memory %s is allocated as the file's header demands, whatever its content: %s" % (str(amount)[:80], w), e)
        else: c.unknown(k, "allocation of %s" % str(amount)[:160], e)
    return n
def loops(evs, outer=()):
    for e in evs:
        if isinstance(e, For):
            yield e, outer
            yield from loops(e.body, outer + (e,))
def deep_unknown(x): return any(a.kind in ("mu", "out", "call", "ld") for a in deep_atoms(x))

def consuming(io, F, body):
    if F.stay is None: return None
    if any(e.name in ("clear", "unknown", "open") and io.is_file(e.args[0]) for e in body): return None
    sites = {}
    for e in body:
        if e.name in ("read", "extract", "getline"):
            for y in top_status(e.x["ver"]): sites.setdefault(e.args[0], {})[site(y)] = e.name
    if not any(io.is_file(k) for k in sites): return None
    if F.exact and F.trip is not None: return None
    res = True
    for p, l in paths(F.stay, 3000):
        if l == ZERO or not possible(p): continue
        good = seen = False
        for q, v in p:
            kp = io_pred(q)
            if not kp or kp[1] not in sites or not io.is_file(kp[1]): continue
            an = io.ancestors(kp[2])[0]
            here = [nm for s_, nm in sites[kp[1]].items() if s_ in an]
            if not here: continue
            if kp[0] == "iofail" and not v: good = True
            elif kp[0] == "ioeof" and not v and all(x != "extract" for x in here): good = True
            else: seen = True
        if good: continue
        if seen: 
            # the only tests are a failed status: it goes on although the read failed
            res = None
        elif any(q.kind == "b" and isinstance(q.key, tuple) and q.key[0] not in ("streq", "exit", "retin") and not io_pred(q) and any(a.kind in ("sv", "rd") for a in deep_atoms(q.key)) for q, v in p): res = None
        else: return False
    return res

def big(io, p, amount, limit=10 ** 8):
    """a path that holds with huge values of what is read, with no regard to the size of the file"""
    eq = equalities(p)
    allp = [q.poly for q, v in p if q.kind == "gt"]
    free = [a for a in base_atoms(io, amount, *allp) if a not in eq]
    def small(a, env): return 10 ** 4 if a.kind == "tellg" and end_of_file(a) else atomval(a, env)
    if len(free) > 4: return None
    for vals in itertools.product((1, BIG, 30000, 24, 8, 2, 0), repeat=len(free)):
        if any(atom_by_id(a).args[2] <= 2 and v > 32767 for a, v in zip(free, vals) if atom_by_id(a).kind == "rd"): continue
        env = dict(zip(free, vals))
        try:
            for a, x in eq.items(): env[a] = num_eval(x, env)
            env["atoms"] = small; env["fors"] = io.fors
            if not all((num_eval(q.poly, env) > 0) == v for q, v in p if q.kind == "gt"): continue
            n = num_eval(amount, env)
        except (NoValue, ZeroDivisionError): continue
        if abs(n) >= limit: return "%d for a file of %d bytes" % (n, 10 ** 4)
    return None

def huge(io, F, amount, outer):
    if any(Fo.exits and not Fo.exact for Fo in outer): return None
    if not F.exact and F.stay is not None:
        # an early exit: independent of the streams?
        for q in preds_of(F.stay):
            if q.kind != "gt": return None
    for p in guard_paths(F.guard, 200):
        if not possible(p) or any(io_pred(q) and v and io_pred(q)[0] != "ioopen" for q, v in p): continue
        w = big(io, p, amount)
        if w: return w
    return None

# ------------------------------------------------------------------ (d) buffers
def capacity(io, obj):
    """size in bytes of a buffer object"""
    if obj[0] == "alloca":
        f = io.c.m.funcs.get(obj[2])
        if f is None: return None
        for b in f.blocks.values():
            for i in b:
                if i["op"] == "alloca" and i["i"] == obj[3]: return P(i["as"])
        return None
    if obj[0] == "E":
        n = io.L.it.vsize(io.r.st, Ptr(obj[1], obj[2]))
        return n
    if obj[0] == "heap":
        for e, _ in io.events:
            if e.kind == "new" and isinstance(e.args[0], Ptr) and e.args[0].obj == obj: return e.args[1]
    return None

def accesses(io):
    for e, fs in io.events:
        if e.kind == "io" and e.name == "read" and isinstance(e.args[1], (Ptr, Node)):
            for l in leaves(e.args[1]):
                if isinstance(l, Ptr): yield e, fs, l, e.args[2], "read"
        elif e.kind == "store" and isinstance(e.args[0], Ptr) and e.args[0].obj[0] in ("E", "alloca", "heap"):
            yield e, fs, e.args[0], P(e.x.get("size") or 1), "write"
            for a in deep_atoms(flat([e.args[1]])):
                if a.kind == "ld" and isinstance(a.args[1], tuple) and a.args[1][0] == "E": yield e, fs, Ptr(a.args[1], a.args[2]), ONE, "access"

def buffers(c, io, key):
    n = bad = 0; und = None; done = 0
    for e, fs, ptr, size, what in accesses(io):
        cap = capacity(io, ptr.obj)
        if cap is None: und = und or ("%s in a buffer of unknown size %s" % (what, fmt_obj(ptr.obj)), e); continue
        if ptr.obj[0] == "E" and isinstance(cap, Poly): pass
        elif isinstance(cap, Node):
            cap = restrict(cap, trip_free(e.guard, fs))
        for l in leaves(cap):
            if not isinstance(l, Poly): und = und or ("size %s" % l, e); continue
            for t, w in ((ptr.off, "before the buffer"), (l - ptr.off - size if isinstance(size, Poly) else None, "beyond the buffer")):
                if t is None: und = und or ("size %s" % str(size)[:100], e); continue
                n += 1
                try: ok, p = holds(t, e.guard, fs)
                except Blowup: ok = False
                if ok: done += 1; continue
                x = witness(io, e.guard, fs, lambda en: ("byte %s up to %s of a buffer of %s" % (num_eval(ptr.off, en), num_eval(ptr.off + size, en), num_eval(l, en))) if num_eval(t, en) < 0 and num_eval(size, en) > 0 else None, [ptr.off, size, l])
                if x:
                    bad += 1
                    c.refuted("%s.buffer.%d" % (key, n), "%s %s: %s" % (what, w, x), e)
                else: und = und or ("%s not shown to stay in the buffer: %s >= 0" % (what, str(t)[:200]), e)
    if und: c.unknown(key + ".buffers", und[0], und[1])
    elif not bad and n: c.proved(key + ".buffers", "%d accesses stay inside their buffers" % (n // 2), io.f)
    return n

def setup(L): L.mm.record_nv = True; L.it.muls = []

def tested(io):
    """monomials in the tests the events of the loader depend on"""
    out = set()
    def mons(p): out.update(m for m in p.t if len(m) > 1)
    for g in {e.guard for e, _ in io.events if isinstance(e.guard, Node)}:
        for q in preds_of(g):
            if q.kind != "gt": continue
            mons(q.poly)
            for a in deep_atoms(q.poly):
                for x in a.args:
                    if isinstance(x, Poly): mons(x)
    return out

def wraps(c, io, key):
    """32 bit products of values read from the file: no path may bring them past the range"""
    done = {}; T = tested(io); open_ = lambda *v: any(a.kind == "mu" for a in deep_atoms(flat(v)))
    solved = {str(loc) for x, y, g, loc in io.L.it.muls if not open_(x, y)}
    for x, y, g, loc in io.L.it.muls:
        if open_(x, y) and str(loc) in solved: continue     # a loop variable before its closed form was found
        if not (isinstance(x, (Poly, Node)) and isinstance(y, (Poly, Node)) and rds(x) and rds(y)): continue
        try: amount = apply(lambda a, b: a * b, x, y)
        except Blowup: continue
        if str((amount, g, loc)) in done: continue
        done[str((amount, g, loc))] = 1; k = "%s.product.%d" % (key, len(done)); w = None
        if all(isinstance(l, Poly) and by_size(io, l, g, ()) for l in leaves(amount)): c.proved(k, "the product %s is bounded by the size of the file" % str(amount)[:80], loc); continue
        for p in guard_paths(g, 200):
            if not possible(p) or any(io_pred(q) and v and io_pred(q)[0] != "ioopen" for q, v in p): continue
            w = w or big(io, p, amount, 1 << 31)
        if w and any(m in T for l in leaves(amount) if isinstance(l, Poly) for m in l.t if len(m) > 1): c.refuted(k, "the 32 bit product %s leaves the range of an int, so tests that use it are void: %s" % (str(amount)[:80], w), loc)
        else: c.unknown(k, "range of the product %s" % str(amount)[:160], loc)
    return len(done)


def run(c):
    c.rule("triangle", "the guard of every stored triangle implies 0 <= corner < number of vertices at that moment")
    c.rule("values", "a value read from the file reaches the mesh or image only on paths where a status taken after the read was good")
    c.rule("work", "every loop is bounded by a constant, by data already held, by the size of the file, or each further iteration follows a successful read; every allocation is bounded by the size of the file")
    c.rule("product", "a 32 bit product of values read from the file stays in the range of an int on every path, so it means what exact arithmetic says")
    c.rule("buffers", "offset and size of every access to a buffer stay inside it, for all values read from the file")
    fs = []
    for f in stream_entries(c):
        with c.group(f.dn.split("(")[0]):
            io = Io(c, f, setup=setup)
            if not readers(io): continue
            fs.append(f); key = f.dn.split("(")[0]
            for k in io.keys():
                unk = [e for e, _ in io.ops(k, "unknown")]
                if unk: c.unknown(key + ".operations", "stream operation %s is not modelled" % (unk[0].args[1:2],), unk[0])
            n = triangles(c, io, key)
            n += values_used(c, io, key)
            n += bound(c, io, key)
            n += wraps(c, io, key)
            n += buffers(c, io, key)
            c.count("obligations", n); c.count("stream operations", len(io.io))
    c.count("loaders", len(fs))
    if len(fs) < 3: c.unknown("loaders", "only %s" % [f.dn for f in fs])
