"""Reading a summary at one small input: the recorded effects are applied in order to a concrete content of the objects.
Only used to exhibit a witness; a value that cannot be read off stops the reading (NoValue)."""
from common import *

class Content:
    """content of the objects: object -> (base, written cells, copied regions)"""
    def __init__(s, init, objs=None): s.init = init; s.objs = objs if objs is not None else {}
    def snap(s): return Content(s.init, {o: (b, dict(w), list(r)) for o, (b, w, r) in s.objs.items()})
    def at(s, o):
        if o not in s.objs: s.objs[o] = (s.inherit(o), {}, [])
        return s.objs[o]
    def inherit(s, o):
        """base of an object that was never written itself: taken along when its owner was copied"""
        if o[0] == "E" and o[1] in s.objs:
            b, w, rs = s.objs[o[1]]
            for lo, hi, M, o2, lo2 in reversed(rs):
                if lo <= o[2] < hi: return (M, ("E", o2, o[2] - lo + lo2))
            if b is None: return None
            if isinstance(b, tuple): return (b[0], ("E", b[1], o[2]))
        elif o[0] == "E":
            b = s.inherit(o[1])
            if b is None: return None
            if isinstance(b, tuple): return (b[0], ("E", b[1], o[2]))
        return "init"
    def read(s, o, n):
        b, w, rs = s.objs[o] if o in s.objs else (s.inherit(o), {}, [])
        if n in w:
            if w[n] is None: raise NoValue("unknown content")
            if isinstance(w[n], Definite): raise w[n]
            return w[n]
        for lo, hi, M, o2, lo2 in reversed(rs):
            if lo <= n < hi: return M.read(o2, n - lo + lo2)
        if b is None: raise NoValue("undefined content of %s at %s" % (fmt_obj(o), n))
        if b == "init": return s.init(o, n)
        return b[0].read(b[1], n)
    def write(s, o, n, v): s.at(o)[1][n] = v
    def wipe(s, o):
        for p in [p for p in s.objs if p[0] == "E" and p[1] == o]: s.wipe(p)
        s.objs[o] = (None, {}, [])
    def alias(s, o, M, o2):
        for p in [p for p in s.objs if p[0] == "E" and p[1] == o]: del s.objs[p]
        s.objs[o] = ((M, o2), {}, [])
    def region(s, o, lo, n, o2, lo2):
        M = s.snap(); b, w, rs = s.at(o)
        for x in [x for x in w if lo <= x < lo + n]: del w[x]
        for p in [p for p in s.objs if p[0] == "E" and p[1] == o and lo <= p[2] < lo + n]: del s.objs[p]
        rs.append((lo, lo + n, M, o2, lo2))

def scalars(m, T, base=0):
    """[(offset, size, type)] of the plain data of a class; None when it holds containers or pointers to follow"""
    prim = {"double": (8, "double"), "float": (4, "float"), "int": (4, "i32"), "bool": (1, "i8"), "unsigned char": (1, "i8"), "char": (1, "i8"), "unsigned int": (4, "i32"), "long": (8, "i64"), "unsigned long": (8, "i64")}
    if T in prim: return [(base,) + prim[T]]
    out = []
    for n, off, t, sz in m.fields(T):
        if n.startswith("_vptr"): continue
        if t.startswith("vector<") or t.endswith("*") or "::" in t: return None
        r = scalars(m, t, base + off)
        if r is None: return None
        out += r
    return out

def inner_local(o):
    d = 0
    while o[0] == "E": o = o[1]; d += 1
    return d >= 2 and o[0] == "alloca"
def leaves_first(v):
    while isinstance(v, Node): v = v.hi
    return v

class Replay:
    def __init__(s, L, init, names=None, funcs=None, ignore=()):
        """init(object, offset) -> value of the input; names: {atom kind+args text: value}; funcs: {atom kind: f(*values)}"""
        s.L = L; s.M = Content(init); s.heads = {}; s.outs = {}; s.havocs = {}; s.names = names or {}; s.funcs = funcs or {}; s.ignore = ignore
        s.env = {"atoms": s.atom, "iter": s.iter, "leave": s.leave}; s.log = []; s.last = None
    def iter(s, F, env): s.heads[F.lid] = s.M.snap()
    def leave(s, F, env): s.outs[F.lid] = s.M.snap()
    def atom(s, a, env):
        if a.id in s.names: return s.names[a.id]
        if a.kind in s.funcs: return s.funcs[a.kind](*[num_eval(x, env) if isinstance(x, (Poly, Node)) else x for x in a.args])
        if a.kind in ("ld", "vs"):
            tag, obj, off = a.args if a.kind == "ld" else ("i",) + tuple(a.args)
            o = num_obj(obj, env); n = int(num_eval(off, env))
            if tag == "i": M = s.M if not inner_local(o) else None
            elif tag[0] == "L": M = s.heads.get(tag[1])
            elif tag[0] == "X": M = s.outs.get(tag[1])
            else: M = s.havocs.get(tag)
            if M is None and tag == "i": v = s.M.read(o, n)     # vector inside a local vector: no separate initial content
            elif M is None: raise NoValue(fmt_atom(a))
            elif tag == "i":
                v = s.M.init(o, n)
            else: v = M.read(o, n)
            if v is None: raise NoValue(fmt_atom(a))
            return v
        raise NoValue(fmt_atom(a))
    def ptr(s, p, env):
        while isinstance(p, Node):
            p = p.hi if num_eval(mk(p.p, ONE, ZERO), env) else p.lo
        if not isinstance(p, Ptr): raise NoValue("pointer")
        return num_obj(p.obj, env), int(num_eval(p.off, env))
    def num(s, v, env):
        if isinstance(v, (Poly, Node)):
            try: return num_eval(v, env)
            except Definite as x: return x
            except NoValue as x:
                if s.debug: print("  no value:", x)
                return None
        return None
    debug = False
    def run(s, evs):
        num_events(evs, s.env, s.apply)
        return s
    def apply(s, e, env):
        L = s.L; M = s.M; s.last = e
        if e.kind == "store":
            if not isinstance(e.args[0], Ptr): raise NoValue("store")
            o, n = s.ptr(e.args[0], env); M.write(o, n, s.num(e.args[1], env)); s.log.append((o, n, e))
        elif e.kind == "copy":
            d, ds = s.ptr(e.args[0], env); o, so = s.ptr(e.args[1], env); n = int(num_eval(e.args[2], env))
            if o[0] == "alloca":        # a local: its content is a term of the summary
                q = e.args[1]
                if not isinstance(q, Ptr) or n > 4096: raise NoValue("copy")
                for x in range(0, n, 8): M.write(d, ds + x, s.num(L.it.read(e.x["mem"], q.obj, q.off + x, 8, "double"), env))
            else: M.region(d, ds, n, o, so)
            s.log.append((d, ds, e))
        elif e.kind == "vec": s.vec(e, env)
        elif e.kind == "mesh": s.mesh(e, env)
        elif e.kind in ("index", "new", "delete", "noreturn", "reserve") or e.kind in s.ignore: pass
        elif e.kind == "call" and any(x in e.name for x in s.ignore): pass
        else: raise NoValue("%s %s" % (e.kind, e.name))
    def count(s, k, off): return int(s.M.read(("M", k), off))
    def mesh(s, e, env):
        M = s.M; k = e.args[0]
        nk = num_obj(k, env); C = ("M", nk); V = ("MV", nk); T = ("MT", nk)
        s.log.append((C, 0, e))
        if e.name == "clear":
            M.write(C, 0, 0); M.write(C, 8, 0); M.wipe(V); M.wipe(T)
        elif e.name in ("add_vertex", "set_vertex"):
            co = e.args[1] if e.name == "add_vertex" else e.args[2]
            i = s.count(nk, 0) if e.name == "add_vertex" else int(num_eval(e.args[1], env))
            if e.name == "add_vertex": M.write(C, 0, i + 1)
            for a in range(3): M.write(V, 24 * i + 8 * a, s.num(co[a], env))
        elif e.name == "add_triangle":
            i = s.count(nk, 8); M.write(C, 8, i + 1)
            for a in range(3): M.write(T, 16 * i + 4 * a, s.num(e.args[1 + a], env))
            M.write(T, 16 * i + 12, 0)
        elif e.name == "unlink": M.write(T, 16 * int(num_eval(e.args[1], env)) + 12, 1)
    def push_object(s, T, B, at, el, mem, env, src):
        """append an object that owns vectors of plain data"""
        if src is None: raise NoValue("appended element")
        M = s.M; q, qn = s.ptr(src, env); S = M.snap()
        for name, off, t, sz in s.L.m.fields(T):
            if name.startswith("_vptr"): continue
            if t.startswith("vector<"):
                M.write(B, at + off, S.read(q, qn + off)); M.alias(("E", B, at + off), S, ("E", q, qn + off))
            else:
                sc = scalars(s.L.m, t, off)
                if sc is None: raise NoValue("elements of " + T)
                for o, w, ty in sc:
                    v = s.num(s.L.it.read(mem, el.obj, el.off + o, w, ty), env) if mem is not None else None
                    M.write(B, at + o, v)
    def lost(s, o, n):
        try: s.M.read(o, n); return False
        except NoValue: return True
    def vec(s, e, env):
        M = s.M; o, n = s.ptr(e.args[0], env); B = ("E", o, n); T = e.x["T"]; sz = s.L.m.sizeof(T)
        s.log.append((o, n, e))
        def elems(lo, hi, mem, obj):
            """cells of elements lo..hi from a symbolic content"""
            sc = scalars(s.L.m, T) if not T.endswith("*") else None
            for i in range(lo, hi):
                if sc is None: raise NoValue("elements of " + T)
                for off, w, ty in sc: M.write(B, i * sz + off, s.num(s.L.it.read(mem, obj, P(i * sz + off), w, ty), env))
        if e.name in ("new", "clear"):
            M.write(o, n, 0); M.wipe(B)
        elif e.name == "set":
            k = int(num_eval(e.args[1], env)); M.wipe(B); M.write(o, n, k)
            if e.x.get("mem") is None or k > 10000: raise NoValue("filled vector")
            elems(0, k, e.x["mem"], e.x["buf"])
        elif e.name == "copy":
            q, qn = s.ptr(e.args[2], env); S = M.snap()
            M.write(o, n, S.read(q, qn)); M.alias(B, S, ("E", q, qn))
        elif e.name == "push":
            k = int(M.read(o, n))
            el = e.x.get("elem"); mem = e.x.get("mem")
            if el is None and e.x.get("tmem") is not None: el = Ptr(e.x["tobj"], ZERO); mem = e.x["tmem"]
            if el is None: raise NoValue("appended element")
            sc = scalars(s.L.m, T) if not T.endswith("*") else None
            if sc is None: s.push_object(T, B, k * sz, el, mem, env, e.x.get("src"))
            else:
                for off, w, ty in sc: M.write(B, k * sz + off, s.num(s.L.it.read(mem, el.obj, el.off + off, w, ty), env))
            M.write(o, n, k + 1)
            if e.x.get("tag"): s.havocs[e.x["tag"]] = M.snap()
        elif e.name == "pop": M.write(o, n, int(M.read(o, n)) - 1)
        elif e.name == "resize":
            k = int(num_eval(e.args[1], env)); old = int(M.read(o, n)); M.write(o, n, k)
            sc = scalars(s.L.m, T) if not T.endswith("*") else None
            if k > old and sc is None: raise NoValue("elements of " + T)
            if e.x.get("mem") is not None and k <= 10000: elems(old, k, e.x["mem"], e.x["buf"])
            else:
                for i in range(old, k):
                    for off, w, ty in sc: M.write(B, i * sz + off, None)
        elif e.name in ("insert", "erase"):
            k = int(M.read(o, n)); sc = scalars(s.L.m, T) if not T.endswith("*") else None
            po, px = s.ptr(e.args[1], env); cnt = int(num_eval(e.args[2], env))
            if sc is None or po != B or k > 10000 or px % sz: raise NoValue("elements of " + T)
            at = px // sz; old = [[M.read(B, i * sz + off) if not s.lost(B, i * sz + off) else None for off, w, ty in sc] for i in range(k)]
            if e.name == "erase": new = old[:at] + old[at + cnt:]
            else:
                rest = e.x.get("rest") or ()
                if at > k: raise NoValue("inserted elements")
                if len(rest) == 2 and isinstance(leaves_first(rest[0]), Ptr):       # a range
                    ro, rx = s.ptr(rest[0], env)
                    row = [[M.read(ro, rx + i * sz + off) if not s.lost(ro, rx + i * sz + off) else None for off, w, ty in sc] for i in range(cnt)]
                    new = old[:at] + row + old[at:]
                elif e.x.get("mem") is None or cnt != 1: raise NoValue("inserted elements")
                else: new = old[:at] + [[s.num(s.L.it.read(e.x["mem"], e.x["buf"], P(off), w, ty), env) for off, w, ty in sc]] + old[at:]
            for i, row in enumerate(new):
                for (off, w, ty), v in zip(sc, row): M.write(B, i * sz + off, v)
            M.write(o, n, len(new))
            if e.x.get("tag"): s.havocs[e.x["tag"]] = M.snap()
        elif e.name == "swap":
            q, qn = s.ptr(e.args[1], env); S = M.snap(); a, b = S.read(o, n), S.read(q, qn)
            M.write(o, n, b); M.write(q, qn, a); M.alias(B, S, ("E", q, qn)); M.alias(("E", q, qn), S, B)
        else: raise NoValue("vector " + e.name)
