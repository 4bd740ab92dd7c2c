"""Model of the mesh storage (the kernel interface of Mesh) as value-numbered containers.

Calls to the kernel's virtual methods are resolved through the vtable installed by Mesh's own constructor;
every method of the kernel interface is a primitive of the model.  That the kernel's implementation meets the
model is a separate obligation (deciders.kernel_contract), decided on the kernel's code without the model."""
import re
from .poly import *
from .val import *
from .ir import AnalysisError
from .interp import *
from . import interp as _i

class MeshModel:
    """models for Interp + access helpers"""
    def __init__(s, module):
        s.m = module
        s.names = {}; s.classes = set()
        s.record_nv = False      # keep the number of vertices at every added triangle
        s.record_pos = False     # keep the corner positions of every added triangle
        s.pt = s.point_layout()
    def point_layout(s):
        d = {n.strip("_").lower(): o for n, o, t, _ in s.m.fields("Point3") if t == "double"}
        if not all(c in d for c in "xyz"): raise AnalysisError("anchor vanished: Point3 coordinates")
        return [d[c] for c in "xyz"]
    KM = re.compile(r"^(MeshKernel\w*)::(clear|nb_vertices|add_vertex|set_vertex|get_vertex|nb_triangles|add_triangle|get_triangle_vertices|unlink_triangle|is_triangle_unlinked|get_near_triangles|get_triangles_near_edge)\(")
    KC = re.compile(r"^(MeshKernel\w*)::\1\(\)$")
    def models(s):
        return {s.KM: s.kernel, s.KC: s.fresh}
    def fresh(s, it, c):
        """constructor of a kernel: the store starts empty (the constructor itself is analysed as well)"""
        for l in leaves(c.args[0]):
            if isinstance(l, Ptr):
                k = (l.obj, l.off)
                s.setcount(it, c.st, k, 0, ZERO); s.setcount(it, c.st, k, 8, ZERO)
                for q in (("MV", k), ("MT", k)):
                    it.setmem(c.st, q, Mem("undef", None, None)); it.note_write(q, None, None)
        return NotImplemented
    # ---- storage
    def cell(s, k): return ("M", k)
    def count(s, it, st, k, off):
        it.cache_model[("vec", s.cell(k), P(off))] = True
        return it.read(it.getmem(st, s.cell(k)), s.cell(k), P(off), 8, "vs")
    def setcount(s, it, st, k, off, v):
        o = s.cell(k)
        it.cache_model[("vec", o, P(off))] = True
        m = it.getmem(st, o)
        w = {P(0): None, P(8): None}
        it.store(st, Ptr(o, P(off)), v, 8, ev=False)
    def nv(s, it, st, k): return s.count(it, st, k, 0)
    def nt(s, it, st, k): return s.count(it, st, k, 8)
    def kernel(s, it, c):
        mm = s.KM.match(c.dn)
        meth = mm.group(2); st = c.st; s.classes.add(mm.group(1))
        ls = [l for l in leaves(c.args[0]) if isinstance(l, Ptr)]
        if len(ls) != 1: raise Unsupported("ambiguous mesh kernel")
        k = (ls[0].obj, ls[0].off)
        V = ("MV", k); T = ("MT", k)
        a = c.args
        def ev(name, *args, ret=None): return it.emit("mesh", name, [k] + list(args), ret=ret)
        def idx(i, stride, off): return apply(lambda x: Ptr(None, P(x).scale(stride) + off) if isinstance(x, Poly) else Ptr(None, A("badidx", x)), i)
        def at(obj, i, stride, off): return apply(lambda x: Ptr(obj, (x if isinstance(x, Poly) else A("badidx", x)).scale(stride) + P(off)), i)
        if meth == "clear":
            s.setcount(it, st, k, 0, ZERO); s.setcount(it, st, k, 8, ZERO)
            it.setmem(st, V, Mem("undef", None, None)); it.setmem(st, T, Mem("undef", None, None))
            it.note_write(V, None, None); it.note_write(T, None, None)
            ev("clear"); return None
        if meth == "nb_vertices": return s.nv(it, st, k)
        if meth == "nb_triangles": return s.nt(it, st, k)
        if meth in ("add_vertex", "set_vertex"):
            p = a[1] if meth == "add_vertex" else a[2]
            co = [it.load(st, apply(lambda q, o=o: Ptr(q.obj, q.off + o), p), 8, "double") for o in s.pt]
            i = s.nv(it, st, k) if meth == "add_vertex" else a[1]
            if isinstance(i, Node): i = restrict(i, it.guard)
            for n, x in enumerate(co): it.store(st, at(V, i, 24, 8 * n), x, 8, ev=False)
            if meth == "add_vertex":
                s.setcount(it, st, k, 0, it.arith("add", i, ONE, c.i))
                ev("add_vertex", co, ret=i); return i
            ev("set_vertex", i, co); return None
        if meth == "get_vertex":
            ev("get_vertex", a[1])
            for n, o in enumerate(s.pt):
                v = it.load(st, at(V, a[1], 24, 8 * n), 8, "double")
                it.store(st, apply(lambda q: Ptr(q.obj, q.off + o), a[2]), v, 8)
            return None
        if meth == "add_triangle":
            i = s.nt(it, st, k)
            if isinstance(i, Node): i = restrict(i, it.guard)
            for n in range(3): it.store(st, at(T, i, 16, 4 * n), a[1 + n], 4, ev=False)
            it.store(st, at(T, i, 16, 12), ZERO, 4, ev=False)
            s.setcount(it, st, k, 8, it.arith("add", i, ONE, c.i))
            e = ev("add_triangle", a[1], a[2], a[3], ret=i)
            if s.record_nv: e.x["nv"] = s.nv(it, st, k)
            if s.record_pos:
                def pos(x):
                    try: return [it.load(st, at(V, x, 24, 8 * n), 8, "double") for n in range(3)]
                    except Blowup: return None
                e.x["pos"] = [pos(a[1 + n]) for n in range(3)]
            return i
        if meth == "get_triangle_vertices":
            ev("get_triangle", a[1])
            for n in range(3):
                v = it.load(st, at(T, a[1], 16, 4 * n), 4, "i32")
                it.store(st, a[2 + n], v, 4)
            return None
        if meth == "unlink_triangle":
            it.store(st, at(T, a[1], 16, 12), ONE, 4, ev=False); ev("unlink", a[1]); return None
        if meth == "is_triangle_unlinked":
            v = it.load(st, at(T, a[1], 16, 12), 4, "i32")
            ev("is_unlinked", a[1], ret=v)
            return to_cond(v)
        if meth == "get_near_triangles":
            for n in range(3): it.store(st, a[2 + n], A("near", k, a[1], n, ints=True), 4)
            return None
        if meth == "get_triangles_near_edge": return opaque_bool(("nearedge", k) + tuple(a[1:3]))
        raise Unsupported(c.dn)

def quiet_call(it, st, f, args, tag):
    """run f as part of the set-up of a state (no events recorded)"""
    save = (it.out, it.guard, it.ctx, it.kst, it.stack, getattr(it, "curf", None), getattr(it, "cur", None))
    it.out = []; it.guard = ONE; it.ctx = (("setup", tag),); it.kst = (); it.stack = []
    it.curf = f; it.cur = None
    r = it.call_func(f, args, st)
    ev = it.out
    it.out, it.guard, it.ctx, it.kst, it.stack, it.curf, it.cur = save
    return r, ev

def new_mesh(it, mm, st, name, fresh=False):
    """a Mesh argument object with arbitrary content (or empty when fresh); returns (pointer, kernel key)"""
    o = ("arg", name)
    p = Ptr(o, ZERO)
    f = it.m.find("Mesh::Mesh()")
    st.mem[o] = Mem("init", None, o)
    quiet_call(it, st, f, [p], name)
    k = kernel_of(it, st, p)
    if not fresh:
        nv = A("nv", name, ints=True); nt = A("nt", name, ints=True)
        declare_nonneg(nv); declare_nonneg(nt)
        mm.setcount(it, st, k, 0, nv); mm.setcount(it, st, k, 8, nt)
        # all non-pointer fields of the Mesh object are arbitrary
        for n, off, T, sz in it.m.fields("Mesh"):
            if T in ("int", "double", "bool", "unsigned int"):
                it.store(st, Ptr(o, P(off)), A("fld", name, n, ints=T != "double"), sz, ev=False)
        for q in (("MV", k), ("MT", k)): st.mem[q] = Mem("init", None, q)
    else:
        mm.setcount(it, st, k, 0, ZERO); mm.setcount(it, st, k, 8, ZERO)
        for q in (("MV", k), ("MT", k)): st.mem[q] = Mem("undef", None, None)
    mm.names[k] = name
    return p, k

def kernel_of(it, st, p):
    """the kernel object a Mesh points to"""
    for n, off, T, sz in it.m.fields("Mesh"):
        if T.endswith("*") and not n.startswith("_vptr"):
            v = it.load(st, Ptr(p.obj, p.off + off), 8, "ptr")
            for l in leaves(v):
                if isinstance(l, Ptr) and l.obj[0] == "heap": return (l.obj, l.off)
    raise AnalysisError("mesh kernel object not found")
