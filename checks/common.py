"""Shared set-up for the deciders: symbolic objects, calls, reading results back."""
import os, sys, math
from fractions import Fraction
from cadsa.poly import *
from cadsa import poly as _p
from cadsa.val import *
from cadsa.ir import AnalysisError
from cadsa.interp import *
from cadsa.interp import div_int, is_int_poly
from cadsa.mesh import *
from cadsa.chain import *

class Lab:
    """one symbolic state and one interpreter"""
    def __init__(s, c, models=None, mesh=True, **kw):
        s.c = c; s.m = c.m
        s.mm = MeshModel(c.m)
        ms = dict(s.mm.models()) if mesh else {}
        ms.update(models or {})
        s.it = Interp(c.m, ms, **kw); s.st = State(); s.n = 0
        s.it.curf = None; s.it.cur = None
    # ---- objects
    def obj(s, name): return Ptr(("arg", name), ZERO)
    def mesh(s, name, fresh=False):
        p, k = new_mesh(s.it, s.mm, s.st, name, fresh); return p
    def kernel(s, p): return kernel_of(s.it, s.st, p)
    def nv(s, p): return s.mm.nv(s.it, s.st, s.kernel(p))
    def nt(s, p): return s.mm.nt(s.it, s.st, s.kernel(p))
    def new(s, T, name, ctor=None, *args):
        """default-constructed object of class T"""
        p = s.obj(name); b = T.split("::")[-1]
        s.st.mem[p.obj] = Mem("undef", None, None)
        s.call(ctor or "%s::%s()" % (T, b), p, *args)
        return p
    def int_(s, name, plus=0):
        x = A("arg", name, ints=True); declare_nonneg(x); return x + plus
    def real(s, name): return A("arg", name)
    def point(s, name, co=None):
        """a Point3 object with the given (or symbolic) coordinates"""
        p = s.obj(name)
        s.st.mem[p.obj] = Mem("undef", None, None)
        co = co or [A("arg", name + "." + a) for a in "xyz"]
        for o, v in zip(s.mm.pt, co): s.it.store(s.st, Ptr(p.obj, P(o)), v, 8, ev=False)
        return p
    def coords(s, p): return [s.it.load(s.st, bind(lambda q, o=o: Ptr(q.obj, q.off + o), p), 8, "double") for o in s.mm.pt]
    def out(s, name):
        p = s.obj(name); s.st.mem[p.obj] = Mem("init", None, p.obj); return p
    def load(s, p, size, ty): return s.it.load(s.st, p, size, ty)
    # ---- calls
    def find(s, dn):
        f = s.m.find(dn); s.c.functions.add(f.dn); return f
    def call(s, dn, *args, st=None, ev=False):
        f = s.find(dn) if isinstance(dn, str) else dn
        s.n += 1
        r, e = quiet_call(s.it, st if st is not None else s.st, f, list(args), s.n)
        return (r, e) if ev else r
    def run(s, dn, *args):
        f = s.find(dn) if isinstance(dn, str) else dn
        return s.it.run(f, list(args), s.st)
    def visited(s): return [s.m.funcs[n] for n in s.it.visited if s.m.in_repo(s.m.funcs[n])]

def numeric(p, env):
    """float value of a polynomial, None if it cannot be read off"""
    try: return float(num_eval(p, dict(env)))
    except (NoValue, OverflowError, ValueError, ZeroDivisionError, TypeError): return None

def atom_of(p):
    (m, c), = p.t.items(); return m[0][0]

def is_poly(*v): return all(isinstance(x, Poly) for x in v)

def zero_poly(p):
    """is the rational expression identically zero (formal, denominators non-zero)"""
    return trig_reduce(clear_denoms(p)).is_zero()

# ------------------------------------------------------------------ triangle families
def mesh_events(evs, name, k=None):
    for e, fors in walk(evs):
        if isinstance(e, Ev) and e.kind == "mesh" and e.name == name and (k is None or e.args[0] == k): yield e, fors

def tri_families(evs, k=None):
    """[(Dom, opaque, (a,b,c), event)]"""
    r = []
    for e, fors in mesh_events(evs, "add_triangle", k):
        for d, op, vs in normalise_event(e, fors, e.args[1:4]): r.append((d, op, vs, e))
    return r

def numeric_tris(evs, env, k=None):
    out = []
    def f(e, en):
        if e.kind == "mesh" and (k is None or e.args[0] == k):
            if e.name == "add_triangle": out.append((tuple(int(num_eval(x, en)) for x in e.args[1:4]), e))
            elif e.name == "clear": out.clear()
            elif e.name == "unlink": raise NoValue(e.name)
    num_events(evs, dict(env), f)
    return out

def edge_defect(tris):
    """None if the index triples form a closed consistently oriented surface, else a description"""
    cnt = {}
    for t, e in tris:
        if len(set(t)) < 3: return "triangle %s uses a vertex twice" % (t,), e
        for j in range(3): cnt.setdefault((t[j], t[(j + 1) % 3]), []).append(e)
    for (u, v), es in cnt.items():
        if len(es) > 1: return "directed edge %d->%d is used by %d triangles" % (u, v, len(es)), es[1]
        if (v, u) not in cnt: return "edge %d->%d has no opposite edge" % (u, v), es[0]
    return None

def thresholds(evs, lo=4, hi=400):
    """integer constants the loops and conditions of a summary compare with (sizes at which it may change its behaviour)"""
    out = set(); seen = set(); done = set()
    def poly(p):
        cs = [abs(c) for mm, c in p.t.items() if mm]
        k = abs(p.t.get((), 0))
        for d in set(cs) | {1}:
            try: x = Fraction(k) / Fraction(d)
            except (TypeError, ValueError): continue
            if lo < x < hi: out.add(int(x))
        for a in p.atoms(): go(atom_by_id(a))
    def go(x):
        if isinstance(x, Poly):
            for a in x.atoms(): go(atom_by_id(a))
        elif isinstance(x, Atom):
            if x.id in done: return
            done.add(x.id)
            for y in x.args:
                if isinstance(y, Poly): poly(y)
                else: go(y)
        elif isinstance(x, Node):
            if id(x) in seen: return
            seen.add(id(x)); pr = pred(x.p)
            if pr.kind == "gt": poly(pr.poly)
            else: go(pr.key)
            go(x.hi); go(x.lo)
        elif isinstance(x, Ptr): go(x.off)
        elif isinstance(x, (tuple, list)):
            for y in x: go(y)
    def rec(b):
        for e in b:
            if isinstance(e, For): go(e.trip); go(e.guard); go([x[0] for x in e.exits or ()]); rec(e.body)
            else: go(e.guard); go(e.args)
    rec(evs)
    return sorted(out)

def probe_sizes(evs, base=(1, 2, 3, 5), cap=40):
    """small sizes, then sizes around the constants the summary compares with"""
    yield from base
    s = set()
    for c in thresholds(evs):
        for k in (1, 2, 4):
            for d in (-1, 0, 1, 2): s.add(c // k + d)
    s |= {4, 6, 7, 8, 9, 12, 17}
    for v in sorted(s):
        if 0 < v <= cap and v not in base: yield v
    big = [v for c in thresholds(evs, hi=130) for v in (c + 2, c + 1, c) if v > cap] + [c // 4 + 1 for c in thresholds(evs) if cap < c // 4 + 1 < 100]
    yield from dict.fromkeys(big[:8])

def count_family(dom):
    """number of points of a domain as a polynomial"""
    r = ONE
    for aid, lo, hi in reversed(dom.loops):
        if occurs(r, aid):
            k = atom_by_id(aid)
            s = faulhaber(r, aid, P(k))
            if s is None: raise Und("family size")
            r = Subst({aid: hi}).any(s) - Subst({aid: lo}).any(s)
        else: r = r * (hi - lo)
    return r
