"""Witnesses: a symbolic summary read off for meshes with one to three triangles, some of them removed."""
import itertools
from common import *
from ident import *
from triloop import *

PTS = [(0, 0, 0), (3, 0, 0), (0, 4, 0), (1, 1, 5), (-2, 1, 1), (2, -3, 1), (7, 5, -1), (1, 8, 2), (-4, -4, 3)]

class Small:
    """content of one mesh: triangles (i,j,k,removed) over points"""
    def __init__(s, L, k, tris, pts=None):
        s.L = L; s.k = k; s.tris = tris; s.T = num_obj(("MT", k), {}); s.V = num_obj(("MV", k), {}); s.pts = pts or PTS[:max([3 * len(tris)] + [1])]
    def table(s, o, n):
        if o == s.T and 0 <= n < 16 * len(s.tris) and n % 4 == 0: return s.tris[n // 16][(n % 16) // 4]
        if o == s.V and 0 <= n < 24 * len(s.pts) and n % 8 == 0: return s.pts[n // 24][(n % 24) // 8]
        return None
    def atoms(s):
        nm = s.L.mm.names[s.k]
        return {atom_of(A("nt", nm, ints=True)): len(s.tris), atom_of(A("nv", nm, ints=True)): len(s.pts)}

def env_of(smalls, extra=None, near=None, others=None):
    env = {}
    for s in smalls: env.update(s.atoms())
    def tab(o, n, e):
        for s in smalls:
            v = s.table(o, n)
            if v is not None: return v
        if others:
            v = others(o, n, e)
            if v is not None: return v
        raise NoValue("content %s %s" % (fmt_obj(o), n))
    rd = mem_reader(tab)
    def at(a, e):
        if a.kind == "near" and near: return near(a, e)
        if a.kind == "fld": return 7        # a data member of an argument: any value is an input
        return rd(a, e)
    env["atoms"] = at
    env.update(extra or {})
    return env

def flags(nmax=3):
    for n in range(1, nmax + 1):
        for fl in itertools.product((0, 1), repeat=n): yield fl
def mesh_of(fl, share=False):
    return [(3 * i, 3 * i + 1, 3 * i + 2, f) for i, f in enumerate(fl)]

def touched(x, k, env):
    """indices of the triangles of mesh k whose cells occur in the term"""
    r = set()
    for a in deep_atoms(x):
        if a.kind == "ld" and a.args[0] == "i" and a.args[1] == ("MT", k): r.add(int(num_eval(a.args[2], env)) // 16)
    return r
def terms(e): return tuple(x for x in (list(e.args) + [e.ret, e.x.get("pos"), e.x.get("val")]) if x is not None and not isinstance(x, (str,))) if e.kind != "mesh" or e.name != "get_triangle" else ()
def flat(x):
    if isinstance(x, (list, tuple)): return tuple(flat(y) for y in x)
    return x

def run_small(r, env, want=None):
    """[(event, env copy)] of a summary"""
    out = []
    def f(e, en):
        if want is None or want(e): out.append((e, flat(terms(e)), dict(en)))
    num_events(r.ev, env, f)
    return out

def root(o):
    while isinstance(o, tuple) and o and o[0] in ("E", "S", "MV", "MT", "M", "D") and len(o) > 1:
        o = o[1][0] if o[0] in ("MV", "MT", "M", "S") else o[1]
    return o
def targets(e):
    """objects an event changes"""
    if e.kind == "mesh": return [] if e.name in ("is_unlinked", "get_triangle", "get_vertex") else [e.args[0][0]]
    if e.kind in ("store", "vec", "copy", "io"):
        a = e.args[0]
        if e.kind == "io": return [] if e.name in ("query", "tell") else [("io",)]
        return [root(l.obj) for l in leaves(a) if isinstance(l, Ptr)]
    if e.kind in ("call", "vcall", "draw", "meshop"): return [("effect",)]
    return []
def visible(e):
    """the event changes something outside the function's own locals"""
    return any(t[0] not in ("alloca",) for t in targets(e))

def tri_effects(TL, evs, effect):
    """[(event, enclosing loops, index terms of the triangles it is executed for)]"""
    out = []
    for e, fors in walk(evs):
        if not isinstance(e, Ev) or not effect(e): continue
        ix = [TL.loops[id(F)][1] for F in fors if id(F) in TL.loops]
        tch = [a.args[2] for a in deep_atoms(flat(terms(e))) if a.kind == "ld" and a.args[1] == TL.T]
        if ix or tch: out.append((e, fors, ix))
    return out

def missed(L, r, k, effect, need_all=True, extra=None, **kw):
    """witness that the effects use removed triangles or leave out live ones: (text, event) or None"""
    TL = TriLoop(L, r, k)
    at = {id(e): ix for e, fors, ix in tri_effects(TL, r.ev, effect)}
    for fl in flags():
        sm = Small(L, k, mesh_of(fl))
        env = env_of([sm], extra, **kw)
        seen = {}
        try:
            def f(e, en):
                if id(e) in at:
                    for i in touched(flat(terms(e)), k, en) | {int(num_eval(x, en)) for x in at[id(e)]}: seen.setdefault(i, e)
            num_events(r.ev, env, f)
        except NoValue as x:
            if L.c.debug: print('NoValue', fl, x)
            continue
        txt = "with %d triangles of which %s removed, " % (len(fl), [i for i, x in enumerate(fl) if x])
        for i, e in seen.items():
            if i < len(fl) and fl[i]: return txt + "triangle %d is still used" % i, e
        if need_all:
            for i, x in enumerate(fl):
                if not x and i not in seen: return txt + "live triangle %d is left out" % i, None
    return None

def invisible(c, key, L, r, k, effect=visible, need_all=False, loc="", extra=None, **kw):
    """removed triangles have no influence on the effects of the run"""
    TL = TriLoop(L, r, k); effs = tri_effects(TL, r.ev, effect)
    bad = None
    for e, fors, ix in effs:
        g = e.guard
        lives = [TL.live(x) for x in ix]
        for a in deep_atoms(flat(terms(e))):
            if a.kind == "ld" and a.args[1] == TL.T and a.args[0] == "i":
                q, rem = a.args[2], None
                c0 = q.const(); q16 = (q - c0)
                if all(Fraction(x) % 16 == 0 for x in q16.t.values()): lives.append(TL.live(q16.scale(Fraction(1, 16)) + int(c0) // 16))
        if not all(implies(trip_free(g, fors), l) for l in lives): bad = ("%s %s is not guarded by the removal flag" % (e.kind, e.name), e); break
    c.count("effects", len(effs))
    if not effs:
        c.unknown(key, "no effect depends on the triangles", loc); return None
    if bad is None:
        c.proved(key, "%d effects, each guarded by the removal flag of its triangle" % len(effs), effs[0][0])
        if need_all:
            nt = A("nt", L.mm.names[k], ints=True); part = None
            for lp in TL.loops.values():
                if TL.complete(lp, nt) is not True or not (lp[0].guard == ONE or all(p.kind == "b" and str(p.key[0]).startswith("io") for p in preds_of(lp[0].guard))): part = lp[0]
            if part is None:
                c.proved(key + ".all", "%d loops over all the triangles" % len(TL.loops), effs[0][0]); need_all = False
    w = None
    if bad is not None or need_all:
        w = missed(L, r, k, effect, need_all, extra, **kw)
    if w: c.refuted(key if bad else key + ".all", w[0], w[1] or (bad[1] if bad else loc)); return False
    if not bad and need_all: c.unknown(key + ".all", "the loop over the triangles may stop early (range 0..%s)" % (part.trip,), loc)
    if bad: c.unknown(key, bad[0], bad[1])
    return None
