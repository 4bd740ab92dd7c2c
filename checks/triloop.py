"""Loops over the triangles of a mesh: which triangles they visit, under which condition."""
from common import *
from ident import *

class TriLoop:
    def __init__(s, L, r, k):
        s.L = L; s.k = k; s.nt0 = None
        s.st = L.st
        s.T = ("MT", k); s.V = ("MV", k)
        s.loops = {}
        for e, fors in walk(r.ev):
            if isinstance(e, Ev) and e.kind == "mesh" and e.args[0] == k and e.name in ("is_unlinked", "get_triangle") and isinstance(e.args[1], Poly):
                for F in fors:
                    if occurs(e.args[1], atom_of(F.k)): s.loops.setdefault(id(F), (F, e.args[1]))
    def split(s, fors):
        """(loop over triangles (For, index), inner loops) for a nest of loops"""
        for i, F in enumerate(fors):
            if id(F) in s.loops: return s.loops[id(F)], fors[i + 1:]
        return None, fors
    def flag(s, idx): return s.L.it.read(Mem("init", None, s.T), s.T, idx.scale(16) + 12, 4, "i32")
    def live(s, idx): return c_not(to_cond(s.flag(idx)))
    def index(s, idx, n): return s.L.it.read(Mem("init", None, s.T), s.T, idx.scale(16) + 4 * n, 4, "i32")
    def corners(s, lp):
        r = []
        for n in range(3):
            ix = s.index(lp[1], n)
            r.append([s.L.it.read(Mem("init", None, s.V), s.V, ix.scale(24) + 8 * j, 8, "double") for j in range(3)])
        return r
    def complete(s, lp, nt):
        """the loop visits every index in [0, nt) exactly once: True/None"""
        F, idx = lp
        if not F.exact or F.trip is None: return None
        a = atom_of(F.k); co = idx.coeffs_in(a)
        if set(co) - {0, 1} or not co[1].is_const() or abs(co[1].const()) != 1: return None
        c0 = co.get(0, ZERO)
        if co[1].const() == 1: ok = c0.is_zero() and F.trip == nt
        else: ok = c0 == nt - 1 and F.trip == nt
        return True if ok else None
    def inner_guard(s, e, lp):
        """the event's condition without the loop test and the live test"""
        F, idx = lp
        g = trip_free(e.guard, [F])
        return restrict(g, s.live(idx))
    def coverage(s, c, key, e, fors, lp, r, effect, extra=None, **kw):
        """live triangles only, and all of them: proved from the loop's shape, refuted by a small instance of the summary"""
        F, idx = lp
        nt = A("nt", s.L.mm.names[s.k], ints=True)
        live = s.live(idx)
        g = trip_free(e.guard, fors)
        why = None
        if not implies(g, live): why = "the path is not guarded by the removal flag: condition %s" % (g,)
        elif s.complete(lp, nt) is not True: why = "loop range 0..%s, index %s" % (F.trip, idx)
        elif F.guard != ONE: why = "the loop runs only if %s" % (F.guard,)
        if why is None: c.decide(True, key, "loop over all triangles, guarded by the removal flag", e); return True
        import small
        w = small.missed(s.L, r, s.k, effect, extra=extra, **kw)
        if w: c.refuted(key, w[0] + " (" + why[:200] + ")", w[1] or e); return False
        c.unknown(key, why[:300], e); return None

def touches(g, fl):
    ps = set(p.id for p in preds_of(fl)) if isinstance(fl, Node) else set()
    return any(p.id in ps for p in preds_of(g)) if isinstance(g, Node) else False

def wrong_range(F, idx, nt):
    """witness that the loop does not enumerate 0..nt-1"""
    if not F.exact or F.trip is None: return None
    if free_atoms(F.trip, idx) and set(free_atoms(F.trip)) - {atom_of(nt)}: return None
    a = atom_of(F.k)
    if set(free_atoms(idx)) - {a, atom_of(nt)}: return None
    for v in (1, 2, 3, 5):
        try:
            n = num_eval(F.trip, {atom_of(nt): v})
            got = sorted(num_eval(idx, {atom_of(nt): v, a: i}) for i in range(int(n)))
        except NoValue: return None
        if got != list(range(v)): return "with %d triangles the loop visits the indices %s" % (v, got)
    return None

def nest(fors, e, env, f):
    """enumerate the instances of one event inside the loops fors"""
    if not fors:
        if e.guard == ONE or num_eval(e.guard, env) != 0: f(e, env)
        return
    F = fors[0]
    if F.trip is None or not F.exact: raise NoValue("loop")
    n = int(num_eval(F.trip, env)); a = atom_of(F.k)
    for i in range(n):
        env[a] = i; nest(fors[1:], e, env, f)
    env.pop(a, None)
