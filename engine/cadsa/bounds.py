"""Non-negativity of integer terms under linear and product facts.

nonneg(e, facts): e >= 0 whenever every fact is >= 0.  The argument is a substitution: a fact f >= 0 that is linear in
an atom x with coefficient +-1 is solved for x (x = rest +- s, s >= 0 a fresh slack); once every term of e has a
non-negative coefficient over atoms that are known non-negative, e is non-negative.  Sound, not complete."""
from fractions import Fraction
from .poly import *
from .val import *
from . import val as _v

_slack = [0]
def slack():
    _slack[0] += 1
    s = A("slack", _slack[0], ints=True); declare_nonneg(s); return s

def obviously(e, nn=()):
    for m, c in e.t.items():
        if c < 0: return False
        for a, k in m:
            if a in _v._nonneg or a in nn or k % 2 == 0: continue
            return False
    return True

def derived(x, facts=(), depth=0):
    """facts that hold for the quotients, remainders and shifts inside the terms, given the facts"""
    out = []; seen = set(); work = [x] + list(facts)
    while work:
        p = work.pop()
        if not isinstance(p, Poly): continue
        for a in sorted(p.atoms()):
            if a in seen: continue
            seen.add(a); at = atom_by_id(a)
            if at.kind in ("srem", "sdiv") and isinstance(at.args[0], Poly) and isinstance(at.args[1], Poly):
                n, d = at.args[0], at.args[1]
                work += [n, d]
                if depth > 3: continue
                q = P(at)
                dpos = (d.is_const() and d.const() > 0) or nonneg(d - 1, facts, depth + 1)
                if not dpos: continue
                if at.kind == "sdiv" and nonneg(q - 1, [f for f in facts if isinstance(f, Poly)], depth + 1): out.append(n - d * q)
                npos = nonneg(n, facts, depth + 1)
                if at.kind == "srem":
                    out.append(d - 1 - q)
                    out += [q, n - q] if npos else [q + d - 1]
                elif npos: out += [q, n - d * q, d * q + d - 1 - n]
                else: out += [n + d - 1 - d * q] if d.is_const() else []
            elif at.kind == "and" and any(isinstance(y, Poly) and y.is_const() and y.const() >= 0 for y in at.args):
                out += [P(at)] + [y - P(at) for y in at.args if isinstance(y, Poly) and y.is_const() and y.const() >= 0]
            elif at.kind == "shr" and isinstance(at.args[0], Poly) and isinstance(at.args[1], Poly) and at.args[1].is_const():
                n = at.args[0]; d = 1 << int(at.args[1].const()); work.append(n); q = P(at)
                out += [n - d * q, d * q + d - 1 - n]
    return out

def nonneg(e, facts, depth=0, budget=None):
    if obviously(e): return True
    if e.is_const(): return e.const() >= 0
    b = budget if budget is not None else [4000]
    fs = [f for f in list(facts) + derived(e, facts, depth) if not f.is_const()]
    return _go(e, fs, b, set(), 0)

def _linear(f, a):
    """coefficient +-1 of atom a in f, if f is linear in it and the rest does not contain it"""
    c = None
    for m, k in f.t.items():
        for x, p in m:
            if x == a:
                if p != 1 or len(m) != 1: return None
                c = k
    return c if c in (1, -1) else None

def _go(e, fs, b, seen, depth):
    if obviously(e): return True
    if e.is_const(): return e.const() >= 0
    if depth > 9 or b[0] <= 0: return False
    key = (e, frozenset(fs))
    if key in seen: return False
    seen.add(key); b[0] -= 1
    # a fact that dominates e outright
    for f in fs:
        if obviously(e - f): return True
    need = []          # atoms in terms that spoil the sign
    for m, c in sorted(e.t.items()):
        for a, k in m:
            bad = (a not in _v._nonneg and k % 2) or c < 0
            if bad and a not in need: need.append(a)
    for a in need:
        for f in fs:
            c = _linear(f, a)
            if c is None: continue
            s = slack()
            # f = c*a + r >= 0, f = s  ->  a = c*(s - r)
            r = f - P(atom_by_id(a)).scale(c)
            x = (s - r).scale(c)
            fn = lambda z: x if z == a else P(atom_by_id(z))
            e2 = _sub(e, a, x)
            f2 = [g for g in (_sub(g, a, x) for g in fs if g is not f) if not obviously(g)]
            if a in _v._nonneg: f2.append(x)
            if _go(e2, f2, b, seen, depth + 1): return True
    return False

def _sub(p, a, x):
    if a not in p.atoms(): return p
    r = ZERO
    for m, c in p.t.items():
        t = num(c)
        for z, k in m:
            y = x if z == a else P(atom_by_id(z))
            t = t * (y ** k if k > 0 else inv(y) ** (-k)) if k != 1 else t * y
        r = r + t
    return r

def facts_of(path):
    """facts >= 0 of a conjunction [(pred, bool)] over integers, plus pairs that make an equality"""
    out = []
    for q, v in path:
        if q.kind != "gt": continue
        if q.isint or int_terms(q.poly): out.append(q.poly - 1 if v else -q.poly)
    return out
def int_terms(p):
    return all(not isinstance(c, Fraction) and all(e > 0 and atom_by_id(a).ints for a, e in m) for m, c in p.t.items())
def equalities(path):
    """substitutions {atom: poly} forced by e <= 0 and -e <= 0"""
    sub = {}
    neg = [q.poly for q, v in path if q.kind == "gt" and q.isint and not v]
    for i, p in enumerate(neg):
        for q in neg[:i]:
            if not (p + q).is_zero(): continue
            for a in p.atoms():
                c = _linear(p, a)
                if c is not None and a not in sub:
                    sub[a] = (P(atom_by_id(a)).scale(c) - p).scale(c); break
    return sub
def loop_facts(fors):
    out = []
    for F in fors:
        out.append(F.k)
        if F.trip is not None and isinstance(F.trip, Poly): out.append(F.trip - 1 - F.k)
    return out

def holds(e, guard, fors=(), extra=(), limit=300):
    """e >= 0 under the guard inside the loops: (True, None) or (False, path that is not covered)"""
    import itertools
    from .val import guard_paths
    def paths(v):
        out = []
        def go(v, acc):
            if len(out) > limit: return
            if not isinstance(v, Node):
                if v == ONE: out.append(list(acc))
                return
            go(v.hi, acc + [(pred(v.p), True)]); go(v.lo, acc + [(pred(v.p), False)])
        go(v, []); return out
    ps = paths(guard)
    if len(ps) > limit: return False, None
    for p in ps:
        eq = equalities(p)
        fs = facts_of(p) + loop_facts(fors) + list(extra)
        if isinstance(e, Node):
            x = e
            for q, v in p: x = assume(x, q.id, v)
            cs = [(p2, l) for p2, l in _leafpaths(x)]
        else: cs = [([], e)]
        for p2, x in cs:
            if not isinstance(x, Poly): return False, p + p2
            f2 = fs + facts_of(p2)
            if eq:
                x = subst(x, eq); f2 = [subst(f, eq) for f in f2]
            if not isinstance(x, Poly): return False, p + p2
            if not nonneg(x, [f for f in f2 if isinstance(f, Poly)]): return False, p + p2
    return True, None
def _leafpaths(v):
    out = []
    def go(v, acc):
        if not isinstance(v, Node): out.append((acc, v)); return
        go(v.hi, acc + [(pred(v.p), True)]); go(v.lo, acc + [(pred(v.p), False)])
    go(v, []); return out
