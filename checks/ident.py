"""Deciding equality of summaries: canonical normal forms prove it, a numeric point of the summary refutes it."""
import random
from common import *

FREE = ("arg", "ld", "fld", "nv", "nt", "vs", "free", "mu", "rd", "out", "near", "call", "sym", "kexit")

def free_atoms(*xs):
    """atoms that stand for independent unknowns of the terms"""
    out = set(); seen = set()
    def go(x):
        if isinstance(x, Poly):
            for a in x.atoms(): ga(a)
        elif isinstance(x, Node):
            if x in seen: return
            seen.add(x); pr = pred(x.p)
            go(pr.poly if pr.kind == "gt" else pr.key); go(x.hi); go(x.lo)
        elif isinstance(x, (tuple, list)):
            for y in x: go(y)
    def ga(a):
        if a in seen: return
        seen.add(a)
        at = atom_by_id(a)
        if at.kind in FREE: out.add(a)
        else:
            for y in at.args: go(y)
    for x in xs: go(x)
    return sorted(out)

def tainted(*xs):
    """an unknown of the analysis (result of an opaque call, loop-carried value, overwritten memory) occurs in the terms:
    its value is not free, so a numeric point of the term is no evidence"""
    for a in deep_atoms(tuple(xs)):
        if a.kind in ("mu", "out", "call", "part", "badload", "badidx", "kexit", "nodiff"): return True
        if a.kind == "ld" and a.args[0] != "i": return True
    return False

def paths(v, limit=400):
    """[(conjunction, leaf)]"""
    out = []
    def go(v, acc):
        if len(out) >= limit: raise Und("too many cases")
        if not isinstance(v, Node): out.append((list(acc), v)); return
        go(v.hi, acc + [(pred(v.p), True)]); go(v.lo, acc + [(pred(v.p), False)])
    go(v, [])
    return out

def thresholds(v):
    r = set()
    for p in preds_of(v) if isinstance(v, Node) else []:
        if p.kind == "gt" and p.form is not None: r.add(Fraction(p.thr))
    return r

POOL = [0, 1, -1, 2, -2, 3, Fraction(1, 2), Fraction(-3, 2), Fraction(7, 3), 5, -7, Fraction(1, 10), 10, 100, -50]
def samples(atoms, th=(), n=60, seed=1, pos=(), rel=None):
    rnd = random.Random(seed)
    pool = list(POOL)
    for t in th:
        for d in (0, 1, -1, Fraction(1, 4), Fraction(-1, 4)):
            if abs(t + d) < 10 ** 9: pool.append(t + d)
    for i in range(n):
        env = {}
        for a in atoms:
            at = atom_by_id(a)
            v = Fraction(rnd.randint(-40, 40), rnd.choice((1, 2, 3, 7))) if i % 3 else Fraction(rnd.choice(pool))
            if at.ints: v = int(v)
            if a in pos or a in _nn(): v = abs(v) or (0 if i % 2 else 1)
            env[a] = v
        if rel:
            env = rel(env, rnd)
            if env is None: continue
        yield env
def _nn():
    from cadsa import val
    return val._nonneg

def solve_eqs(path, env):
    """adjust env so that equalities of the path (not e>0 and not -e>0) hold where linear in a free atom"""
    neg = [p for p, v in path if not v and p.kind == "gt"]
    for i, p in enumerate(neg):
        for q in neg[:i]:
            if p.poly == -q.poly:
                for a in p.poly.atoms():
                    if a not in env: continue
                    co = p.poly.coeffs_in(a)
                    if set(co) - {0, 1}: continue
                    try:
                        c = num_eval(co[1], env)
                        if not c: continue
                        env[a] = -Fraction(num_eval(co.get(0, ZERO), env)) / Fraction(c)
                        if atom_by_id(a).ints and env[a].denominator != 1: continue
                        break
                    except (NoValue, TypeError): pass
    return env

def norm0(p, nf=None):
    """zero test of a rational expression; nf: extra normal form"""
    q = clear_denoms(p)
    q = trig_reduce(q)
    if nf: q = nf(q)
    if q.is_zero(): return True
    try: return all(abs(float(c)) < 1e-9 for c in q.t.values())
    except OverflowError: return False

def fmt_env(env):
    def f(v): return str(v) if isinstance(v, int) or (isinstance(v, Fraction) and v.denominator == 1) else "%.6g" % float(v)
    return ", ".join("%s=%s" % (fmt_atom_short(a), f(v)) for a, v in sorted(env.items()) if not isinstance(a, tuple))
def fmt_atom_short(a):
    at = atom_by_id(a)
    return str(at)[:60]

def compare(got, want, nf=None, rel=None, pos=(), domain=None, tol=1e-6, n=80, seed=1, taint_ok=False):
    """(True,'') proved equal, (False, witness) different, (None, why)"""
    if isinstance(got, (list, tuple)):
        r = True; why = ""
        for i, (g, w) in enumerate(zip(got, want)):
            x, t = compare(g, w, nf, rel, pos, domain, tol, n, seed, taint_ok)
            if x is False: return False, "component %d: %s" % (i, t)
            if x is None: r = None; why = "component %d: %s" % (i, t)
        return r, why
    try:
        d = bind2(lambda x, y: (x - y) if isinstance(x, Poly) and isinstance(y, Poly) else A("nodiff", x, y), got, want)
    except Blowup: return None, "too many cases"
    ps = paths(d)
    bad = [(p, l) for p, l in ps if not (isinstance(l, Poly) and norm0(l, nf))]
    if not bad: return True, "%d cases" % len(ps)
    if not taint_ok and tainted(got, want): return None, "depends on values the analysis does not know: %s" % str(bad[0][1])[:160]
    ats = free_atoms(d, got, want, *[a for a in pos])
    th = thresholds(d)
    for p, l in bad[:12]:
        if not isinstance(l, Poly): continue
        for env in samples(ats, th, n, seed, pos, rel):
            env = solve_eqs(p, env)
            if domain and not domain(env): continue
            try:
                if not all((num_eval(q.poly, env) > 0) == v for q, v in p if q.kind == "gt") or any(q.kind != "gt" for q, v in p): continue
                x = num_eval(got, env); y = num_eval(want, env)
                if abs(float(x) - float(y)) > tol * max(1.0, abs(float(x)), abs(float(y))):
                    return False, "got %.9g, expected %.9g at %s" % (float(x), float(y), fmt_env(env))
            except (NoValue, OverflowError, ZeroDivisionError, ValueError, TypeError): continue
    return None, "difference %s" % str(bad[0][1])[:200]

def same(c, key, got, want, loc, text="", **k):
    try: ok, why = compare(got, want, **k)
    except (Und, Blowup) as e: ok, why = None, str(e)
    return c.decide(ok, key, (text + " " if text else "") + (why or ""), loc)
