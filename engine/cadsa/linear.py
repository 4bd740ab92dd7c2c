"""Linear reasoning over integer facts (Fourier-Motzkin elimination on monomials): sound; complete for linear rational facts."""
from fractions import Fraction
from .poly import *
from . import val as _v
from math import gcd

def _row(p):
    c = {}; k = 0
    for m, x in p.t.items():
        if m == (): k = Fraction(x)
        else: c[m] = Fraction(x)
    return c, k
def _norm(c, k):
    """divide by the gcd of the coefficients and round the constant down: the monomials are integers"""
    if not c: return c, k
    l = 1
    for x in c.values(): l = l * x.denominator // gcd(l, x.denominator)
    g = 0
    for x in c.values(): g = gcd(g, int(x * l))
    s = Fraction(l, g)
    k2 = k * s
    return {m: x * s for m, x in c.items()}, Fraction(k2.numerator // k2.denominator)

def infeasible(facts, ints=True, limit=4000):
    """the facts (each >= 0) have no common solution"""
    rows = set()
    def add(c, k):
        if ints: c, k = _norm(c, k)
        if not c: return k < 0
        rows.add((tuple(sorted(c.items())), k)); return False
    ms = set()
    for f in facts:
        c, k = _row(f); ms |= set(c)
        if add(c, k): return True
    for m in ms:
        if all(a in _v._nonneg for a, e in m): rows.add((((m, Fraction(1)),), Fraction(0)))
    while rows:
        # keep the strongest constant per direction
        best = {}
        for c, k in rows:
            if c not in best or k < best[c]: best[c] = k
        rows = {(c, k) for c, k in best.items()}
        cnt = {}
        for c, k in rows:
            for m, x in c:
                u = cnt.setdefault(m, [0, 0]); u[0 if x > 0 else 1] += 1
        m = min(cnt, key=lambda z: (cnt[z][0] * cnt[z][1] - sum(cnt[z]), z))
        pos = []; neg = []; rest = set()
        for c, k in rows:
            x = dict(c).get(m)
            if x is None: rest.add((c, k))
            elif x > 0: pos.append((dict(c), k, x))
            else: neg.append((dict(c), k, -x))
        rows = rest
        if len(rows) + len(pos) * len(neg) > limit: return False
        for c1, k1, x1 in pos:
            for c2, k2, x2 in neg:
                c = {}
                for z in set(c1) | set(c2):
                    if z == m: continue
                    y = c1.get(z, 0) * x2 + c2.get(z, 0) * x1
                    if y: c[z] = y
                if add(c, k1 * x2 + k2 * x1): return True
    return False

def nonneg(e, facts):
    """e >= 0 for integers whenever all facts are (facts over other quantities than those connected with e are left out)"""
    if e.is_const(): return e.const() >= 0
    fs = [f for f in facts if isinstance(f, Poly)]
    rel = set(e.t) - {()}; used = []; work = True
    while work:
        work = False
        for f in fs:
            if f in used: continue
            if rel & set(f.t): used.append(f); rel |= set(f.t) - {()}; work = True
    return infeasible(used + [-e - 1])
