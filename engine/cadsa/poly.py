"""Canonical polynomials with rational coefficients over hash-consed atoms (the value-numbering domain).

Exponents may be negative (1/x is x^-1); sqrt atoms are rewritten by sqrt(e)^2 = e.
Decision-diagram values (class Node) are built over these polynomials in val.py.
"""
from fractions import Fraction
import math

class Atom:
    __slots__ = ("id", "kind", "args", "ints", "_h")
    def __repr__(s): return fmt_atom(s)

_atoms = {}
_atom_list = []

def atom(kind, *args, ints=False):
    key = (kind, args)
    a = _atoms.get(key)
    if a is None:
        a = Atom(); a.id = len(_atom_list); a.kind = kind; a.args = args; a.ints = ints
        _atoms[key] = a; _atom_list.append(a)
    return a

def atom_by_id(i): return _atom_list[i]

def norm_num(x):
    if isinstance(x, Fraction) and x.denominator == 1: return x.numerator
    return x

class Poly:
    __slots__ = ("t", "_h", "_k")
    def __init__(s, t):
        s.t = t            # dict mono -> coefficient, no zeros
        s._h = None; s._k = None
    def key(s):
        if s._k is None: s._k = tuple(sorted(s.t.items()))
        return s._k
    def __hash__(s):
        if s._h is None: s._h = hash(s.key())
        return s._h
    def __eq__(s, o): return isinstance(o, Poly) and s.t == o.t
    def __ne__(s, o): return not s == o
    def is_const(s): return not s.t or (len(s.t) == 1 and () in s.t)
    def const(s): return s.t.get((), 0)
    def is_zero(s): return not s.t
    def atoms(s):
        r = set()
        for m in s.t:
            for a, e in m: r.add(a)
        return r
    def __add__(s, o):
        o = P(o)
        if not s.t: return o
        if not o.t: return s
        t = dict(s.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v == 0: t.pop(m, None)
            else: t[m] = norm_num(v)
        return Poly(t)
    def __neg__(s): return Poly({m: -c for m, c in s.t.items()})
    def __sub__(s, o): return s + (-P(o))
    def __radd__(s, o): return P(o) + s
    def __rsub__(s, o): return P(o) - s
    def scale(s, c):
        if c == 0: return ZERO
        return Poly({m: norm_num(v * c) for m, v in s.t.items()})
    def __mul__(s, o):
        o = P(o)
        if s.is_const(): return o.scale(s.const())
        if o.is_const(): return s.scale(o.const())
        t = {}
        extra = None
        for m1, c1 in s.t.items():
            for m2, c2 in o.t.items():
                m, red = mul_mono(m1, m2)
                c = c1 * c2
                if red is None:
                    v = t.get(m, 0) + c
                    if v == 0: t.pop(m, None)
                    else: t[m] = norm_num(v)
                else:
                    p = Poly({m: norm_num(c)})
                    for r in red: p = p * r
                    extra = p if extra is None else extra + p
        r = Poly(t)
        return r if extra is None else r + extra
    __rmul__ = __mul__
    def __pow__(s, n):
        if n < 0: return inv(s) ** (-n)
        r = ONE
        for _ in range(n): r = r * s
        return r
    def __repr__(s): return fmt(s)
    def degree_in(s, aid): return max([0] + [e for m in s.t for a, e in m if a == aid])
    def coeffs_in(s, aid):
        """{exp: Poly} for the given atom (top-level occurrences only)"""
        r = {}
        for m, c in s.t.items():
            e = 0; rest = m
            for a, x in m:
                if a == aid: e = x; rest = tuple(q for q in m if q[0] != aid)
            r.setdefault(e, {})
            r[e][rest] = r[e].get(rest, 0) + c
        return {e: Poly({m: c for m, c in d.items() if c != 0}) for e, d in r.items()}
    def subst(s, f):
        """f: atom id -> Poly or None (top-level)"""
        r = ZERO
        for m, c in s.t.items():
            p = Poly({(): c})
            for a, e in m:
                q = f(a)
                if q is None: p = p * Poly({((a, e),): 1})
                else: p = p * (q ** e if e >= 0 else inv(q) ** (-e))
            r = r + p
        return r

def mul_mono(m1, m2):
    """product of two monomials; returns (mono, list of Polys to multiply) for rewritten sqrt powers"""
    if not m1: return m2, None
    if not m2: return m1, None
    d = dict(m1); red = None
    for a, e in m2:
        v = d.get(a, 0) + e
        if v == 0: d.pop(a, None); continue
        at = _atom_list[a]
        if at.kind == "sqrt" and v >= 2:
            red = (red or []) + [at.args[0] ** (v // 2)]
            v = v % 2
            if v: d[a] = v
            else: d.pop(a, None)
        elif at.kind == "sqrt" and v <= -2:
            red = (red or []) + [inv(at.args[0]) ** ((-v) // 2)]
            v = -((-v) % 2)
            if v: d[a] = v
            else: d.pop(a, None)
        else: d[a] = v
    return tuple(sorted(d.items())), red

ZERO = Poly({}); ONE = Poly({(): 1})

def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, Atom): return Poly({((x.id, 1),): 1})
    if isinstance(x, float): return num(Fraction(x))
    if isinstance(x, (int, Fraction)): return num(x)
    raise TypeError(x)

def num(c):
    c = norm_num(c)
    return Poly({(): c}) if c != 0 else ZERO

def A(kind, *args, ints=False): return P(atom(kind, *args, ints=ints))

def lead(p):
    return max(p.t)          # deterministic leading monomial

def inv(p):
    if p.is_const():
        if p.is_zero(): return A("inv0")
        return num(Fraction(1) / Fraction(p.const()))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return Poly({tuple((a, -e) for a, e in m): norm_num(Fraction(1) / Fraction(c))})
    lc = p.t[lead(p)]
    q = p.scale(Fraction(1) / Fraction(lc))
    return Poly({((atom("poly", q).id, -1),): norm_num(Fraction(1) / Fraction(lc))})

def div(a, b):
    a = P(a); b = P(b)
    if a.is_zero(): return ZERO
    if not b.is_const():
        # exact proportionality a = c*b
        if len(a.t) == len(b.t) and set(a.t) == set(b.t):
            rs = {Fraction(a.t[m]) / Fraction(b.t[m]) for m in a.t}
            if len(rs) == 1: return num(rs.pop())
    elif b.is_zero():
        return A("divzero", a)
    return a * inv(b)

def clear_denoms(p):
    """multiply by all 'poly' denominators and negative powers: returns numerator Poly equivalent to p == 0"""
    for _ in range(12):
        need = {}
        for m in p.t:
            for a, e in m:
                if e < 0: need[a] = max(need.get(a, 0), -e)
        if not need: break
        for a, e in need.items():
            p = Poly({m: c for m, c in p.t.items()})
            at = _atom_list[a]
            # multiply every monomial by a^e, then expand non-negative powers of 'poly' atoms
            t = ZERO
            for m, c in p.t.items():
                d = dict(m); d[a] = d.get(a, 0) + e
                ex = d.pop(a)
                q = Poly({tuple(sorted(d.items())): c})
                if ex:
                    base = at.args[0] if at.kind == "poly" else (P(at))
                    if at.kind == "poly": q = q * (base ** ex)
                    else: q = q * (P(at) ** ex)
                t = t + q
            p = t
    # expand any remaining positive powers of 'poly' atoms
    def f(a):
        at = _atom_list[a]
        return at.args[0] if at.kind == "poly" else None
    if any(_atom_list[a].kind == "poly" for a in p.atoms()): p = p.subst(f)
    return p

def sqrt(p):
    p = P(p)
    if p.is_const():
        c = Fraction(p.const())
        if c >= 0:
            a = math.isqrt(c.numerator); b = math.isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator: return num(Fraction(a, b))
    return A("sqrt", p)

def sign_norm(p):
    """(q, s) with p = s*q and q having a positive leading coefficient"""
    if p.is_zero(): return p, 1
    return (p, 1) if p.t[lead(p)] > 0 else (-p, -1)

def cos(p):
    p = P(p)
    if p.is_zero(): return ONE
    q, s = sign_norm(p)
    return A("cos", q)
def sin(p):
    p = P(p)
    if p.is_zero(): return ZERO
    q, s = sign_norm(p)
    return A("sin", q).scale(s)

def trig_reduce(p):
    """rewrite sin(x)^2 -> 1-cos(x)^2"""
    changed = True
    while changed:
        changed = False
        r = ZERO
        for m, c in p.t.items():
            hit = None
            for a, e in m:
                if _atom_list[a].kind == "sin" and e >= 2: hit = (a, e); break
            if not hit: r = r + Poly({m: c}); continue
            a, e = hit; changed = True
            co = cos(_atom_list[a].args[0])
            d = dict(m); d[a] = e - 2
            if d[a] == 0: del d[a]
            q = Poly({tuple(sorted(d.items())): c}) * (ONE - co * co)
            r = r + q
        p = r
    return p

def fmt_num(c):
    if isinstance(c, Fraction):
        f = float(c)
        return repr(f)
    return str(c)

_hooks = {}
def fmt_atom(a):
    h = _hooks.get(a.kind)
    if h: return h(*a.args)
    if a.kind == "sv": return "S%d.%s" % (a.id, a.args[0])
    if not a.args: return a.kind
    if a.kind == "poly": return "(" + fmt(a.args[0]) + ")"
    return a.kind + "(" + ",".join(str(x) for x in a.args) + ")"

def fmt(p):
    if not p.t: return "0"
    out = []
    for m, c in sorted(p.t.items()):
        s = "*".join(fmt_atom(_atom_list[a]) + ("" if e == 1 else "^%d" % e) for a, e in m)
        if not m: s = fmt_num(c)
        elif c == 1: pass
        elif c == -1: s = "-" + s
        else: s = fmt_num(c) + "*" + s
        out.append(s)
    return "+".join(out).replace("+-", "-")

# short names for printing
_knames = {}
def _kname(lid, *r):
    n = _knames.get(lid)
    if n is None: n = "i%d" % len(_knames); _knames[lid] = n
    return n
_hooks["k"] = _kname
_hooks["arg"] = lambda n, *r: str(n)
