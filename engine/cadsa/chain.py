"""Parametric oriented 1-chains: sums of directed edges over loop domains with symbolic bounds.

A family  sum_{i in [lo,hi)} [u(i) -> v(i)]  is brought to a shift-normal form and replaced by its antiderivative
T(hi) - T(lo); a chain is zero if the formal sum of all antiderivative terms cancels.  The rule is exact in the
free abelian group (no numbers are plugged in); the numeric evaluator below is used only to exhibit a witness
when the formal sum does not cancel."""
import re
from fractions import Fraction
import math
from .poly import *
from .val import *
from .interp import For, Ev, is_int_poly, ROUND

class Und(Exception): pass

# ------------------------------------------------------------------ symbolic bounds
class Dom:
    """loop domain: list of (atom id, lo, hi) outermost first"""
    def __init__(s, loops): s.loops = list(loops)
    def lower(s, p):
        """polynomial without loop variables that is <= p on the whole domain (None if unknown)"""
        return s._bound(p, True)
    def upper(s, p): 
        r = s._bound(-p, True)
        return None if r is None else -r
    def _bound(s, p, low):
        for aid, lo, hi in reversed(s.loops):
            co = p.coeffs_in(aid)
            if set(co) - {0, 1}: return None
            c = co.get(1, ZERO)
            if c.is_zero(): continue
            if occurs_any(co.get(0, ZERO), aid) or occurs_any(c, aid): return None
            sg = s.sign(c)
            if sg in (">0", ">=0"): p = co.get(0, ZERO) + c * lo
            elif sg in ("<0", "<=0"): p = co.get(0, ZERO) + c * (hi - 1)
            else: return None
        return p
    def sign(s, p):
        if p.is_const(): return poly_sign(p, True)
        g = poly_sign(p, True)
        if g: return g
        l = s.lower(p) if any(a in p.atoms() for a, _, _ in s.loops) else None
        if l is not None:
            g = poly_sign(l, True)
            if g in (">0", ">=0", "=0"): return ">=0" if g == "=0" else g
        u = s.upper(p) if any(a in p.atoms() for a, _, _ in s.loops) else None
        if u is not None:
            g = poly_sign(u, True)
            if g in ("<0", "<=0", "=0"): return "<=0" if g == "=0" else g
        return None
    def le(s, x, y):
        d = y - x
        g = s.sign(d)
        return g in (">0", ">=0", "=0")
    def lt(s, x, y): return s.le(x + 1, y)
def occurs_any(p, aid): return occurs(p, aid)

# ------------------------------------------------------------------ domains of events
def unmod(v, dom):
    """replace srem(x,y) by its two-case form when 0 <= x < 2y on the domain"""
    def fix(v):
        for a in deep_atoms(v):
            if a.kind == "srem":
                x, y = a.args
                if not isinstance(x, Poly) or not isinstance(y, Poly): continue
                if y.is_const() and x.is_const(): continue
                if dom.le(ZERO, x) and dom.lt(x, y): return Subst({a.id: x}).any(v), True
                if dom.le(ZERO, x) and dom.le(x + 1, y.scale(2)):
                    c = gt0(y - x, True)
                    return Subst({a.id: ite(c, x, x - y)}).any(v), True
            if a.kind == "sdiv":
                x, y = a.args
                if y.is_const() and dom.le(ZERO, x):
                    # x = c*q + r with constant remainder
                    c = y.const(); q = ZERO; r = ZERO; ok = c > 0
                    for m, co in x.t.items():
                        if m != () and not isinstance(co, Fraction) and co % c == 0: q = q + Poly({m: co // c})
                        elif m == (): r = r + num(co)
                        else: ok = False
                    if ok and r.is_const(): return Subst({a.id: q + num(int(r.const()) // int(c))}).any(v), True
        return v, False
    for _ in range(40):
        v, ch = fix(v)
        if not ch: break
    return v

def trip_free(g, loops):
    """drop the loop tests from a guard"""
    for L in loops:
        if L.trip is not None and g != ONE:
            g = restrict(g, gt0(L.trip - L.k, True))
    return g

def split_domain(dom, cond, opaque):
    """dom restricted to cond: list of (Dom, {opaque pred: value}); cond built from affine predicates"""
    out = []
    def go(loops, g, op):
        if g == ZERO: return
        if g == ONE: out.append((Dom(loops), dict(op))); return
        pr = pred(g.p)
        D = Dom(loops)
        if pr.kind == "gt" and pr.isint:
            sg = D.sign(pr.poly)
            if sg == ">0": return go(loops, assume(g, g.p, True), op)
            if sg in ("<0", "<=0"): return go(loops, assume(g, g.p, False), op)
            for n in range(len(loops) - 1, -1, -1):
                aid, lo, hi = loops[n]
                co = pr.poly.coeffs_in(aid)
                if 1 in co and not (set(co) - {0, 1}):
                    b = co[1]; a = co.get(0, ZERO)
                    if not b.is_const() or abs(b.const()) != 1: break
                    if b.const() == 1: cut = -a + 1; hi_true = True      # k >= 1-a
                    else: cut = a; hi_true = False                        # k < a
                    outer = Dom(loops[:n])
                    # clamp the cut into [lo,hi]
                    if outer.le(cut, lo): cut = lo
                    elif outer.le(hi, cut): cut = hi
                    elif not (outer.le(lo, cut) and outer.le(cut, hi)):
                        raise Und("loop bound not comparable: %s in [%s,%s)" % (cut, lo, hi))
                    left = loops[:n] + [(aid, lo, cut)] + loops[n + 1:]
                    right = loops[:n] + [(aid, cut, hi)] + loops[n + 1:]
                    gt, gf = assume(g, g.p, True), assume(g, g.p, False)
                    if cut != lo: go(left, gf if hi_true else gt, op)
                    if cut != hi: go(right, gt if hi_true else gf, op)
                    return
            # no loop variable: a condition on the parameters
        if not opaque: raise Und("condition not affine in the loop variables: %s" % pr)
        o1 = dict(op); o1[g.p] = True; o0 = dict(op); o0[g.p] = False
        go(loops, assume(g, g.p, True), o1); go(loops, assume(g, g.p, False), o0)
    go(list(dom.loops), cond, {})
    return out

def loops_of(fors, rename=None):
    r = []
    for L in fors:
        if L.trip is None: raise Und("loop without a trip count")
        if not L.exact: raise Und("loop with a data dependent exit")
        (m, c), = L.k.t.items()
        r.append((m[0][0], ZERO, L.trip))
    return r

def normalise_event(ev, fors, values, opaque=False):
    """list of (Dom, opaque, [leaf values]) for an event inside the loops fors"""
    loops = []
    for L in fors:
        l = loops_of([L])[0]
        loops.append((l[0], l[1], unmod(l[2], Dom(loops))))
    dom = Dom(loops)
    for n, (a, lo, hi) in enumerate(loops):
        if isinstance(hi, Node): raise Und("conditional trip count")
    g = trip_free(ev.guard, fors)
    vs = [unmod(v, dom) for v in values]
    # combine: diagram whose leaves are tuples of values
    allv = apply(lambda *xs: ("t", xs), *vs) if any(isinstance(v, Node) for v in vs) else ("t", tuple(vs))
    out = []
    for l in leaves(allv):
        c = c_and(unmod(g, dom), apply(lambda x: ONE if x == l else ZERO, allv) if isinstance(allv, Node) else ONE)
        for d, op in split_domain(dom, c, opaque): out.append((d, op, list(l[1])))
    return out

# ------------------------------------------------------------------ formal sums
def subst_obj(o, sub):
    if isinstance(o, Poly):
        r = sub.poly(o)
        if isinstance(r, Node): raise Und("conditional index")
        return r
    return tuple(subst_obj(x, sub) if isinstance(x, (Poly, tuple)) else x for x in o)
def polys_of(o):
    if isinstance(o, Poly): yield o
    elif isinstance(o, tuple):
        for x in o:
            if isinstance(x, (Poly, tuple)): yield from polys_of(x)
def depends(o, aid): return any(occurs(p, aid) for p in polys_of(o))
def quotient(b, a):
    """q with b = a*q + r by division on the leading monomial of a (integral coefficients)"""
    if a.is_const():
        c = a.const(); t = {}
        for m, x in b.t.items():
            q = math.floor(Fraction(x) / Fraction(c)) if m == () else (Fraction(x) / Fraction(c))
            if m != () and Fraction(q).denominator != 1: q = math.floor(q)
            if q: t[m] = norm_num(q)
        return Poly(t)
    lm = max(a.t, key=lambda m: (sum(e for _, e in m), m)); lc = a.t[lm]
    q = ZERO; r = b
    for _ in range(60):
        best = None
        for m, x in r.t.items():
            d = dict(m); ok = True
            for at, e in lm:
                if d.get(at, 0) < e: ok = False; break
                d[at] -= e
                if d[at] == 0: del d[at]
            if ok:
                f = math.floor(Fraction(x) / Fraction(lc))
                if f: best = (tuple(sorted(d.items())), f); break
        if best is None: break
        t = Poly({best[0]: best[1]})
        q = q + t; r = r - t * a
    return q
_canon = {}
def canon_var(depth):
    a = _canon.get(depth)
    if a is None: a = atom("cv", depth, ints=True); _canon[depth] = a
    return a
def depth_of(o):
    return 1 + depth_of(o[1]) if o[0] == "T" else 0
def lead_poly(o, aid):
    for p in polys_of(o):
        co = p.coeffs_in(aid)
        if set(co) - {0, 1}: raise Und("index not affine in the loop variable")
        if 1 in co: return p, co[1], co.get(0, ZERO)
    return None
def sum_over(o, aid, lo, hi):
    """formal value of sum_{aid in [lo,hi)} o  as {object: coefficient poly}"""
    if not depends(o, aid): return {o: hi - lo}
    lp = lead_poly(o, aid)
    if lp is None: raise Und("loop variable hidden in a non-linear term")
    p, al, be = lp
    k = P(atom_by_id(aid))
    if al.t[max(al.t)] < 0:
        o = subst_obj(o, Subst({aid: -k})); lo, hi = -hi + 1, -lo + 1
        p, al, be = lead_poly(o, aid)
    q = quotient(be, al)
    # o(i) = o'(i+q):  o'(i) = o(i-q)
    cv = canon_var(depth_of(o))
    if o[0] == "T":
        o1 = subst_obj(o, Subst({aid: k - q})) if not q.is_zero() else o
        parts = renorm_T(o1)
        if len(parts) != 1 or o1 not in parts:
            r = {}
            for ob, c in parts.items(): 
                for ob2, c2 in sum_over(ob, aid, lo + q, hi + q).items(): add_into(r, {ob2: c2 * c})
            return r
    on = subst_obj(o, Subst({aid: P(cv) - q}))
    r = {}
    for x, s in ((hi + q, 1), (lo + q, -1)):
        add_into(r, tterm(on, cv, x), s)
    return r
def add_into(r, t, s=1):
    for o, c in t.items():
        v = r.get(o, ZERO) + c.scale(s)
        if v.is_zero(): r.pop(o, None)
        else: r[o] = v
def tterm(on, cv, x):
    """antiderivative T[on](x), constant part of x removed"""
    c = x.const()
    if isinstance(c, Fraction) or abs(c) > 200: raise Und("bound")
    x0 = x - c
    r = {("T", on, x0): ONE}
    for m in range(abs(int(c))):
        y = x0 + m if c > 0 else x0 - (m + 1)
        add_into(r, point(on, cv, y), 1 if c > 0 else -1)
    return r
def point(on, cv, y):
    o = subst_obj(on, Subst({cv.id: y}))
    if o[0] == "T":
        # bounds inside may have a new constant part
        inner_cv = canon_var(depth_of(o[1]))
        return renorm_T(o)
    return {o: ONE}
def renorm_T(o):
    """re-normalise T[obj](x) after a substitution"""
    _, on, x = o
    cv = canon_var(depth_of(on))
    lp = lead_poly(on, cv.id)
    if lp is None: raise Und("degenerate family")
    p, al, be = lp
    q = quotient(be, al)
    if not q.is_zero():
        on = subst_obj(on, Subst({cv.id: P(cv) - q})); x = x + q
    return tterm(on, cv, x)
def family(o, dom):
    """formal sum of object o over the domain"""
    cur = {o: ONE}
    loops = dom.loops
    for n in range(len(loops) - 1, -1, -1):
        aid, lo, hi = loops[n]
        if not Dom(loops[:n]).le(lo, hi):
            raise Und("cannot show that the loop range [%s,%s) is not reversed" % (lo, hi))
        nxt = {}
        for ob, c in cur.items():
            if occurs(c, aid): raise Und("coefficient depends on loop")
            r = sum_over(ob, aid, lo, hi)
            for ob2, c2 in r.items(): add_into(nxt, {ob2: c2 * c})
        cur = nxt
    return cur

def fmt_obj_(o):
    if o[0] == "e": return "[%s -> %s]" % (",".join(map(str, o[1])), ",".join(map(str, o[2])))
    return "T{%s}(%s)" % (fmt_obj_(o[1]), o[2])

class Chain:
    """boundary of a family of triangles: antisymmetrised formal sum"""
    def __init__(s): s.t = {}
    def edge(s, u, v, dom, w=1):
        if u == v: return
        add_into(s.t, family(("e", u, v), dom), w)
        add_into(s.t, family(("e", v, u), dom), -w)
    def tri(s, a, b, c, dom, w=1):
        for u, v in ((a, b), (b, c), (c, a)): s.edge(u, v, dom, w)
    def zero(s): return not s.t
    def __repr__(s): return " + ".join("%s*%s" % (c, fmt_obj_(o)) for o, c in list(s.t.items())[:6])

# ------------------------------------------------------------------ numeric reading of a summary (witnesses only)
class NoValue(Exception): pass
class Definite(NoValue): pass      # not a lack of knowledge: the code itself has no value here (division by zero, element that does not exist)
def num_eval(x, env):
    if isinstance(x, Poly):
        r = 0
        for m, c in x.t.items():
            p = c
            for a, e in m:
                v = num_atom(a, env)
                if isinstance(v, Undef): raise NoValue("undefined")
                if e < 0 and v == 0: raise Definite("division by zero")
                p = p * (v ** e if e > 0 else (Fraction(1, v) if isinstance(v, int) else 1 / v) ** (-e))
            r = r + p
        return r
    if isinstance(x, Node):
        while isinstance(x, Node):
            try: t = num_pred(x.p, env)
            except NoValue as e: return both(x, env, e)
            x = x.hi if t else x.lo
        return num_eval(x, env)
    if isinstance(x, (int, Fraction, float)): return x
    if isinstance(x, tuple): return tuple(num_eval(y, env) for y in x)
    if isinstance(x, Undef): raise NoValue("undefined")
    return x
def num_pred(p, env):
    pr = pred(p)
    if pr.kind == "gt": return num_eval(pr.poly, env) > 0
    if p in env: return env[p]
    if ("pred", p) in env: return env[("pred", p)]
    if pr.key[0] == "nz": return num_eval(pr.key[1], env) != 0
    if pr.key[0] in ("exit", "retin") and (pr.key[0], pr.key[1]) in env: return env[(pr.key[0], pr.key[1])] == (pr.key[2] if pr.key[0] == "exit" else True)
    if "preds" in env: return env["preds"](pr.key, env)
    raise NoValue(str(pr))
def both(x, env, why):
    """a condition has no value here: the value counts if every branch that is left agrees on it (conditions are ordered, an
    irrelevant one may come first)"""
    memo = {}; preds = {}; budget = [200]; vals = set()
    def go(n, asm):
        budget[0] -= 1
        if budget[0] < 0: raise NoValue(str(why))
        while isinstance(n, Node):
            if n.p in asm: t = asm[n.p]
            else:
                if n.p not in preds:
                    try: preds[n.p] = bool(num_pred(n.p, env))
                    except NoValue: preds[n.p] = None
                t = preds[n.p]
            if t is None:
                go(n.hi, asm); n = n.lo       # (ordered decision diagram: the condition does not come back below)
                continue
            n = n.hi if t else n.lo
        k = id(n)
        if k not in memo:
            try: memo[k] = num_eval(n, env)
            except NoValue: raise NoValue(str(why))
        vals.add(memo[k])
        if len(vals) > 1: raise NoValue(str(why))
    go(x, {})
    return next(iter(vals))
NUMFUN = {n: getattr(math, n) for n in ("tan", "acos", "asin", "atan", "atan2", "exp", "log", "hypot", "fmod", "pow")}
def num_atom(aid, env):
    if aid in env: return env[aid]
    a = atom_by_id(aid)
    if a.kind == "srem":
        x, y = num_eval(a.args[0], env), num_eval(a.args[1], env)
        return int(math.fmod(x, y)) if y else 0
    if a.kind == "sdiv":
        x, y = num_eval(a.args[0], env), num_eval(a.args[1], env)
        if y == 0: raise NoValue("division by zero")
        q = abs(x) // abs(y)
        return q if (x >= 0) == (y > 0) else -q
    if a.kind in ("and", "or", "xor", "shr", "shl"):
        x, y = int(num_eval(a.args[0], env)), int(num_eval(a.args[1], env))
        return {"and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y, "shr": lambda: x >> y, "shl": lambda: x << y}[a.kind]()
    if a.kind == "ceildiv": return math.ceil(Fraction(num_eval(a.args[0], env)) / Fraction(num_eval(a.args[1], env)))
    if a.kind == "cos": return math.cos(num_eval(a.args[0], env))
    if a.kind == "sin": return math.sin(num_eval(a.args[0], env))
    if a.kind == "sqrt":
        x = num_eval(a.args[0], env)
        if x < -1e-9: raise NoValue("square root of %g" % x)
        return math.sqrt(max(x, 0))
    if a.kind in NUMFUN:
        try: return NUMFUN[a.kind](*[num_eval(y, env) for y in a.args])
        except (ValueError, OverflowError, TypeError): raise NoValue(fmt_atom(a))
    if a.kind == "poly": return num_eval(a.args[0], env)
    if a.kind in ROUND: return ROUND[a.kind](Fraction(num_eval(a.args[0], env)))
    if a.kind == "sum":
        kat, K, d = a.args
        n = num_eval(K, env); e = dict(env); r = 0
        for i in range(int(n)): e[kat.id if hasattr(kat, "id") else kat] = i; r += num_eval(d, e)
        return r
    if a.kind == "out" and ("out", a.args[0], a.args[1]) in env: return env[("out", a.args[0], a.args[1])]
    if a.kind == "fabs": return abs(num_eval(a.args[0], env))
    if "atoms" in env: return env["atoms"](a, env)
    raise NoValue(fmt_atom(a))
def mem_reader(table):
    """resolver for env["atoms"]: input memory as {(object, byte offset): value}; table may be a function"""
    def f(a, env):
        if a.kind in ("ld", "vs"):
            if a.kind == "ld":
                if a.args[0] != "i": raise NoValue(fmt_atom(a))
                obj, off = a.args[1], a.args[2]
            else: obj, off = a.args
            o = num_obj(obj, env); n = int(num_eval(off, env))
            if callable(table): return table(o, n, env)
            if (o, n) in table: return table[(o, n)]
        raise NoValue(fmt_atom(a))
    return f
def num_obj(o, env):
    if isinstance(o, Poly): return num_eval(o, env)
    if isinstance(o, tuple): return tuple(num_obj(x, env) for x in o)
    return o
HARMLESS = re.compile(r"std::(basic_)?(io|o|i)?(stream|streambuf|ios)|std::(basic_)?[io]?fstream|std::__cxx11::basic_(string|[io]?stringstream)|std::basic_(ios|ostream|istream)|std::operator<<|engine<|_distribution<|__detail::_Adaptor|^(std::)?(printf|puts|fprintf|putchar|fflush|assert|__assert_fail|exit|abort)$")
def num_events(evs, env, f, budget=None):
    """enumerate the events of a summary for one parameter assignment (loop-carried values are iterated)"""
    budget = budget if budget is not None else [200000]
    for e in evs:
        if isinstance(e, For):
            (m, c), = e.k.t.items()
            aid = m[0][0]
            if e.guard != ONE and num_eval(e.guard, env) == 0: continue
            mus = {}
            for var, (mu, ini, nxt) in (e.recs or {}).items():
                q = mu if isinstance(mu, Poly) else mu.off
                try:
                    if not isinstance(mu, Poly): continue
                    env[one_atom(q)] = num_eval(ini, env); mus[var] = (one_atom(q), nxt)
                except NoValue as x:
                    if env.get("debug"): print("  no initial value of", var, ":", x)
            def step():
                new = {}
                for var, (a, nxt) in mus.items():
                    try: new[a] = num_eval(nxt, env)
                    except NoValue as x:
                        new[a] = None
                        if env.get("debug"): print("  no next value of", var, ":", x)
                for a, v in new.items():
                    if v is None: env.pop(a, None)
                    else: env[a] = v
            def leave(i):
                for var, (a, nxt) in mus.items():
                    if a in env: env[("out", e.lid, var)] = env[a]
            if e.exact and e.trip is not None:
                n = int(num_eval(e.trip, env)); K = int(num_eval(e.kexit, env))
                own = {a.id for a in deep_atoms(e.trip)} & {a for a, _ in mus.values()}; i = -1
                while True:
                    i += 1
                    if own: n = int(num_eval(e.trip, env)); K = n
                    if i >= n: break
                    budget[0] -= 1
                    if budget[0] < 0: raise NoValue("too many iterations")
                    env[aid] = i
                    if "iter" in env: env["iter"](e, env)
                    if i == K: leave(i)
                    num_events(e.body, env, f, budget)
                    step()
                if K >= n: leave(n)
            else:
                i = 0
                while True:
                    env[aid] = i
                    if "iter" in env: env["iter"](e, env)
                    num_events(e.body, env, f, budget)
                    budget[0] -= 1
                    if budget[0] < 0: raise NoValue("too many iterations")
                    if num_eval(e.stay, env) == 0: break
                    step(); i += 1
                leave(i)
                hit = False
                for n, x in enumerate(e.exits):
                    if num_eval(x[0], env) != 0: env[("exit", e.lid)] = n; hit = True; break
                env[("retin", e.lid)] = not hit
                if hit is False: env[("exit", e.lid)] = -1
                (m2, c2), = e.kexit.t.items()
                env[m2[0][0]] = i
            env.pop(aid, None)
            if "leave" in env: env["leave"](e, env)
        else:
            budget[0] -= 1
            if budget[0] < 0: raise NoValue("too many events")
            if e.guard == ONE or num_eval(e.guard, env) != 0:
                if e.kind == "call" and not HARMLESS.search(e.name): raise NoValue("effects of " + e.name)
                f(e, env)
def one_atom(p):
    (m, c), = p.t.items(); return m[0][0]
