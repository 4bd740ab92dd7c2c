"""Abstract values: decision diagrams over atomic predicates with leaves = Poly | Ptr | Fn | Undef | Str | Agg.
Conditions are diagrams with leaves ONE / ZERO.  Diagrams are reduced, ordered and hash-consed, so
equality of guarded values is syntactic (a canonical form, no solver involved)."""
from fractions import Fraction
import math
from .poly import *
from . import poly as _p

class Blowup(Exception): pass

class Ptr:
    __slots__ = ("obj", "off", "_h")
    def __init__(s, obj, off): s.obj = obj; s.off = off; s._h = hash((obj, off))
    def __hash__(s): return s._h
    def __eq__(s, o): return isinstance(o, Ptr) and s.obj == o.obj and s.off == o.off
    def __repr__(s): return "&%s[%s]" % (fmt_obj(s.obj), s.off)

def fmt_obj(o):
    if isinstance(o, tuple):
        if o and isinstance(o[0], str):
            return o[0] + ":" + ",".join(fmt_obj(x) for x in o[1:])
        return "<" + ",".join(fmt_obj(x) for x in o) + ">"
    return str(o)

NULL = Ptr(("null",), ZERO)

class Fn:
    __slots__ = ("name",)
    def __init__(s, n): s.name = n
    def __hash__(s): return hash(("fn", s.name))
    def __eq__(s, o): return isinstance(o, Fn) and o.name == s.name
    def __repr__(s): return "@" + s.name
class Undef:
    def __repr__(s): return "undef"
    def __hash__(s): return 7
    def __eq__(s, o): return isinstance(o, Undef)
UNDEF = Undef()
class Agg:
    __slots__ = ("v",)
    def __init__(s, v): s.v = tuple(v)
    def __hash__(s): return hash(("agg", s.v))
    def __eq__(s, o): return isinstance(o, Agg) and o.v == s.v
    def __repr__(s): return "{" + ",".join(map(str, s.v)) + "}"

# ---------------------------------------------------------------- predicates
class Pred:
    __slots__ = ("id", "kind", "poly", "isint", "form", "sgn", "thr", "key")
    def __repr__(s):
        if s.kind == "gt": return "(%s > 0)" % s.poly
        return "?" + str(s.key)
_preds = {}
PRED0 = 1 << 40       # predicate and atom ids are disjoint: both are keys of assignments
class _PredList(list):
    def __getitem__(s, i): return list.__getitem__(s, i - PRED0)
_plist = _PredList()
def _new_pred(kind, key):
    k = (kind, key)
    p = _preds.get(k)
    if p is None:
        p = Pred(); p.id = PRED0 + len(_plist); p.kind = kind; p.key = key; p.form = None; p.poly = None; p.isint = False
        _preds[k] = p; _plist.append(p)
        return p, True
    return p, False

_nonneg = set()      # atom ids known to be >= 0 (loop counters, container sizes)
def declare_nonneg(p):
    for a in p.atoms(): _nonneg.add(a)
def poly_sign(p, isint):
    """(lower-bound-known) returns '>0', '>=0', '<0','<=0' or None using non-negative atoms"""
    if p.is_const():
        c = p.const(); return ">0" if c > 0 else "<0" if c < 0 else "=0"
    def lb(q):
        c0 = q.t.get((), 0)
        for m, c in q.t.items():
            if m == (): continue
            if c < 0: return None
            for a, e in m:
                at = atom_by_id(a)
                if a in _nonneg or at.kind in ("sqrt", "fabs") or e % 2 == 0: continue
                return None
        return c0
    l = lb(p)
    if l is not None: return ">0" if l > 0 else ">=0" if l == 0 else None
    l = lb(-p)
    if l is not None: return "<0" if l > 0 else "<=0" if l == 0 else None
    return None

def gt0(p, isint):
    """condition p > 0"""
    if p.is_const(): return ONE if p.const() > 0 else ZERO
    sg = poly_sign(p, isint)
    if sg == ">0": return ONE
    if sg in ("<0", "<=0"): return ZERO
    # scale to a primitive form
    lm = max(m for m in p.t if m != ())
    lc = p.t[lm]; s = 1 if lc > 0 else -1
    c0 = p.t.get((), 0)
    body = Poly({m: c for m, c in p.t.items() if m != ()}).scale(Fraction(1) / Fraction(abs(lc)))
    form = body if s > 0 else -body           # lead +1
    thr = Fraction(-c0) / Fraction(abs(lc))   # s*form > thr
    if isint:
        # integer valued: content-normalise so that coefficients are integers with gcd 1
        den = 1
        for c in body.t.values(): den = den * Fraction(c).denominator // math.gcd(den, Fraction(c).denominator)
        g = 0
        for c in body.t.values(): g = math.gcd(g, int(c * den))
        f = Fraction(den, g or 1)
        form = form.scale(f); body = body.scale(f); thr = thr * f
        thr = Fraction(math.floor(thr))
    key = (form, s, thr, isint)
    pr, new = _new_pred("gt", key)
    if new:
        pr.form = form; pr.sgn = s; pr.thr = thr if s > 0 else -thr   # s>0: form > thr ; s<0: form < thr
        pr.poly = body - num(key[2]); pr.isint = isint
    return mk(pr.id, ONE, ZERO)

def opaque_bool(key):
    pr, _ = _new_pred("b", key)
    return mk(pr.id, ONE, ZERO)

def implied(p, val, q):
    """truth of predicate q given predicate p has value val (None: unknown)"""
    if p is q: return val
    if p.form is None or q.form is None or p.isint != q.isint: return None
    if p.form != q.form: return None
    # region of p as interval of form:  s>0: (thr, inf) / complement (-inf, thr]
    def region(x, v):
        if x.sgn > 0: return (x.thr, True, None, None) if v else (None, None, x.thr, False)
        return (None, None, x.thr, True) if v else (x.thr, False, None, None)
    lo, lo_s, hi, hi_s = region(p, val)
    if p.isint:
        if lo is not None and lo_s: lo, lo_s = Fraction(math.floor(lo)) + 1, False
        if hi is not None and hi_s: hi, hi_s = Fraction(math.ceil(hi)) - 1, False
    # q true region
    if q.sgn > 0:   # form > thr
        if lo is not None and (lo > q.thr or (lo == q.thr and lo_s)): return True
        if hi is not None and (hi <= q.thr): return False
        if q.isint and lo is not None and not lo_s and lo > q.thr: return True
    else:           # form < thr
        if hi is not None and (hi < q.thr or (hi == q.thr and hi_s)): return True
        if lo is not None and lo >= q.thr: return False
    return None

# ---------------------------------------------------------------- diagrams
class Node:
    __slots__ = ("p", "hi", "lo", "_h", "forms", "size", "uid")
    def __hash__(s): return s._h
    def __eq__(s, o): return s is o
    def __repr__(s): return "(%s ? %s : %s)" % (_plist[s.p], s.hi, s.lo)
_nodes = {}
_maxsize = 3000
_uid = [0]

def _forms(v):
    return v.forms if isinstance(v, Node) else _EMPTY
_EMPTY = frozenset()

def mk(p, hi, lo):
    if hi is lo or hi == lo: return hi
    f = _plist[p].form
    if f is not None:
        if f in _forms(hi): hi = assume(hi, p, True)
        if f in _forms(lo): lo = assume(lo, p, False)
        if hi is lo or hi == lo: return hi
    key = (p, hi if isinstance(hi, Node) else ("L", hi), lo if isinstance(lo, Node) else ("L", lo))
    n = _nodes.get(key)
    if n is None:
        n = Node(); n.p = p; n.hi = hi; n.lo = lo
        _uid[0] += 1; n.uid = _uid[0]
        n._h = hash((p, n.uid))
        s = _forms(hi) | _forms(lo)
        if f is not None and f not in s: s = s | {f}
        n.forms = s
        _nodes[key] = n
    return n

_assume_memo = {}
def assume(v, p, val):
    if not isinstance(v, Node): return v
    pr = _plist[p]
    if pr.form is not None:
        if pr.form not in v.forms: return v
    k = (v, p, val)
    r = _assume_memo.get(k)
    if r is not None: return r
    im = implied(pr, val, _plist[v.p])
    if im is True: r = assume(v.hi, p, val)
    elif im is False: r = assume(v.lo, p, val)
    else: r = mk(v.p, assume(v.hi, p, val), assume(v.lo, p, val))
    _assume_memo[k] = r
    return r

def top(v): return v.p if isinstance(v, Node) else 1 << 60

def apply(f, *vs, limit=None):
    memo = {}
    cnt = [0]
    def go(vs):
        if not any(isinstance(v, Node) for v in vs): return f(*vs)
        r = memo.get(vs)
        if r is not None: return r
        cnt[0] += 1
        if cnt[0] > _maxsize: raise Blowup()
        p = min(top(v) for v in vs)
        pr = _plist[p]
        hi = []; lo = []
        for v in vs:
            if isinstance(v, Node) and v.p == p: hi.append(v.hi); lo.append(v.lo)
            else:
                if pr.form is not None: hi.append(assume(v, p, True)); lo.append(assume(v, p, False))
                else: hi.append(v); lo.append(v)
        r = mk(p, go(tuple(hi)), go(tuple(lo)))
        memo[vs] = r
        return r
    return go(tuple(vs))

def c_and(a, b):
    if a == ZERO or b == ZERO: return ZERO
    if a == ONE: return b
    if b == ONE: return a
    return apply(lambda x, y: y if x == ONE else ZERO, a, b)
def c_or(a, b):
    if a == ONE or b == ONE: return ONE
    if a == ZERO: return b
    if b == ZERO: return a
    return apply(lambda x, y: ONE if (x == ONE or y == ONE) else ZERO, a, b)
def c_not(a): return apply(lambda x: ZERO if x == ONE else ONE, a)
def ite(c, a, b):
    if c == ONE: return a
    if c == ZERO: return b
    if a is b or a == b: return a
    return apply(lambda x, y, z: y if x == ONE else z, c, a, b)

def to_cond(v):
    def leaf(x):
        if isinstance(x, Poly):
            if x.is_const(): return ZERO if x.is_zero() else ONE
            return opaque_bool(("nz", x))
        if isinstance(x, Ptr): return ZERO if x == NULL else ONE if x.obj[0] in ("alloca", "glob", "heap") else opaque_bool(("nonnull", x))
        if isinstance(x, Fn): return ONE
        return opaque_bool(("undef",))
    return bind(leaf, v)

def bind(f, v):
    """replace each leaf by a diagram"""
    memo = {}
    def go(v):
        if not isinstance(v, Node): return f(v)
        r = memo.get(v)
        if r is None:
            h = go(v.hi); l = go(v.lo)
            r = ite(mk(v.p, ONE, ZERO), h, l)
            memo[v] = r
        return r
    return go(v)

def bind2(f, a, b):
    return bind(lambda x: bind(lambda y: f(x, y), assume_ctx(b)), a) if False else _bind2(f, a, b)
def _bind2(f, a, b):
    memo = {}
    def go(x, y):
        if not isinstance(x, Node) and not isinstance(y, Node): return f(x, y)
        k = (x, y); r = memo.get(k)
        if r is not None: return r
        if len(memo) > _maxsize: raise Blowup()
        p = min(top(x), top(y)); pr = _plist[p]
        def co(v, val):
            if isinstance(v, Node) and v.p == p: return v.hi if val else v.lo
            return assume(v, p, val) if pr.form is not None else v
        h = go(co(x, True), co(y, True)); l = go(co(x, False), co(y, False))
        r = ite(mk(p, ONE, ZERO), h, l)
        memo[k] = r
        return r
    return go(a, b)

def leaves(v, acc=None):
    out = []; seen = set()
    def go(v):
        if isinstance(v, Node):
            if v in seen: return
            seen.add(v); go(v.hi); go(v.lo)
        else:
            if v not in out: out.append(v)
    go(v)
    return out

def cases(v, guard=ONE):
    """[(condition, leaf)] for every leaf"""
    r = []
    for l in leaves(v):
        r.append((cond_eq(v, l), l))
    return r
def cond_eq(v, l): return apply(lambda x: ONE if x == l else ZERO, v)

def restrict(v, g):
    """simplify v under the assumption g (a satisfiable condition)"""
    if g == ONE or not isinstance(v, Node): return v
    if g == ZERO: return v
    memo = {}
    def go(v, g):
        if not isinstance(v, Node) or not isinstance(g, Node): return v
        k = (v, g); r = memo.get(k)
        if r is not None: return r
        if g.p <= v.p:
            if g.lo == ZERO: r = go(assume(v, g.p, True) if g.p != v.p else v.hi, g.hi)
            elif g.hi == ZERO: r = go(assume(v, g.p, False) if g.p != v.p else v.lo, g.lo)
            elif g.p == v.p: r = mk(v.p, go(v.hi, g.hi), go(v.lo, g.lo))
            else: 
                a = go(assume(v, g.p, True), g.hi); b = go(assume(v, g.p, False), g.lo)
                r = a if a == b else go(v, c_or(g.hi, g.lo))
        else:
            h = assume(g, v.p, True); l = assume(g, v.p, False)
            if h == ZERO: r = go(v.lo, l)
            elif l == ZERO: r = go(v.hi, h)
            else: r = mk(v.p, go(v.hi, h), go(v.lo, l))
        memo[k] = r
        return r
    return go(v, g)

def sat(c): return c != ZERO
def implies(a, b): return c_and(a, c_not(b)) == ZERO

def preds_of(v):
    s = set(); seen = set()
    def go(v):
        if isinstance(v, Node) and v not in seen:
            seen.add(v); s.add(v.p); go(v.hi); go(v.lo)
    go(v)
    return [_plist[i] for i in sorted(s)]
def pred(i): return _plist[i]

def guard_paths(g, limit=64):
    """list of conjunctions [(pred,bool),...] covering condition g"""
    out = []
    def go(v, acc):
        if len(out) >= limit: return
        if not isinstance(v, Node):
            if v == ONE: out.append(list(acc))
            return
        go(v.hi, acc + [(_plist[v.p], True)]); go(v.lo, acc + [(_plist[v.p], False)])
    go(g, [])
    return out

# ---------------------------------------------------------------- substitution on structured terms
_rebuild = {}
def rebuilder(kind):
    def d(f): _rebuild[kind] = f; return f
    return d
_rebuild["sqrt"] = lambda p: sqrt(p)
_rebuild["cos"] = lambda p: cos(p)
_rebuild["sin"] = lambda p: sin(p)
_rebuild["poly"] = lambda p: p

class Subst:
    def __init__(s, amap):
        s.amap = amap      # atom id -> Poly / diagram(Poly)
        s.m = {}; s.pm = {}; s.am = {}
    def poly(s, p):
        r = s.pm.get(p)
        if r is not None: return r
        simple = True
        for a in p.atoms():
            if s.atom(a) is not None: simple = False; break
        if simple: r = p
        else:
            diag = any(isinstance(s.atom(a), Node) for a in p.atoms() if s.atom(a) is not None)
            if not diag:
                r = p.subst(lambda a: s.atom(a))
            else:
                ids = [a for a in p.atoms() if isinstance(s.atom(a), Node)]
                vs = [s.atom(a) for a in ids]
                def leaf(*xs):
                    mp = dict(zip(ids, xs))
                    return p.subst(lambda a: mp[a] if a in mp else s.atom(a))
                r = apply(leaf, *vs)
        s.pm[p] = r
        return r
    def atom(s, a):
        if a in s.am: return s.am[a]
        if a in s.amap: r = s.amap[a]
        else:
            at = atom_by_id(a)
            na = tuple(s.any(x) for x in at.args)
            if all(x is y or x == y for x, y in zip(na, at.args)): r = None
            elif any(isinstance(x, Node) for x, o in zip(na, at.args) if not isinstance(o, Node)):
                r = apply(lambda *xs: s.remake(at, xs), *na)
            else: r = s.remake(at, na)
        s.am[a] = r
        return r
    def remake(s, at, na):
        f = _rebuild.get(at.kind)
        if f: return f(*na)
        return A(at.kind, *na, ints=at.ints)
    def any(s, x):
        if isinstance(x, Poly): return s.poly(x)
        if isinstance(x, Node): return s.val(x)
        if isinstance(x, Ptr): return s.leaf(x)
        if isinstance(x, tuple): return tuple(s.any(y) for y in x)
        if isinstance(x, Agg): return Agg(s.any(x.v))
        return x
    def leaf(s, l):
        if isinstance(l, Poly): return s.poly(l)
        if isinstance(l, Ptr):
            o = s.any(l.obj); f = s.poly(l.off)
            if o is l.obj and f is l.off: return l
            if isinstance(f, Node): return apply(lambda x: Ptr(o, x), f)
            return Ptr(o, f)
        if isinstance(l, Agg): return Agg(s.any(l.v))
        return l
    def pred(s, i):
        pr = _plist[i]
        if pr.kind == "gt":
            q = s.poly(pr.poly)
            if q is pr.poly: return mk(i, ONE, ZERO)
            return bind(lambda x: gt0(x, pr.isint), q)
        k = s.any(pr.key)
        if k == pr.key: return mk(i, ONE, ZERO)
        return opaque_bool(k)
    def val(s, v):
        r = s.m.get(v)
        if r is not None: return r
        if isinstance(v, Node): r = ite(s.pred(v.p), s.val(v.hi), s.val(v.lo))
        else: r = s.leaf(v)
        s.m[v] = r
        return r

def subst(v, amap):
    return Subst(amap).any(v)

def occurs(x, aid, memo=None):
    """does atom id occur anywhere (deep) in the term"""
    memo = {} if memo is None else memo
    def go(x):
        if isinstance(x, Poly):
            return any(ga(a) for a in x.atoms())
        if isinstance(x, Node):
            k = ("n", x)
            if k not in memo:
                memo[k] = False
                pr = _plist[x.p]
                memo[k] = go(pr.poly if pr.kind == "gt" else pr.key) or go(x.hi) or go(x.lo)
            return memo[k]
        if isinstance(x, Ptr): return go(x.off) or go(x.obj)
        if isinstance(x, tuple): return any(go(y) for y in x)
        if isinstance(x, Agg): return go(x.v)
        return False
    def ga(a):
        if a == aid: return True
        k = ("a", a)
        if k not in memo:
            memo[k] = False
            memo[k] = any(go(y) for y in atom_by_id(a).args)
        return memo[k]
    return go(x)

def deep_atoms(x):
    out = set(); seen = set()
    def go(x):
        if isinstance(x, Poly):
            for a in x.atoms(): ga(a)
        elif isinstance(x, Node):
            if x in seen: return
            seen.add(x)
            pr = _plist[x.p]
            go(pr.poly if pr.kind == "gt" else pr.key); go(x.hi); go(x.lo)
        elif isinstance(x, Ptr): go(x.off); go(x.obj)
        elif isinstance(x, tuple):
            for y in x: go(y)
        elif isinstance(x, Agg): go(x.v)
        elif isinstance(x, Atom): ga(x.id)
    def ga(a):
        if a in out: return
        out.add(a)
        for y in atom_by_id(a).args: go(y)
    go(x)
    return {atom_by_id(i) for i in out}
