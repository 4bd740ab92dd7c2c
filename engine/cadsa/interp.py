"""Abstract interpreter over LLVM IR.

Domain: guarded polynomial values (val.py); memory: persistent write chains per abstract object.
Control flow: one pass over the blocks of every region in topological order, values joined at merges by
decision diagrams; natural loops are summarised for *all* iterations (affine/closed form recurrences,
symbolic trip count), loops whose trip count is a constant are evaluated iteration by iteration.
Calls are analysed in context (virtual calls through the known vtable).  Effects are collected as an
effect tree: list of Ev and For.
"""
import re, sys
from fractions import Fraction
from .poly import *
from .poly import _atom_list
from .val import *
from .val import _nonneg
from . import val as _val
from .ir import AnalysisError, succs

sys.setrecursionlimit(20000)

class Unsupported(Exception): pass
class TooBig(Exception): pass

# ------------------------------------------------------------------ memory chains
class Mem:
    __slots__ = ("k", "prev", "a", "id")
    n = 0
    def __init__(s, k, prev, a):
        s.k = k; s.prev = prev; s.a = a; Mem.n += 1; s.id = Mem.n
    def __repr__(s): return "%s%r" % (s.k, s.a)

class Loc:
    __slots__ = ("file", "line", "func", "stack")
    def __init__(s, file, line, func, stack): s.file = file; s.line = line; s.func = func; s.stack = stack
    def __repr__(s):
        r = "%s:%s (%s)" % (s.file, s.line, s.func)
        return r
    def chain(s):
        return " <- ".join([repr(s)] + [repr(x) for x in reversed(s.stack)])

class Ev:
    __slots__ = ("kind", "name", "args", "guard", "loc", "ret", "x")
    def __init__(s, kind, name, args, guard, loc, ret=None, **x):
        s.kind = kind; s.name = name; s.args = args; s.guard = guard; s.loc = loc; s.ret = ret; s.x = x
    def __repr__(s): return "%s %s(%s)%s%s" % (s.kind, s.name, ", ".join(map(str, s.args)), "" if s.ret is None else " -> %s" % (s.ret,), "" if s.guard == ONE else " IF %s" % (s.guard,))
class For:
    __slots__ = ("k", "lid", "trip", "exact", "guard", "body", "recs", "loc", "kexit", "exits", "stay", "outs", "facc")
    def __repr__(s): return "for %s in 0..%s%s:" % (s.k, s.trip, "" if s.exact else "(max)")

def show(evs, ind=0, out=None):
    o = [] if out is None else out
    for e in evs:
        o.append("  " * ind + repr(e))
        if isinstance(e, For): show(e.body, ind + 1, o)
    return "\n".join(o)

def walk(evs, loops=()):
    for e in evs:
        if isinstance(e, For):
            yield e, loops
            yield from walk(e.body, loops + (e,))
        else: yield e, loops

class State:
    __slots__ = ("mem",)
    def __init__(s, mem=None): s.mem = mem if mem is not None else {}
    def copy(s): return State(dict(s.mem))

def split_name(dn):
    """(qualified name without return type, parameter text) of a demangled function"""
    depth = 0; start = 0
    i = 0; n = len(dn)
    while i < n:
        c = dn[i]
        if dn.startswith("operator", i) and depth == 0:
            j = i + 8
            while j < n and not (dn[j] == "(" and (j > i + 8)): 
                if dn[j] == "(" and dn[j:j+2] == "()" : j += 2; continue
                if dn[j].isalnum() or dn[j] == " " and j > i + 9: break
                j += 1
            i = max(j, i + 8); continue
        if c == "<": depth += 1
        elif c == ">" : depth -= 1
        elif c == "(" and depth == 0: return dn[start:i], dn[i:]
        elif c == " " and depth == 0: start = i + 1
        i += 1
    return dn[start:], ""
_VQ = re.compile(r"^std::vector<(.+), std::allocator<(?:.+)>>::(operator=|operator\[\]|~?\w+)(?:<.*>)?$")
_vcache = {}
def vec_match(dn):
    r = _vcache.get(dn, 0)
    if r == 0:
        r = None
        if "std::vector<" in dn:
            q, par = split_name(dn)
            # element type: match brackets
            if q.startswith("std::vector<"):
                d = 0; j = len("std::vector")
                for j in range(len("std::vector"), len(q)):
                    if q[j] == "<": d += 1
                    elif q[j] == ">":
                        d -= 1
                        if d == 0: break
                inner = q[len("std::vector<"):j]; rest = q[j + 1:]
                if rest.startswith("::"):
                    d = 0; cut = len(inner)
                    for x, ch in enumerate(inner):
                        if ch == "<": d += 1
                        elif ch == ">": d -= 1
                        elif ch == "," and d == 0: cut = x; break
                    mm = rest[2:].split("<")[0]
                    r = (inner[:cut], mm, par)
        _vcache[dn] = r
    return r
ALGO_STD = r"fill|fill_n|__fill_a1?|__fill_n_a1?|__size_to_integer|__[nm]iter_base|__niter_wrap|accumulate|inner_product|iota|transform|for_each|for_each_n|all_of|any_of|none_of|count|count_if|__count_if|find|find_if|find_if_not|__find_if|__find_if_not|copy|copy_n|copy_if|__copy_move_a[12]?|__copy_n|__copy_n_a|__copy_move<.*>::__copy_m|__copy_move<.*>::__assign_one|reverse|__reverse|iter_swap|__iter_swap|swap_ranges|min_element|max_element|__min_element|__max_element|equal|distance|__distance|advance|__advance|next|prev|__iterator_category|begin|end|cbegin|cend|size|data|plus|multiplies|minus"
INLINE_STD = re.compile(r"std::(max|min|swap|abs|move|forward|fabs|clamp|get|pair|make_pair|initializer_list|array|addressof|__addressof|exchange|unique_ptr|make_unique|tuple|__uniq_ptr|default_delete|__get_helper|_Head_base|_Tuple_impl|make_tuple|tie|operator\|)|std::(" + ALGO_STD + r")(<|\()|__gnu_cxx::__normal_iterator|__gnu_cxx::operator|__gnu_cxx::__ops::|std::initializer_list|^double std::|^int std::(max|min)")

INTW = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128}

# conversions of a real to an integer value
ROUND = {"floor": math.floor, "ceil": math.ceil, "trunc": lambda x: int(x) if x >= 0 else -int(-x), "fptosi": lambda x: int(x) if x >= 0 else -int(-x),
         "round": lambda x: math.floor(x + Fraction(1, 2)) if x >= 0 else -math.floor(-x + Fraction(1, 2)), "lround": lambda x: ROUND["round"](x),
         "rint": lambda x: round(x), "nearbyint": lambda x: round(x)}
def to_int(kind, x):
    if x.is_const(): return num(ROUND[kind](Fraction(x.const())))
    return x if is_int_poly(x) else A(kind, x, ints=True)
for _w in (8, 16): rebuilder("trunc%d" % _w)(lambda x, _w=_w: num(int(x.const()) % (1 << _w)) if isinstance(x, Poly) and x.is_const() and x.const() == int(x.const()) else A("trunc%d" % _w, x, ints=True))
for _k in ROUND: rebuilder(_k)(lambda x, _k=_k: to_int(_k, x))

def mod_const(x, c):
    """x mod c if it is the same for all values of the atoms: every non-constant coefficient is a multiple of c"""
    for m, k in x.t.items():
        if Fraction(k).denominator != 1: return None
        if m and k % c: return None
        if m and not all(atom_by_id(a).ints or atom_by_id(a).kind in INTK for a, _ in m): return None
    return int(x.const()) % int(c)
INTK = ()
INT_OPS = ("sdiv", "udiv", "srem", "urem", "and", "or", "xor", "ashr", "lshr", "shl")
def int_op(op, x, y):
    """quotient, remainder, shift or bit operation of two integer terms"""
    if op in ("sdiv", "udiv"):
        if y.is_const() and y.const() != 0:
            c = y.const()
            q = div_int(x, c)
            if q is not None: return q
            k = mod_const(x, c)
            if k is not None and c > 0 and not x.is_const() and poly_sign(x, True) in (">0", ">=0"): return (x - k).scale(Fraction(1, c))
            if x.is_const():
                v = abs(x.const()) // abs(c)
                return num(v if (x.const() >= 0) == (c > 0) else -v)
        else:
            # exact symbolic quotient
            if not y.is_zero():
                q = exact_div(x, y)
                if q is not None: return q
        return A("sdiv", x, y, ints=True)
    if op in ("srem", "urem"):
        if y.is_const() and y.const() != 0:
            c = abs(y.const())
            k = mod_const(x, c)
            if k is not None and poly_sign(x, True) in (">0", ">=0"): return num(k)
            if x.is_const():
                v = abs(x.const()) % c
                return num(v if x.const() >= 0 else -v)
        r = A("srem", x, y, ints=True)
        if poly_sign(x, True) in (">0", ">=0"): declare_nonneg(r)
        return r
    if x.is_const() and y.is_const() and op in ("and", "or", "xor", "ashr", "lshr", "shl"):
        X, Y = int(x.const()), int(y.const())
        if op == "and": return num(X & Y)
        if op == "or": return num(X | Y)
        if op == "xor": return num(X ^ Y)
        if op == "shl": return num(X << Y)
        if op in ("ashr", "lshr"): return num(X >> Y)
    if op in ("and", "or", "xor"):
        l = sorted([x, y], key=lambda q: (not q.is_const(), q.key()))
        if op == "and" and l[0].is_zero(): return ZERO
        if op in ("or", "xor") and l[0].is_zero(): return l[1]
        if op == "and" and l[0].is_const():
            n = -int(l[0].const())
            if n > 0 and n & (n - 1) == 0:
                k = mod_const(l[1], n)
                if k is not None: return l[1] - k
                if poly_sign(l[1], True) in (">0", ">=0"): return l[1] - int_op("srem", l[1], num(n))
            n = int(l[0].const()) + 1
            if n > 0 and n & (n - 1) == 0:
                k = mod_const(l[1], n)
                if k is not None: return num(k)
        return A(op, l[0], l[1], ints=True)
    if op == "ashr" and y.is_const() and 0 <= y.const() < 31:
        c = 1 << int(y.const()); k = mod_const(x, c)
        if k is not None: return (x - k).scale(Fraction(1, c))
    if op in ("ashr", "lshr"): return A("shr", x, y, ints=True)
    return A(op, x, y)
for _k, _o in (("sdiv", "sdiv"), ("srem", "srem"), ("shr", "ashr"), ("and", "and"), ("or", "or"), ("xor", "xor")): rebuilder(_k)(lambda x, y, _o=_o: int_op(_o, x, y) if isinstance(x, Poly) and isinstance(y, Poly) else A("op", _o, x, y))

class Interp:
    def __init__(s, module, models=None, max_unroll=140, max_depth=40, assume_args=None):
        s.m = module
        s.models = {}
        s.rx_models = []
        s.muls = None               # list: every 32 bit product as (x, y, path condition, place)
        s.fcells = set()            # memory cells that hold floating-point values
        for k, v in (models or {}).items():
            if isinstance(k, str): s.models[k] = v
            else: s.rx_models.append((k, v))
        s.out = []
        s.ctx = ()
        s.kst = ()
        s.stack = []
        s.max_unroll = max_unroll
        s.max_depth = max_depth
        s.rmemo = {}
        s.notes = []
        s.counter = 0
        s.visited = set()
        s.emit_index = False
        s.emit_store = True
        s.quiet = 0
        s.steps = 0
        s.max_steps = 3000000
        s.write_track = []
        s.loops = {}
        s.devirt = {}
        s.no_inline = None       # optional predicate(Func) -> True to keep opaque
        s.guard = ONE
        s.cache_model = {}

    # -------------------------------------------------------------- events
    def emit(s, kind, name, args, ret=None, guard=None, loc=None, **x):
        e = Ev(kind, name, args, s.guard if guard is None else guard, loc or s.loc(), ret, **x)
        s.out.append(e)
        return e
    def loc(s):
        i = s.cur
        return Loc(i.get("f", s.curf.file) if i else s.curf.file, i.get("l", s.curf.line) if i else s.curf.line, s.curf.dn, tuple(s.stack))

    # -------------------------------------------------------------- memory
    def getmem(s, st, obj):
        m = st.mem.get(obj)
        if m is None and obj[0] == "E" and obj[1][0] == "E":      # a vector inside a vector whose inner vectors changed
            mk = st.mem.get(("N", obj[1]))
            if mk is not None:
                m = s.cache_model.get(("N", mk.id, obj))
                if m is None: m = s.cache_model[("N", mk.id, obj)] = Mem(mk.k, mk.prev, mk.a)
        if m is None:
            m = s.cache_model.get(("init", obj))
            if m is None:
                m = Mem("init", None, obj); s.cache_model[("init", obj)] = m
        return m
    def setmem(s, st, obj, m):
        st.mem[obj] = m
    def disjoint(s, d, wsize, size):
        """offset difference d = off - woff: regions [woff,woff+wsize) and [off,off+size) do not overlap"""
        if d.is_const():
            c = d.const(); return c >= wsize or c <= -size
        sg = poly_sign(d - P(wsize), True)
        if sg in (">0", ">=0"): return True
        sg = poly_sign(-d - P(size), True)
        if sg in (">0", ">=0"): return True
        g = 0
        import math
        for m, c in d.t.items():
            if m == (): continue
            if isinstance(c, Fraction): return False
            g = math.gcd(g, c)
        c0 = d.const()
        if isinstance(c0, Fraction) or g == 0: return False
        r = c0 % g
        return r >= wsize and g - r >= size
    def read(s, mem, obj, off, size, ty):
        key = (mem.id, off, size, ty)
        r = s.rmemo.get(key)
        if r is not None: return r
        m = mem; nite = 0
        while True:
            k = m.k
            if k == "w":
                woff, wsize, v = m.a
                d = off - woff
                if d.is_zero():
                    if wsize == size or isinstance(v, Undef): r = v; break
                    if not (isinstance(v, Node)) and isinstance(v, Poly) and v.is_zero() and size < wsize: r = v; break
                    r = s.partial(v, 0, wsize, size, ty); break
                if s.disjoint(d, wsize, size): m = m.prev; continue
                if d.is_const(): r = s.partial(v, d.const(), wsize, size, ty); break
                if wsize == size:
                    c = c_not(c_or(gt0(d, True), gt0(-d, True)))
                    r = ite(c, v, s.read(m.prev, obj, off, size, ty)); break
                r = s.fresh_ld(("pw", m.id), obj, off, ty); break
            elif k == "r":
                woff, n, smem, sobj, soff = m.a
                d = off - woff
                sg1 = poly_sign(d, True)
                end = n - d - P(size)
                sg2 = ">0" if n.is_const() and n.const() >= 1 << 49 else poly_sign(end, True)      # a whole array
                if sg1 in (">0", ">=0", "=0") and sg2 in (">0", ">=0", "=0"): r = s.read(smem, sobj, soff + d, size, ty); break
                if (sg1 in ("<0",) and poly_sign(-d - P(size), True) in (">0", ">=0", "=0")) or poly_sign(d - n, True) in (">0", ">=0", "=0"): m = m.prev; continue
                c = c_and(gt0(d + 1, True), gt0(end + 1, True))
                r = ite(c, s.read(smem, sobj, soff + d, size, ty), s.read(m.prev, obj, off, size, ty)); break
            elif k == "fill":
                woff, n, es, tmem, tobj = m.a       # n None: until the end
                d = off - woff
                sg1 = poly_sign(d, True)
                inl = sg1 in (">0", ">=0", "=0")
                if n is None: inh = True
                else:
                    sg2 = poly_sign(n - d - P(size), True); inh = sg2 in (">0", ">=0", "=0")
                rem = s.rem_const(d, es)
                tv = (lambda: s.read(tmem, tobj, P(rem), size, ty)) if rem is not None else (lambda: s.fresh_ld(("fill", m.id), obj, off, ty))
                if inl and inh: r = tv(); break
                if poly_sign(-d - P(size), True) in (">0", ">=0", "=0"): m = m.prev; continue
                c = gt0(d + 1, True)
                if n is not None: c = c_and(c, gt0(n - d - P(size) + 1, True))
                r = ite(c, tv(), s.read(m.prev, obj, off, size, ty)); break
            elif k == "fam":
                # for all kk in [0,T): a[woff(kk)] = v(kk) (if g(kk))
                kat, T, woff, wsize, v, g, base = m.a
                co = woff.coeffs_in(kat)
                c1 = co.get(1, ZERO); c0 = co.get(0, ZERO)
                if s.famdisjoint(off, c0, c1, wsize, size): m = m.prev; continue
                if c1.is_const() and size == wsize:
                    d = off - c0
                    q = div_int(d, c1.const())
                    if q is not None:
                        c = c_and(gt0(q + 1, True), gt0(T - q, True))
                        sub = Subst({kat: q})
                        if base is None: res = lambda x: sub.any(x)
                        else:
                            tag, bmem = base
                            def res(x):
                                x = sub.any(x)
                                mp = {}
                                for at in deep_atoms(x):
                                    if at.kind == "ld" and at.args[0] == tag and at.args[1] == obj: mp[at.id] = s.read(bmem, obj, at.args[2], size, ty if at.ints == ty.startswith("i") else "double")
                                return Subst(mp).any(x) if mp else x
                        if g != ONE: c = c_and(c, res(g))
                        r = ite(c, res(v), s.read(m.prev, obj, off, size, ty)) if c != ZERO else s.read(m.prev, obj, off, size, ty)
                        break
                r = s.fresh_ld(("fam", m.id), obj, off, ty); break
            elif k == "ite":
                prs = m.a
                r = s.join([(g, s.read(mm, obj, off, size, ty)) for g, mm in prs], ONE); break
            elif k == "hav":
                r = s.fresh_ld(m.a, obj, off, ty); break
            elif k == "zero":
                r = NULL if ty == "ptr" else ZERO; break
            elif k == "undef":
                r = UNDEF; break
            elif k == "init":
                r = s.init_load(m.a, off, size, ty); break
            else: raise Unsupported("mem " + k)
        s.rmemo[key] = r
        return r
    def famdisjoint(s, off, c0, c1, wsize, size):
        if not c1.is_const(): return False
        import math
        d = off - c0
        g = abs(c1.const())
        if isinstance(g, Fraction): return False
        for mm, c in d.t.items():
            if mm == (): continue
            if isinstance(c, Fraction): return False
            g = math.gcd(g, c)
        if g == 0: return False
        k0 = d.const()
        if isinstance(k0, Fraction): return False
        r = k0 % g
        return r >= wsize and g - r >= size
    def rem_const(s, d, es):
        for m, c in d.t.items():
            if m == (): continue
            if isinstance(c, Fraction) or c % es: return None
        c = d.const()
        return None if isinstance(c, Fraction) else c % es
    def partial(s, v, d, wsize, size, ty):
        if isinstance(v, Poly) and v.is_zero(): return v
        if isinstance(v, Undef): return v
        if isinstance(v, Poly) and v.is_const() and v.const() == int(v.const()) and d == int(d) and 0 <= d and d + size <= wsize <= 8 and ty.startswith("i"):
            x = (int(v.const()) >> (8 * int(d))) & ((1 << (8 * size)) - 1)
            return num(x - (1 << (8 * size)) if x >> (8 * size - 1) and size > 1 else x)
        return A("part", v, d, wsize, size)
    def fresh_ld(s, tag, obj, off, ty):
        if ty == "ptr": return Ptr(("D", tag, obj, off), ZERO)
        if ty == "vs":
            p = A("ld", tag, obj, off, ints=True); declare_nonneg(p); return p
        return A("ld", tag, obj, off, ints=ty.startswith("i"))
    def init_load(s, obj, off, size, ty):
        if obj[0] == "glob":
            g = s.m.globals.get(obj[1])
            if g and (g["const"] or obj[1].startswith("_ZTV")) and "init" in g and off.is_const():
                o = off.const()
                for e in g["init"]:
                    if e[0] == o and e[1] == size: return s.const(e[2])
                    if e[2]["k"] == "zero" and e[0] <= o < e[0] + e[1]: return NULL if ty == "ptr" else ZERO
                if ty.startswith("i") and isinstance(size, int) and 1 < size <= 8:
                    b = {}
                    for e in g["init"]:
                        if e[2]["k"] == "i" and e[1] == 1: b[e[0]] = int(e[2]["v"]) & 255
                        elif e[2]["k"] == "zero":
                            for j in range(min(e[1], 64)): b[e[0] + j] = 0
                    b = [b.get(o + j) for j in range(size)]
                    if None not in b:
                        x = sum(v << (8 * j) for j, v in enumerate(b))
                        return num(x - (1 << (8 * size)) if x >> (8 * size - 1) else x)
        if obj[0] in ("alloca", "heap"): return UNDEF
        if obj[0] == "null": return UNDEF
        if ty == "ptr": return Ptr(("D", "i", obj, off), ZERO)
        if ty == "vs" or (ty == "i64" and size == 8 and s.isvec(obj, off)):      # the size of a vector, read back where paths meet
            p = A("vs", obj, off, ints=True); declare_nonneg(p); return p
        return A("ld", "i", obj, off, ints=ty.startswith("i"))
    def note_write(s, obj, off, size):
        for t in s.write_track: t.add((obj, off, size))
    def load(s, st, p, size, ty):
        def leaf(q):
            if not isinstance(q, Ptr): return A("badload", q) if ty != "ptr" else Ptr(("D", "bad", ("x", q), ZERO), ZERO)
            return s.read(s.getmem(st, q.obj), q.obj, q.off, size, ty)
        return bind(leaf, p)
    def store(s, st, p, v, size, ev=True):
        ls = leaves(p)
        for q in ls:
            if not isinstance(q, Ptr): continue
            m = s.getmem(st, q.obj)
            g = cond_eq(p, q) if len(ls) > 1 else ONE
            vv = v
            if g != ONE:
                vv = ite(g, v, s.read(m, q.obj, q.off, size, s.tyof(v)))
            while m.k == "w" and m.a[0] == q.off and m.a[1] == size: m = m.prev
            s.setmem(st, q.obj, Mem("w", m, (q.off, size, vv)))
            s.note_write(q.obj, q.off, size)
            if ev and s.emit_store and s.visible(q.obj):
                s.emit("store", "store", [q, v], guard=c_and(s.guard, g))
    def visible(s, obj):
        return obj[0] != "alloca"
    def tyof(s, v):
        for l in leaves(v):
            if isinstance(l, Ptr): return "ptr"
        return "i64"
    def havoc(s, st, obj, tag):
        s.setmem(st, obj, Mem("hav", None, tag))
        s.note_write(obj, None, None)
    def copy_region(s, st, dst, src, n, ev=True):
        for d in leaves(dst):
            for sr in leaves(src):
                if not isinstance(d, Ptr) or not isinstance(sr, Ptr): continue
                c = c_and(cond_eq(dst, d), cond_eq(src, sr))
                c = restrict(c, s.guard)
                if c == ZERO: continue
                sm = s.getmem(st, sr.obj); dm = s.getmem(st, d.obj)
                nm = Mem("r", dm, (d.off, n, sm, sr.obj, sr.off))
                if c != ONE: nm = Mem("ite", None, ((c, nm), (ONE, dm)))
                s.setmem(st, d.obj, nm)
                s.note_write(d.obj, d.off, n.const() if n.is_const() else None)
                if ev and s.emit_store and s.visible(d.obj):
                    s.emit("copy", "copy", [d, sr, n], guard=c_and(s.guard, c), mem=sm)

    # -------------------------------------------------------------- state merge
    def merge(s, ins):
        """ins: list of (guard, state); returns (guard, state)"""
        if len(ins) == 1: return ins[0][0], ins[0][1].copy()
        G = ZERO
        try:
            for g, _ in ins: G = c_or(G, g)
        except Blowup:
            s.counter += 1; G = opaque_bool(("blowm", s.ctx, s.counter, s.kst))
        objs = {}
        for g, st in ins:
            for o in st.mem: objs[o] = None
        r = State()
        for o in objs:
            ms = [(g, s.getmem(st, o)) for g, st in ins]
            m0 = ms[0][1]
            if all(m is m0 for _, m in ms): r.mem[o] = m0; continue
            r.mem[o] = s.merge_mem(o, ms, G)
        return G, r
    def merge_mem(s, o, ms, G):
        # try to keep plain write chains: common ancestor + guarded writes
        chains = []
        for g, m in ms:
            c = []; x = m
            while x is not None: c.append(x); x = x.prev
            chains.append(c)
        ids = [set(id(x) for x in c) for c in chains]
        anc = None
        for x in chains[0]:
            if all(id(x) in i for i in ids[1:]): anc = x; break
        if anc is not None:
            writes = {}
            ok = True
            for c in chains:
                for x in c:
                    if x is anc: break
                    if x.k != "w" or not x.a[0].is_const(): ok = False; break
                    writes[(x.a[0], x.a[1])] = None
                if not ok: break
            ws = list(writes)
            if ok:
                # overlapping different-size writes are not handled here
                for i in range(len(ws)):
                    for j in range(i):
                        d = ws[i][0] - ws[j][0]
                        if not s.disjoint(d, ws[j][1], ws[i][1]): ok = False
            if ok and len(ws) <= 64:
                m = anc
                # order by offset for canonical chains
                for off, size in sorted(ws, key=lambda w: w[0].const()):
                    ty = "i%d" % (size * 8)
                    for c in chains:
                        for x in c:
                            if x is anc: break
                            if x.k == "w" and x.a[0] == off: ty = s.tyof(x.a[2]) if s.tyof(x.a[2]) == "ptr" else ty
                    v = s.join([(g, s.read(mm, o, off, size, ty)) for g, mm in ms], G)
                    m = Mem("w", m, (off, size, v))
                return m
        return Mem("ite", None, tuple(ms))

    # -------------------------------------------------------------- constants / operands
    def const(s, o):
        k = o["k"]
        if k == "i":
            v = int(o["v"])
            if o.get("b") == 1: return ONE if v & 1 else ZERO
            return num(v)
        if k == "f":
            t = o["v"]
            if t in ("nan", "inf", "-inf"): return A("fconst", t)
            return num(Fraction(float.fromhex(t)))
        if k == "null": return NULL
        if k == "undef": return UNDEF
        if k == "zero": return ZERO
        if k == "g":
            n = o["v"]
            f = s.m.func(n)
            if f is not None: return Fn(f.name)
            return Ptr(("glob", n), num(o.get("o", 0)))
        if k == "m": return UNDEF
        return A("const", o.get("v"))
    def val(s, env, o):
        if o["k"] == "v":
            v = env.get(o["v"])
            if v is None: return UNDEF
            return v
        return s.const(o)

    # -------------------------------------------------------------- running
    def call_func(s, f, args, st):
        """analyse function f in the current context; returns value; st is updated in place"""
        if len(s.stack) > s.max_depth: raise Unsupported("call depth")
        s.visited.add(f.name)
        cfg = f.cfg()
        env = {}
        for a, v in zip(f.args, args): env[a["i"]] = v
        saved = (getattr(s, "curf", None), getattr(s, "cur", None))
        s.curf = f; s.cur = None
        g0 = s.guard
        rets = []
        region = s.run_region(f, env, set(cfg.reach), cfg.entry, [(g0, st.copy(), None)], rets, None)
        s.curf, s.cur = saved
        if not rets:
            s.guard = ZERO
            return UNDEF
        G, ns = s.merge([(g, x) for g, x, v in rets])
        v = None
        v = s.join([(g, x) for g, _, x in rets], G)
        st.mem = ns.mem
        s.guard = G
        return v

    def run_region(s, f, env, blocks, entry, incoming, rets, loop, header_cond=None):
        """evaluates blocks (loops inside collapsed). incoming: [(guard,state,pred)] for entry.
        returns (latch edges, exit edges) for a loop body region"""
        cfg = f.cfg()
        pend = {entry: list(incoming)}
        latches = []; exits = []
        inner = loop
        for b in cfg.rpo:
            if b not in blocks: continue
            L = cfg.loop_of.get(b)
            # blocks belonging to a loop nested in this region are handled by its header
            if L is not inner:
                H = L
                while H is not None and H.parent is not inner: H = H.parent
                if H is None: raise AnalysisError("loop structure in " + f.dn)
                if b != H.header: continue
                ins = pend.pop(b, None)
                if not ins: continue
                for (g, st, src, dst) in s.run_loop(f, env, H, ins, rets):
                    if g == ZERO: continue
                    if loop is not None and dst == entry: latches.append((g, st, src))
                    elif dst in blocks: pend.setdefault(dst, []).append((g, st, src))
                    else: exits.append((g, st, src, dst))
                continue
            ins = pend.pop(b, None)
            if not ins: continue
            ins = [x for x in ins if x[0] != ZERO]
            if not ins: continue
            G, st = s.merge([(g, x) for g, x, _ in ins])
            if not (loop is not None and b == entry):
                s.do_phis(f, env, b, ins, G)
            outs = s.run_block(f, env, b, st, G, rets, header_cond if b == entry else None)
            for g, st2, dst in outs:
                if g == ZERO: continue
                if loop is not None and dst == entry: latches.append((g, st2, b))
                elif dst in blocks: pend.setdefault(dst, []).append((g, st2, b))
                else: exits.append((g, st2, b, dst))
        return latches, exits

    def phi_val(s, env, i, ins, G):
        inc = {}
        for pb, o in i["a"]: inc[pb] = o
        return s.join([(g, s.val(env, inc[pb])) for g, _, pb in ins], G)
    def join(s, l, G):
        """value of a merge point: l = [(guard, value)]"""
        l = [x for x in l if x[1] is not None]
        if not l: return None
        if len(l) == 1: return l[0][1]
        try:
            v = None
            for g, x in reversed(l): v = x if v is None else ite(g, x, v)
            v = restrict(v, G)
            if isinstance(v, Node) and nodecount(v, 600) > 600: raise Blowup()
            return v
        except Blowup:
            s.counter += 1
            tag = ("join", s.ctx, s.curf.name, s.cur["i"] if s.cur else 0, s.kst, s.counter)
            xs = [y for _, x in l for y in leaves(x)]
            if any(isinstance(y, Ptr) for y in xs): return Ptr(("D", "join", tag, ZERO), ZERO)
            if all(y in (ONE, ZERO) for y in xs): return opaque_bool(tag)
            return A("join", tag, ints=all(isinstance(y, Poly) and is_int_poly(y) for y in xs))
    def do_phis(s, f, env, b, ins, G):
        new = {}
        for i in f.blocks[b]:
            if i["op"] != "phi": break
            new[i["i"]] = s.phi_val(env, i, ins, G)
        env.update(new)

    def run_block(s, f, env, b, st, G, rets, header_cond=None):
        s.guard = G
        for i in f.blocks[b]:
            op = i["op"]
            if op == "phi": continue
            s.steps += 1
            if s.steps > s.max_steps: raise TooBig("step budget")
            s.cur = i; s.curf = f
            if op == "br":
                a = i["a"]
                if len(a) == 1: return [(s.guard, st, a[0]["v"])]
                try: c = restrict(to_cond(s.val(env, a[0])), s.guard)
                except Blowup: c = opaque_bool(("blowc", s.ctx, f.name, i["i"], s.kst))
                if header_cond is not None: header_cond.append((i, c, a[2]["v"], a[1]["v"]))
                try: t = c_and(s.guard, c); e = c_and(s.guard, c_not(c))
                except Blowup:
                    t = opaque_bool(("blowg", s.ctx, f.name, i["i"], s.kst)); e = c_not(t)
                return [(t, st, a[2]["v"]), (e, st, a[1]["v"])]
            if op == "ret":
                rets.append((s.guard, st, s.val(env, i["a"][0]) if i["a"] else None)); return []
            if op == "unreachable": return []
            if op == "switch":
                v = s.val(env, i["a"][0]); rest = s.guard; outs = []
                for cv, dst in i["cases"]:
                    c = restrict(s.cmp("eq", v, s.const(cv), True), s.guard)
                    outs.append((c_and(rest, c), st, dst)); rest = c_and(rest, c_not(c))
                outs.append((rest, st, i["a"][1]["v"]))
                m = {}
                for g, x, d in outs: m[d] = c_or(m[d], g) if d in m else g
                return [(g, st, d) for d, g in m.items()]
            try: r = s.inst(f, env, i, st)
            except Blowup:
                if op in ("call", "store"): raise
                tag = ("blow", s.ctx, f.name, i["i"], s.kst)
                r = opaque_bool(tag) if i["t"] == "i1" else Ptr(("D", "blow", tag, ZERO), ZERO) if i["t"] == "ptr" else A("blow", tag, ints=i["t"].startswith("i"))
            if s.guard == ZERO: return []
            if r is not None: env[i["i"]] = r
        return []

    # -------------------------------------------------------------- loops
    def run_loop(s, f, env, L, ins, rets):
        cfg = f.cfg()
        G, st0 = s.merge([(g, x) for g, x, _ in ins])
        phis = [i for i in f.blocks[L.header] if i["op"] == "phi"]
        inits = {i["i"]: s.phi_val(env, i, ins, G) for i in phis}
        # 1. constant trip count: iterate
        save_out = s.out; save_ctx = s.ctx; save_trk = s.write_track
        env0 = dict(env)
        try:
            r = s.unroll(f, env, L, G, st0.copy(), dict(inits), phis, rets)
            if r is not None: return r
        finally:
            s.ctx = save_ctx
        s.out = save_out
        env.clear(); env.update(env0)
        # 2. symbolic summary
        return s.summarise(f, env, L, G, st0, inits, phis, rets)

    def unroll(s, f, env, L, G, st, cur, phis, rets):
        base_out = s.out; base_ctx = s.ctx
        nrets = len(rets)
        acc = []; exits = []
        g = G; n = 0
        trk = [set(t) for t in s.write_track]
        def fail():
            s.out = base_out; del rets[nrets:]
            s.write_track[:] = [t for t in s.write_track]
            return None
        while True:
            env.update(cur)
            s.out = []
            s.ctx = base_ctx + (("u", n),)
            hc = []
            la, ex = s.run_region(f, env, L.blocks, L.header, [(g, st, None)], rets, L, hc)
            body = s.out; s.out = base_out
            if hc:
                c = hc[0][1]
                ext = any(d not in L.blocks for d in (hc[0][2], hc[0][3]))
                if ext and c not in (ONE, ZERO):
                    return fail()
                if not ext and n == 0:
                    lg = ZERO
                    for x in la: lg = c_or(lg, x[0])
                    if lg != ZERO and lg != restrict(lg, g) and lg != g: return fail()
            la = [x for x in la if x[0] != ZERO]
            if not hc or not ext:
                if la:
                    lg = ZERO
                    for x in la: lg = c_or(lg, x[0])
                    if restrict(lg, g) != ONE and lg != g and n >= 1 and not ex == []:
                        # data dependent continuation without a decided header test
                        return fail()
                    if restrict(lg, g) != ONE and n == 0 and ex: 
                        return fail()
            acc.extend(body)
            # values leaving the loop: phi operands of the exit blocks must see this iteration's values
            for (eg, est, src, dst) in ex:
                exits.append((eg, est, src, dst, dict(env)))
            if not la: break
            n += 1
            if n > s.max_unroll or len(acc) > 20000: return fail()
            g, st = s.merge([(x[0], x[1]) for x in la])
            cur = {i["i"]: s.phi_val(env, i, [(x[0], x[1], x[2]) for x in la], g) for i in phis}
            if g == ZERO: break
        s.out = base_out
        s.out.extend(acc)
        if not exits: return []
        if len(exits) == 1:
            env.update(exits[0][4])
            return [exits[0][:4]]
        # several exits: join environment values that differ
        E = exits[-1][4]
        ids = set(E)
        for e in exits: ids &= set(e[4])
        res = {}
        for i in ids:
            v = None; same = True
            x0 = exits[0][4][i]
            for e in exits[1:]:
                if e[4][i] is not x0: same = False; break
            if same: res[i] = x0; continue
            for e in reversed(exits):
                x = e[4][i]
                try: v = x if v is None else ite(e[0], x, v)
                except Blowup: v = A("joined", s.ctx, i)
            res[i] = v
        env.update(res)
        # merge exits with the same edge
        by = {}
        for e in exits: by.setdefault((e[2], e[3]), []).append(e)
        out = []
        for (src, dst), es in by.items():
            gg, ss = s.merge([(e[0], e[1]) for e in es])
            out.append((gg, ss, src, dst))
        return out

    def mu_for(s, lid, var, init, fl=False):
        """loop-carried unknown; shape follows the initial value (fl: a floating-point variable, not an integer)"""
        ls = leaves(init)
        if fl: return A("mu", lid, var, s.kst)
        if ls and all(isinstance(x, Ptr) for x in ls):
            objs = {x.obj for x in ls}
            if len(objs) == 1:
                return Ptr(ls[0].obj, A("mu", lid, var, s.kst, ints=True))
            return Ptr(("D", "mu", (lid, var, s.kst), ZERO), ZERO)
        if any(isinstance(x, Ptr) for x in ls):
            return Ptr(("D", "mu", (lid, var, s.kst), ZERO), ZERO)
        return A("mu", lid, var, s.kst, ints=True)

    def summarise(s, f, env, L, G, st0, inits, phis, rets):
        lid = ("L", s.ctx, f.name, L.header)
        kat = atom("k", lid, ints=True); k = P(kat)
        _nonneg.add(kat.id)
        base_out = s.out; base_kst = s.kst; base_rets = len(rets); base_ctx = s.ctx
        env0 = dict(env)
        cells = {}      # (obj, off, size) -> type : loop carried constant-offset cells
        objs = {}       # objects havocked as arrays
        nest = {}       # vectors of objects whose inner vectors change at varying indices
        closed = {}     # var -> value in terms of k
        fphi = {i["i"] for i in phis if i["t"] in ("double", "float")}
        def body(record):
            e = dict(env0)
            st = st0.copy()
            for o in objs: st.mem[o] = Mem("hav", None, ("L", lid, base_kst))
            for p in nest:
                st.mem[("N", p)] = Mem("hav", None, ("L", lid, base_kst))
                for o in [o for o in st.mem if o[0] == "E" and o[1] == p]: st.mem[o] = Mem("hav", None, ("L", lid, base_kst))
            for (o, off, sz), ty in cells.items():
                if o in objs: continue
                var = ("c", o, off, sz)
                v = closed.get(var)
                if v is None:
                    ini = s.read(s.getmem(st0, o), o, off, sz, ty)
                    v = s.mu_for(lid, var, ini, var[1:] in s.fcells)
                    if isinstance(v, Poly) and ty == "vs": declare_nonneg(v)
                st.mem[o] = Mem("w", st.mem.get(o) or s.getmem(st0, o), (off, sz, v))
            for i in phis:
                v = closed.get(("p", i["i"]))
                e[i["i"]] = v if v is not None else s.mu_for(lid, ("p", i["i"]), inits[i["i"]], i["i"] in fphi)
            s.out = []; s.kst = base_kst + (k,)
            s.ctx = base_ctx + (("l", f.name, L.header),)
            hc = []
            trk = set(); s.write_track.append(trk)
            rr = []
            try:
                la, ex = s.run_region(f, e, L.blocks, L.header, [(G, st, None)], rr, L, hc)
            finally:
                s.write_track.pop(); s.kst = base_kst; s.ctx = base_ctx
            ev = s.out; s.out = base_out
            return e, la, ex, hc, trk, ev, rr
        changed = True; rounds = 0
        while True:
            rounds += 1
            if rounds > 14: raise Unsupported("loop summary does not stabilise in " + f.dn)
            e, la, ex, hc, trk, ev, rr = body(False)
            # discover carried memory
            new = False
            for (o, off, sz) in trk:
                if o[0] == "E" and o[1][0] == "E" and o[1] not in nest and not (isinstance(o[2], Poly) and o[2].is_const()):
                    if not (o[1][1][0] in ("alloca", "heap") and o[1] not in st0.mem): nest[o[1]] = True; new = True
                if o in objs: continue
                if o[0] in ("alloca", "heap") and o not in st0.mem: continue   # created in the iteration
                if o[0] == "heap" and base_ctx + (("l", f.name, L.header),) == o[1][:len(base_ctx) + 1]: continue
                if off is None or not off.is_const() or sz is None:
                    objs[o] = True; new = True; continue
                if (o, off, sz) not in cells:
                    bad = False
                    for (o2, off2, sz2) in cells:
                        if o2 == o and not s.disjoint(off - off2, sz2, sz): bad = True
                    if bad: objs[o] = True; new = True; continue
                    # type
                    ty = "i%d" % (sz * 8)
                    for g, stx, src in la:
                        m = s.getmem(stx, o)
                        v = s.read(m, o, off, sz, ty)
                        if s.tyof(v) == "ptr": ty = "ptr"
                    if s.isvec(o, off): ty = "vs"
                    cells[(o, off, sz)] = ty; new = True
            if new: continue
            if not la: break
            g, stl = s.merge([(x[0], x[1]) for x in la])
            # recurrences
            nxt = {}
            for i in phis: nxt[("p", i["i"])] = s.phi_val(e, i, la, g)
            for (o, off, sz), ty in cells.items():
                if o in objs: continue
                nxt[("c", o, off, sz)] = restrict(s.read(s.getmem(stl, o), o, off, sz, ty), g)
            mus = {}
            for var in nxt:
                if var in closed: continue
                ini = inits[var[1]] if var[0] == "p" else s.read(s.getmem(st0, var[1]), var[1], var[2], var[3], cells[(var[1], var[2], var[3])])
                mus[var] = (s.mu_for(lid, var, ini, var[1:] in s.fcells if var[0] == "c" else var[1] in fphi), ini)
            muids = {}
            for var, (mu, ini) in mus.items():
                p = mu if isinstance(mu, Poly) else mu.off
                for a in p.atoms(): muids[a] = var
            solved = False
            for var, (mu, ini) in mus.items():
                n = nxt[var]
                try: c = s.solve(n, mu, ini, k, kat, muids, G)
                except Blowup: c = None
                if c is not None:
                    closed[var] = c; solved = True
            if not solved: break
        # final facts
        if not la:
            # body never loops back: straight line code
            s.out = base_out; s.out.extend(ev); env.update(e)
            rets.extend(rr)
            return ex
        # ---- trip count
        exits = [x for x in ex if x[0] != ZERO]
        T, exact, rot = s.trip(f, L, hc, exits, la, G, k, kat)
        node = For()
        node.k = k; node.lid = lid; node.guard = G; node.body = ev; node.loc = Loc(f.file, f.blocks[L.header][-1].get("l", f.line), f.dn, tuple(s.stack))
        node.exact = exact and not rr
        node.trip = T + 1 if rot and T is not None else T
        node.recs = {}
        for var, n in nxt.items():
            if var not in closed:
                mu, ini = mus[var]
                node.recs[var] = (mu, ini, n)
        if exact and T is not None:
            K = T
        else:
            K = A("kexit", lid, base_kst, ints=True); declare_nonneg(K)
        node.kexit = K
        node.exits = [(x[0], x[2], x[3]) for x in exits]
        node.outs = [(x[0], x[2]) for x in rr]
        node.stay = ZERO
        for x in la: node.stay = c_or(node.stay, x[0])
        node.facc = [(co.get(0, ZERO), co[1]) for i in fphi for v in [closed.get(("p", i))] if isinstance(v, Poly) for co in [v.coeffs_in(kat.id)] if set(co) <= {0, 1} and 1 in co]   # accumulated floating point variables: first value, step
        s.out = base_out
        s.out.append(node)
        s.loops[lid] = node
        # ---- exit values
        amap = {kat.id: K}
        for var, (mu, ini) in mus.items() if mus else []:
            if var in closed: continue
            mp = mu if isinstance(mu, Poly) else mu.off
            if len(mp.t) == 1:
                (m1, c1), = mp.t.items()
                if len(m1) == 1 and m1[0][1] == 1:
                    o = s.outval(lid, var, mu, ini, nxt[var], K, k, kat, base_kst, muids)
                    if o is not None: amap[m1[0][0]] = o
        sub = Subst(amap)
        res = []
        gsum = ZERO
        loopids = {i["i"] for b in L.blocks for i in f.blocks[b]}
        for i in loopids:
            if i in e:
                try: env[i] = sub.any(e[i])
                except Blowup: env[i] = A("blow", lid, i)
        nex = len(exits)
        remaining = G
        fams = s.families(ev, objs, lid, k, kat, node, muids)
        for n, (g, stx, src, dst) in enumerate(exits):
            if nex == 1: gg = G
            elif n == nex - 1: gg = remaining
            else:
                ob = opaque_bool(("exit", lid, n, base_kst))
                gg = c_and(remaining, ob); remaining = c_and(remaining, c_not(ob))
            ns = State()
            for o, m in stx.mem.items():
                if o in objs:
                    if fams.get(o) is not None and nex == 1 and exact and src == L.header:
                        mm = s.getmem(st0, o)
                        mb = mm
                        for (kk, TT, woff, wsz, v, wg, inp) in fams[o]: mm = Mem("fam", mm, (kk, TT, woff, wsz, v, wg, (inp, mb) if inp else None))
                        ns.mem[o] = mm
                    else:
                        ns.mem[o] = Mem("hav", None, ("X", lid, n, base_kst))
                    continue
                if o in st0.mem and m is st0.mem[o]: ns.mem[o] = m; continue
                ns.mem[o] = s.subst_mem(m, sub, stop=st0.mem.get(o), o=o)
            for o, m in st0.mem.items():
                if o not in ns.mem: ns.mem[o] = m
            for p in nest:
                ns.mem[("N", p)] = Mem("hav", None, ("X", lid, n, base_kst))
                for o in [o for o in ns.mem if o[0] == "E" and o[1] == p]:
                    if isinstance(o[2], Poly) and occurs(o[2], kat.id): del ns.mem[o]
                    else: ns.mem[o] = Mem("hav", None, ("X", lid, n, base_kst))
            # re-raise events for conditions of the exit (data dependent exits stay opaque)
            res.append((gg, ns, src, dst))
            for (o, off, sz) in cells: s.note_write(o, off, sz)
            for o in objs: s.note_write(o, None, None)
        if rr:
            for (g, stx, v) in rr:
                ob = opaque_bool(("retin", lid, base_kst))
                rets.append((c_and(G, ob), stx, sub.any(v) if v is not None else None))
            res = [(c_and(g, c_not(opaque_bool(("retin", lid, base_kst)))), a, b, c) for g, a, b, c in res]
        return res

    def isvec(s, o, off):
        return ("vec", o, off) in s.cache_model

    def subst_mem(s, m, sub, stop, o):
        chain = []
        x = m
        while x is not None and x is not stop:
            chain.append(x); x = x.prev
        r = x
        for y in reversed(chain):
            if y.k == "w":
                try: v = sub.any(y.a[2])
                except Blowup: v = A("blow", y.id)
                off = sub.any(y.a[0])
                if isinstance(off, Node): r = Mem("hav", None, ("so", y.id)); continue
                r = Mem("w", r, (off, y.a[1], v))
            elif y.k == "ite":
                r = Mem("ite", None, tuple((sub.any(g), s.subst_mem(mm, sub, stop, o)) for g, mm in y.a))
            elif y.k == "r":
                woff, n, smem, sobj, soff = y.a
                a1, a2, a3 = sub.any(woff), sub.any(n), sub.any(soff)
                if any(isinstance(q, Node) for q in (a1, a2, a3)): r = Mem("hav", None, ("so", y.id)); continue
                r = Mem("r", r, (a1, a2, smem if smem is m else s.subst_mem(smem, sub, None, o) if smem.k == "w" else smem, sub.any(sobj), a3))
            elif y.k in ("hav", "init", "undef", "zero"):
                r = y
            elif y.k == "fill":
                woff, n, es, tm, to = y.a
                r = Mem("fill", r, (sub.any(woff), None if n is None else sub.any(n), es, tm, to))
            elif y.k == "fam":
                kk, TT, woff, wsz, v, wg, base = y.a
                if base is not None: base = (sub.any(base[0]), s.subst_mem(base[1], sub, stop, o))
                r = Mem("fam", r, (kk, sub.any(TT), sub.any(woff), wsz, sub.any(v), sub.any(wg), base))
            else: r = Mem("hav", None, ("sm", y.id))
        return r

    def families(s, ev, objs, lid, k, kat, node, muids):
        """exact summaries of array writes a[off(k)] = v(k); None when not exact"""
        res = {}
        for o in objs: res[o] = []
        def bad(o): res[o] = None
        tag = ("L", lid, s.kst)
        reads = {}                  # object -> offsets read at the head of the iteration by its own writes
        def write(o, off, v, guard, sz):
            if res.get(o) is None: return
            if not isinstance(off, Poly): return bad(o)
            co = off.coeffs_in(kat.id)
            if set(co) - {0, 1} or 1 not in co or not co[1].is_const() or any(occurs(c, kat.id) for c in co.values()): return bad(o)
            ats = deep_atoms((v, off, guard))
            if any(a.id in muids or a.kind == "mu" and a.args[0] == lid for a in ats): return bad(o)
            # reading the same object inside the loop: value refers to the ("L", lid) havoc
            own = [a for a in ats if a.kind == "ld" and a.args[0] == tag and a.args[1] == o]
            if any(a.kind == "ld" and a.args[0] == tag and a.args[1] == o for a in deep_atoms(off)): return bad(o)
            reads.setdefault(o, []).extend((a.args[2], sz) for a in own)
            g = restrict(guard, node.guard)
            g2 = assume_trip(g, k, node.trip)       # drop the trip test itself
            res[o].append((kat.id, node.trip, off, sz, v, g2, tag if own else None))
        def mesh(x):
            kk = x.args[0]; V = ("MV", kk); T = ("MT", kk)
            if x.name in ("add_vertex", "set_vertex"):
                i, c = (x.ret, x.args[1]) if x.name == "add_vertex" else (x.args[1], x.args[2])
                for n in range(3): write(V, i.scale(24) + 8 * n if isinstance(i, Poly) else None, c[n], x.guard, 8)
            elif x.name in ("add_triangle", "unlink"):
                i = x.ret if x.name == "add_triangle" else x.args[1]
                for n in range(4):
                    if n < 3 and x.name == "unlink": continue
                    write(T, i.scale(16) + 4 * n if isinstance(i, Poly) else None, x.args[1 + n] if n < 3 else (ZERO if x.name == "add_triangle" else ONE), x.guard, 4)
            elif x.name == "clear": bad(V); bad(T)
        def touched(x):
            """objects an event writes apart from plain stores: a vector's header and its buffer"""
            for l in leaves(x.args[0]) if isinstance(x.args[0], (Node, Ptr)) else []:
                if isinstance(l, Ptr):
                    yield l.obj
                    if x.kind == "vec": yield ("E", l.obj, l.off)
            if x.kind == "vec" and x.name == "swap" and isinstance(x.args[1], Ptr):
                yield x.args[1].obj; yield ("E", x.args[1].obj, x.args[1].off)
        for x in ev:
            if isinstance(x, For):
                for y, _ in walk([x]):
                    if isinstance(y, Ev) and y.kind in ("store", "copy", "havoc", "vec"):
                        for o in touched(y):
                            if o in res: bad(o)
                    elif isinstance(y, Ev) and y.kind == "mesh" and y.name in ("add_vertex", "set_vertex", "add_triangle", "unlink", "clear"):
                        for o in (("MV", y.args[0]), ("MT", y.args[0])):
                            if o in res: bad(o)
                continue
            if x.kind == "store" and x.args[0].obj in res: write(x.args[0].obj, x.args[0].off, x.args[1], x.guard, x.x.get("size", 8))
            elif x.kind == "mesh":
                mesh(x)
            elif x.kind in ("copy", "havoc", "vec"):
                for o in touched(x):
                    if o in res: bad(o)
            elif x.kind == "call":
                for a in x.args:
                    for l in leaves(a) if not isinstance(a, (str, list, tuple)) else []:
                        if isinstance(l, Ptr) and l.obj in res: bad(l.obj)
        for o, l in list(res.items()):
            if l is None: continue
            if not l or o not in objs: res[o] = None; continue
            for i in range(len(l)):
                for j in range(i):
                    ci = l[i][2].coeffs_in(kat.id)[1]; cj = l[j][2].coeffs_in(kat.id)[1]
                    d = l[i][2] - l[j][2]
                    if ci != cj: res[o] = None; break
                    if d.is_zero(): continue
                    g = abs(ci.const()); c = d.const() if d.is_const() else None
                    if c is None or not (c % g >= l[j][3] and g - c % g >= l[i][3]): res[o] = None; break
                if res[o] is None: break
                if res[o] is not None and abs(l[i][2].coeffs_in(kat.id)[1].const()) < l[i][3]: res[o] = None; break
            if res[o] is not None and reads.get(o):
                # every iteration reads and writes its own window of the array only: what it reads is the content before the loop
                c = abs(l[0][2].coeffs_in(kat.id)[1].const()); ds = []
                for off, sz in [(x[2], x[3]) for x in l] + reads[o]:
                    d = off - l[0][2]
                    if not d.is_const(): res[o] = None; break
                    ds.append((d.const(), d.const() + sz))
                if res[o] is not None and max(y for _, y in ds) - min(x for x, _ in ds) > c: res[o] = None
        return res

    def outval(s, lid, var, mu, ini, n, K, k, kat, kst, muids):
        """value of an unsolved loop variable after the loop"""
        # reductions: next - mu free of mus  ->  init + sum_{k<K} delta(k)
        if isinstance(mu, Poly):
            try:
                def d(x, i):
                    if not isinstance(x, Poly) or not isinstance(i, Poly): raise Unsupported("")
                    return x - mu
                delta = apply(lambda x: d(x, ZERO), n)
                if not any(a.id in muids for a in deep_atoms(delta)):
                    sm = A("sum", kat, K, delta)
                    return apply(lambda i: i + sm if isinstance(i, Poly) else sm, ini)
            except (Unsupported, Blowup): pass
        # last value: next free of mus
        return A("out", lid, var, kst, K, ints=not isinstance(mu, Poly) or is_int_poly(mu))

    def solve(s, n, mu, ini, k, kat, muids, G):
        """closed form in k of x0 = ini, x(k+1) = n(x(k),k)"""
        if n is mu or n == mu: return ini
        isptr = isinstance(mu, Ptr)
        mp = mu.off if isptr else mu
        def get(x):
            if isptr:
                if not isinstance(x, Ptr) or x.obj != mu.obj: raise Unsupported("")
                return x.off
            if not isinstance(x, Poly): raise Unsupported("")
            return x
        try:
            delta = apply(lambda x: get(x) - mp, n)
        except Unsupported: delta = None
        if delta is not None and isinstance(delta, Poly) and not any(a.id in muids for a in deep_atoms(delta)):
            # k only at top level
            co = delta.coeffs_in(kat.id)
            if all(e >= 0 for e in co) and not any(occurs(c, kat.id) for c in co.values()):
                sm = faulhaber(delta, kat.id, k)
                if sm is not None:
                    def addi(i):
                        if isptr: return Ptr(i.obj, i.off + sm)
                        return i + sm
                    if all(isinstance(l, (Ptr if isptr else Poly)) for l in leaves(ini)):
                        return apply(addi, ini)
            return None
        # sign alternation x -> -x, toggles: not needed
        # previous-iteration value: n free of mus
        if not any(a.id in muids for a in deep_atoms(n)) and not any(isinstance(l, Undef) for l in leaves(n)):
            if any(isinstance(l, Undef) for l in leaves(ini)): return None
            prev = Subst({kat.id: k - 1}).any(n)
            return ite(gt0(k, True), prev, ini)
        return None

    def trip(s, f, L, hc, exits, la, G, k, kat):
        """(T, exact, rotated)"""
        def find(stay):
            # stay: condition (diagram) of continuing, in terms of k
            stay = restrict(stay, G)
            best = None
            # conjunction: look for a predicate necessary for stay
            for pr in preds_of(stay):
                if pr.kind != "gt": continue
                co = pr.poly.coeffs_in(kat.id)
                if set(co) - {0, 1} or 1 not in co or not co[1].is_const(): continue
                if occurs(co.get(0, ZERO), kat.id): continue
                b = co[1].const(); a = co.get(0, ZERO)
                pnode = mk(pr.id, ONE, ZERO)
                if b < 0 and implies(stay, pnode):
                    T = ceildiv(a, -b); ex = (stay == pnode)
                    if best is None or ex: best = (T, ex)
                if b > 0 and implies(stay, c_not(pnode)):
                    # a + b k <= 0  -> k <= -a/b -> trip = floor(-a/b)+1
                    T = ceildiv(-a + 1, b) if pr.isint else None
                    if T is not None:
                        ex = (stay == c_not(pnode))
                        if best is None or ex: best = (T, ex)
                # disequality
                ne = c_or(gt0(pr.poly, pr.isint), gt0(-pr.poly, pr.isint))
                if implies(stay, ne):
                    aa, bb = (a, -b) if b < 0 else (-a, b)
                    q = div_int(aa, bb)
                    if q is not None:
                        ex = (stay == ne)
                        if best is None or ex: best = (q, ex)
            return best
        if len(exits) == 1 and exits[0][2] == L.header:
            stay = c_not(restrict(exits[0][0], G)); stay = restrict(stay, G)
            r = find(stay)
            if r: return r[0], r[1], False
            return None, False, False
        if len(exits) == 1:
            # single exit in the latch (rotated loop)
            stay = ZERO
            for x in la: stay = c_or(stay, x[0])
            r = find(stay)
            if r: return r[0], r[1], exits[0][2] in L.latches
            return None, False, False
        # several exits: an upper bound from the header test
        if hc:
            i, c, t, e = hc[0]
            stay = None
            if t not in L.blocks: stay = c_not(c)
            elif e not in L.blocks: stay = c
            if stay is not None:
                r = find(stay)
                if r: return r[0], False, False
        return None, False, False

    # -------------------------------------------------------------- instructions
    def cmp(s, p, a, b, isint):
        def leaf(x, y):
            if isinstance(x, Undef) or isinstance(y, Undef): return opaque_bool(("undefcmp", s.ctx, s.cur["i"] if s.cur else 0, s.kst))
            if isinstance(x, Poly) and x.is_zero() and isinstance(y, (Ptr, Fn)): x = NULL
            if isinstance(y, Poly) and y.is_zero() and isinstance(x, (Ptr, Fn)): y = NULL
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.obj == y.obj: return s.cmpp(p, x.off - y.off, True)
                if p in ("eq", "ne"):
                    if x == NULL or y == NULL:
                        z = to_cond(y if x == NULL else x)
                        return c_not(z) if p == "eq" else z
                    own = ("alloca", "heap", "glob")
                    if x.obj[0] in own or y.obj[0] in own:
                        if x.obj[0] in own and y.obj[0] in own: return ZERO if p == "eq" else ONE
                        if (x.obj[0] in ("alloca", "heap") or y.obj[0] in ("alloca", "heap")): return ZERO if p == "eq" else ONE
                    if x.obj[0] == "arg" and y.obj[0] == "arg":
                        return ZERO if p == "eq" else ONE      # distinct argument objects (assumption; self-alias is re-run with one object)
                    k = tuple(sorted([repr(x), repr(y)]))
                    c = opaque_bool(("peq", k))
                    return c if p == "eq" else c_not(c)
                return opaque_bool(("pcmp", p, repr(x), repr(y)))
            if isinstance(x, Fn) or isinstance(y, Fn):
                r = ONE if x == y else ZERO
                return r if p == "eq" else c_not(r)
            if isinstance(x, Poly) and isinstance(y, Poly): return s.cmpp(p, x - y, isint)
            return opaque_bool(("cmp", p, repr(x), repr(y)))
        return bind2(leaf, a, b)
    def cmpp(s, p, d, isint):
        p = {"slt": "lt", "ult": "lt", "sgt": "gt", "ugt": "gt", "sle": "le", "ule": "le", "sge": "ge", "uge": "ge",
             "oeq": "eq", "ueq": "eq", "one": "ne", "une": "ne", "olt": "lt", "ogt": "gt", "ole": "le", "oge": "ge"}.get(p, p)
        if p == "ult" and not isint: p = "lt"
        if p == "gt": return gt0(d, isint)
        if p == "lt": return gt0(-d, isint)
        if p == "le": return c_not(gt0(d, isint))
        if p == "ge": return c_not(gt0(-d, isint))
        e = c_not(c_or(gt0(d, isint), gt0(-d, isint)))
        if p == "eq": return e
        if p == "ne": return c_not(e)
        if p == "ord": return ONE
        if p == "uno": return ZERO
        raise Unsupported("cmp " + p)

    def arith(s, op, a, b, i):
        def leaf(x, y):
            if isinstance(x, Undef) or isinstance(y, Undef): return UNDEF
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                if isinstance(x, Ptr) and isinstance(y, Ptr):
                    if op == "sub" and x.obj == y.obj: return x.off - y.off
                    return A("pdiff", x, y, ints=True)
                if op == "add" and isinstance(x, Ptr): return Ptr(x.obj, x.off + y)
                if op == "add": return Ptr(y.obj, y.off + x)
                if op == "sub" and isinstance(x, Ptr) and isinstance(y, Poly): return Ptr(x.obj, x.off - y)
                return A("pop", op, x, y, ints=True)
            if not (isinstance(x, Poly) and isinstance(y, Poly)): return A("op", op, x, y)
            if op in ("add", "fadd"): return x + y
            if op in ("sub", "fsub"): return x - y
            if op in ("mul", "fmul"): return x * y
            if op == "fdiv": return div(x, y)
            if op == "shl" and y.is_const() and 0 <= y.const() < 63: return x.scale(1 << int(y.const()))
            if op in INT_OPS: return int_op(op, x, y)
            return A(op, x, y)
        return apply(leaf, a, b)

    def inst(s, f, env, i, st):
        op = i["op"]; a = i.get("a", [])
        V = lambda n: s.val(env, a[n])
        if op in ("add", "sub", "mul", "fadd", "fsub", "fmul", "fdiv", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor", "frem"):
            x, y = V(0), V(1)
            if op == "mul" and s.muls is not None and i["t"] == "i32": s.muls.append((x, y, s.guard, s.loc()))
            if i["t"] == "i1":
                x, y = to_cond(x), to_cond(y)
                if op == "and": return c_and(x, y)
                if op == "or": return c_or(x, y)
                if op in ("xor", "add", "sub"): return apply(lambda p, q: ONE if p != q else ZERO, x, y)
            return s.arith(op, x, y, i)
        if op == "fneg": return apply(lambda x: -x if isinstance(x, Poly) else UNDEF, V(0))
        if op == "icmp":
            return restrict(s.cmp(i["p"], V(0), V(1), True), s.guard)
        if op == "fcmp":
            p = i["p"]
            if p in ("ult", "ugt", "ule", "uge"): p = "o" + p[1:]
            return restrict(s.cmp(p, V(0), V(1), False), s.guard)
        if op == "select": return ite(to_cond(V(0)), V(1), V(2))
        if op == "freeze": return V(0)
        if op == "alloca":
            o = ("alloca", s.ctx, f.name, i["i"])
            st.mem[o] = Mem("undef", None, None)
            return Ptr(o, ZERO)
        if op == "load":
            ty = i["t"]
            if ty.startswith("{") or ty.startswith("[") or ty.startswith("%"):
                return A("aggload", V(0), s.kst)
            v = s.load(st, V(0), i["sz"], "ptr" if ty == "ptr" else ty)
            return restrict(v, s.guard)
        if op == "store":
            v = V(0)
            p = V(1)
            n = len(s.out)
            s.store(st, p, v, i["sz"])
            for e in s.out[n:]: e.x["size"] = i["sz"]; e.x["ty"] = i["st"]
            if i["st"] in ("double", "float"):
                for q in leaves(p):
                    if isinstance(q, Ptr): s.fcells.add((q.obj, q.off, i["sz"]))
            return None
        if op == "getelementptr":
            p = V(0)
            vs = [s.val(env, o) for o, _ in i.get("var", [])]
            strides = [c for _, c in i.get("var", [])]
            if "off" not in i: return A("gep", p)
            def leaf(q, *ix):
                if not isinstance(q, Ptr): return Ptr(("D", "bad", ("x", q), ZERO), ZERO)
                off = q.off + num(i["off"])
                for x, c in zip(ix, strides):
                    if not isinstance(x, Poly): x = A("badidx", x)
                    off = off + x.scale(c)
                return Ptr(q.obj, off)
            return apply(leaf, p, *vs)
        if op in ("sext", "zext", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fpext", "fptrunc", "addrspacecast"):
            v = V(0)
            if op == "sext" and i["st"] == "i1": return apply(lambda x: num(-x.const()) if isinstance(x, Poly) and x.is_const() else A("sext1", x), v)
            return v
        if op == "trunc":
            v = V(0)
            if i["t"] == "i1": 
                return to_cond(v)
            if i["t"] in ("i8", "i16"):
                w = INTW[i["t"]]
                def leaf(x):
                    if isinstance(x, Poly):
                        if x.is_const(): return num(int(x.const()) % (1 << w))
                        return A("trunc%d" % w, x, ints=True)
                    return x
                return apply(leaf, v)
            return v
        if op in ("fptosi", "fptoui"):
            def leaf(x):
                return to_int("fptosi", x) if isinstance(x, Poly) else x
            return apply(leaf, V(0))
        if op == "extractvalue":
            ix = i["idx"]
            def leaf(x):
                for n in ix:
                    if isinstance(x, Agg): x = x.v[n]
                    else: return A("xv", x, tuple(ix)) if i["t"] != "ptr" else Ptr(("D", "xv", (x, tuple(ix)), ZERO), ZERO)
                return x
            return bind(leaf, V(0))
        if op == "insertvalue":
            n = i["idx"][0]
            def leaf(x, y):
                v = list(x.v) if isinstance(x, Agg) else [UNDEF] * 8
                v[n] = y
                return Agg(v)
            return leaf(V(0), V(1))
        if op == "call": return s.do_call(f, env, i, st)
        raise Unsupported("instruction " + op)

    # -------------------------------------------------------------- calls
    def do_call(s, f, env, i, st):
        args = [s.val(env, o) for o in i["a"]]
        if "fn" in i:
            return s.call_named(i["fn"], args, st, i, f)
        t = s.val(env, i["fv"])
        ls = leaves(t)
        if len(ls) == 1 and isinstance(ls[0], Fn): return s.call_named(ls[0].name, args, st, i, f)
        if all(isinstance(l, Fn) for l in ls):
            return s.call_multi(t, ls, args, st, i, f)
        r = s.virtual(t, args, st, i, f)
        if r is not NotImplemented: return r
        return s.opaque_call("<indirect>", args, st, i)
    def call_multi(s, t, ls, args, st, i, f):
        g0 = s.guard; ins = []; v = None; rs = []
        for l in ls:
            c = c_and(g0, cond_eq(t, l))
            if c == ZERO: continue
            s.guard = c; st2 = st.copy()
            r = s.call_named(l.name, args, st2, i, f)
            ins.append((s.guard, st2)); rs.append((s.guard, r))
        g, ns = s.merge(ins); st.mem = ns.mem; s.guard = g
        for gg, r in reversed(rs):
            if r is None: continue
            v = r if v is None else ite(gg, r, v)
        return v
    def virtual(s, t, args, st, i, f):
        """call through an unknown vtable: t loaded from slot of vptr of args[?]"""
        l = leaves(t)[0]
        if isinstance(l, Ptr) and l.obj[0] == "D" and len(l.obj) == 4:
            vt = l.obj[2]; slot = l.obj[3]
            h = s.models.get("<virtual>")
            if h:
                r = h(s, Call(s, "<virtual>", args, st, i, vt=vt, slot=slot))
                if r is not NotImplemented: return r
            e = s.emit("vcall", "virtual", args, slot=slot, vt=vt)
            r = s.opaque_result("vcall", (vt, slot) + tuple(args), i, st, args)
            e.ret = r
            return r
        return NotImplemented
    def call_named(s, name, args, st, i, f):
        fn = s.m.func(name)
        if name.startswith("llvm."): return s.intrinsic(name, args, st, i)
        dn = fn.dn if fn else name
        c = Call(s, dn, args, st, i)
        c.fn = fn
        h = s.models.get(dn)
        if h is not None:
            r = h(s, c)
            if r is not NotImplemented: return r
        for rx, h in s.rx_models:
            if rx.search(dn):
                r = h(s, c)
                if r is not NotImplemented: return r
        r = s.builtin(dn, c)
        if r is not NotImplemented: return r
        if fn is not None and not fn.decl and not (s.no_inline and s.no_inline(fn)):
            inrepo = s.m.in_repo(fn)
            if inrepo or INLINE_STD.search(dn):
                if any(x.func == dn for x in s.stack) and sum(1 for x in s.stack if x.func == dn) >= 3:
                    return s.opaque_call(dn, args, st, i)
                bv = i.get("byval", -1)
                s.stack.append(Loc(i.get("f", f.file), i.get("l", 0), f.dn, ()))
                save = (s.ctx, s.curf, s.cur)
                s.ctx = s.ctx + ((f.name, i["i"]),)
                try:
                    if bv >= 0:
                        o = ("alloca", s.ctx, "byval", bv)
                        src = args[bv]
                        T = fn.args[bv]["t"]
                        st.mem[o] = Mem("undef", None, None)
                        s.copy_region(st, Ptr(o, ZERO), src, num(1 << 20), ev=False)
                        args = list(args); args[bv] = Ptr(o, ZERO)
                    return s.call_func(fn, args, st)
                finally:
                    s.ctx, s.curf, s.cur = save
                    s.stack.pop()
        return s.opaque_call(dn, args, st, i)
    def opaque_call(s, dn, args, st, i):
        if i.get("nr") or (s.m.func(i.get("fn", "")) and s.m.func(i["fn"]).nr):
            s.emit("noreturn", dn, args)
            s.guard = ZERO
            return None
        e = s.emit("call", dn, args)
        r = s.opaque_result(dn, tuple(args), i, st, args)
        e.ret = r
        return r
    def opaque_result(s, name, key, i, st, args):
        s.counter += 1
        tag = ("call", name, s.ctx, i["i"], s.kst)
        for a in args:
            for l in leaves(a):
                if isinstance(l, Ptr) and l.obj[0] not in ("glob", "null"):
                    s.havoc(st, l.obj, tag)
        t = i["t"]
        if t == "void": return None
        if t == "ptr": return Ptr(("D", "ret", tag, ZERO), ZERO)
        if t == "i1": return opaque_bool(tag)
        return A("call", name, s.ctx + ((i["i"],),), s.kst, ints=t.startswith("i"))
    PURE = {"cos": lambda x: cos(x), "sin": lambda x: sin(x), "sqrt": lambda x: sqrt(x)}
    PURE_OPAQUE = {"tan", "acos", "asin", "atan", "atan2", "pow", "exp", "log", "floor", "ceil", "round", "fmod", "cbrt", "hypot", "trunc", "lround", "nearbyint", "rint", "log2", "log10"}
    def builtin(s, dn, c):
        n = dn.replace("std::", "") if dn.startswith("std::") else dn
        n = n.split("(")[0]
        if n in ("cos", "sin", "sqrt", "cosf", "sinf", "sqrtf"):
            g = s.PURE[n.rstrip("f") if n.endswith("f") else n]
            return apply(lambda x: g(x) if isinstance(x, Poly) else UNDEF, c.args[0])
        if n in ("fabs", "abs", "fabsf") and c.fn is not None and (c.fn.decl or n != "abs"):
            return bind(lambda x: ite(gt0(x, is_int_poly(x)), x, -x) if isinstance(x, Poly) else UNDEF, c.args[0])
        if n in s.PURE_OPAQUE and (c.fn is None or c.fn.decl):
            if n in ROUND: return apply(lambda x: to_int(n, x) if isinstance(x, Poly) else UNDEF, c.args[0])
            return apply(lambda *x: A(n, *x), *c.args)
        if dn in ("operator new(unsigned long)", "operator new[](unsigned long)"):
            arr = "[]" in dn
            o = ("heap", s.ctx, c.i["i"], s.kst)
            c.st.mem[o] = Mem("undef", None, None)
            s.emit("new", "new[]" if arr else "new", [Ptr(o, ZERO), c.args[0]])
            return Ptr(o, ZERO)
        if dn.startswith("operator delete"):
            s.emit("delete", "delete[]" if "[]" in dn else "delete", [c.args[0]])
            return None if c.i["t"] == "void" else UNDEF
        m = vec_match(dn)
        if m: return s.vec(m[0], m[1], c, m[2])
        if "std::allocator<" in dn and re.search(r"::~?allocator\(|::~?__new_allocator\(", dn): return None if c.i["t"] == "void" else UNDEF
        if re.search(r"__new_allocator<.*>::~?__new_allocator\(", dn): return None if c.i["t"] == "void" else UNDEF
        return NotImplemented
    def intrinsic(s, name, args, st, i):
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            n = args[2]
            if isinstance(n, Poly): s.copy_region(st, args[0], args[1], n)
            return None
        if name.startswith("llvm.memset"):
            for d in leaves(args[0]):
                if isinstance(d, Ptr):
                    o = ("alloca", "zero", s.ctx, i["i"])
                    t = Mem("zero" if isinstance(args[1], Poly) and args[1].is_zero() else "hav", None, ("memset", s.ctx, i["i"]))
                    s.setmem(st, d.obj, Mem("fill", s.getmem(st, d.obj), (d.off, args[2], 1, t, o)))
                    s.note_write(d.obj, d.off, args[2].const() if isinstance(args[2], Poly) and args[2].is_const() else None)
                    if s.visible(d.obj): s.emit("copy", "memset", [d, args[1], args[2]])
            return None
        if name.startswith("llvm.fabs"):
            return bind(lambda x: ite(gt0(x, False), x, -x) if isinstance(x, Poly) else UNDEF, args[0])
        if name.startswith("llvm.sqrt"): return apply(lambda x: sqrt(x) if isinstance(x, Poly) else UNDEF, args[0])
        if name.startswith("llvm.") and name.split(".")[1] in ROUND:
            return apply(lambda x: to_int(name.split(".")[1], x) if isinstance(x, Poly) else UNDEF, args[0])
        if name.startswith("llvm.umul.with.overflow"): return Agg((s.arith("mul", args[0], args[1], i), ZERO))
        if name.startswith("llvm.uadd.with.overflow"): return Agg((s.arith("add", args[0], args[1], i), ZERO))
        if name.startswith("llvm.trap"):
            s.emit("noreturn", name, []); return None
        if name.startswith("llvm.fmuladd") or name.startswith("llvm.fma"):
            return s.arith("fadd", s.arith("fmul", args[0], args[1], i), args[2], i)
        for n, p in (("smax", "sgt"), ("smin", "slt"), ("umax", "ugt"), ("umin", "ult")):
            if name.startswith("llvm." + n): return ite(s.cmp(p, args[0], args[1], True), args[0], args[1])
        for n, p in (("maxnum", "ogt"), ("minnum", "olt")):
            if name.startswith("llvm." + n): return ite(s.cmp(p, args[0], args[1], False), args[0], args[1])
        if name.startswith("llvm.abs"): return bind(lambda x: ite(gt0(x, True), x, -x), args[0])
        if name.startswith(("llvm.lifetime", "llvm.assume", "llvm.dbg", "llvm.experimental", "llvm.stacksave", "llvm.stackrestore", "llvm.invariant")):
            return UNDEF if i["t"] == "ptr" else None
        if name.startswith("llvm.expect"): return args[0]
        return s.opaque_call(name, args, st, i)

    # -------------------------------------------------------------- std::vector
    def vptr(s, v, what="vector"):
        ls = [l for l in leaves(v) if isinstance(l, Ptr)]
        if len(ls) != 1: raise Unsupported("ambiguous %s object" % what)
        return ls[0]
    def vbuf(s, p): return ("E", p.obj, p.off)
    def vsize(s, st, p):
        s.cache_model[("vec", p.obj, p.off)] = True
        return s.read(s.getmem(st, p.obj), p.obj, p.off, 8, "vs")
    def set_vsize(s, st, p, n):
        s.cache_model[("vec", p.obj, p.off)] = True
        m = s.getmem(st, p.obj)
        while m.k == "w" and m.a[0] == p.off: m = m.prev
        s.setmem(st, p.obj, Mem("w", m, (p.off, 8, n)))
        s.note_write(p.obj, p.off, 8)
    def defaults(s, T, st):
        """memory template of a value-initialised T"""
        key = ("tmpl", T)
        if key in s.cache_model: return s.cache_model[key]
        o = ("alloca", "tmpl", T)
        ctor = None
        b = T.split("::")[-1].split("<")[0]
        fn = s.m.bydn.get("%s::%s()" % (T, b))
        if fn is not None and not fn.decl:
            st2 = State(); st2.mem[o] = Mem("zero", None, None)
            save = (s.out, s.guard, s.ctx, s.curf, s.cur); s.out = []; s.guard = ONE
            s.call_func(fn, [Ptr(o, ZERO)], st2)
            s.out, s.guard, s.ctx, s.curf, s.cur = save
            t = st2.mem[o]
        else: t = Mem("zero", None, None)
        s.cache_model[key] = (t, o)
        return t, o
    def copy_elem(s, st, T, dst, src):
        b = T.split("::")[-1].split("<")[0]
        fn = s.m.bydn.get("%s::%s(%s const&)" % (T, b, T))
        sz = s.m.sizeof(T)
        if fn is not None and not fn.decl:
            s.stack.append(s.loc())
            save = (s.ctx, s.curf, s.cur); s.ctx = s.ctx + (("cp", T),)
            try: s.call_func(fn, [dst, src], st)
            finally:
                s.ctx, s.curf, s.cur = save; s.stack.pop()
        elif sz in (1, 4, 8) and T in ("double", "int", "float", "unsigned char", "char", "bool", "long", "unsigned long", "unsigned int") or T.endswith("*"):
            ty = {"double": "double", "float": "float"}.get(T, "i%d" % (sz * 8))
            v = s.load(st, src, sz, "ptr" if T.endswith("*") else ty)
            n = len(s.out)
            s.store(st, dst, v, sz)
            for e in s.out[n:]: e.x["size"] = sz
        else: s.copy_region(st, dst, src, num(sz))
    def vec(s, T, meth, c, sig):
        a = c.args; st = c.st
        sz = s.m.sizeof(T)
        if sz is None: raise Unsupported("sizeof " + T)
        if meth in ("operator[]", "at"):
            ls = leaves(a[0])
            if s.emit_index:
                for l in ls:
                    if isinstance(l, Ptr): s.emit("index", meth, [l, a[1], s.vsize(st, l)], guard=c_and(s.guard, cond_eq(a[0], l)) if len(ls) > 1 else None)
            return bind2(lambda l, i: Ptr(s.vbuf(l), i.scale(sz)) if isinstance(l, Ptr) and isinstance(i, Poly) else Ptr(("D", "bad", ("x", i), ZERO), ZERO), a[0], a[1])
        if meth in ("begin", "cbegin", "data"): return bind(lambda l: Ptr(s.vbuf(l), ZERO), a[0])
        if meth in ("end", "cend"): return bind(lambda l: apply(lambda n: Ptr(s.vbuf(l), n.scale(sz)), s.vsize(st, l)), a[0])
        if meth == "size": return bind(lambda l: s.vsize(st, l), a[0])
        if meth == "empty": return bind(lambda l: s.cmp("eq", s.vsize(st, l), ZERO, True), a[0])
        if meth == "capacity" or meth == "max_size": return A("capacity", s.ctx, c.i["i"], s.kst, ints=True)
        if meth == "reserve": s.emit("reserve", "reserve", [a[0], a[1]])
        if meth in ("reserve", "shrink_to_fit", "~vector"): return None
        if meth == "front": return bind(lambda l: Ptr(s.vbuf(l), ZERO), a[0])
        if meth == "back": return bind(lambda l: apply(lambda n: Ptr(s.vbuf(l), (n - 1).scale(sz)), s.vsize(st, l)), a[0])
        p = s.vptr(a[0]); buf = s.vbuf(p)
        vis = s.visible(p.obj)
        def ev(name, *args, **x): s.emit("vec", name, [p] + list(args), T=T, local=not vis, **x)
        if meth == "vector" or meth == "operator=" or meth == "assign":
            if meth == "vector" and len(a) == 1:
                s.set_vsize(st, p, ZERO); s.setmem(st, buf, Mem("undef", None, None)); s.note_write(buf, None, None); ev("new", ZERO); return None
            if "initializer_list" in sig:
                n = a[2]
                s.set_vsize(st, p, n); s.setmem(st, buf, Mem("undef", None, None)); s.note_write(buf, None, None)
                if isinstance(n, Poly): s.copy_region(st, Ptr(buf, ZERO), a[1], n.scale(sz), ev=False)
                ev("set", n, mem=s.getmem(st, buf), buf=buf); return a[0] if meth == "operator=" else None
            if sig.startswith("(std::vector<"):
                q = s.vptr(a[1])
                if q == p: return a[0]
                n = s.vsize(st, q)
                sm = s.getmem(st, s.vbuf(q))
                old = s.vsize(st, p) if meth != "vector" else ZERO
                s.set_vsize(st, p, n)
                s.setmem(st, buf, Mem("r", Mem("undef", None, None), (ZERO, num(1 << 50), sm, s.vbuf(q), ZERO)))
                s.note_write(buf, None, None)
                if "&&" in sig: s.set_vsize(st, q, ZERO)
                ev("copy", n, q); return a[0]
            # count constructors
            n = a[1]
            if isinstance(n, (Poly, Node)) and (meth == "assign" and len(a) == 3 and "unsigned long" in sig or meth == "vector" and "unsigned long" in sig):
                if len(a) >= 3 and ("const&" in sig.split(",", 1)[1] if "," in sig else False) and not (len(a) == 3 and meth == "vector"):
                    t = State(dict(st.mem)); o = ("alloca", "fillt", s.ctx, c.i["i"], s.kst)
                    t.mem[o] = Mem("undef", None, None)
                    save = s.out; s.out = []
                    s.copy_elem(t, T, Ptr(o, ZERO), a[2])
                    s.out = save
                    tm, to = t.mem[o], o
                else: tm, to = s.defaults(T, st)
                s.set_vsize(st, p, n); s.setmem(st, buf, Mem("fill", Mem("undef", None, None), (ZERO, None, sz, tm, to))); s.note_write(buf, None, None)
                ev("set", n, mem=s.getmem(st, buf), buf=buf); return None
            # iterator range
            if len(a) >= 3:
                d = s.arith("sub", a[2], a[1], c.i)
                n = apply(lambda x: (div_int(x, sz) if isinstance(x, Poly) and div_int(x, sz) is not None else A("rangelen", x, ints=True)), d)
                s.set_vsize(st, p, n); s.setmem(st, buf, Mem("undef", None, None)); s.note_write(buf, None, None)
                if isinstance(n, Poly): s.copy_region(st, Ptr(buf, ZERO), a[1], n.scale(sz), ev=False)
                ev("set", n, mem=s.getmem(st, buf), buf=buf); return None
            raise Unsupported("vector " + c.dn)
        if meth == "clear":
            s.set_vsize(st, p, ZERO); ev("clear"); return None
        if meth in ("push_back", "emplace_back"):
            n = s.vsize(st, p)
            if isinstance(n, Node): n = restrict(n, s.guard)
            if isinstance(n, Node):
                s.havoc(st, buf, ("push", s.ctx, c.i["i"], s.kst))
                tm = to = None
                if len(a) == 2:
                    t = State(dict(st.mem)); to = ("alloca", "fillt", s.ctx, c.i["i"], s.kst)
                    t.mem[to] = Mem("undef", None, None)
                    save = s.out; s.out = []
                    try: s.copy_elem(t, T, Ptr(to, ZERO), a[1]); tm = t.mem[to]
                    finally: s.out = save
                ev("push", n, elem=None, src=a[1] if len(a) > 1 else None, tmem=tm, tobj=to, tag=("push", s.ctx, c.i["i"], s.kst))
            else:
                dst = Ptr(buf, n.scale(sz))
                if len(a) == 1:
                    t, o = s.defaults(T, st)
                    s.setmem(st, buf, Mem("r", s.getmem(st, buf), (dst.off, num(sz), t, o, ZERO)))
                elif meth == "push_back" or len(a) == 2:
                    # emplace_back(T const& / T&&) or convertible scalars
                    mm = s.quietly(lambda: s.copy_elem(st, T, dst, a[1]))
                else:
                    b = T.split("::")[-1]
                    cand = [fn for fn in s.m.match(r"^%s::%s\(" % (re.escape(T), re.escape(b))) if len(fn.args) == len(a)]
                    if len(cand) != 1: raise Unsupported("emplace_back " + T)
                    def emp():
                        av = []
                        for fa, x in zip(cand[0].args[1:], a[1:]):
                            av.append(x if fa["t"] == "ptr" else s.load(st, x, {"double": 8, "i32": 4, "i64": 8, "float": 4, "i8": 1, "i1": 1}[fa["t"]], fa["t"]))
                        s.stack.append(s.loc())
                        save = (s.ctx, s.curf, s.cur); s.ctx = s.ctx + (("emp", c.i["i"]),)
                        try: s.call_func(cand[0], [dst] + av, st)
                        finally: s.ctx, s.curf, s.cur = save; s.stack.pop()
                    s.quietly(emp)
                s.note_write(buf, dst.off, sz)
                ev("push", n, elem=dst, mem=s.getmem(st, buf), src=a[1] if len(a) == 2 else None)
            s.set_vsize(st, p, s.arith("add", n, ONE, c.i))
            return bind(lambda x: Ptr(buf, x.scale(sz)), n) if c.i["t"] == "ptr" else None
        if meth == "pop_back":
            s.set_vsize(st, p, s.arith("sub", s.vsize(st, p), ONE, c.i)); ev("pop"); return None
        if meth == "resize":
            n = s.vsize(st, p)
            t, o = s.defaults(T, st)
            if len(a) >= 3:
                tt = State(dict(st.mem)); o = ("alloca", "fillt", s.ctx, c.i["i"], s.kst)
                tt.mem[o] = Mem("undef", None, None)
                save = s.out; s.out = []
                s.copy_elem(tt, T, Ptr(o, ZERO), a[2]); s.out = save
                t = tt.mem[o]
            if isinstance(n, Poly): s.setmem(st, buf, Mem("fill", s.getmem(st, buf), (n.scale(sz), None, sz, t, o)))
            else: s.havoc(st, buf, ("resize", s.ctx, c.i["i"], s.kst))
            s.note_write(buf, None, None)
            s.set_vsize(st, p, a[1]); ev("resize", a[1], old=n, mem=s.getmem(st, buf), buf=buf); return None
        if meth == "insert":
            n = s.vsize(st, p)
            pos = a[1]
            pl = leaves(pos)
            if len(a) == 3 or (len(a) == 4 and not isinstance(leaves(a[2])[0], Poly)):
                if len(a) == 4:
                    d = s.arith("sub", a[3], a[2], c.i)
                    cnt = apply(lambda x: (div_int(x, sz) if isinstance(x, Poly) and div_int(x, sz) is not None else A("rangelen", x, ints=True)), d)
                else: cnt = ONE
            else: cnt = a[2]
            if len(pl) == 1 and isinstance(pl[0], Ptr) and isinstance(n, Poly) and pl[0].off == n.scale(sz) and isinstance(cnt, Poly):
                # append
                if len(a) == 4 and not isinstance(leaves(a[2])[0], Poly): s.quietly(lambda: s.copy_region(st, Ptr(buf, n.scale(sz)), a[2], cnt.scale(sz), ev=False))
                elif len(a) == 3: s.quietly(lambda: s.copy_elem(st, T, Ptr(buf, n.scale(sz)), a[2]))
                else: s.havoc(st, buf, ("insert", s.ctx, c.i["i"], s.kst))
            else: s.havoc(st, buf, ("insert", s.ctx, c.i["i"], s.kst))
            s.note_write(buf, None, None)
            tm = to = None
            if len(a) == 3:
                t = State(dict(st.mem)); to = ("alloca", "fillt", s.ctx, c.i["i"], s.kst)
                t.mem[to] = Mem("undef", None, None)
                save = s.out; s.out = []
                try: s.copy_elem(t, T, Ptr(to, ZERO), a[2]); tm = t.mem[to]
                finally: s.out = save
            s.set_vsize(st, p, s.arith("add", n, cnt, c.i)); ev("insert", pos, cnt, rest=a[2:], mem=tm, buf=to, tag=("insert", s.ctx, c.i["i"], s.kst)); return pos if c.i["t"] == "ptr" else None
        if meth == "erase":
            n = s.vsize(st, p)
            cnt = ONE
            if len(a) == 3:
                d = s.arith("sub", a[2], a[1], c.i)
                cnt = apply(lambda x: (div_int(x, sz) if isinstance(x, Poly) and div_int(x, sz) is not None else A("rangelen", x, ints=True)), d)
            s.havoc(st, buf, ("erase", s.ctx, c.i["i"], s.kst))
            s.set_vsize(st, p, s.arith("sub", n, cnt, c.i)); ev("erase", a[1], cnt, tag=("erase", s.ctx, c.i["i"], s.kst)); return a[1] if c.i["t"] == "ptr" else None
        if meth == "swap":
            q = s.vptr(a[1]); n1 = s.vsize(st, p); n2 = s.vsize(st, q)
            b1 = s.getmem(st, buf); b2 = s.getmem(st, s.vbuf(q))
            s.set_vsize(st, p, n2); s.set_vsize(st, q, n1)
            s.setmem(st, buf, Mem("r", Mem("undef", None, None), (ZERO, num(1 << 50), b2, s.vbuf(q), ZERO)))
            s.setmem(st, s.vbuf(q), Mem("r", Mem("undef", None, None), (ZERO, num(1 << 50), b1, buf, ZERO)))
            s.note_write(buf, None, None); s.note_write(s.vbuf(q), None, None)
            ev("swap", q); return None
        raise Unsupported("vector method " + c.dn)
    def quietly(s, fn):
        save = s.out; s.out = []
        try: return fn()
        finally: s.out = save

    # -------------------------------------------------------------- convenience for deciders
    def run(s, f, args, st=None):
        """analyse f from scratch; returns Result"""
        st = st or State()
        s.out = []; s.guard = ONE; s.ctx = (); s.kst = (); s.stack = []
        s.curf = f; s.cur = None
        v = s.call_func(f, args, st)
        return Result(s, f, args, v, st, s.out)

class Result:
    def __init__(s, it, f, args, ret, st, ev): s.it = it; s.f = f; s.args = args; s.ret = ret; s.st = st; s.ev = ev
    def cell(s, obj, off, size=8, ty="double"):
        return s.it.read(s.it.getmem(s.st, obj), obj, P(off), size, ty)

class Call:
    def __init__(s, it, dn, args, st, i, **x):
        s.it = it; s.dn = dn; s.args = args; s.st = st; s.i = i; s.fn = None; s.__dict__.update(x)

# ------------------------------------------------------------------ helpers
def nodecount(v, cap):
    seen = set(); st = [v]
    while st and len(seen) <= cap:
        x = st.pop()
        if isinstance(x, Node) and x not in seen:
            seen.add(x); st.append(x.hi); st.append(x.lo)
    return len(seen)
def div_int(p, c):
    """p / c when every coefficient stays integral (p integer-valued polynomial), else None"""
    if c == 0: return None
    t = {}
    for m, x in p.t.items():
        if isinstance(x, Fraction):
            q = x / c
            t[m] = norm_num(q); continue
        if x % c: return None
        t[m] = x // c
    return Poly(t)
def exact_div(x, y):
    """x / y if x = y*q with q having integral coefficients (single-monomial y or multiple of y)"""
    if len(y.t) == 1:
        q = x * inv(y)
        if all(e > 0 for m in q.t for _, e in m) and all(not isinstance(c, Fraction) for c in q.t.values()): return q
        return None
    q = div(x, y)
    return q if q.is_const() and not isinstance(q.const(), Fraction) else None
def ceildiv(a, b):
    if b == 1: return a
    if a.is_const():
        import math
        return num(math.ceil(Fraction(a.const()) / Fraction(b)))
    q = div_int(a, b) if not isinstance(b, Fraction) else None
    if q is not None: return q
    if not isinstance(b, Fraction) and b > 0:
        k = mod_const(-a, b)
        if k is not None: return (a + k).scale(Fraction(1, b))
    return A("ceildiv", a, num(b), ints=True)
def _sum(kat, K, delta):
    if isinstance(delta, Poly) and isinstance(K, Poly) and not occurs(delta, kat): return K * delta
    return A("sum", kat, K, delta)
rebuilder("sum")(_sum)
rebuilder("ceildiv")(lambda x, y: ceildiv(x, y.const()) if isinstance(x, Poly) and isinstance(y, Poly) and y.is_const() else A("ceildiv", x, y, ints=True))
def is_int_poly(p):
    for m, c in p.t.items():
        if isinstance(c, Fraction): return False
        for a, e in m:
            if e < 0 or not atom_by_id(a).ints: return False
    return True
def faulhaber(delta, kid, k):
    """sum_{j=0}^{k-1} delta(j)"""
    r = ZERO
    for e, c in delta.coeffs_in(kid).items():
        if e == 0: q = k
        elif e == 1: q = (k * k - k).scale(Fraction(1, 2))
        elif e == 2: q = (k * k * k).scale(Fraction(1, 3)) - (k * k).scale(Fraction(1, 2)) + k.scale(Fraction(1, 6))
        else: return None
        r = r + c * q
    return r
def assume_trip(g, k, T):
    if T is None or g == ONE: return g
    return restrict(g, gt0(T - k, True))
