"""Model of iostreams and std::string for the abstract interpreter.

Every stream has a status term: the sequence of operations applied to it (sv(op, previous status, ...)).  A status
query yields a predicate over that term, so 'this value was read before that query' is a sub-term relation.
Text and bytes written are recorded as 'io' events with the values they carry."""
import re
from .poly import *
from .val import *
from .interp import *
from .chain import one_atom

_T = r"<char, std::char_traits<char>>"
class Streams:
    def __init__(s, module):
        s.m = module
        s.known = {}          # key -> kind
        s.told = {}           # tellg atom -> position
    def models(s):
        return {
            re.compile(r"^std::basic_(?:i|o|)fstream%s::(basic_\w*fstream|~basic_\w*fstream|open|close|is_open)\(" % _T): s.fstream,
            re.compile(r"^std::__cxx11::basic_(?:i|o|)stringstream<.*>::(basic_\w*stringstream|~basic_\w*stringstream|str)\("): s.sstream,
            re.compile(r"^std::basic_ios%s::(operator!|fail|bad|good|eof|operator bool|clear|setstate|rdstate|exceptions)\b|^std::basic_ios%s::operator!\(" % (_T, _T)): s.ios,
            re.compile(r"^std::ostream::|^std::basic_ostream%s::|^std::basic_ostream%s& std::" % (_T, _T)): s.ostream,
            re.compile(r"^std::istream::|^std::basic_istream%s::|^std::basic_istream%s& std::" % (_T, _T)): s.istream,
            re.compile(r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::(basic_string|~basic_string|operator=|size|length|empty|data|c_str|clear|append|operator\+=|operator\[\]|find|substr)(?=[(<])"): s.string,
            re.compile(r"^bool std::operator(==|!=)<char"): s.streq,
            re.compile(r"^std::fpos<.*>::(operator long|fpos|operator[-+]=?)\("): s.fpos,
        }
    # ---------------------------------------------------------------- streams
    def key(s, it, p):
        ls = [l for l in leaves(p) if isinstance(l, Ptr)]
        if len(ls) != 1: raise Unsupported("ambiguous stream")
        c = ls[0].off.const()
        for k, off in s.known.items():
            if k[0] == ls[0].obj and 0 <= c - k[1] < 24: return k
        k = (ls[0].obj, c); s.known[k] = c
        return k
    def obj(s, k): return ("S", k)
    def ver(s, it, st, k): return it.read(it.getmem(st, s.obj(k)), s.obj(k), ZERO, 8, "i64")
    def nbytes(s, it, st, k): return it.read(it.getmem(st, s.obj(k)), s.obj(k), P(8), 8, "i64")
    def bump(s, it, st, k, op, i):
        v = s.ver(it, st, k)
        n = A("sv", op, v, it.ctx, i["i"], it.kst, ints=True)
        it.store(st, Ptr(s.obj(k), ZERO), n, 8, ev=False)
        return n
    def reset(s, it, st, k, op, i, args):
        n = A("sv", op, ("start",) , it.ctx, i["i"], it.kst, ints=True)
        it.store(st, Ptr(s.obj(k), ZERO), n, 8, ev=False)
        it.store(st, Ptr(s.obj(k), P(8)), ZERO, 8, ev=False)
        return n
    def addn(s, it, st, k, n):
        o = s.nbytes(it, st, k)
        it.store(st, Ptr(s.obj(k), P(8)), it.arith("add", o, n, it.cur), 8, ev=False)
    def ev(s, it, op, k, *args, **x): return it.emit("io", op, [k] + list(args), **x)
    def meth(s, c):
        q, par = split_name(c.dn)
        return q.split("::")[-1].split("<")[0] if "operator" not in q else q, par
    def fstream(s, it, c):
        mm = re.match(r"^std::basic_(i|o|)fstream%s::(~?\w+)" % _T, c.dn)
        kind = mm.group(1) or "io"; meth = mm.group(2); st = c.st; k = s.key(it, c.args[0])
        if meth.startswith("basic_"):
            v = s.reset(it, st, k, "open" if len(c.args) > 1 else "ctor", c.i, c.args)
            s.ev(it, "open" if len(c.args) > 1 else "ctor", k, kind, ver=v, mode=c.args[2] if len(c.args) > 2 else None)
            return None
        if meth == "open":
            v = s.reset(it, st, k, "open", c.i, c.args)
            s.ev(it, "open", k, kind, ver=v, mode=c.args[2] if len(c.args) > 2 else None); return None
        if meth == "close":
            v = s.bump(it, st, k, "close", c.i); s.ev(it, "close", k, ver=v)
            return None
        if meth.startswith("~"):
            s.ev(it, "dtor", k, ver=s.ver(it, st, k)); return None
        if meth == "is_open":
            v = s.ver(it, st, k)
            return bind(lambda x: opaque_bool(("ioopen", k, x)), v)
        return NotImplemented
    def sstream(s, it, c):
        mm = re.match(r"^std::__cxx11::basic_(i|o|)stringstream<.*>::(~?\w+)\(", c.dn)
        meth = mm.group(2); st = c.st
        if meth.startswith("basic_"):
            k = s.key(it, c.args[0])
            v = s.reset(it, st, k, "open", c.i, c.args)
            src = None
            if len(c.args) > 1 and isinstance(c.args[1], Ptr): src = s.content(it, st, c.args[1])
            s.ev(it, "open", k, "ss", ver=v, src=src); return None
        if meth.startswith("~"): return None
        return NotImplemented
    def ios(s, it, c):
        mm = re.match(r"^std::basic_ios%s::(operator bool|operator!|\w+)" % _T, c.dn)
        meth = mm.group(1); st = c.st; k = s.key(it, c.args[0]); v = s.ver(it, st, k)
        def q(kind): return bind(lambda x: opaque_bool((kind, k, x)), v)
        r = NotImplemented
        if meth in ("operator!", "fail"): r = q("iofail")
        elif meth == "operator bool": r = c_not(q("iofail"))
        elif meth == "good": r = c_and(c_not(q("iofail")), c_not(q("ioeof")))
        elif meth == "bad": r = q("iobad")
        elif meth == "eof": r = q("ioeof")
        if r is not NotImplemented:
            s.ev(it, "query", k, meth, ver=v, ret=r); return r
        if meth == "clear":
            n = s.bump(it, st, k, "clear", c.i); s.ev(it, "clear", k, ver=n); return None
        n = s.bump(it, st, k, meth, c.i); s.ev(it, "unknown", k, meth, ver=n)
        return NotImplemented
    def name_of(s, c):
        """member / free operator name"""
        d = c.dn
        if "std::endl<" in d: return "endl"
        if "std::flush<" in d: return "flush"
        if "std::getline<" in d: return "getline"
        if "operator<<" in d: return "<<"
        if "operator>>" in d: return ">>"
        mm = re.search(r"stream(?:%s)?::(\w+)\(" % re.escape(_T), d)
        return mm.group(1) if mm else d
    def literal(s, p):
        """text of a constant C string pointer, or None"""
        if not isinstance(p, Ptr): return None
        if p.obj[0] == "lit": return p.obj[1]
        if p.obj[0] != "glob" or not p.off.is_const(): return None
        g = s.m.globals.get(p.obj[1])
        if not g or not g["const"] or "init" not in g: return None
        b = {}
        for e in g["init"]:
            if e[2]["k"] == "i" and e[1] == 1: b[e[0]] = int(e[2]["v"]) & 255
            elif e[2]["k"] == "zero":
                for j in range(e[1]): b[e[0] + j] = 0
            else: return None
        out = []; j = int(p.off.const())
        while j in b and b[j]: out.append(chr(b[j])); j += 1
        return "".join(out)
    def ostream(s, it, c):
        n = s.name_of(c); st = c.st; k = s.key(it, c.args[0]); a = c.args
        if n == "write":
            sz = a[2]
            val = None
            if isinstance(sz, Poly) and sz.is_const() and 0 < sz.const() <= 8:
                z = int(sz.const())
                val = it.load(st, a[1], z, "i%d" % (8 * z)) if isinstance(a[1], Ptr) else None
            sb = None
            mem = it.getmem(st, a[1].obj) if isinstance(a[1], Ptr) else None
            v = s.bump(it, st, k, "write", c.i)
            pos = s.nbytes(it, st, k); s.addn(it, st, k, sz)
            s.ev(it, "write", k, a[1], sz, ver=v, val=val, mem=mem, pos=pos)
            return a[0]
        if n == "put":
            v = s.bump(it, st, k, "write", c.i); pos = s.nbytes(it, st, k); s.addn(it, st, k, ONE)
            s.ev(it, "write", k, None, ONE, ver=v, val=a[1], mem=None, pos=pos); return a[0]
        if n in ("flush", "endl"):
            if n == "endl": s.text(it, c, k, ("lit", "\n"))
            v = s.bump(it, st, k, "flush", c.i); s.ev(it, "flush", k, ver=v); return a[0]
        if n == "<<":
            x = a[1] if len(a) > 1 else None
            par = c.dn[c.dn.find("operator<<"):]
            if isinstance(x, Fn):
                f = it.m.func(x.name); dn = f.dn if f else x.name
                if "endl" in dn: s.text(it, c, k, ("lit", "\n")); v = s.bump(it, st, k, "flush", c.i); s.ev(it, "flush", k, ver=v); return a[0]
                if "flush" in dn: v = s.bump(it, st, k, "flush", c.i); s.ev(it, "flush", k, ver=v); return a[0]
                s.text(it, c, k, ("unknown", dn)); return a[0]
            if "basic_string<" in par:
                cont = s.content(it, st, x)
                s.text(it, c, k, ("str", cont)); return a[0]
            if "char const*" in par:
                s.text(it, c, k, ("str", x)); return a[0]
            if re.search(r", char\)", par) or re.search(r"operator<<\(char\)", par) or par.endswith(", char)"):
                s.text(it, c, k, ("chr", x)); return a[0]
            if re.search(r"operator<<\((double|int|float|long|unsigned int|unsigned long|bool|short|unsigned short|long long|unsigned long long)\)", par):
                s.text(it, c, k, ("num", x)); return a[0]
            s.text(it, c, k, ("unknown", c.dn)); return a[0]
        if n in ("tellp",):
            v = s.ver(it, st, k); return A("tellp", k, v, ints=True)
        v = s.bump(it, st, k, n, c.i); s.ev(it, "unknown", k, n, ver=v)
        return NotImplemented
    def text(s, it, c, k, item):
        v = s.bump(it, c.st, k, "write", c.i)
        s.ev(it, "text", k, item, ver=v)
    def istream(s, it, c):
        n = s.name_of(c); st = c.st; k = s.key(it, c.args[0]); a = c.args
        if n == "read":
            v = s.bump(it, st, k, "read", c.i); sz = a[2]
            pos = s.nbytes(it, st, k)
            s.into(it, st, k, a[1], sz, v, c); s.addn(it, st, k, sz)
            s.ev(it, "read", k, a[1], sz, ver=v, pos=pos); return a[0]
        if n in ("get", "peek") and len(a) == 1:
            v = s.bump(it, st, k, "read", c.i); pos = s.nbytes(it, st, k)
            if n == "get": s.addn(it, st, k, ONE)
            s.ev(it, "read", k, None, ONE, ver=v, pos=pos); return A("rd", k, v, 0, ints=True)
        if n == "ignore":
            v = s.bump(it, st, k, "read", c.i); z = a[1] if len(a) > 1 else ONE; pos = s.nbytes(it, st, k); s.addn(it, st, k, z)
            s.ev(it, "read", k, None, z, ver=v, pos=pos); return a[0]
        if n == "seekg":
            v = s.bump(it, st, k, "seek", c.i)
            to = s.seek_to(it, st, k, c, a)
            it.store(st, Ptr(s.obj(k), P(8)), to, 8, ev=False)
            s.ev(it, "seek", k, *a[1:], ver=v, pos=to); return a[0]
        if n == "tellg":
            v = s.ver(it, st, k)
            r = A("tellg", k, v, ints=True)
            for l in leaves(r): s.told[one_atom(l)] = s.nbytes(it, st, k)
            s.ev(it, "tell", k, ver=v, ret=r)
            if c.i["t"] in ("i64", "i32"): return r
            return Agg((r, ZERO))
        if n == "getline":
            v = s.bump(it, st, k, "read", c.i)
            s.setstr(it, st, a[1], Ptr(("D", "line", (k, v), ZERO), ZERO))
            s.ev(it, "getline", k, a[1], ver=v); return a[0]
        if n == ">>":
            v = s.bump(it, st, k, "read", c.i)
            par = c.dn[c.dn.find("operator>>"):]
            if "basic_string<" in par:
                s.setstr(it, st, a[1], Ptr(("D", "word", (k, v), ZERO), ZERO)); s.ev(it, "extract", k, a[1], "string", ver=v); return a[0]
            mm = re.search(r"operator>>\((double|float|int|long|short|unsigned int|unsigned long|bool)&\)", par)
            if mm:
                sz = {"double": 8, "float": 4, "int": 4, "long": 8, "short": 2, "unsigned int": 4, "unsigned long": 8, "bool": 1}[mm.group(1)]
                s.into(it, st, k, a[1], P(sz), v, c, isint=mm.group(1) not in ("double", "float"))
                s.ev(it, "extract", k, a[1], mm.group(1), ver=v); return a[0]
        v = s.bump(it, st, k, n, c.i); s.ev(it, "unknown", k, n, ver=v)
        return NotImplemented
    def seek_to(s, it, st, k, c, a):
        """position after a seek: a told position, a constant, or relative"""
        par = c.dn[c.dn.find("seekg(") + 6:]
        x = a[1]
        if "fpos" in par.split(",")[0]: return bind(lambda l: s.told.get(one_atom(l), l) if isinstance(l, Poly) and not l.is_const() else l, x)
        d = a[2] if len(a) > 2 else None
        if isinstance(d, Poly) and d.is_const():
            if d.const() == 0: return bind(lambda l: s.told.get(one_atom(l), l) if isinstance(l, Poly) and not l.is_const() else l, x)
            if d.const() == 1: return it.arith("add", s.nbytes(it, st, k), x, it.cur)
            if d.const() == 2: return it.arith("add", A("fileend", k, ints=True), x, it.cur)
        return A("seekpos", k, it.ctx, c.i["i"], it.kst, ints=True)
    def into(s, it, st, k, p, sz, v, c, isint=True):
        if isinstance(p, Ptr) and isinstance(sz, Poly) and sz.is_const() and 0 < sz.const() <= 8:
            it.store(st, p, A("rd", k, v, int(sz.const()), ints=isint), int(sz.const()), ev=False)
            return
        for l in leaves(p):
            if not isinstance(l, Ptr): continue
            m = it.getmem(st, l.obj)
            if isinstance(sz, Poly):
                o = ("rdblk", k, v)
                it.setmem(st, l.obj, Mem("r", m, (l.off, sz, Mem("init", None, o), o, ZERO)))
                it.note_write(l.obj, l.off, None)
            else: it.havoc(st, l.obj, ("rd", k, v))
        if isinstance(p, Ptr): it.emit("copy", "read", [p, Ptr(("rdblk", k, v), ZERO), sz], mem=None)
    # ---------------------------------------------------------------- strings
    def content(s, it, st, p): return it.load(st, p, 8, "ptr")
    def setstr(s, it, st, p, v): it.store(st, p, v, 8, ev=False)
    def string(s, it, c):
        mm = re.search(r"::allocator<char>>::(operator=|operator\+=|operator\[\]|~?\w+)|std::allocator<char>>::(operator=|operator\+=|operator\[\]|~?\w+)", c.dn)
        meth = mm.group(1) or mm.group(2); st = c.st; a = c.args
        if meth == "basic_string":
            if len(a) == 1: s.setstr(it, st, a[0], Ptr(("lit", ""), ZERO)); return None
            if "basic_string<char" in c.dn[c.dn.find("basic_string(") if "basic_string(" in c.dn else c.dn.rfind("("):]:
                s.setstr(it, st, a[0], s.content(it, st, a[1])); return None
            if "(char const*" in c.dn: s.setstr(it, st, a[0], a[1]); return None
            s.setstr(it, st, a[0], Ptr(("D", "string", (it.ctx, c.i["i"], it.kst), ZERO), ZERO)); return None
        if meth == "~basic_string": return None
        if meth == "operator=":
            if "(char const*)" in c.dn: s.setstr(it, st, a[0], a[1])
            else: s.setstr(it, st, a[0], s.content(it, st, a[1]))
            return a[0]
        if meth in ("data", "c_str"): return s.content(it, st, a[0])
        if meth in ("size", "length"):
            r = A("strlen", s.content(it, st, a[0]), ints=True); declare_nonneg(r); return r
        if meth == "empty":
            r = A("strlen", s.content(it, st, a[0]), ints=True); declare_nonneg(r); return c_not(gt0(r, True))
        if meth == "clear": s.setstr(it, st, a[0], Ptr(("lit", ""), ZERO)); return None
        s.setstr(it, st, a[0], Ptr(("D", "string", (it.ctx, c.i["i"], it.kst), ZERO), ZERO))
        return NotImplemented
    def fpos(s, it, c):
        a = c.args; st = c.st; nm = re.match(r"^std::fpos<.*>::(operator long|fpos|operator[-+]=?)\(([^)]*)", c.dn)
        off = lambda p: it.load(st, p, 8, "i64")
        if nm.group(1) == "operator long": return off(a[0])
        if nm.group(1) == "fpos":
            it.store(st, a[0], a[1] if len(a) > 1 and isinstance(a[1], (Poly, Node)) else ZERO, 8, ev=False); it.store(st, bind(lambda q: Ptr(q.obj, q.off + 8), a[0]), ZERO, 8, ev=False); return None
        if nm.group(1) == "operator-" and "fpos" in nm.group(2): return it.arith("sub", off(a[0]), off(a[1]), it.cur)
        return NotImplemented
    def streq(s, it, c):
        ne = "operator!=" in c.dn
        v = []
        for x in c.args[:2]:
            v.append(x)
        par = c.dn[c.dn.find("(", c.dn.find("operator")):]
        first_str = par.startswith("(std::__cxx11::basic_string")
        x = s.content(it, c.st, c.args[0]) if first_str else c.args[0]
        y = c.args[1] if "char const*" in par.split(">> const&", 1)[-1] or not first_str and "basic_string" not in par.split(",")[-1] else s.content(it, c.st, c.args[1])
        def leaf(p, q):
            lp, lq = s.literal(p), s.literal(q)
            if lp is not None and lq is not None: return ONE if lp == lq else ZERO
            return opaque_bool(("streq", lp if lp is not None else p, lq if lq is not None else q))
        r = bind2(leaf, x, y)
        return c_not(r) if ne else r

# ------------------------------------------------------------------ status terms
def versions_in(x):
    """all status atoms inside a term"""
    return {a for a in deep_atoms(x) if a.kind == "sv"}
def preds_io(v, kind=None):
    return [p for p in preds_of(v) if p.kind == "b" and isinstance(p.key, tuple) and p.key and str(p.key[0]).startswith("io") and (kind is None or p.key[0] == kind)]
