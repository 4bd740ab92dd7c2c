"""Reading stream summaries: versions of a stream, what a status query covers, success paths."""
from common import *
from ident import *
from cadsa.stream import *
from small import flat

class Io:
    """one function that uses streams, analysed once"""
    def __init__(s, c, f, models=None, setup=None):
        s.c = c; s.f = f; s.S = Streams(c.m)
        ms = dict(s.S.models()); ms.update(models or {})
        L = s.L = Lab(c, ms); s.args = []
        if setup: setup(L)
        for n, a in enumerate(f.args):
            T = f.dt[n + 1] if f.dt and n + 1 < len(f.dt) else ""
            if a["t"] == "ptr" and re.search(r"(^|[^\w])Mesh( const)?[*&]", T.replace("const ", "")): s.args.append(L.mesh(a["n"]))
            elif a["t"] == "ptr": s.args.append(L.obj(a["n"]))
            elif a["t"] in ("double", "float"): s.args.append(L.real(a["n"]))
            else: s.args.append(A("arg", a["n"], ints=True))
        c.functions.add(f.dn)
        s.r = L.run(f, *s.args)
        s.fors = {}
        s.events = list(s.walk(s.r.ev))
        c.functions.update(z.dn for z in L.visited())
        s.io = [(e, fs) for e, fs in s.events if e.kind == "io"]
    def walk(s, evs, loops=()):
        for e in evs:
            if isinstance(e, For):
                s.fors[e.lid] = e
                yield from s.walk(e.body, loops + (e,))
            else: yield e, loops
    def keys(s): 
        out = []
        for e, _ in s.io:
            if e.args[0] not in out: out.append(e.args[0])
        return out
    def ops(s, k, *names): return [(e, fs) for e, fs in s.io if e.args[0] == k and e.name in names]
    def is_file(s, k): return not any(e.name in ("open", "ctor") and len(e.args) > 1 and e.args[1] == "ss" for e, _ in s.io if e.args[0] == k)
    def nm(s, k): return "the stream" 
    # ---- versions
    def parents(s, v):
        """status atoms directly before status value v (a term)"""
        return [a for a in top_status(v)]
    def ancestors(s, v, loops=True, memo=None):
        """(sites of all operations that may precede or be version v, exact?)"""
        seen = set(); sites = set(); ok = [True]
        work = [a for a in top_status(v)]
        while work:
            a = work.pop()
            if a.id in seen: continue
            seen.add(a.id)
            if a.kind == "sv":
                sites.add(site(a))
                work += top_status(a.args[1])
            elif a.kind in ("mu", "out"):
                if not loops: ok[0] = False; continue
                F = s.fors.get(a.args[0])
                rec = F.recs.get(a.args[1]) if F is not None and F.recs else None
                if rec is None: ok[0] = False; continue
                mu, ini, nxt = rec
                work += top_status(ini) + top_status(nxt)
            elif a.kind == "ld": pass
            else: ok[0] = False
        return sites, ok[0]
    # ---- success
    def success(s):
        """[path] for every way to return true; None if the result is not readable"""
        ret = s.r.ret
        if ret is None: return None
        out = []
        for p, l in paths(ret, 3000):
            if isinstance(l, Poly) and l.is_zero(): continue
            if not possible(p) or not s.reachable(p): continue
            if not isinstance(l, Poly) or not l.is_const(): return None
            out.append(p)
        return out

    def reachable(s, p):
        """the condition of the loop exits taken on the path does not contradict it"""
        g = ONE
        for q, v in p: g = c_and(g, mk(q.id, ONE, ZERO) if v else mk(q.id, ZERO, ONE))
        for lid in {q.key[1] for q, v in p if q.kind == "b" and q.key[0] == "exit"}:
            F = s.fors.get(lid)
            if F is None or not F.exits: continue
            amap = {one_atom(F.k): F.kexit}
            for var, (mu, ini, nxt) in F.recs.items():
                x = mu if isinstance(mu, Poly) else mu.off
                a = one_atom(x)
                if a is not None and atom_by_id(a).kind == "mu": amap[a] = A("out", *atom_by_id(a).args, F.kexit, ints=atom_by_id(a).ints)
            sub = Subst(amap); any_ = ZERO
            for i in taken(F, p): any_ = c_or(any_, c_and(g, sub.any(F.exits[i][0])))
            if any_ == ZERO: return False
        return True

def taken(F, p):
    """numbers of the exits of loop F that path p may take"""
    n = len(F.exits); alive = list(range(n))
    if n == 1: return [0]
    for q, v in p:
        if q.kind == "b" and q.key[0] == "exit" and q.key[1] == F.lid:
            if v: return [q.key[2]]
            if q.key[2] in alive: alive.remove(q.key[2])
    return alive
def top_status(v):
    if isinstance(v, tuple): return []
    out = []
    for l in leaves(v):
        if isinstance(l, Poly):
            for a in l.atoms(): out.append(atom_by_id(a))
    return out
def site(a): return (a.args[0], a.args[2], a.args[3])
def possible(p):
    """a string equals one literal only"""
    eq = {}
    for q, v in p:
        if q.kind == "b" and q.key[0] == "streq" and isinstance(q.key[2], str) and v:
            if eq.setdefault(q.key[1], q.key[2]) != q.key[2]: return False
    return True
def io_pred(q):
    return q.key if q.kind == "b" and isinstance(q.key, tuple) and q.key and q.key[0] in ("iofail", "iobad", "ioeof", "ioopen") else None
def fmt_path(p):
    return " and ".join(("" if v else "not ") + short(q) for q, v in p)[:400]
def short(q):
    k = io_pred(q)
    if k: return "%s after %s" % ({"iofail": "failed", "iobad": "bad", "ioeof": "at end", "ioopen": "open"}[k[0]], k[2])
    return str(q)[:60]
def stream_entries(c):
    """functions of the library that save or load a mesh or image file and report success"""
    out = []
    for f in c.m.match(r"^(STLFile|OBJFile|ImageIoBmp)::\w+\("):
        if f.rt == "i1": out.append(f)
    return sorted(out, key=lambda f: f.dn)
