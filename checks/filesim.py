"""Bytes of a file as a stream summary describes them, for given sizes (only to exhibit counter-examples), and
specialisation of a summary to a family of sizes."""
import copy
from iocheck import *
from small import flat

UNSET = "nothing"     # a byte of a buffer that was never stored
class Sim:
    """walks the events of a summary for one assignment; the file is a list of bytes (None: unknown)"""
    def __init__(s, io, env, file=None, content=None):
        s.io = io; s.file = list(file) if file is not None else []; s.reading = file is not None
        s.content = content                     # initial bytes of a buffer: f(obj, off)
        s.mem = {}; s.snap = {}; s.at = {}; s.pos = 0; s.over = False
        s.env = dict(env); s.env["atoms"] = s.atom; s.env["preds"] = s.pred; s.env["iter"] = s.iter
        s.ret = None
    def run(s):
        num_events(s.io.r.ev, s.env, s.event)
        return s
    def pick(s, v, env):
        """the alternative of a version that is taken"""
        while isinstance(v, Node):
            try: b = num_eval(mk(v.p, ONE, ZERO), env)
            except NoValue: break
            v = v.hi if b else v.lo
        return v
    def iter(s, F, env): s.snap[F.lid] = dict(s.mem)
    def pred(s, key, env):
        if key[0] in ("iofail", "ioeof", "iobad"): return s.over and key[0] != "iobad"
        if key[0] == "ioopen": return True
        raise NoValue(str(key)[:60])
    def atom(s, a, env):
        if a.kind == "rd":
            vs = [x.id for x in top_status(a.args[1])]
            if len(vs) == 1 and vs[0] in s.at:
                p = s.at[vs[0]]; n = a.args[2] or 1
                b = [s.file[p + i] if p + i < len(s.file) else 0 for i in range(n)]
                v = sum(x << (8 * i) for i, x in enumerate(b))
                return v - (1 << (8 * n)) if n > 1 and v >> (8 * n - 1) else v
        if a.kind == "tellg":
            vs = [x.id for x in top_status(a.args[1])]
            if ("tell", a.id) in s.at: return s.at[("tell", a.id)]
        if a.kind == "fileend": return len(s.file)
        if a.kind.startswith("trunc") and a.kind[5:].isdigit(): return int(num_eval(a.args[0], env)) & ((1 << int(a.kind[5:])) - 1)
        if a.kind == "ld":
            tok, obj, off = a.args
            obj = num_obj(obj, env); o = int(num_eval(off, env))
            if isinstance(obj, tuple) and obj[:1] == ("rdblk",):
                vs = [x.id for x in top_status(obj[2])]
                if len(vs) == 1 and vs[0] in s.at and s.at[vs[0]] + o < len(s.file): return s.file[s.at[vs[0]] + o]
                raise NoValue("block")
            m = s.mem
            if isinstance(tok, tuple) and tok[:1] == ("L",) and len(tok) > 1 and tok[1] in s.snap: m = s.snap[tok[1]]
            if tok == "i": m = {}
            if (obj, o) in m: 
                if m[(obj, o)] is None: raise NoValue("unknown byte")
                return m[(obj, o)]
            if s.content:
                v = s.content(obj, o)
                if v is not None: return v
        raise NoValue(str(a)[:60])
    def put(s, obj, off, size, v):
        for i in range(size):
            try: s.mem[(obj, off + i)] = (int(v) >> (8 * i)) & 255
            except (TypeError, ValueError): s.mem[(obj, off + i)] = None
    def byte(s, obj, off):
        if (obj, off) in s.mem: return s.mem[(obj, off)]
        if obj[0] == "heap" and any(k[0] == obj for k in s.mem): return UNSET
        v = s.content(obj, off) if s.content else None
        return v
    def value(s, x, env):
        try: return num_eval(x, env)
        except NoValue: return None
    def event(s, e, env):
        if e.kind == "store" and isinstance(e.args[0], (Ptr, Node)):
            p = s.pick(e.args[0], env)
            if not isinstance(p, Ptr): raise NoValue("store")
            s.put(num_obj(p.obj, env), int(num_eval(p.off, env)), e.x.get("size") or 1, s.value(e.args[1], env))
        elif e.kind == "copy" and e.name != "read" and all(isinstance(x, (Ptr, Node)) for x in e.args[:2]):
            d, q = s.pick(e.args[0], env), s.pick(e.args[1], env); n = int(num_eval(e.args[2], env))
            do, qo = num_obj(d.obj, env), num_obj(q.obj, env); a, b = int(num_eval(d.off, env)), int(num_eval(q.off, env))
            bs = [s.byte(qo, b + i) for i in range(n)]
            for i, v in enumerate(bs): s.mem[(do, a + i)] = v
        elif e.kind == "io":
            if e.name in ("open", "ctor"): s.pos = 0
            for x in top_status(s.pick(e.x.get("ver", ZERO), env)): s.at[x.id] = s.pos
            if e.name == "write":
                n = int(num_eval(e.args[2], env))
                if e.x.get("val") is not None:
                    v = s.value(e.x["val"], env)
                    bs = [None] * n if v is None else [(int(v) >> (8 * i)) & 255 for i in range(n)]
                elif isinstance(s.pick(e.args[1], env), Ptr):
                    q = s.pick(e.args[1], env)
                    o = num_obj(q.obj, env); b = int(num_eval(q.off, env))
                    bs = [s.byte(o, b + i) for i in range(n)]
                else: bs = [None] * n
                s.file[s.pos:s.pos + n] = bs; s.pos += n
            elif e.name == "read":
                n = int(num_eval(e.args[2], env))
                if s.pos + n > len(s.file): s.over = True
                q = s.pick(e.args[1], env)
                if not isinstance(q, Ptr) and isinstance(e.args[1], Node): raise NoValue("buffer")
                if isinstance(q, Ptr):
                    o = num_obj(q.obj, env); b = int(num_eval(q.off, env))
                    for i in range(n): s.mem[(o, b + i)] = s.file[s.pos + i] if s.pos + i < len(s.file) else None
                s.pos += n
            elif e.name == "seek": s.pos = int(num_eval(e.x["pos"], env)) if e.x.get("pos") is not None else s.pos
            elif e.name == "tell":
                for l in leaves(e.ret):
                    if isinstance(l, Poly): s.at[("tell", one_atom(l))] = s.pos
            elif e.name in ("text", "getline", "extract", "unknown", "clear"): raise NoValue("operation " + e.name)

# ------------------------------------------------------------------ specialisation
def succeed(v):
    """the streams do not fail"""
    if not isinstance(v, Node): return v
    for q in preds_of(v):
        k = io_pred(q)
        if k: v = assume(v, q.id, k[0] == "ioopen")
    return v
def special(evs, sub):
    """copy of a summary under a substitution, without the events that cannot happen"""
    out = []
    for e in evs:
        g = succeed(sub.any(e.guard))
        if g == ZERO: continue
        x = copy.copy(e); x.guard = g
        if isinstance(e, For):
            x.trip = sub.any(e.trip) if e.trip is not None else None
            if isinstance(x.trip, Node): x.trip = one_leaf(succeed(x.trip), g)
            x.kexit = sub.any(e.kexit) if isinstance(e.kexit, Poly) else e.kexit
            x.body = special(e.body, solved(e, sub, g))
            if not x.body: continue
        else:
            x.args = [succeed(sub.any(a)) if isinstance(a, (Poly, Node, Ptr)) else a for a in e.args]
            x.args = [one_leaf(a, g) if isinstance(a, Node) else a for a in x.args]
            x.x = dict(e.x)
            for n in ("pos", "val"):
                if isinstance(x.x.get(n), (Poly, Node)): x.x[n] = one_leaf(succeed(sub.any(x.x[n])), g)
        out.append(x)
    return out
def plain_events(evs, loops=()):
    """(event, loops) of a specialised copy; the summary's own loops stay registered"""
    for e in evs:
        if isinstance(e, For): yield from plain_events(e.body, loops + (e,))
        else: yield e, loops
def solved(F, sub, g):
    """the substitution inside a loop: its variables that advance by a fixed step have a closed form now"""
    new = {}; mus = [m for m, _, _ in (F.recs or {}).values() if isinstance(m, Poly)]
    for m, ini, nxt in (F.recs or {}).values():
        if not isinstance(m, Poly) or one_atom(m) in sub.amap: continue
        i, n = (one_leaf(succeed(sub.any(v)), g) if isinstance(v, (Poly, Node)) else v for v in (ini, nxt))
        if not (isinstance(i, Poly) and isinstance(n, Poly)): continue
        d = n - m
        if any(occurs(d, one_atom(x)) for x in mus) or occurs(d, one_atom(F.k)): continue
        new[one_atom(m)] = i + F.k * d
    return Subst({**sub.amap, **new}) if new else sub
def one_leaf(v, g):
    if isinstance(v, Node): v = restrict(v, g)
    return v

# ------------------------------------------------------------------ text files and floating point fields
class Bad(Exception): pass
class TextSim(Sim):
    """a summary that reads lines or writes text, or binary files with floating point fields, for one small content"""
    def __init__(s, io, env, lines=None, **kw):
        more = env.pop("atoms", None)
        Sim.__init__(s, io, env, **kw)
        s.more = more; s.lines = list(lines) if lines is not None else None; s.line = 0
        s.toks = {}; s.str = {}; s.rd = {}; s.flag = {}; s.failv = {}; s.text = []; s.meshes = []
    def vids(s, v, env): return [x.id for x in top_status(s.pick(v, env)) if x.kind == "sv"]
    def string(s, p):
        t = s.io.S.literal(p)
        if t is not None: return t
        if isinstance(p, Ptr) and p.obj[0] == "D" and p.obj[1] in ("line", "word"):
            k, v = p.obj[2]
            for a in top_status(v):
                if a.id in s.str: return s.str[a.id]
            if ("last", k, p.obj[1]) in s.str: return s.str[("last", k, p.obj[1])]
        raise NoValue("string %s" % (p,))
    def pred(s, key, env):
        if key[0] in ("iofail", "ioeof", "iobad"):
            if key[0] != "iofail": return False
            for a in top_status(key[2]):
                if a.id in s.failv: return s.failv[a.id]
            return s.flag.get(key[1], False)
        if key[0] == "ioopen": return True
        if key[0] == "streq": return s.string_(key[1]) == s.string_(key[2])
        raise NoValue(str(key)[:60])
    def string_(s, x): return x if isinstance(x, str) else s.string(x)
    def atom(s, a, env):
        if a.kind == "strlen": return len(s.string(a.args[0]))
        if a.kind == "rd":
            for x in top_status(a.args[1]):
                if x.id in s.rd: return s.rd[x.id]
            for x in top_status(a.args[1]):
                if x.kind == "sv" and ("at", a.args[0], x.args[2:4]) in s.rd: return s.rd[("at", a.args[0], x.args[2:4])]    # as seen behind the loop
            vs = [x.id for x in top_status(a.args[1])]
            if len(vs) == 1 and vs[0] in s.at:
                p = s.at[vs[0]]; n = a.args[2] or 1; b = s.file[p:p + n]
                if b and isinstance(b[0], tuple):
                    if len(b) == n == b[0][1] and all(isinstance(x, tuple) and x[0] == b[0][0] and x[2] == i for i, x in enumerate(b)): return b[0][0]
                    return Fraction(12345, 7)      # bytes of something else
                if any(isinstance(x, tuple) for x in b): return Fraction(12345, 7)
        if a.kind == "ld" and isinstance(a.args[1], tuple) and a.args[1][:1] == ("rdblk",):
            vs = [x.id for x in top_status(a.args[1][2]) if x.id in s.at]; o = int(num_eval(a.args[2], env))
            if len(vs) == 1:
                b = s.file[s.at[vs[0]] + o:s.at[vs[0]] + o + 4]
                if b and isinstance(b[0], tuple) and len(b) == 4 and all(isinstance(x, tuple) and x[0] == b[0][0] and x[2] == i for i, x in enumerate(b)): return b[0][0]
                if any(isinstance(x, tuple) for x in b): return Fraction(12345, 7)
                if len(b) == 4 and len(a.args) < 4: return int.from_bytes(bytes(b), "little")
        if s.more:
            try: return s.more(a, env)
            except NoValue: pass
        return Sim.atom(s, a, env)
    def field(s, v, n):
        """bytes of a value of n bytes"""
        if v is None: return [None] * n
        if v == int(v): return [(int(v) >> (8 * i)) & 255 for i in range(n)]
        return [(Fraction(v), n, i) for i in range(n)]
    def event(s, e, env):
        if e.kind != "io": return Sim.event(s, e, env) if e.kind in ("store", "copy") else s.other(e, env)
        k = e.args[0]; vs = s.vids(e.x.get("ver", ZERO), env)
        if e.name in ("open", "ctor"):
            s.flag[k] = False; s.pos = 0
            if len(e.args) > 1 and e.args[1] == "ss" and e.x.get("src") is not None: s.toks[k] = s.string(s.pick(e.x["src"], env)).split()
        elif e.name == "getline":
            if s.line < len(s.lines):
                for v in vs: s.str[v] = s.lines[s.line]
                s.str[("last", k, "line")] = s.lines[s.line]; s.line += 1
            else:
                s.flag[k] = True; s.str[("last", k, "line")] = ""
                for v in vs: s.str[v] = ""
        elif e.name == "extract":
            t = s.toks.get(k, []); ty = e.args[2]
            if not t or s.flag.get(k): s.flag[k] = True
            elif ty == "string":
                for v in vs: s.str[v] = t[0]
                s.str[("last", k, "word")] = t[0]; t.pop(0)
            else:
                try: x = Fraction(t[0]) if ty in ("double", "float") else int(t[0])
                except ValueError: s.flag[k] = True
                else:
                    for v in vs: s.rd[v] = x; s.rd[("at", k, atom_by_id(v).args[2:4])] = x
                    t.pop(0)
        elif e.name == "text": s.text.append(s.item(e.args[1], env))
        elif e.name in ("flush", "query", "close", "dtor"): pass
        elif e.name == "write":
            n = int(num_eval(e.args[2], env))
            if n <= 8 and e.x.get("val") is not None: bs = s.field(s.value(e.x["val"], env), n)
            else:
                p = e.args[1]; bs = []
                for j in range(0, n, 4):
                    z = min(4, n - j)
                    try: bs += s.field(num_eval(s.io.L.it.read(e.x["mem"], p.obj, p.off + j, z, "i%d" % (8 * z)), env), z)
                    except NoValue: bs += [None] * z
            s.file[s.pos:s.pos + n] = bs; s.pos += n
        elif e.name == "read":
            n = int(num_eval(e.args[2], env))
            for v in vs: s.at[v] = s.pos
            if s.pos + n > len(s.file): s.flag[k] = True
            s.pos += n
        elif e.name == "seek": s.pos = int(num_eval(e.x["pos"], env))
        elif e.name == "tell":
            for l in leaves(e.ret):
                if isinstance(l, Poly): s.at[("tell", one_atom(l))] = s.pos
        else: raise NoValue("operation " + e.name)
        for v in vs: s.failv[v] = s.flag.get(k, False)
    def item(s, it, env):
        if it[0] == "num": return s.value(it[1], env) if not isinstance(it[1], Node) else s.value(s.pick(it[1], env), env)
        if it[0] in ("str", "lit"): return s.string_(it[1])
        if it[0] == "chr": return chr(int(num_eval(it[1], env)))
        raise NoValue("text %s" % (it,))
    def other(s, e, env):
        if e.kind == "mesh" and e.name in ("add_vertex", "add_triangle", "clear", "unlink", "set_vertex"):
            s.meshes.append((e.name,) + tuple(tuple(num_eval(y, env) for y in x) if isinstance(x, (list, tuple)) else num_eval(x, env) for x in e.args[1:]))

def lines_of(items):
    """[[token]] of a sequence of strings and values; a value glued to other characters makes Bad"""
    out = []; cur = []; glue = None        # glue: the last token may continue
    for x in items:
        if isinstance(x, str):
            i = 0
            while i < len(x):
                ch = x[i]
                if ch == "\n": out.append(cur); cur = []; glue = None
                elif ch in " \t\r": glue = None
                else:
                    j = i
                    while j < len(x) and x[j] not in " \t\r\n": j += 1
                    w = x[i:j]
                    if glue is None: cur.append(w)
                    elif glue == "s": cur[-1] += w
                    else: raise Bad("'%s' directly follows a number" % w)
                    glue = "s"; i = j; continue
                i += 1
        else:
            if glue is not None: raise Bad("a number directly follows '%s'" % (cur[-1],) if cur else "")
            cur.append(x); glue = "n"
    return out, cur
