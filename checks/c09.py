"""C09: a save reports success only when the whole file was written, a load only when everything needed was read."""
from iocheck import *

def writers(io, k): return io.ops(k, "write", "text", "flush")
def readers(io, k): return io.ops(k, "read", "extract", "getline")

def final_flush(io, k, V):
    """is V the status after a close/flush (the operations back to it only close or flush)"""
    a = [x for x in top_status(V)]
    return len(a) >= 1 and all(x.kind == "sv" and x.args[0] in ("close", "flush") for x in a)

def after(io, k, p, V):
    """operations on the stream after version V on path p: list of names or None"""
    W = io.S.ver(io.L.it, io.r.st, k)
    ids = {x.id for x in top_status(V)}
    def go(W, n):
        for q, v in p: W = assume(W, q.id, v)
        out = []
        for l in leaves(W):
            a = top_status(l)
            if {x.id for x in a} & ids: continue
            if len(a) != 1 or a[0].kind != "sv" or n > 10 or isinstance(a[0].args[1], tuple): return None
            r = go(a[0].args[1], n + 1)
            if r is None: return None
            out += [a[0].args[0]] + r
        return out
    return go(W, 0)

def save(c, io, k, ps, key, must=True):
    f = io.f
    if io.ops(k, "unknown"): c.unknown(key + ".saved", "stream operation %s is not modelled" % io.ops(k, "unknown")[0][0].args[1:2], io.ops(k, "unknown")[0][0]); return
    wsites = set()
    for e, fs in writers(io, k): wsites |= {site(a) for a in top_status(e.x["ver"]) if a.kind == "sv"}
    cleared = io.ops(k, "clear")
    bad = None; und = None
    for p in ps:
        good = False; mention = False
        for q, v in p:
            kp = io_pred(q)
            if kp and kp[1] == k:
                V = kp[2]; fl = final_flush(io, k, V)
                if fl: mention = mention or kp[0] not in ("iofail",)
                if kp[0] == "iofail" and fl:
                    if v: bad = bad or (p, "success is reported exactly when the final status is failed"); continue
                    sites, ok = io.ancestors(V); rest = after(io, k, p, V)
                    if cleared and any(site(x) in sites for e, _ in cleared for x in top_status(e.x["ver"])):
                        if forgets(io, k, p, cleared, wsites): bad = bad or (p, "the error state is cleared after writing, before it was tested"); continue
                        und = (p, "the error state is cleared"); mention = True; continue
                    if rest is None or any(o not in ("close", "flush") for o in rest):
                        if rest and all(o in ("close", "flush", "write") for o in rest): continue   # more is written afterwards
                        und = (p, "operations after the query: %s" % rest); mention = True; continue
                    if not ok and not wsites <= sites: und = (p, "status history not known"); mention = True; continue
                    if wsites <= sites: good = True
                elif fl: mention = False if kp[0] in ("ioopen", "ioeof", "iobad") else mention
            elif any(a.kind == "sv" for a in deep_atoms(q.key if q.kind == "b" else q.poly)) and not kp:
                if q.kind == "b" and q.key[0] in ("exit", "retin"): continue
                mention = True; und = und or (p, "depends on %s" % str(q)[:100])
        if good: continue
        if mention: und = und or (p, "status not followed"); continue
        bad = bad or (p, None)
    if bad:
        last = [kp for q, v in bad[0] for kp in [io_pred(q)] if kp and kp[1] == k]
        c.refuted(key + ".saved", bad[1] or "returns true although the status of the stream after its buffers are written out is never tested (last test: %s)" % (short_k(last[-1]) if last else "none"), f)
    elif und: c.unknown(key + ".saved", "%s on %s" % (und[1], fmt_path(und[0])), f)
    else: c.proved(key + ".saved", "%d success paths, each after a final close or flush that did not fail; %d write sites before it" % (len(ps), len(wsites)), f)

def forgets(io, k, p, cleared, wsites):
    """a clear after writes that no earlier test on the path covers"""
    for e, fs in cleared:
        g = e.guard
        for q, v in p: g = assume(g, q.id, v)
        if g != ONE and not fs: continue
        for x in top_status(e.x["ver"]):
            before, _ = io.ancestors(x.args[1])
            w = before & wsites
            if w and not any(kp and kp[1] == k and not v and kp[0] == "iofail" and w <= io.ancestors(kp[2])[0] and site(x) not in io.ancestors(kp[2])[0] for q, v in p for kp in [io_pred(q)]): return True
    return False

def short_k(k): return "%s of the status after %s" % (k[0][2:], k[2])

def value_of(e):
    """status version at which the event reads"""
    return [a for a in top_status(e.x["ver"])]

def needed(io, e):
    """does what the event reads reach the result: an effect, a loop bound, memory of the caller"""
    k = e.args[0]
    st = {site(a) for a in value_of(e)}
    def has(x): return any(a.kind == "rd" and any(site(y) in st for y in top_status(a.args[1])) for a in deep_atoms(x))
    def blk(x):
        return any(a.kind == "ld" and isinstance(a.args[1], tuple) and a.args[1][:1] == ("rdblk",) for a in deep_atoms(x))
    for g, fs in io.events:
        if g.kind == "mesh" and g.name in ("add_vertex", "set_vertex", "add_triangle") and has(flat(tuple(g.args[1:]))): return g
        if g.kind == "store" and has(flat(tuple(g.args))): return g
        if g.kind == "vec" and has(flat(tuple(g.args))): return g
        if g.kind == "copy" and g.name == "read" and isinstance(g.args[1], Ptr) and any(site(y) in st for y in top_status(g.args[1].obj[2])) and io.L.it.visible(g.args[0].obj if isinstance(g.args[0], Ptr) else None): return g
    for F in io.fors.values():
        if F.trip is not None and has(flat(F.trip)): return F
    return None

def load(c, io, k, ps, key):
    f = io.f
    unk = [e for e, _ in io.ops(k, "unknown")]
    if io.is_file(k):
        # opened at all
        opens = {site(a) for e, _ in io.ops(k, "open") for a in top_status(e.x["ver"])}
        bad = [p for p in ps if not any(kp and kp[1] == k and ((kp[0] == "iofail" and not v) or (kp[0] == "ioopen" and v) or (kp[0] == "iobad" and not v and False)) and opens <= io.ancestors(kp[2])[0] for q, v in p for kp in [io_pred(q)])]
        per = lambda p: any(any(a.kind == "sv" for a in deep_atoms(q.key if q.kind == "b" else q.poly)) for q, v in p)
        if bad and not any(per(p) for p in bad) and not unk: c.refuted(key + ".opened", "returns true although opening was never tested", f)
        elif bad: c.unknown(key + ".opened", fmt_path(bad[0]), f)
        else: c.proved(key + ".opened", "%d success paths test the opening" % len(ps), f)
    for n, (e, fs) in enumerate(readers(io, k)):
        kk = "%s.%s.%d" % (key, e.name, n)
        if e.name == "getline": lines(c, io, k, e, fs, ps, kk, unk); continue
        g = needed(io, e)
        if g is None: continue
        r = {site(a) for a in value_of(e)}
        und = bad = None
        for p in ps:
            st, why = covered(io, k, e, fs, r, p)
            if st is True: continue
            if st is False: bad = bad or (p, why)
            else: und = und or (p, why)
        if bad and not unk: c.refuted(kk, "what is read here is used, but success is reported without testing that it was read: %s" % bad[1], e)
        elif bad or und: c.unknown(kk, (bad or und)[1], e)
        else: c.proved(kk, "%d success paths test this read" % len(ps), e)

def cond_of(p):
    g = ONE
    for q, v in p: g = c_and(g, mk(q.id, ONE, ZERO) if v else mk(q.id, ZERO, ONE))
    return g

def covered(io, k, e, fs, r, p):
    """is the read event known to have succeeded on path p"""
    maybe = False
    for q, v in p:
        kp = io_pred(q)
        if kp and kp[1] == k:
            sites, ok = io.ancestors(kp[2])
            if r <= sites:
                if (kp[0] == "iofail" and not v): return True, ""
                if kp[0] in ("ioeof",): maybe = True
            elif not ok: maybe = True
        elif q.kind == "b" and q.key[0] not in ("exit", "retin", "streq") and any(a.kind == "sv" and site(a) in r for a in deep_atoms(q.key)) : maybe = True
    # the read is not executed on this path
    g = restrict(e.guard, ONE)
    for q, v in p: g = assume(g, q.id, v)
    if g == ZERO: return True, "not executed"
    if fs:
        # every iteration: staying in the loop implies success, and so does the exit taken
        F = fs[-1]; res = []
        if F.stay is None: return None, "loop not understood"
        res.append(branch(io, k, e, r, c_and(e.guard, F.stay), True))
        if F.exits and not F.exact:
            for i in taken(F, p): res.append(branch(io, k, e, r, c_and(e.guard, F.exits[i][0]), False))
        for x, why in res:
            if x is False and not maybe: return False, why
        if all(x is True for x, _ in res): return True, ""
        return None, [w for x, w in res if x is not True][0]
    if maybe: return None, "tested in a way the analysis does not follow"
    # no query of a later status anywhere on the path or in the loops that contain the read
    return False, fmt_path(p) or "no test"

def branch(io, k, e, r, cond, stay):
    """the ways an iteration may go on: True if each of them has tested the read and found it good"""
    if cond == ZERO: return True, ""
    und = None
    for p, l in paths(cond, 3000):
        if l == ZERO or not possible(p): continue
        good = seen = failed = False
        for q, v in p:
            kp = io_pred(q)
            if kp and kp[1] == k:
                sites, ok = io.ancestors(kp[2], loops=False)
                if direct(r, kp[2], p):
                    if kp[0] == "iofail" and not v: good = True
                    elif kp[0] == "iofail" or kp[0] == "ioeof" and v and e.name == "read": failed = True
                    else: seen = True
                elif r <= sites or not ok and not r <= sites and False: seen = seen or not direct_known(kp[2], p)
            elif q.kind == "b" and q.key[0] != "streq" and any(a.kind == "sv" and site(a) in r for a in deep_atoms(q.key)) and not kp: seen = True
        if good: continue
        if failed:
            if e.name == "read" or stay: return False, "a failed read is noticed, but success is reported: " + fmt_path(p)
            und = und or fmt_path(p); continue
        if seen: und = und or fmt_path(p); continue
        if used_on(io, e, r, p): return False, fmt_path(p)
        und = und or fmt_path(p) if False else und
    return (True, "") if und is None else (None, und)

def chain_under(V, p):
    """statuses before V that path p selects: (atoms, complete?)"""
    out = []; ok = True; work = [V]
    while work:
        W = work.pop()
        if isinstance(W, tuple): continue
        for q, v in p: W = assume(W, q.id, v)
        ls = leaves(W)
        if len(ls) > 1: ok = False
        for l in ls:
            for a in top_status(l):
                if a in out: continue
                out.append(a)
                if a.kind == "sv": work.append(a.args[1])
    return out, ok
def direct(r, V, p):
    a, ok = chain_under(V, p)
    return r <= {site(x) for x in a if x.kind == "sv"}
def direct_known(V, p): return chain_under(V, p)[1]

def used_on(io, e, r, p):
    """an effect that uses the value and is compatible with path p"""
    g0 = cond_of(p)
    for g, fs in io.events:
        if g.kind in ("mesh", "store", "vec", "copy") and c_and(g.guard, g0) != ZERO:
            if g.kind == "store" and not io.L.it.visible(g.args[0].obj if isinstance(g.args[0], Ptr) else None): continue
            if any(a.kind == "rd" and any(site(y) in r for y in top_status(a.args[1])) for a in deep_atoms(flat(tuple(g.args)))): return True
            if g.kind == "copy" and g.name == "read" and isinstance(g.args[1], Ptr) and any(site(y) in r for y in top_status(g.args[1].obj[2])): return True
    return False

def mentions(x, what):
    """does a derived object such as ("line", ...) occur"""
    seen = set()
    def go(x):
        if isinstance(x, tuple): return x[:2] == what if x[:2] == what else any(go(y) for y in x)
        if isinstance(x, Ptr): return go(x.obj)
        if isinstance(x, Poly): return any(ga(a) for a in x.atoms())
        if isinstance(x, Node):
            return any(go(q.poly if q.kind == "gt" else q.key) for q in preds_of(x)) or any(go(l) for l in leaves(x))
        return False
    def ga(a):
        if a in seen: return False
        seen.add(a)
        return any(go(y) for y in atom_by_id(a).args)
    return go(x)

def lines(c, io, k, e, fs, ps, kk, unk):
    """reading lines up to the end: the end of the file is told apart from a read error"""
    r = {site(a) for a in value_of(e)}
    und = bad = drop = None
    for p in ps:
        ok = False; maybe = False
        for q, v in p:
            kp = io_pred(q)
            if kp and kp[1] == k and r <= io.ancestors(kp[2])[0]:
                if kp[0] == "iobad" and not v: ok = True
                if kp[0] == "ioeof" and v: ok = True
                if kp[0] == "iofail" and not v: ok = True
            elif not kp and q.kind == "b" and q.key[0] not in ("exit", "retin", "streq") and any(a.kind == "sv" and site(a) in r for a in deep_atoms(q.key)): maybe = True
        # leaving the loop although the line was read: then it must have been used
        F = fs[-1] if fs else None
        if F is not None and F.exits:
            for i in taken(F, p):
                for pp, l in paths(c_and(e.guard, F.exits[i][0]), 3000):
                    if l == ZERO or not possible(pp) or not compatible(io, F, p, pp): continue
                    st = [(kp, v) for q, v in pp for kp in [io_pred(q)] if kp and kp[1] == k and r <= io.ancestors(kp[2], loops=False)[0]]
                    if any(kp[0] == "iofail" and v for kp, v in st): continue
                    if any(mentions(q.poly if q.kind == "gt" else q.key, ("D", "line")) or mentions(q.key, ("line", k)) for q, v in pp): continue
                    g0 = cond_of(pp)
                    if any(g.kind in ("io", "mesh") and g is not e and c_and(g.guard, g0) != ZERO and fs2 and fs2[-1] is F and (mentions(flat(tuple(g.args)), ("D", "line")) or g.name in ("open", "extract")) for g, fs2 in io.events): continue
                    drop = drop or fmt_path(pp)
        if ok: continue
        if maybe: und = und or p
        else: bad = bad or p
    if drop and not unk: c.refuted(kk, "the reading loop ends with success although a line was read that is not used: %s" % drop, e); return
    if bad and not unk: c.refuted(kk, "returns true after the last line without telling a read error from the end of the file", e)
    elif bad or und: c.unknown(kk, fmt_path(bad or und), e)
    else: c.proved(kk, "%d success paths exclude a read error" % len(ps), e)

def compatible(io, F, p, pp):
    """does the path inside the last iteration agree with what the result path says about the same streams"""
    return True

def run(c):
    c.rule("save", "on every path that returns true, the stream's fail state is tested and clear after a final close or flush, and nothing is written after that")
    c.rule("load", "on every path that returns true, for every read whose value is used, a later fail state was tested and clear (per iteration for reads in loops); the end of a line loop is told apart from a read error")
    fs = stream_entries(c)
    extra = [f for f in c.m.match(r"^OBJWriter::close\(") if f.rt == "i1"]
    c.count("entry points", len(fs) + len(extra))
    if len(fs) < 6: c.unknown("entry points", "only %s" % [f.dn for f in fs])
    for f in fs + extra:
        key = f.dn.split("(")[0]
        with c.group(key):
            io = Io(c, f); ps = io.success()
            if ps is None: c.unknown(key, "result %s" % str(io.r.ret)[:200], f); continue
            if not ps: c.unknown(key, "never returns true", f); continue
            ks = io.keys(); wrote = False; did = False
            for k in ks:
                if io.is_file(k) and (writers(io, k) or f in extra): save(c, io, k, ps, key); did = True
            for k in ks:
                if readers(io, k): load(c, io, k, ps, key); did = True
            if not did: c.unknown(key, "no stream operations found", f)
            c.count("stream operations", len(io.io)); c.count("success paths", len(ps))
