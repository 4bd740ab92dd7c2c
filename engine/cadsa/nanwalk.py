"""Can a not-a-number reach a conversion to integer?  The control flow graph is walked with the sources being NaN: an ordered
comparison with a NaN is false, an unordered one true, arithmetic on a NaN is a NaN, other conditions go both ways."""
from .ir import succs

ARITH = {"fadd", "fsub", "fmul", "fdiv", "fneg", "frem"}

def walk_nan(f, sources):
    """[(conversion, True when every branch on the way was decided by the NaN)] reached with a NaN operand; all conversions"""
    hits = {}; conv = [i for b in f.blocks for i in f.blocks[b] if i["op"] in ("fptosi", "fptoui")]
    seen = set(); entry = f.order[0]
    def isnan(o, nan): return o.get("k") == "v" and o["v"] in nan
    work = [(entry, None, frozenset(sources), frozenset(), True)]
    while work:
        b, pred, nan, known, sure = work.pop()
        key = (b, pred, nan, known, sure)
        if key in seen or len(seen) > 4000: continue
        seen.add(key); nan = set(nan); known = dict(known)
        pend = {}
        for i in f.blocks[b]:
            op = i["op"]; a = i.get("a", [])
            if op == "phi":
                for pb, o in a:
                    if pb == pred and isnan(o, nan): pend[i["i"]] = True
                continue
            if pend: nan |= set(pend); pend = {}
            if i["i"] in sources: nan.add(i["i"])
            if op in ARITH and any(isnan(o, nan) for o in a): nan.add(i["i"])
            elif op in ("fpext", "fptrunc") and isnan(a[0], nan): nan.add(i["i"])
            elif op == "fcmp" and any(isnan(o, nan) for o in a[:2]):
                known[i["i"]] = i["p"][0] == "u" or i["p"] == "true"
            elif op == "xor" and a[0].get("k") == "v" and a[0]["v"] in known and i.get("t") == "i1" and a[1].get("k") == "i":
                known[i["i"]] = not known[a[0]["v"]]
            elif op in ("and", "or") and i.get("t") == "i1":
                v = [known.get(o["v"]) if o.get("k") == "v" else None for o in a]
                if op == "and" and False in v: known[i["i"]] = False
                if op == "or" and True in v: known[i["i"]] = True
            elif op == "select":
                c = known.get(a[0]["v"]) if a[0].get("k") == "v" else None
                if c is not None:
                    o = a[1] if c else a[2]
                    if isnan(o, nan): nan.add(i["i"])
                    if i.get("t") == "i1":
                        if o.get("k") == "i": known[i["i"]] = o["v"] not in ("0", "false", 0)
                        elif o.get("k") == "v" and o["v"] in known: known[i["i"]] = known[o["v"]]
                elif isnan(a[1], nan) and isnan(a[2], nan): nan.add(i["i"])
            elif op in ("fptosi", "fptoui") and isnan(a[0], nan): hits[i["i"]] = hits.get(i["i"], False) or sure; nan.add(("conv", i["i"]))
        t = f.blocks[b][-1]
        if t["op"] == "br" and len(t["a"]) == 3:
            c = known.get(t["a"][0]["v"]) if t["a"][0].get("k") == "v" else None
            s = succs(t)            # true, false
            nx = s if c is None else [s[0] if c else s[1]]
        else: nx = succs(t); c = True if len(nx) < 2 else None
        n2 = frozenset(x for x in nan if not isinstance(x, tuple))
        for x in nx: work.append((x, b, n2, frozenset(known.items()), sure and c is not None))
    return hits, conv

def guarded_select(f, cid):
    """the result of the conversion is used by selects only (speculated, chosen by a comparison)"""
    us = [i for b in f.blocks for i in f.blocks[b] for o in (i.get("a") or []) if isinstance(o, dict) and o.get("k") == "v" and o["v"] == cid]
    return bool(us) and all(i["op"] == "select" for i in us)
