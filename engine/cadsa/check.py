"""Obligation bookkeeping, known findings, reports and evidence of one property check."""
import contextlib, json, os, signal, sys, time, traceback
from . import ir as _ir
from .ir import AnalysisError, VERIF
from .val import Blowup
from .interp import Unsupported, TooBig
from .chain import Und, NoValue

PROVED, REFUTED, UNKNOWN = "proved", "refuted", "unknown"

class Timeout(Exception): pass
SOFT = (Blowup, Unsupported, TooBig, Und, NoValue, RecursionError, Timeout, ZeroDivisionError, KeyError, IndexError,
        AttributeError, TypeError, ValueError, AssertionError, NotImplementedError, OverflowError, MemoryError)

class Check:
    def __init__(s, pid, tier="quick", repo=None):
        s.pid = pid; s.tier = tier; s.t0 = time.time()
        s.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        s.obs = []            # (group, key, status, loc, text)
        s.broken = []         # anchors that vanished
        s.grp = ""
        s.rules = {}          # rule name -> text
        s.assumptions = []
        s.facts = {}          # counters of what was analysed
        s.debug = bool(os.environ.get("CADSA_DEBUG"))
        s._m = None
        s.repo = repo
        s.extra = []
        s.functions = set()
    # ---------------------------------------------------------------- module
    @property
    def m(s):
        if s._m is None:
            pk = os.environ.get("CADSA_PICKLE")
            if pk and os.path.exists(pk):
                import pickle; s._m = pickle.load(open(pk, "rb"))
            else: s._m = _ir.build(repo=s.repo)
        return s._m
    def rule(s, name, text): s.rules[name] = text
    def assume(s, *t):
        for x in t:
            if x not in s.assumptions: s.assumptions.append(x)
    def count(s, name, n=1): s.facts[name] = s.facts.get(name, 0) + n
    # ---------------------------------------------------------------- obligations
    def add(s, status, key, text, loc="", **x):
        if not isinstance(loc, str): loc = locstr(s, loc)
        s.obs.append(dict(group=s.grp, key=(s.grp + ":" if s.grp else "") + key, status=status, loc=loc, text=str(text), **x))
    def proved(s, key, text="", loc=""): s.add(PROVED, key, text, loc)
    def refuted(s, key, text, loc=""): s.add(REFUTED, key, text, loc)
    def unknown(s, key, text, loc=""): s.add(UNKNOWN, key, text, loc)
    def decide(s, ok, key, text, loc=""):
        """ok: True proved, False refuted, None unknown"""
        s.add(PROVED if ok is True else REFUTED if ok is False else UNKNOWN, key, text, loc)
        return ok
    @contextlib.contextmanager
    def group(s, name, seconds=120):
        """one unit of analysis; anything the engine cannot handle becomes an UNKNOWN obligation"""
        old = s.grp; s.grp = name
        def onalarm(*a): raise Timeout("time budget of %ds" % seconds)
        prev = signal.signal(signal.SIGALRM, onalarm); signal.alarm(seconds)
        t = time.time()
        try: yield
        except AnalysisError as e:
            if "command failed" in str(e): s.broken.append("%s: %s" % (name, e))
            s.unknown("analysis", "analysis broken: %s" % e)
            if s.debug: traceback.print_exc()
        except Exception as e:
            s.unknown("analysis", "%s: %s" % (type(e).__name__, str(e)[:300]))
            if s.debug: traceback.print_exc()
        finally:
            signal.alarm(0); signal.signal(signal.SIGALRM, prev); s.grp = old
            if s.debug: sys.stderr.write("  [%s] %.2fs\n" % (name, time.time() - t))
    # ---------------------------------------------------------------- end
    def known(s):
        r = {}
        p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith("finding:"):
                    d = l[len("finding:"):].strip()
                    if not d.startswith("property="): continue
                    pid, rest = d[len("property="):].split(" ", 1)
                    if not rest.startswith("key="): continue
                    key, _, what = rest[4:].partition(" | ")
                    if pid == s.pid: r[key.strip()] = what.strip()
        return r
    def finish(s):
        known = s.known()
        rdir = os.environ.get("CADSA_EVID") or os.path.join(VERIF, "evidence")
        os.makedirs(rdir, exist_ok=True)
        rep = os.path.join(rdir, s.pid + ".report.txt")
        ref = [o for o in s.obs if o["status"] == REFUTED]
        unk = [o for o in s.obs if o["status"] == UNKNOWN]
        prv = [o for o in s.obs if o["status"] == PROVED]
        new = [o for o in ref if o["key"] not in known]
        with open(rep, "w") as f:
            for o in ref + unk + prv:
                f.write("%-8s %s\n    at %s\n    %s\n" % (o["status"].upper(), o["key"], o["loc"] or "-", o["text"].replace("\n", "\n    ")))
        print("%s: %d obligations, %d proved, %d undecided, %d refuted (%.1fs)" % (s.pid, len(s.obs), len(prv), len(unk), len(ref), time.time() - s.t0))
        for o in unk: print("UNDECIDED %s: %s" % (o["key"], o["text"][:240].replace("\n", " ")))
        for o in ref:
            if o["key"] in known: print("KNOWN-FINDING: property=%s %s" % (s.pid, known[o["key"]]))
        for o in new:
            print("  %s\n    at %s\n    %s" % (o["key"], o["loc"] or "-", o["text"][:1500].replace("\n", "\n    ")))
        groups = {}
        for o in s.obs:
            g = groups.setdefault(o["group"] or "-", dict(proved=0, undecided=0, refuted=0))
            g["proved" if o["status"] == PROVED else "refuted" if o["status"] == REFUTED else "undecided"] += 1
        m = s._m
        ev = dict(property=s.pid, tier=s.tier, seed=s.seed, level="other", wall_s=round(time.time() - s.t0, 2), violations=len(new),
                  assumptions=s.assumptions,
                  coverage=dict(
                      explanation="Static analysis of the LLVM IR of /repo's current sources (no execution). Each obligation is an instance of one of the rules below at a function, call site, loop or path of the analysed program.",
                      rules=s.rules, obligations=len(s.obs), discharged=len(prv), undecided=len(unk), refuted=len(ref),
                      known_findings=[o["key"] for o in ref if o["key"] in known],
                      units=len(m.units) if m else 0,
                      functions_in_scope=len(m.repo_funcs()) if m else 0,
                      functions_analysed=sorted(s.functions)[:400],
                      facts=s.facts, groups=groups,
                      samples=[dict(key=o["key"], status=o["status"], at=o["loc"], what=o["text"][:300]) for o in (ref + unk + prv)[:40]]))
        json.dump(ev, open(os.path.join(rdir, s.pid + ".json"), "w"), indent=1)
        if new:
            print("VIOLATION property=%s replay=%s" % (s.pid, rep))
            return 1
        if s.broken:
            for b in s.broken: print("ANALYSIS BROKEN " + b)
            return 2
        if not s.obs:
            print("ANALYSIS BROKEN nothing was analysed"); return 2
        if not prv and not ref: print("UNDECIDED every obligation")
        return 0

def locstr(c, l):
    """Loc / Func / Ev -> text"""
    if hasattr(l, "loc"): l = l.loc
    if hasattr(l, "chain"): 
        t = l.chain()
    elif hasattr(l, "dn"): t = "%s:%s (%s)" % (l.file, l.line, l.dn)
    else: t = str(l)
    repo = (c.m.repo if c._m else "/repo").rstrip("/") + "/"
    return t.replace(repo, "")
