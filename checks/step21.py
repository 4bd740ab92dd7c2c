"""Syntax of an ISO 10303-21 exchange file over a text with symbolic numbers and counted repetitions."""
import re
from common import *

class Malformed(Exception): pass
LEX = re.compile(r"\s+|'(?:[^']|'')*'|[A-Za-z_.][A-Za-z0-9_.\-]*|[+-]?\d+(?:\.\d*)?(?:[eE][+-]?\d+)?|[(),;=#$*]")
class Tok:
    __slots__ = ("k", "v", "g")
    def __init__(s, k, v, g=ONE): s.k = k; s.v = v; s.g = g
    def __repr__(s): return str(s.v) if s.k != "rep" else "{%s}*" % (s.v[2],)
class Rep:
    """a part of the text that is written n times, k = 0..n-1"""
    def __init__(s, F, k, n, items): s.F = F; s.k = k; s.n = n; s.items = items

def lex(items):
    """items: [(guard, str | Poly | Node of str | Rep)] -> tokens; neighbouring strings are one text"""
    out = []; i = 0; glue = False
    while i < len(items):
        g, x = items[i]
        if isinstance(x, str):
            t = x; i += 1
            while i < len(items) and isinstance(items[i][1], str) and items[i][0] == g: t += items[i][1]; i += 1
            p = 0
            while p < len(t):
                m = LEX.match(t, p)
                if not m: raise Malformed("text '%s'" % t[p:p + 20].strip())
                w = m.group(); 
                if w[0].isspace(): glue = False
                elif w[0] in "(),;=#$*": out.append(Tok("p", w, g)); glue = False
                elif w[0] == "'": out.append(Tok("s", w, g)); glue = False
                else:
                    if glue: raise Malformed("'%s' directly behind another value" % w)
                    num = w[0] in "+-0123456789"
                    out.append(Tok("v", P(Fraction(w)), g) if num else Tok("w", w, g)); glue = True
                p = m.end()
            continue
        i += 1
        if isinstance(x, Rep): out.append(Tok("rep", (x, lex(x.items)), g)); glue = False
        else:
            if glue: raise Malformed("a value directly behind '%s'" % (out[-1],))
            out.append(Tok("c" if isinstance(x, Node) and any(isinstance(l, str) for l in leaves(x)) else "v", x, g)); glue = True
    return out

class Inst:
    def __init__(s, name, kinds, args): s.name = name; s.kinds = kinds; s.args = args      # kinds: [keyword], args: keyword -> elements
    def __repr__(s): return "#%s %s" % (s.name, "/".join(s.kinds))
class Stmt:
    def __init__(s, kw, args): s.kw = kw; s.args = args

class Parser:
    """elements of lists: ("v", value) ("ref", name) ("s", text) ("w", enumeration) ("c", choice) ("list", elements) ("typed", kw, elements)
    and ("rep", Rep, element) for an element repeated n times"""
    def __init__(s): s.need = []; s.refs = []
    def file(s, toks, rep=()):
        """statements, instances and repeated instances of one level"""
        out = []; i = 0
        while i < len(toks):
            t = toks[i]
            if t.g != ONE: raise Und("'%s' is written only if %s" % (t, str(t.g)[:80]))
            if t.k == "rep":
                body = s.file(t.v[1], rep + (t.v[0],)); out.append(("rep", t.v[0], body)); i += 1; continue
            if t.k == "p" and t.v == "#":
                s.cur = None
                name = s.name(toks, i + 1); i = s.expect(toks, i + 2, "=")
                if s.is_(toks, i, "("):
                    kinds = []; args = {}; i += 1
                    while not s.is_(toks, i, ")"):
                        kw, a, i = s.typed(toks, i); kinds.append(kw); args[kw] = a
                    i += 1
                else:
                    kw, a, i = s.typed(toks, i); kinds, args = [kw], {kw: a}
                i = s.expect(toks, i, ";")
                out.append(Inst(name, kinds, args)); continue
            if t.k == "w":
                kw = t.v; i += 1; a = None
                if s.is_(toks, i, "("): a, i = s.list_(toks, i)
                i = s.expect(toks, i, ";")
                out.append(Stmt(kw, a)); continue
            raise Malformed("'%s' between two statements" % (t,))
        return out
    def tok(s, toks, i):
        if i >= len(toks): raise Malformed("the text ends inside a statement")
        t = toks[i]
        if t.g != ONE: raise Und("'%s' is written only if %s" % (t, str(t.g)[:80]))
        return t
    def is_(s, toks, i, p): t = s.tok(toks, i); return t.k == "p" and t.v == p
    def expect(s, toks, i, p):
        t = s.tok(toks, i)
        if not (t.k == "p" and t.v == p): raise Malformed("'%s' where '%s' belongs" % (t, p))
        return i + 1
    def name(s, toks, i):
        t = s.tok(toks, i)
        if t.k != "v": raise Malformed("'#' is not followed by a number")
        return t.v
    def typed(s, toks, i):
        t = s.tok(toks, i)
        if t.k != "w": raise Malformed("'%s' where a keyword belongs" % (t,))
        a, j = s.list_(toks, i + 1)
        return t.v, a, j
    def list_(s, toks, i):
        i = s.expect(toks, i, "(")
        items, i = s.items(toks, i, True)
        i = s.expect(toks, i, ")")
        return s.elements(items), i
    def items(s, toks, i, closed):
        """elements and commas up to the closing bracket: [("e", element) | (",", guard) | ("rep", Rep, items)]"""
        out = []
        while i < len(toks):
            t = toks[i]
            if t.k == "p" and t.v == ",": out.append((",", t.g)); i += 1; continue
            if t.k == "p" and t.v == ")": 
                if t.g != ONE: raise Und("a bracket is written only if %s" % str(t.g)[:60])
                break
            if t.g != ONE: raise Und("'%s' is written only if %s" % (t, str(t.g)[:80]))
            if t.k == "rep":
                its, j = s.items(t.v[1], 0, False)
                if j != len(t.v[1]): raise Malformed("a bracket opened outside a repetition is closed inside it")
                out.append(("rep", t.v[0], its)); i += 1; continue
            if t.k == "p" and t.v == "#": e = ("ref", s.name(toks, i + 1)); s.refs.append(e); i += 2
            elif t.k == "p" and t.v == "(": a, i = s.list_(toks, i); e = ("list", a)
            elif t.k == "p" and t.v in "$*": e = ("w", t.v); i += 1
            elif t.k == "w" and i + 1 < len(toks) and toks[i + 1].k == "p" and toks[i + 1].v == "(": kw, a, i = s.typed(toks, i); e = ("typed", kw, a)
            elif t.k in ("v", "s", "w", "c"): e = (t.k, t.v); i += 1
            else: raise Malformed("'%s' inside a list" % (t,))
            out.append(("e", e))
        return out, i
    def elements(s, items):
        st = "start"; out = []
        for x in items:
            if x[0] == "e":
                if st == "elem": raise Malformed("two list elements without a comma")
                out.append(x[1]); st = "elem"
            elif x[0] == ",":
                if x[1] != ONE: raise Und("a comma is written only if %s" % str(x[1])[:80])
                if st != "elem": raise Malformed("a comma without an element before it")
                st = "comma"
            else:
                R, its = x[1], x[2]; k, n = R.k, R.n
                if len(its) == 1 and its[0][0] == "e": raise Malformed("repeated list elements without commas")
                if len(its) != 2 or {its[0][0], its[1][0]} != {"e", ","}: raise Und("a repetition of %d parts inside a list" % len(its))
                after = its[0][0] == "e"; e = its[0][1] if after else its[1][1]; g = its[1][1] if after else its[0][1]
                out.append(("rep", R, e))
                if g == ONE:
                    if after:
                        if st == "elem": raise Malformed("two list elements without a comma")
                        st = "comma"
                    else:
                        if st != "elem": raise Malformed("a comma without an element before it")
                elif after and at(g, k, n - 1) == ZERO and implies(gt0(n - 1 - k, True), g):
                    if st == "elem": raise Malformed("two list elements without a comma")
                    s.need.append(n); st = "elem"
                elif not after and at(g, k, ZERO) == ZERO and implies(gt0(k, True), g):
                    if st == "elem": raise Malformed("two list elements without a comma")
                    s.need.append(n); st = "elem"
                else: raise Und("a comma is written only if %s" % str(g)[:80])
        if st == "comma": raise Malformed("a comma before the closing bracket")
        return out
def at(g, k, v): return Subst({one_atom(k): v}).any(g)
