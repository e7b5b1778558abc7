"""Decision tables: the paths of a function on symbolic labels (conditions and value, as the analysis summarised them), looked up at
label points.  Nothing of the analysed code runs at this stage; loops were summarised to index families before."""
import re
import time
from fractions import Fraction

from . import poly
from . import stub
from . import tens as T
from . import decide
from .decide import TimeUp, timed, wtext
from .interp import explore
from .poly import Poly, N, P
from .seeds import Ctx
from .values import *

BIG = 9          # how far an infinite enumeration is followed


class Undef(Exception):
    pass


class Refuse(Exception):
    """evaluating the expression raises an exception in the analysed code"""


class Strings:
    """meaning of the expressions over an unknown string, for one content"""

    def __init__(self, s):
        self.s = s

    def str(self, v, pt, ixs):
        if isinstance(v, str):
            return v
        if not isinstance(v, StrV):
            raise Undef("not a string")
        k, a = v.op, v.args
        if k == "in":
            return self.s
        if k in ("strip", "lstrip", "rstrip", "lower", "upper", "replace", "removeprefix", "removesuffix", "zfill"):
            return getattr(self.str(a[0], pt, ixs), k)(*[self.plain(x, pt, ixs) for x in a[1:]])
        if k == "slice":
            return self.str(a[0], pt, ixs)[slice(*[self.plain(x, pt, ixs) for x in a[1:]])]
        if k == "index":
            s, i = self.str(a[0], pt, ixs), self.plain(a[1], pt, ixs)
            if not isinstance(i, int) or not -len(s) <= i < len(s):
                raise Refuse("string index out of range")
            return s[i]
        if k == "part":
            ps, i = self.parts(a[0], a[1], a[2], pt, ixs), self.plain(a[3], pt, ixs)
            if not -len(ps) <= i < len(ps):
                raise Refuse("list index out of range")
            return ps[i]
        if k == "group":
            m = self.match(a[0], a[1], a[2], pt, ixs)
            if m is None:
                raise Refuse("no match")
            try:
                g = m.group(self.plain(a[3], pt, ixs))
            except IndexError:
                raise Refuse("no such group")
            if g is None:
                raise Refuse("group without a match")
            return g
        if k == "concat":
            return self.str(a[0], pt, ixs) + self.str(a[1], pt, ixs)
        if k == "re.sub":
            return re.sub(*[self.str(x, pt, ixs) for x in a])
        if k == "join" and isinstance(a[1], tuple):
            return self.str(a[0], pt, ixs).join(self.items(a[1], pt, ixs))
        raise Undef("string " + k)

    def items(self, xs, pt, ixs):
        out = []
        for x in xs:
            if isinstance(x, Seg):
                n = pt.int(P(x.n), ixs)
                for j in range(n):
                    out += self.items(x.items, pt, {**ixs, x.ix: j})
            else:
                out.append(self.str(x, pt, ixs))
        return out

    def plain(self, x, pt, ixs):
        if isinstance(x, Sym):
            r = pt.num(x.p, ixs)
            if r.denominator != 1:
                raise Undef("not an integer")
            return int(r)
        if isinstance(x, StrV):
            return self.str(x, pt, ixs)
        if x is None or isinstance(x, (int, str)):
            return x
        raise Undef("argument of a string function")

    def match(self, fn, pat, s, pt, ixs):
        return getattr(re, fn)(self.str(pat, pt, ixs), self.str(s, pt, ixs))

    def parts(self, name, o, args, pt, ixs):
        s, args = self.str(o, pt, ixs), [self.plain(x, pt, ixs) for x in args]
        if name == "re.split":
            return re.split(args[0], s)
        if name == "re.findall":
            return re.findall(args[0], s)
        return list(getattr(s, name)(*args))

    def atom(self, a, pt, ixs):
        """value of a number computed from a string, or None"""
        k = a[1]
        if k in ("int", "float") and isinstance(a[2], StrV):
            try:
                return Fraction((int if k == "int" else float)(self.str(a[2], pt, ixs)))
            except ValueError:
                raise Refuse("not a number")
        if k == "dictget":
            d = dict(a[3])
            x = self.str(a[2], pt, ixs)
            if x not in d:
                raise Refuse("no such key")
            return Fraction(d[x])
        if k == "nparts":
            return Fraction(len(self.parts(a[2], a[3], a[4:], pt, ixs)))
        if k == "strlen":
            return Fraction(len(self.str(a[2], pt, ixs)))
        if k in ("strcount", "strfind", "strrfind", "strindex"):
            try:
                return Fraction(getattr(self.str(a[2], pt, ixs), k[3:])(*[self.plain(x, pt, ixs) for x in a[3:]]))
            except ValueError:
                raise Refuse("substring not found")
        return None

    def cond(self, c, pt, ixs):
        k, a = c.kind, c.args
        if k in ("isint", "isfloat"):
            try:
                (int if k == "isint" else float)(self.str(a[0], pt, ixs))
                return True
            except ValueError:
                return False
        if k == "strin":
            return self.str(a[0], pt, ixs) in [self.str(x, pt, ixs) for x in a[1]]
        if k == "streq":
            return self.str(a[0], pt, ixs) == self.str(a[1], pt, ixs)
        if k == "substr":
            return self.str(a[0], pt, ixs) in self.str(a[1], pt, ixs)
        if k == "match":
            return self.match(a[2], a[0], a[1], pt, ixs) is not None
        if k == "strpred":
            return bool(getattr(self.str(a[1], pt, ixs), a[0])(*[x if isinstance(x, tuple) else self.plain(x, pt, ixs) for x in a[2:]]))
        if k == "truth" and a and isinstance(a[0], StrV):
            return self.str(a[0], pt, ixs) != ""
        raise Undef(k)


class Row:
    def __init__(self, p):
        self.p, self.kind, self.value, self.facts = p, p.kind, p.value, p.facts


class Rejected:
    kind, value, facts = "raise", None, ()

    class p:
        class exc:
            name, msg = "AssertionError", "an assertion excludes it"


class Table:
    def __init__(self, rows, complete, name):
        self.rows, self.complete, self.name = rows, complete, name

    def at(self, env):
        """(row, how): the only path whose conditions hold at the point; how is None when undecided"""
        pt = point(env)
        hit, maybe = [], []
        for r in self.rows:
            s = [fact(c, v, pt) for c, v, _ in r.facts]
            if False in s:
                continue
            (maybe if None in s or r.kind in ("stuck", "cut") else hit).append(r)
        if len(hit) == 1 and not maybe:
            return hit[0]
        if not hit and not maybe and self.complete:
            return Rejected()       # every path that goes on is excluded: an assertion fails
        return None


    def possible(self, env):
        """the paths which are not excluded at the point, and whether each is certain"""
        pt = point(env)
        out = []
        for r in self.rows:
            s = [fact(c, v, pt) for c, v, _ in r.facts]
            if False not in s:
                out.append((r, None not in s and r.kind not in ("stuck", "cut")))
        return out


def table(prog, rep, name, build, anchor="", seconds=20, max_paths=96, summaries=None, part=None):
    model = stub.Model((part or {}).get("dims"))
    stub.install(prog, model)
    prog.summaries = summaries or {}
    info = {"scenario": name, "paths": 0}
    rep.scen.append(info)

    def fn(I):
        c = Ctx(I)
        c.model, c.part = model, part or {}
        from . import v_work
        if "lnsa_work" not in I.prog.mods:
            I.prog.add("lnsa_work", v_work.HELPERS, "<operators>")

        def ir(k):
            return c.call(c.cls("lnsa_stub", "SymIrrep2" if "z" in k else "SymIrrep"), k)
        c.ir = ir
        return build(c)
    complete = True
    try:
        paths = timed(seconds, lambda: explore(prog, fn, max_paths=max_paths, budget=200000))
    except (TimeUp, MemoryError) as e:
        rep.undecided.append(f"{name}: {type(e).__name__}: {e}")
        paths, complete = [], False
    finally:
        prog.summaries = {}
    for p in paths:
        rep.paths += 1
        info["paths"] += 1
        rep.functions |= p.stats["functions"]
        rep.sites |= p.stats["sites"]
        if p.kind == "stuck":
            complete = False
            rep.undecided.append(f"{name}: {p.exc} at {wtext(getattr(p.exc, 'where', None) or p.interp.where())}")
    return Table([Row(p) for p in paths], complete, name)


def ints_in(v, out, depth=0):
    """integer constants in conditions and values"""
    if depth > 6 or len(out) > 400:
        return
    if isinstance(v, Cond):
        for x in v.args[1:] if v.kind in ("member", "forall", "exists", "truth") else v.args:
            ints_in(x, out, depth + 1)
    elif isinstance(v, Sym):
        ints_in(v.p, out, depth + 1)
    elif isinstance(v, Poly):
        out.update(int(m) for m in re.findall(r"(?<![A-Za-z_0-9.'])\d+(?![A-Za-z_0-9.'])", re.sub(r"<[^>]*>", "", str(v))))
    elif isinstance(v, Obj):
        for x in v.attrs.values():
            ints_in(x, out, depth + 1)
    elif isinstance(v, (tuple, list)):
        for x in v:
            ints_in(x, out, depth + 1)
    elif isinstance(v, (PyList, TupleSeg)):
        for x in v.items:
            ints_in(x, out, depth + 1)
    elif isinstance(v, Seg):
        ints_in(v.items, out, depth + 1)
        if v.n is not INF:
            ints_in(P(v.n) if not isinstance(v.n, Poly) else v.n, out, depth + 1)
    elif isinstance(v, ArrVal):
        for x in v.node.shape:
            ints_in(x, out, depth + 1)
    elif isinstance(v, int) and not isinstance(v, bool):
        out.add(v)


def landmarks(tables, above, limit=120):
    """label values next to the integer constants which the tables mention: every row is then met on both of its sides"""
    out = set()
    for t in tables:
        for r in t.rows:
            for c, v, _ in r.facts:
                ints_in(c, out)
            ints_in(r.value, out)
    vals = {k + d for k in out if above < k + 1 and k <= limit for d in (-1, 0, 1)} | {k // 2 + d for k in out if 2 * above < k <= limit for d in (0, 1)}
    return sorted(x for x in vals if x > above)[:12]


def string_atom(pt, a, ixs):
    r = pt.strs.atom(a, pt, ixs) if a[0] == "ufn" else None
    return unknown_atom(a, ixs) if r is None else r


def unknown_atom(a, ixs):
    raise Undef("a number of which nothing is known")


def point(env):
    pt = T.Point(1)
    pt.strs = None
    pt.atom_fn = unknown_atom
    for k, v in env.items():
        if k == "$string":
            pt.strs = Strings(v)
            pt.atom_fn = lambda a, ixs: string_atom(pt, a, ixs)
            continue
        pt.env[("sym", k)] = Fraction(v) if not isinstance(v, Fraction) else v
    return pt


def fact(c, v, pt, ixs=None):
    """does the condition have the value v at the point? None: unknown.  Conditions about array contents are taken as met (they are
    assertions about computed numbers)"""
    if isinstance(c, Cond) and c.kind in ("allclose", "alleq"):
        return True
    free = sorted(free_ix(c), key=repr) if not ixs else []
    try:
        if free and pt.strs is not None and len(free) == 1 and (n := passes(c, free[0])) is not None:
            rs = [cond(c, pt, {free[0]: j}) for j in range(pt.int(n, {}))]
            return None if None in rs else all(bool(r) == bool(v) for r in rs)
        if free:        # stated for a generic pass of a loop
            rs = [cond(c, pt, {i: j for i in free}) for j in range(BIG)]
            return True if all(r is not None and bool(r) == bool(v) for r in rs) else None
        r = cond(c, pt, ixs or {})
    except (Undef, T.Undefined, T.Stuck):
        return None
    except Refuse:
        return False
    return r if r is None else bool(r) == bool(v)


def free_ix(c):
    if isinstance(c, Cond):
        if c.kind in ("forall", "exists", "member"):
            return set()
        out = set()
        for x in c.args:
            out |= free_ix(x)
        return out
    if isinstance(c, Sym):
        c = c.p
    if isinstance(c, Poly):
        out = set()
        for a in poly.walk_atoms(c):
            if poly.akind(a) == "ix":
                out.add(a)
            elif poly.akind(a) == "ufn":
                for x in a[1:]:
                    if isinstance(x, StrV):
                        out |= free_ix(x)
        return out
    if isinstance(c, StrV):
        out = set()
        for x in c.args:
            if isinstance(x, (StrV, Sym)):
                out |= free_ix(x)
        return out
    return set()


def cond(c, pt, ixs):
    if isinstance(c, bool):
        return c
    if isinstance(c, Sym):
        return num(c, pt, ixs) != 0
    k = c.kind
    if k == "cmp":
        op, p, q = c.args
        if any(poly.akind(a) == "sym" and "<" in str(a[1]) for z in (p, q) for a in poly.walk_atoms(P(z))):
            raise Undef("a number of solutions found numerically")
        x, y = pt.num(P(p) if not isinstance(p, Poly) else p, ixs), pt.num(P(q) if not isinstance(q, Poly) else q, ixs)
        return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
    if k in ("and", "or"):
        rs = []
        for x in c.args:
            try:
                rs.append(cond(x, pt, ixs))
            except (Undef, T.Undefined, T.Stuck):
                rs.append(None)
            except Refuse:
                if (k == "or") in rs:
                    break
                raise
        if k == "and":
            return False if False in rs else (None if None in rs else True)
        return True if True in rs else (None if None in rs else False)
    if k == "not":
        r = cond(c.args[0], pt, ixs)
        return None if r is None else not r
    if k in ("isint_val",):
        return pt.num(c.args[0], ixs).denominator == 1
    if k == "truth" and c.args and isinstance(c.args[0], Poly):
        return pt.num(c.args[0], ixs) != 0
    if k == "member":
        x = value(c.args[1], pt, ixs)
        return x in seq(list(c.args[2]), pt, ixs)
    if k in ("forall", "exists"):
        ix, n, items = c.args
        if n == "inf":
            raise Undef("infinite")
        n = pt.int(P(n) if not isinstance(n, Poly) else n, ixs)
        if n > 2000:
            raise Undef("long")
        rs = [cond(z, pt, {**ixs, ix: j}) for j in range(n) for z in items]
        if k == "forall":
            return False if False in rs else (None if None in rs else True)
        return True if True in rs else (None if None in rs else False)
    if getattr(pt, "strs", None) is not None:
        return pt.strs.cond(c, pt, ixs)
    raise Undef(k)


def passes(c, ix):
    """how often the loop with this index runs, when it goes through the parts or characters of a string"""
    out = []

    def go(v):
        if isinstance(v, Cond):
            for x in v.args:
                go(x)
        elif isinstance(v, (tuple, list)):
            for x in v:
                go(x)
        elif isinstance(v, Sym):
            go(v.p)
        elif isinstance(v, Poly):
            for a in poly.walk_atoms(v):
                if poly.akind(a) == "ufn":
                    for x in a[1:]:
                        if isinstance(x, (StrV, tuple)):
                            go(x)
        elif isinstance(v, StrV):
            if v.op == "part" and isinstance(v.args[3], Sym) and v.args[3].p == Poly.atom(ix):
                out.append(Poly.atom(("ufn", "nparts", v.args[0], v.args[1]) + tuple(v.args[2])))
            elif v.op == "index" and isinstance(v.args[1], Sym) and v.args[1].p == Poly.atom(ix):
                out.append(Poly.atom(("ufn", "strlen", v.args[0])))
            for x in v.args:
                go(x)
    go(c)
    return out[0] if out else None


def num(v, pt, ixs):
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    if isinstance(v, float):
        return Fraction(v)
    if isinstance(v, Sym):
        return pt.num(v.p, ixs)
    if isinstance(v, Poly):
        return pt.num(v, ixs)
    raise Undef(str(v))


def value(v, pt, ixs=None):
    ixs = ixs or {}
    if isinstance(v, (bool, int, float, Sym, Poly, Fraction)):
        return num(v, pt, ixs)
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, StrV) and getattr(pt, "strs", None) is not None:
        return pt.strs.str(v, pt, ixs)
    if isinstance(v, Cond):
        r = cond(v, pt, ixs)
        if r is None:
            raise Undef("condition")
        return r
    if isinstance(v, Obj):
        fs = tuple(sorted((k, value(x, pt, ixs)) for k, x in v.attrs.items() if isinstance(x, (bool, int, float, Sym, tuple, TupleSeg, str, Obj, PyList))))
        return (v.cls.name,) + fs
    if isinstance(v, (tuple, list)):
        return tuple(seq(list(v), pt, ixs))
    if isinstance(v, (PyList, TupleSeg)):
        if v.unknown is not None:
            raise Undef("unknown list")
        return tuple(seq(v.items, pt, ixs))
    if isinstance(v, ArrVal):
        return ("shape",) + tuple(pt.int(s, ixs) for s in v.node.shape)
    raise Undef(type(v).__name__)


def seq(items, pt, ixs):
    out = []
    for x in items:
        if isinstance(x, Seg):
            n = BIG if x.n is INF else pt.int(P(x.n) if not isinstance(x.n, Poly) else x.n, ixs)
            if n > 400:
                raise Undef("long")
            for j in range(n):
                out += seq(x.items, pt, {**ixs, x.ix: j})
        else:
            out.append(value(x, pt, ixs))
    return out


def truth(v, pt):
    r = value(v, pt)
    return bool(r)
