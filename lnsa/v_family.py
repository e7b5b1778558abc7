"""C13-C15, C22: the tabulated families as decision tables over their labels."""
import ast
import itertools
from fractions import Fraction

from . import poly
from . import table as TB
from . import tens as T
from . import summaries as SM
from .poly import P, N, sym
from .seeds import Ctx
from .table import table, point, value, Undef
from .values import *
from .v_work import label, SRC

BAD = (Undef, T.Undefined, T.Stuck)


class Family:
    """mod, class, label fields, valid(label values), grid of candidate values per field"""

    def __init__(self, mod, cls, fields, grids, valid, tup=False, name=None, order=None):
        self.mod, self.cls, self.fields, self.grids, self.valid_, self.tup = mod, cls, fields, grids, valid, tup
        self.name = name or cls

    def build(self, c, tag, lo=-50, float_=None):
        vs = []
        for f, g in zip(self.fields, self.grids):
            nm = f + tag
            s = sym(nm)
            if float_ == "half":       # x = h + 1/2 with an integer h
                h = sym("h" + tag)
                for a in poly.walk_atoms(h):
                    c.I.know.lower[a] = 0
                vs.append(Sym(N(h + P(Fraction(1, 2))), "float"))
                continue
            for a in poly.walk_atoms(s):
                c.I.know.lower[a] = -1 if f == "p" and lo == 0 else lo
            fl = float_ == f or any(isinstance(x, Fraction) and x.denominator > 1 for x in g)
            if float_ == f:
                for a in poly.walk_atoms(s):
                    c.I.know.kind[a] = "float"
            vs.append(Sym(s, "float") if fl else lift(s))
        args = [tuple(vs) + (0,)] if self.tup else vs
        return c.call(c.cls(self.mod, self.cls), *args)

    def env(self, v, tag):
        return {f + tag: x for f, x in zip(self.fields, v)}

    def labels(self, valid=True, tables=()):
        """the grid, and labels next to the constants which the tables compare with"""
        seen = set()
        for v in itertools.product(*self.grids):
            if not valid or self.valid_(*v):
                seen.add(v)
                yield v
        for i, (f, g) in enumerate(zip(self.fields, self.grids)):
            if f == "p" or not tables:
                continue
            for x in TB.landmarks(tables, int(max(g))):
                xs = [x] if not any(isinstance(y, Fraction) for y in g) else [Fraction(x), Fraction(2 * x + 1, 2)]
                for x in xs:
                    for rest in itertools.product(*[[x] if j == i else (h[:3] if f2 != "p" else h) + ([x, x - 1, x + 1] if f2 != "p" else [])
                                                    for j, (f2, h) in enumerate(zip(self.fields, self.grids))]):
                        if self.valid_(*rest) and rest not in seen:
                            seen.add(rest)
                            yield rest

    @property
    def path(self):
        return f"{SRC}{self.mod.replace('.', '/')}.py in {self.cls}"


def nn(*v):
    return all(x >= 0 for x in v)


R4, R3, PM = [0, 1, 2, 3, 4], [0, 1, 2, 3], [-1, 1]
HALF = [Fraction(x, 2) for x in range(0, 7)]
FAMS = [
    Family("irreps.su2", "SU2", ["j"], [R4 + [5, 6]], nn),
    Family("irreps.su2_real", "SU2Real", ["j"], [HALF], nn),
    Family("irreps.so3_real", "SO3", ["l"], [R4 + [5]], nn),
    Family("irreps.o3_real", "O3", ["l", "p"], [R4, PM], lambda l, p: l >= 0 and p in (1, -1)),
    Family("irreps.z2", "Z2", ["p"], [PM], lambda p: p in (1, -1)),
    Family("irreps.sl2c", "SL2C", ["l", "k"], [R3, R3], nn),
    Family("irreps.so13", "SO13", ["l", "k"], [R4, R4], lambda l, k: nn(l, k) and (l + k) % 2 == 0),
    Family("irreps.sun", "SU2_", ["s"], [R4], nn, tup=True),
    Family("irreps.sun", "SU3", ["s", "t"], [R4, R4], lambda s, t: s >= t >= 0, tup=True),
    Family("irreps.sun", "SU4", ["s", "t", "u"], [R3, R3, R3], lambda s, t, u: s >= t >= u >= 0, tup=True),
]
BYNAME = {f.cls: f for f in FAMS}


def deepen(tier):
    """larger labels in the thorough tier"""
    if tier == "thorough":
        for f in FAMS:
            top = {1: 9, 2: 6, 3: 4}[max(1, len([x for x in f.fields if x != "p"]))]
            f.grids = [g if g is PM else HALF + [Fraction(x, 2) for x in range(7, 12)] if g is HALF else list(range(top + 1)) for g in f.grids]


def note(rep, n, ok):
    rep.extra["rule_obligations"] = rep.extra.get("rule_obligations", 0) + n
    rep.extra["rule_obligations_discharged"] = rep.extra.get("rule_obligations_discharged", 0) + ok


def lab(v):
    return "(" + ", ".join(str(x) for x in v) + ")"


def attrs_of(v, fam):
    """label values of an irrep value produced by table.value"""
    d = dict(v[1:])
    if fam.tup:
        return tuple(d["S"])
    return tuple(d[f] for f in fam.fields)


# ---------------------------------------------------------------- C13
RULE13 = ("the list summarised from __mul__ and the case distinction summarised from clebsch_gordan agree: members are of the same class, "
          "dimensions add up to d1*d2, parities multiply, and there is a path exactly for the members")


def c13(tier):
    deepen(tier)
    out = []
    for nm in ("SU2", "SO3", "O3", "Z2", "SL2C", "SO13"):
        out.append(_named(f"{nm} * {nm}", lambda prog, rep, tier, nm=nm: c13_family(prog, rep, BYNAME[nm], tier)))
    out.append(_named("products of irreps of product groups", c13_product))
    return out


def _named(name, f):
    f.name = name
    return f


def c13_family(prog, rep, fam, tier):
    def mul(c):
        a, b = fam.build(c, "a", 0), fam.build(c, "b", 0)
        return c.call(c.fn("lnsa_work", "mul_dims"), a, b)
    tm = table(prog, rep, f"{fam.cls} * {fam.cls}", mul)

    def cg(c):
        K = c.cls(fam.mod, fam.cls)
        return c.call(c.I.getattr(K, "clebsch_gordan"), *[fam.build(c, t, 0) for t in "abc"])
    summ = {n: h for n, h in SM.client().items()}
    tc = table(prog, rep, f"{fam.cls}.clebsch_gordan", cg, summaries=summ) if fam.cls not in ("SO13",) else None
    where = fam.path + ".__mul__"
    n = ok = und = 0
    base = list(fam.labels())
    labels = list(fam.labels(tables=[tm] + ([tc] if tc else [])))
    near = set(labels[len(base):])
    for a in labels:
        for b in labels:
            env = {**fam.env(a, "a"), **fam.env(b, "b")}
            r = tm.at(env)
            n += 1
            try:
                if r is None:
                    raise Undef("no unique path")
                if r.kind == "raise":
                    rep.violate(where, RULE13, f"{fam.cls}{lab(a)} * {fam.cls}{lab(b)} raises {r.p.exc.name}: {r.p.exc.msg}", tm.name)
                    continue
                lst, dims, d1, d2 = value(r.value, point(env))
            except BAD as e:
                und += 1
                continue
            good = True
            text = f"{fam.cls}{lab(a)} * {fam.cls}{lab(b)} = {[lab(attrs_of(x, fam)) if isinstance(x, tuple) and x[0] == fam.cls else x for x in lst]}"
            if any(not isinstance(x, tuple) or x[0] != fam.cls for x in lst):
                rep.violate(where, RULE13, f"{text}: a member is not of class {fam.cls}", tm.name)
                good = False
            elif sum(dims) != d1 * d2:
                rep.violate(where, RULE13, f"{text}: dimensions add up to {sum(dims)} instead of {d1 * d2}", tm.name)
                good = False
            elif fam.cls == "SO13" and sorted(attrs_of(x, fam) for x in lst) != sorted(
                    (l, k) for l in range(abs(a[0] - b[0]), a[0] + b[0] + 1, 2) for k in range(abs(a[1] - b[1]), a[1] + b[1] + 1, 2)):
                # its coefficients are found numerically; the two spins are composed separately whichever of the two labels is whose
                rep.violate(where, RULE13, f"{text}: not the couplings of the first labels and of the second labels", tm.name)
                good = False
            elif "p" in fam.fields:
                i = fam.fields.index("p")
                for x in lst:
                    if attrs_of(x, fam)[i] != a[i] * b[i]:
                        rep.violate(where, RULE13, f"{text}: parity is not the product of the parities", tm.name)
                        good = False
                        break
            ok += good
            if not good or tc is None:
                continue
            members = {attrs_of(x, fam) for x in lst}
            if tier == "thorough" or near & {a, b}:
                cand = labels + sorted(members - set(labels))[:8]
            else:
                cand = labels
            for d in cand:
                env3 = {**env, **fam.env(d, "c")}
                n += 1
                r = tc.at(env3)
                try:
                    if r is None or r.kind != "return":
                        raise Undef("no unique path")
                    sh = value(r.value, point(env3))
                except BAD:
                    und += 1
                    continue
                if sh[0] == "shape" and len(sh) == 5 and (sh[1] > 0) != (tuple(d) in members):
                    rep.violate(fam.path + ".clebsch_gordan", RULE13,
                                f"{fam.cls}.clebsch_gordan for labels {lab(a)}, {lab(b)}, {lab(d)} has {sh[1]} paths but the third is "
                                f"{'' if tuple(d) in members else 'not '}listed in the product of the first two", tc.name)
                else:
                    ok += 1
    note(rep, n, ok)
    if und:
        rep.undecided.append(f"{fam.cls}: {und} of {n} label combinations undecided")


def c13_product(prog, rep, tier):
    """product irreps: pairs of members, in any order, of the products of the factors"""
    def mul(c):
        K = c.cls("group_product", "TabulatedIrrepProduct")
        F, G = BYNAME["O3"], BYNAME["SU2"]
        pa, pb = c.call(K, F.build(c, "a", 0), G.build(c, "aa", 0)), c.call(K, F.build(c, "b", 0), G.build(c, "bb", 0))
        return c.call(c.fn("lnsa_work", "mul_dims"), pa, pb)
    t = table(prog, rep, "O3 x SU2 irreps", mul)
    where = SRC + "group_product.py in TabulatedIrrepProduct.__mul__"
    n = ok = und = 0
    for la, pa, lb, pb, ja, jb in itertools.product([0, 1, 2], PM, [0, 1, 2], PM, [0, 1, 2], [0, 1, 3]):
        env = {"la": la, "pa": pa, "lb": lb, "pb": pb, "jaa": ja, "jbb": jb}
        n += 1
        r = t.at(env)
        try:
            if r is None:
                raise Undef("no unique path")
            if r.kind == "raise":
                rep.violate(where, RULE13, f"product of product irreps raises {r.p.exc.name}: {r.p.exc.msg}", t.name)
                continue
            lst, dims, d1, d2 = value(r.value, point(env))
            got = sorted((attrs_of(dict(x[1:])["rep1"], BYNAME["O3"]), attrs_of(dict(x[1:])["rep2"], BYNAME["SU2"])) for x in lst)
        except BAD:
            und += 1
            continue
        except (KeyError, AttributeError, TypeError):
            rep.violate(where, RULE13, "members of the product of two product irreps are not product irreps of the same groups", t.name)
            continue
        exp = sorted(((l, pa * pb), (j,)) for l in range(abs(la - lb), la + lb + 1) for j in range(abs(ja - jb), ja + jb + 1, 2))
        if got != exp or sum(dims) != d1 * d2:
            rep.violate(where, RULE13, f"(O3({la},{pa}) x SU2({ja})) * (O3({lb},{pb}) x SU2({jb})) lists {got} instead of {exp}", t.name)
        else:
            ok += 1
    note(rep, n, ok)
    if und:
        rep.undecided.append(f"product irreps: {und} of {n} label combinations undecided")


# ---------------------------------------------------------------- C14
RULE14 = ("'<' and '==' as summarised from the source are trichotomous and transitive on a label grid, and the summarised enumeration is strictly "
          "increasing, starts with the trivial irrep and meets every label of the grid exactly once")


def c14(tier):
    deepen(tier)
    out = [_named(f"order of {f.cls}", lambda prog, rep, tier, f=f: c14_family(prog, rep, f, tier)) for f in FAMS]
    out.append(_named("order of product irreps", c14_product))
    return out


def order_table(prog, rep, fam, build2, labels, env2, where, what):
    """relation['<'] over the labels, or None"""
    lt = table(prog, rep, f"{what} <", lambda c: c.call(c.fn("lnsa_work", "lt"), *build2(c)))
    eq = table(prog, rep, f"{what} ==", lambda c: c.call(c.fn("lnsa_work", "eq"), *build2(c)))
    rel, n, ok, und = {}, 0, 0, 0
    if fam is not None:
        base = set(fam.labels())
        labels = labels + [x for x in fam.labels(tables=[lt, eq]) if x not in base][:20]
    for a in labels:
        for b in labels:
            env = env2(a, b)
            out = []
            for t in (lt, eq):
                r = t.at(env)
                try:
                    if r is None:
                        raise Undef("no unique path")
                    if r.kind == "raise":
                        rep.violate(where, RULE14, f"comparing {what}{lab(a)} with {what}{lab(b)} raises {r.p.exc.name}: {r.p.exc.msg}", t.name)
                        return None
                    out.append(TB.truth(r.value, point(env)))
                except BAD:
                    out.append(None)
            rel[a, b] = out
    for a in labels:
        for b in labels:
            n += 1
            l, e, g = rel[a, b][0], rel[a, b][1], rel[b, a][0]
            if None in (l, e, g):
                und += 1
                continue
            if e != (a == b):
                rep.violate(where, RULE14, f"{what}{lab(a)} == {what}{lab(b)} is {e}", what)
            elif l + e + g != 1:
                rep.violate(where, RULE14, f"{what}{lab(a)} and {what}{lab(b)}: a<b is {bool(l)}, a==b is {bool(e)}, b<a is {bool(g)}", what)
            else:
                ok += 1
    if not rep.violations and not und:
        for a, b, c in itertools.product(labels, repeat=3):
            if rel[a, b][0] and rel[b, c][0] and not rel[a, c][0]:
                rep.violate(where, RULE14, f"not transitive: {lab(a)} < {lab(b)} < {lab(c)} but not {lab(a)} < {lab(c)}", what)
                break
        n += 1
        ok += not rep.violations
    note(rep, n, ok)
    if und:
        rep.undecided.append(f"order of {what}: {und} of {n} pairs undecided")
    return rel if not und else None


def c14_family(prog, rep, fam, tier):
    lo = 0
    labels = list(fam.labels())[:16 if tier != "thorough" else 60]
    rel = order_table(prog, rep, fam, lambda c: (fam.build(c, "a", lo), fam.build(c, "b", lo)), labels,
                      lambda a, b: {**fam.env(a, "a"), **fam.env(b, "b")}, fam.path + ".__lt__", fam.cls)
    where = fam.path + ".iterator"

    def it(c):
        items = c.I.iterate(c.call(c.I.getattr(c.cls(fam.mod, fam.cls), "iterator")))
        return PyList([], frozenset()) if items is None else PyList(list(items))
    t = table(prog, rep, f"{fam.cls}.iterator", it)
    n = 1
    if len(t.rows) != 1 or t.rows[0].kind != "return" or t.rows[0].value is None or getattr(t.rows[0].value, "unknown", None) is not None:
        # what is listed depends on how far the enumeration is: its beginning, element by element
        far = max([x.value for m in (prog.mods.get("lie_nn._src." + fam.mod),) if m is not None for x in ast.walk(m.tree)
                   if isinstance(x, ast.Constant) and type(x.value) is int and x.value < 400], default=0)     # past the labels named in the source
        prog.count_limit = max(40, far + 12) if len(fam.fields) == 1 and not fam.tup else max(8, min(far + 5, 24))
        try:
            t = table(prog, rep, f"beginning of {fam.cls}.iterator", it)
        finally:
            prog.count_limit = None
    try:
        r = t.at({})
        if r is None or r.kind == "stuck":
            raise Undef("no unique path")
        if r.kind == "raise":
            rep.violate(where, RULE14, f"enumeration of {fam.cls} raises {r.p.exc.name}: {r.p.exc.msg}", t.name)
            return
        lst = value(r.value, point({}))
        if any(isinstance(x, tuple) and x[0] != fam.cls or x is None for x in lst):
            x = next(x for x in lst if x is None or isinstance(x, tuple) and x[0] != fam.cls)
            rep.violate(where, RULE14, f"enumeration of {fam.cls}: it lists {x[0] + ' irreps' if x else None}", t.name)
            return
        lst = [attrs_of(x, fam) for x in lst]
    except BAD as e:
        rep.undecided.append(f"{fam.cls}.iterator: {e}")
        note(rep, 1, 0)
        return
    if fam.tup:
        lst = [x[:-1] for x in lst if x[-1] == 0]
    bad = None
    if len(set(lst)) != len(lst):
        d = next(x for x in lst if lst.count(x) > 1)
        bad = f"{lab(d)} is listed more than once"
    elif not all(fam.valid_(*x) for x in lst):
        bad = f"a label which names no irrep is listed: {lab(next(x for x in lst if not fam.valid_(*x)))}"
    elif not lst or not all(x == 0 or (f == 'p' and x == 1) for f, x in zip(fam.fields, lst[0])):
        bad = f"the first element is {lab(lst[0]) if lst else None}, not the trivial irrep"
    elif rel is not None:
        known = [x for x in lst if (x, x) in rel]
        for x, y in zip(known, known[1:]):
            if not rel[x, y][0]:
                bad = f"{lab(y)} comes after {lab(x)} but is not greater"
        missing = [x for x in labels if x not in lst]
        if missing and not bad:
            last = lst[-1]
            inside = [m for m in missing if any((y, m) in rel and rel[m, y][0] for y in lst)]
            if inside or fam.cls == "Z2":
                bad = f"{lab((inside or missing)[0])} is never listed"
    if bad:
        rep.violate(where, RULE14, f"enumeration of {fam.cls}: {bad}", t.name)
    note(rep, n, 0 if bad else 1)

    def triv(c):
        return c.call(c.I.getattr(c.cls(fam.mod, fam.cls), "create_trivial"))
    t = table(prog, rep, f"{fam.cls}.create_trivial", triv)
    try:
        r = t.at({})
        x = attrs_of(value(r.value, point({})), fam) if r is not None and r.kind == "return" else None
        if x is not None and not all(v == 0 or (f == 'p' and v == 1) for f, v in zip(fam.fields, x)):
            rep.violate(fam.path + ".create_trivial", RULE14, f"create_trivial of {fam.cls} is {lab(x)}", t.name)
    except BAD + (KeyError, TypeError) as e:
        rep.undecided.append(f"{fam.cls}.create_trivial: {e}")


def c14_product(prog, rep, tier):
    F, G = BYNAME["O3"], BYNAME["SU2"]

    def two(c):
        K = c.cls("group_product", "TabulatedIrrepProduct")
        return (c.call(K, F.build(c, "a", 0), G.build(c, "aa", 0)), c.call(K, F.build(c, "b", 0), G.build(c, "bb", 0)))
    labels = list(itertools.product([0, 1], PM, [0, 1, 2]))
    order_table(prog, rep, None, two, labels, lambda a, b: {"la": a[0], "pa": a[1], "jaa": a[2], "lb": b[0], "pb": b[1], "jbb": b[2]},
                SRC + "group_product.py in TabulatedIrrepProduct.__lt__", "product irreps ")


# ---------------------------------------------------------------- C15
RULE15 = "the paths of the constructor that return are exactly those of the labels that name an irrep"
NEG = [-2, -1, 0, 1, 2, 3]


def c15(tier):
    return [_named(f"constructor of {f.cls}", lambda prog, rep, tier, f=f: c15_family(prog, rep, f, tier)) for f in FAMS] + \
        [_named(f"constructor of {k} of {n} weights", lambda prog, rep, tier, k=k, n=n: c15_len(prog, rep, k, n)) for k in ("SU2_", "SU3", "SU4", "SUN") for n in range(0, 6)]


def c15_family(prog, rep, fam, tier):
    where = fam.path + ".__post_init__"
    n = ok = und = 0
    G = {"p": [-3, -2, -1, 0, 1, 2]}
    plain = Family(fam.mod, fam.cls, fam.fields, [G.get(f, NEG) for f in fam.fields], fam.valid_, fam.tup)
    cases = [(plain, None, [G.get(f, NEG) for f in fam.fields])]
    for i, f in enumerate(fam.fields):
        vals = [Fraction(-1, 2), Fraction(1, 2), Fraction(5, 2)] if fam.cls != "SU2Real" else [Fraction(k, 4) for k in range(-6, 9)]
        grids = [[0, 1] if h != "p" else PM for h in fam.fields]
        grids[i] = vals
        cases.append((plain, f, grids))
    for fm, fl, grids in cases:
        t = table(prog, rep, f"{fam.cls}({'integers' if fl is None else fl + ' not an integer'})", lambda c: fm.build(c, "", -50, fl))
        if fl is None:
            far = TB.landmarks([t], 3)
            grids = [g + [-x for x in far] + far for g in grids] if len(grids) < 3 else grids
        for v in itertools.product(*grids):
            if fam.cls == "SU2Real":
                good = v[0] >= 0 and (2 * Fraction(v[0])).denominator == 1
            else:
                good = all(Fraction(x).denominator == 1 for x in v) and fam.valid_(*v)
            n += 1
            r = t.at(fm.env(v, ""))
            if r is None or r.kind not in ("return", "raise"):
                und += 1
                continue
            if good and r.kind == "raise":
                rep.violate(where, RULE15, f"{fam.cls}{lab(v)} is rejected: {r.p.exc.name}: {r.p.exc.msg}", t.name)
            elif not good and r.kind == "return":
                rep.violate(where, RULE15, f"{fam.cls}{lab(v)} names no irrep but is accepted", t.name)
            else:
                ok += 1
    note(rep, n, ok)
    if und:
        rep.undecided.append(f"{fam.cls}: {und} of {n} labels undecided")


def c15_len(prog, rep, cls, m):
    """number of weights, order, last one 0"""
    want = {"SU2_": 2, "SU3": 3, "SU4": 4}.get(cls)
    where = f"{SRC}irreps/sun.py in {cls}.__post_init__"
    names = [f"w{i}" for i in range(m)]

    def b(c):
        return c.call(c.cls("irreps.sun", cls), tuple(label(c, x, -50) for x in names))
    t = table(prog, rep, f"{cls} of {m} weights", b)
    n = ok = und = 0
    g = [-1, 0, 1, 2] if m < 5 else [0, 1]
    for v in itertools.product(g, repeat=m):
        good = m > 0 and (want is None or m == want) and all(x >= y for x, y in zip(v, v[1:])) and v[-1] == 0
        n += 1
        r = t.at(dict(zip(names, v)))
        if r is None or r.kind not in ("return", "raise"):
            und += 1
        elif good and r.kind == "raise":
            rep.violate(where, RULE15, f"{cls}(({', '.join(map(str, v))})) is rejected: {r.p.exc.name}: {r.p.exc.msg}", t.name)
        elif not good and r.kind == "return":
            rep.violate(where, RULE15, f"{cls}(({', '.join(map(str, v))})) names no irrep but is accepted", t.name)
        else:
            ok += 1
    note(rep, n, ok)
    if und:
        rep.undecided.append(f"{cls} of {m} weights: {und} of {n} labels undecided")
