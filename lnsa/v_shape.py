"""C06: shapes of generators, algebra and dimensions; C07: shapes of Clebsch-Gordan arrays; C23: trivial representations."""
from fractions import Fraction

from . import poly
from . import tens as T
from . import summaries as SM
from . import v_work as W
from . import table as TB
from .decide import Obl, Scenario, size_only, wtext, definite_raise, ptext, ftext, make_points, adapt, holds
from .poly import P, N, sym, ZERO, ONE
from .values import *
from .v_effects import count, walk

NUMERIC = ("infer_change_of_basis", "nullspace", "gram_schmidt", "basis_intersection", "rounded", "irrep", "sqrtm")
from .v_values import form, merge, D23, L12, D22
from .v_work import frm, arr, SRC
from .v_struct import names_of, CL, EMPTY, DZ
from .v_family import FAMS, BYNAME, lab, note, _named

BAD = (TB.Undef, T.Undefined, T.Stuck)


def same_size(p, a, b):
    """True: equal on the whole path; False: (text) different at a point of the path; None: not known"""
    a, b = N(P(a)), N(P(b))
    r = poly.cmp("==", a, b)
    if r is True:
        return True, ""
    if r is False:
        return False, f"{a} instead of {b}"
    for pt in make_points(p.interp.prog.model, {}, 4):
        adapt(pt, p.facts, p.know.lower)
        p.interp.prog.model.sizes(pt)
        try:
            x, y = pt.num(a, {}), pt.num(b, {})
        except BAD:
            return None, ""
        if x != y:
            if all(holds(c, v, pt) is True for c, v, _ in p.facts):
                return False, f"{x} instead of {y} (in general {a} instead of {b})"
            return None, ""
    return None, ""


# ---------------------------------------------------------------- C06
RULE06 = ("the shapes the analysis derives for X, H and A of every representation are (L, d, d), (n, d, d) and (L, L, L) with d the value of dim "
          "and L the value of lie_dim")


def is_rep(v):
    return isinstance(v, Obj) and "Rep" in names_of(v.cls)


def reps_of(v, depth=0):
    if is_rep(v):
        return [v]
    out = []
    if depth < 3:
        for x in (v.items if isinstance(v, PyList) else v if isinstance(v, (tuple, list)) else ()):
            out += reps_of(x, depth + 1)
    return out


def read(c, r):
    """what the representation says about itself"""
    I = c.I
    I.reading = True
    out = {k: c.attr(r, k) for k in ("dim", "X", "H", "A", "lie_dim")}
    I.reading = False
    return out


def poly_of(v):
    if isinstance(v, bool):
        return None
    if isinstance(v, int):
        return P(v)
    if isinstance(v, Sym):
        return v.p
    if isinstance(v, float):
        return P(int(v)) if v == int(v) else None
    return None


def c06_check(rep, sc, p, part, items, RULE06=RULE06):
    for r, d in items:
        nm = r.cls.name
        dim, lie = poly_of(d["dim"]), poly_of(d["lie_dim"])
        L = None
        for k in ("A", "X", "H"):
            v = d[k]
            count(rep, "rule_obligations")
            if v is None or isinstance(v, (int, float, str, Obj)) and not isinstance(v, Sym):
                rep.violate(sc.anchor, RULE06, f"{sc.name} {ptext(part)}: {k} of the {nm} is no array but {type(v).__name__}" + ftext(p), sc.name)
                return
            if not isinstance(v, ArrVal):
                rep.undecided.append(f"{sc.name}: shape of {k} of the {nm} is not known")
                continue
            sh = v.node.shape
            if len(sh) != 3:
                rep.violate(sc.anchor, RULE06, f"{sc.name} {ptext(part)}: {k} of the {nm} has {len(sh)} axes" + ftext(p), sc.name)
                return
            if k == "A":
                L = sh[0]
                want = [("lie_dim", sh[0], lie), ("the first axis", sh[1], sh[0]), ("the first axis", sh[2], sh[0])]
            else:
                want = [("dim", sh[1], dim), ("dim", sh[2], dim)]
                if k == "X" and L is not None:
                    want.append(("the length of the algebra", sh[0], L))
            bad = False
            for what, x, y in want:
                if y is None:
                    rep.undecided.append(f"{sc.name}: {what} of the {nm} is not known")
                    bad = True
                    continue
                ok, text = same_size(p, x, y)
                if ok is False:
                    rep.violate(sc.anchor, RULE06, f"{sc.name} {ptext(part)}: {k} of the {nm} has shape ({', '.join(str(s) for s in sh)}) which disagrees with {what}: {text}" + ftext(p), sc.name)
                    return
                if ok is None:
                    rep.undecided.append(f"{sc.name} {ptext(part)}: shape of {k} of the {nm}: {x} against {y}"[:200])
                    bad = True
            if not bad:
                count(rep, "rule_obligations_discharged")


def c06_path(rep, sc, p, part):
    if p.kind == "raise" and getattr(p.interp, "reading", False) and definite_raise(p):
        rep.violate(wtext(p.exc.where) if p.exc.where else sc.anchor, RULE06, f"{sc.name} {ptext(part)}: reading the generators of the representation fails: {p.exc.name}: {p.exc.msg}" + ftext(p), sc.name)
        return
    if p.kind == "return":
        c06_check(rep, sc, p, part, getattr(p.interp, "items", []))


def c06_scenario(w, parts=None, **kw):
    def build(c):
        if "lnsa_work" not in c.I.prog.mods:
            c.I.prog.add("lnsa_work", W.HELPERS, "<operators>")
        c.I.items = []
        r = w.build(c)
        for x in reps_of(r):
            c.I.items.append((x, read(c, x)))
        return []
    k = {"summaries": CL(), "seconds": 20}
    k.update(w.kw)
    k.update(kw)
    return Scenario(w.name, build, w.anchor, parts=parts or w.parts, fallback=w.fallback, on_path=c06_path, raise_ok=lambda p: True, **k)


REPOPS = {"create_trivial", "change_basis", "change_algebra", "from_rep", "from_generators", "from_generators without H", "conjugate", "reduce", "make_explicitly_real"}


def c06(tier):
    out = []
    for k in ["G", "T", "M2", "M1", "M0", "g2", "g0", "R", "RQ", "S", "Z", "Y", "ZQ", "P", "UQ"]:
        def b(c, k=k):
            return [frm(c, k, "a")]
        for parts in ([{}] if k in "G T M2 M1 M0 g2 g0 P".split() else [D23]) + [merge(DZ, e) for e in EMPTY],:
            out.append(c06_scenario(W.W(f"representation {k}", SRC + ("reduced_rep.py in ReducedRep" if k[0] in "RSZU" else "reduced_rep.py in MulIrrep" if k[0] in "Mg" else "rep.py in GenericRep"), b), parts))
    for w in W.work():
        t = w.tags
        if ("unary" in t and t & REPOPS) or t & {"tensor_power", "from_irreps", "rtp"} or ("binary" in t and t & {"tensor_product", "direct_sum", "group_product"}) or \
                ("ternary" in t and "group_product" in t):
            out.append(c06_scenario(w))
            if "rtp" not in t:
                out.append(c06_scenario(w, [merge((w.parts or [{}])[0], e) for e in EMPTY]))
    for cls in ("Sn_natural", "Sn_standard", "Sn_trivial"):
        for lo, n in ((1, 1), (1, 2), (1, 3), (4, "n")):
            if cls == "Sn_standard" and n == 1:
                continue

            def b(c, cls=cls, n=n, lo=lo):
                r = c.new(c.cls("finite", cls), n if isinstance(n, int) else W.label(c, "n", lo))
                return [r, c.meth(r, "create_trivial")]
            out.append(c06_scenario(W.W(f"{cls}({n})", f"{SRC}finite.py in {cls}", b)))
    out += [_named(f"shapes of {f.cls}", lambda prog, rep, tier, f=f: c06_family(prog, rep, f, tier)) for f in FAMS]
    return out


def c06_family(prog, rep, fam, tier):
    """dimension, generators and algebra of a family as functions of the label"""
    where = fam.path
    regimes = [{"regime": g} for g in ("l", "k", "same")] if fam.cls in ("SL2C", "SO13") else [{}, {"half": True}] if fam.cls == "SU2Real" else [{}]
    tables = []
    for part in regimes:
        def b(c):
            r = W.irrep(c, fam.mod, fam.cls, 2) if c.part.get("regime") else fam.build(c, "", 0, "half" if c.part.get("half") else None)
            return PyList([c.attr(r, k) for k in ("dim", "X", "H", "A", "lie_dim")])
        tables.append((part, TB.table(prog, rep, f"{fam.cls} {ptext(part)}", b, part=part, summaries=SM.client())))
    n = ok = und = refined = 0
    for v in fam.labels(tables=[t for _, t in tables]):
        if fam.cls in ("SL2C", "SO13"):
            l, k = v
            g = "same" if l == k else "l" if l > k else "k"
            t = next(t for part, t in tables if part["regime"] == g)
            lo, hi = min(v), max(v)
            s = hi - lo
            env = {"k": lo, "s": s // 2 if fam.cls == "SO13" else s}
            if g == "k":
                env["s"] = (s - 2) // 2 if fam.cls == "SO13" else s - 1
        elif fam.cls == "SU2Real" and Fraction(v[0]).denominator == 2:
            t, env = tables[1][1], {"h": v[0] - Fraction(1, 2)}
        else:
            t, env = tables[0][1], fam.env(v, "")
        n += 1
        rows = t.possible(env)
        certain = len(rows) == 1 and rows[0][1]
        if not rows and t.complete:
            rep.violate(where, RULE06, f"the generators of {fam.cls}{lab(v)} cannot be read: an assertion excludes the label", t.name)
            continue
        res = [c06_row(r, env) for r, _ in rows if not (r.kind == "raise" and not certain)]
        bad = [x for x in res if x]
        if (None in res or not res) and fam.cls != "SU4" and not fam.tup and refined < 8:
            # not followed for symbolic labels: this label alone
            refined += 1
            t1 = TB.table(prog, rep, f"{fam.cls}{lab(v)}", lambda c: one_label(c, fam, v), summaries=SM.client(), seconds=5)
            rows = [(r, True) for r in t1.rows]
            certain = len(rows) == 1
            res = [c06_row(r, {}) for r, _ in rows]
            bad = [x for x in res if x]
        if None in res or not res or bad and not certain and len(bad) < len(res):
            und += 1
        elif bad:
            rep.violate(where, RULE06, f"{fam.cls}{lab(v)}: {bad[0]}", t.name)
        else:
            ok += 1
    note(rep, n, ok)
    if und:
        rep.undecided.append(f"{fam.cls}: {und} of {n} labels undecided")


def one_label(c, fam, v):
    vs = [int(x) if Fraction(x).denominator == 1 and not any(isinstance(y, Fraction) for y in g) else float(x) for x, g in zip(v, fam.grids)]
    r = c.new(c.cls(fam.mod, fam.cls), *vs)
    return PyList([c.attr(r, k) for k in ("dim", "X", "H", "A", "lie_dim")])


def c06_row(r, env):
    """'' when the shapes agree, otherwise what is wrong; None: not known"""
    if r.kind in ("stuck", "cut"):
        return None
    if r.kind == "raise":
        return f"its generators cannot be read: {r.p.exc.name}: {r.p.exc.msg}"
    try:
        dim, X, H, A, lie = TB.value(r.value, TB.point(env))
    except BAD:
        return None
    for k, a, want in (("A", A, (lie, lie, lie)), ("X", X, (lie, dim, dim)), ("H", H, (None, dim, dim))):
        if not (isinstance(a, tuple) and a[0] == "shape"):
            return f"{k} is no array"
        if len(a) != 4 or any(y is not None and x != y for x, y in zip(a[1:], want)):
            return f"{k} has shape ({', '.join(str(x) for x in a[1:])}) with dim {dim} and lie_dim {lie}"
    return ""


# ---------------------------------------------------------------- C07
RULE07 = "the shape the analysis derives for the Clebsch-Gordan array is (paths, d1, d2, d3) with the dimensions of the three representations in this order"


def c07_path(rep, sc, p, part):
    if p.kind == "raise" and definite_raise(p):
        rep.violate(wtext(p.exc.where) if p.exc.where else sc.anchor, RULE07, f"{sc.name} {ptext(part)}: {p.exc.name}: {p.exc.msg}" + ftext(p), sc.name)
        return
    if p.kind != "return":
        return
    for v, dims in getattr(p.interp, "items", []):
        count(rep, "rule_obligations")
        if isinstance(v, (Obj, int, str, type(None), tuple)) and not isinstance(v, Sym):
            rep.violate(sc.anchor, RULE07, f"{sc.name} {ptext(part)}: the result is no array but {type(v).__name__}" + ftext(p), sc.name)
            return
        if not isinstance(v, ArrVal):
            rep.undecided.append(f"{sc.name}: shape is not known")
            continue
        sh = v.node.shape
        if len(sh) != 4:
            rep.violate(sc.anchor, RULE07, f"{sc.name} {ptext(part)}: the array has {len(sh)} axes" + ftext(p), sc.name)
            return
        bad = False
        for i, d in enumerate(dims):
            ok, text = same_size(p, sh[i + 1], d)
            if ok is False:
                rep.violate(sc.anchor, RULE07, f"{sc.name} {ptext(part)}: the array has shape ({', '.join(str(s) for s in sh)}), axis {i + 1} is {text}" + ftext(p), sc.name)
                return
            if ok is None:
                bad = True
                rep.undecided.append(f"{sc.name} {ptext(part)}: axis {i + 1}: {sh[i + 1]} against {d}"[:200])
        if not bad:
            count(rep, "rule_obligations_discharged")


def c07(tier):
    out = []
    ks = ["G", "T", "M2", "R", "g2"] + (["RQ", "M0", "P"] if tier == "thorough" else ["M0", "P"])
    for a in ks:
        for b in ks:
            for f in ("G", "T", "M2", "R", "M0", "P"):
                if len({x == "P" for x in (a, b, f)}) > 1:
                    continue

                def bld(c, k=(a, b, f)):
                    rs = [form(c, x, l) if x != "P" else frm(c, x, l) for x, l in zip(k, "abb")]
                    if k[2] == "T" and k[:2] == ("T", "T"):
                        rs[2] = c.ir("f")
                    v = c.call(c.fn("clebsch_gordan", "clebsch_gordan"), *rs)
                    c.I.items = [(v, [N(c.I.to_poly(c.attr(r, "dim"))) for r in rs])]
                    return []
                DD = {"dims": {"a": 2, "b": 2, "c": 1, "e": 1, "f": 1}}
                for part in ([{}] if not {"R", "RQ"} & {a, b, f} and ("G" in (a, b) or "g2" in (a, b) or (a, b, f) == ("T", "T", "T")) else []) + [DD, merge(DD, {"L": 0, "n": 1}), merge(DD, {"L": 1, "n": 0})]:
                    fb = [] if part else [DD]
                    out.append(Scenario(f"clebsch_gordan({a}, {b}, {f})", bld, SRC + "clebsch_gordan.py in clebsch_gordan", parts=[part], on_path=c07_path, raise_ok=lambda p: True, seconds=15, summaries=CL(), fallback=fb))
    out += [_named(f"coefficients of {f.cls}", lambda prog, rep, tier, f=f: c07_family(prog, rep, f, tier)) for f in FAMS if not f.tup]
    out.append(_named("coefficients of product irreps", c07_product))
    return out


def c07_at(rep, t, env, dims, where, text):
    """1: right, 0: wrong (reported), None: undecided"""
    r = t.at(env)
    try:
        if r is None or r.kind in ("stuck", "cut"):
            raise TB.Undef("no unique path")
        if r.kind == "raise":
            rep.violate(where, RULE07, f"{text} raises {r.p.exc.name}: {r.p.exc.msg}", t.name)
            return 0
        sh, *ds = TB.value(r.value, TB.point(env))
    except BAD:
        return None
    if not (isinstance(sh, tuple) and sh and sh[0] == "shape"):
        rep.violate(where, RULE07, f"{text} is no array", t.name)
        return 0
    if len(sh) != 5 or list(sh[2:]) != [int(x) for x in ds]:
        rep.violate(where, RULE07, f"{text} has shape ({', '.join(str(x) for x in sh[1:])}) instead of (paths, {', '.join(str(int(x)) for x in ds)})", t.name)
        return 0
    return 1


def c07_family(prog, rep, fam, tier):
    def cg(c):
        K = c.cls(fam.mod, fam.cls)
        rs = [fam.build(c, t, 0) for t in "abc"]
        return PyList([c.call(c.I.getattr(K, "clebsch_gordan"), *rs)] + [c.attr(r, "dim") for r in rs])
    t = TB.table(prog, rep, f"{fam.cls}.clebsch_gordan", cg, summaries=SM.client())
    if not t.rows or all(r.kind == "stuck" for r in t.rows):
        return
    where = fam.path + ".clebsch_gordan"
    n = ok = und = 0
    labels = list(fam.labels())[:10 if tier != "thorough" else 20]
    base = set(fam.labels())
    labels += [x for x in fam.labels(tables=[t]) if x not in base][:8]
    for a in labels:
        for b in labels:
            for d in labels:
                n += 1
                r = c07_at(rep, t, {**fam.env(a, "a"), **fam.env(b, "b"), **fam.env(d, "c")}, None, where, f"{fam.cls}.clebsch_gordan for labels {lab(a)}, {lab(b)}, {lab(d)}")
                ok += r or 0
                und += r is None
    note(rep, n, ok)
    if und:
        rep.undecided.append(f"{fam.cls}.clebsch_gordan: {und} of {n} triples undecided")


def c07_product(prog, rep, tier):
    F, G = BYNAME["SO3"], BYNAME["SU2"]

    def cg(c):
        K = c.cls("group_product", "TabulatedIrrepProduct")
        rs = [c.call(K, F.build(c, t, 0), G.build(c, t + t, 0)) for t in "abc"]
        return PyList([c.call(c.fn("clebsch_gordan", "clebsch_gordan"), *rs)] + [c.attr(r, "dim") for r in rs])
    t = TB.table(prog, rep, "SO3 x SU2 coefficients", cg, summaries=SM.client())
    n = ok = und = 0
    import itertools
    for la, lb, lc, ja, jb, jc in itertools.product([0, 1, 2], [0, 1], [0, 1, 2], [0, 1], [1, 2], [0, 1, 3]):
        n += 1
        r = c07_at(rep, t, {"la": la, "lb": lb, "lc": lc, "jaa": ja, "jbb": jb, "jcc": jc}, None, SRC + "group_product.py in TabulatedIrrepProduct.clebsch_gordan",
                   f"clebsch_gordan of SO3({la})xSU2({ja}), SO3({lb})xSU2({jb}), SO3({lc})xSU2({jc})")
        ok += r or 0
        und += r is None
    note(rep, n, ok)
    if und:
        rep.undecided.append(f"product irreps: {und} of {n} triples undecided")


# ---------------------------------------------------------------- C23
RULE23 = ("create_trivial returns, on every path, a representation with the algebra of its argument and the same numbers of generators, which is "
          "one-dimensional, X = 0 and H = 1 (value numbers compared by random interpretation)")


def triv_obls(c, a, r, L, n, A, what):
    """obligations on r = create_trivial(a)"""
    if not is_rep(r):
        return [Obl(f"{what}.create_trivial()", ok=False, detail=f"is no representation but {type(r).__name__}")]
    x, h = c.X(r), c.H(r)
    if any(z.op == "ufn" and str(z.args[0]).split(".")[0] in NUMERIC for z in walk([x, h])):
        # found by numerical linear algebra: only the shapes are known
        ok = all(len(z.shape) == 3 and poly.cmp("==", z.shape[0], m) is not False and all(poly.cmp("==", q, 1) is not False for q in z.shape[1:]) for z, m in ((x, N(L)), (h, N(n))))
        return [Obl("shape of the generators of the trivial representation", ok=ok, detail="is not (L, 1, 1)"), Obl("A of the trivial representation", c.A(r), A)]
    out = [Obl("X of the trivial representation", x, T.const(0, (N(L), ONE, ONE)) if len(x.shape) == 3 else T.const(0, (ONE,))),
           Obl("H of the trivial representation", h, T.const(1, (N(n), ONE, ONE))),
           Obl("A of the trivial representation", c.A(r), A)]
    d = poly_of(c.attr(r, "dim"))
    eq = None if d is None else poly.cmp("==", N(d), 1)
    out.append(Obl("dim of the trivial representation", ok=eq, detail=f"is {d} instead of 1"))
    return out


def c23(tier):
    out = []
    for k in ["G", "T", "M2", "M1", "M3", "M0", "g2", "g0", "R", "RQ", "S", "SQ", "Z", "Y", "W", "ZQ", "U", "UQ", "P"]:
        def b(c, k=k):
            a = frm(c, k, "a")
            A, L = c.A(a), N(c.A(a).shape[0])
            n = N(c.model.n) if k != "P" else N(P(c.model.n) + P(sym("n2")))
            return triv_obls(c, a, c.meth(a, "create_trivial"), L, n, A, k)
        parts = ([{}] if k[0] in "GTMgP" else [D23]) + [merge(DZ, e) for e in EMPTY]
        out.append(Scenario(f"create_trivial of {k}", b, SRC + {"G": "rep.py in GenericRep", "T": "irrep.py in TabulatedIrrep", "P": "group_product.py in TabulatedIrrepProduct"}.get(
            k[0], "reduced_rep.py in " + ("MulIrrep" if k[0] in "Mg" else "ReducedRep")) + ".create_trivial", parts=parts, rule=RULE23, summaries=CL(), raise_ok=lambda p: not definite_raise(p), fallback=W.FB))
    for f in FAMS:
        def b(c, f=f):
            try:
                a = f.build(c, "", 0)
            except PyRaise:
                raise PathCut()
            r = c.meth(a, "create_trivial")
            same = isinstance(r, Obj) and r.cls is a.cls
            if f.tup:
                A = None
            else:
                A = c.A(a)
            o = [Obl("class of the trivial representation", ok=bool(same) or (None if isinstance(r, Obj) and r.cls.name == "GenericRep" else False), detail=f"{r.cls.name if isinstance(r, Obj) else r!r} instead of {a.cls.name}"[:80])]
            if f.tup:       # the algebra is computed from ladder matrices the analysis does not follow
                w = r.attrs.get("S") if isinstance(r, Obj) else None
                zero = all(poly_of(x) is not None and poly.cmp("==", N(poly_of(x)), 0) is True for x in w) if isinstance(w, tuple) else None
                return o + [Obl("weights of the trivial representation", ok=zero, detail=f"are {w}")]
            n = N(c.H(a).shape[0])
            return o + triv_obls(c, a, r, N(A.shape[0]), n, A, f.cls)
        out.append(Scenario(f"create_trivial of {f.cls}", b, f.path + ".create_trivial", rule=RULE23, summaries=CL(), raise_ok=lambda p: not definite_raise(p)))
    for cls in ("Sn_natural", "Sn_standard", "Sn_trivial"):
        for n in ((1, 2, 3, "n") if cls != "Sn_standard" else (2, 3, "n")):
            def b(c, cls=cls, n=n):
                a = c.new(c.cls("finite", cls), n if isinstance(n, int) else W.label(c, "n", 4))
                return triv_obls(c, a, c.meth(a, "create_trivial"), N(c.A(a).shape[0]), N(c.H(a).shape[0]), c.A(a), cls)
            out.append(Scenario(f"create_trivial of {cls}({n})", b, SRC + f"finite.py in {cls}.create_trivial", rule=RULE23, summaries=CL(), raise_ok=lambda p: not definite_raise(p)))
    from .v_gate import is_trivial
    return out + is_trivial(RULE23)
