"""C11: refusal of different groups; C12: dispatch and kept structure; C19: degenerate counts; C22: interfaces; C23: trivial representations;
C06, C07: shapes."""
import itertools

import numpy as np

from . import poly
from . import tens as T
from . import summaries as SM
from . import v_work as W
from .decide import Obl, Scenario, size_only, wtext, definite_raise, ptext, ftext
from .poly import P, N, sym, ZERO
from .seeds import pt
from .values import *
from .v_effects import walk, subs, count, result_nodes
from .v_values import form, dim_of, D23, merge
from .v_work import frm, arr, SRC, FORMS, irrep, FAMILIES

# ---------------------------------------------------------------- C11
RULE11 = ("every path that combines two representations and returns normally has compared their algebras (a condition relating the two arrays, or "
          "their shapes, holds on it); with algebras of different dimension, or different numbers of discrete generators, no path returns")


def leaves(x, names=("A",)):
    return {n.args[1] for n in walk(subs(x)) if n.op == "leaf" and n.args[0] in names}


def relates(cond, v, one, two):
    """the condition, with its truth value, may establish that the two algebras agree"""
    if not isinstance(cond, Cond):
        return False
    k = cond.kind
    if k == "loose":
        return False
    if k in ("and", "or"):
        if (k == "and") == bool(v):
            return any(relates(x, v, one, two) for x in cond.args if isinstance(x, Cond))
        return all(relates(x, v, one, two) for x in cond.args if isinstance(x, Cond))
    if k == "not":
        return relates(cond.args[0], not v, one, two)
    if k in ("allclose", "alleq"):
        if not v:
            return False
        if len(cond.args) == 2 and cond.args[0] is cond.args[1]:
            return False
    ls = leaves(cond)
    if one in ls and two in ls:
        return True
    d = cond.deps
    return any(t in d for t in (f"A:{one}",)) and any(t in d for t in (f"A:{two}",))


def c11_path(names, shapes=False):
    def on_path(rep, sc, p, part):
        count(rep, "rule_obligations")
        if p.kind == "return":
            if part.get("differ"):
                rep.violate(sc.anchor, RULE11, f"{sc.name} {ptext(part)}: representations of different groups ({part['differ']}) are combined" + ftext(p), sc.name)
                return
            for one, two in names:
                if poly.cmp("==", N(p.interp.prog.model.L), 0) is True:
                    continue        # there is only one algebra of dimension 0
                if not any(relates(c, v, one, two) for c, v, _ in p.facts):
                    rep.violate(sc.anchor, RULE11, f"{sc.name} {ptext({k: v for k, v in part.items() if k != 'dims'})}: returns without comparing the algebras of the two representations" + ftext(p), sc.name)
                    return
                bad = unequal(rep, sc, p, part, one, two)
                if bad:
                    rep.violate(sc.anchor, RULE11, f"{sc.name} {ptext({k: v for k, v in part.items() if k != 'dims'})}: the comparison of the algebras accepts {bad}" + ftext(p), sc.name)
                    return
        count(rep, "rule_obligations_discharged")
    return on_path


def unequal(rep, sc, p, part, one, two):
    """two different algebras for which all conditions on the path that mention them hold"""
    from . import v_gate as G
    facts = [(c, v) for c, v, _ in p.facts if isinstance(c, Cond) and {one, two} & leaves(c)]
    if not facts:
        return None
    model = p.interp.prog.model
    l = None
    try:
        pt = G.points(sc, p, part, model, {})[0]
        l = pt.int(P(model.L), {})
    except (T.Undefined, T.Singular, T.Stuck, ValueError, KeyError):
        return None
    if not 0 < l <= 4:
        return None
    for what, a, b in pairs(l):
        try:
            pt = G.points(sc, p, part, model, {("A", one): a, ("A", two): b})[0]
            got = [G.fact_at(c, v, pt) for c, v in facts]
        except (T.Undefined, T.Singular, T.Stuck, ValueError):
            continue
        if all(g is True for g in got):
            return what
    return None


def pairs(l):
    """pairs of unequal algebras"""
    from . import v_gate as G
    sh = (l, l, l)
    for cplx in (False, True):
        a = G.rnd(["alg", l], sh, cplx)
        yield "a = -b", a, T.c_norm(-a.re % T.PRIME, -a.imz() % T.PRIME)
        yield "a = 2 b", a, T.c_norm(2 * a.re % T.PRIME, 2 * a.imz() % T.PRIME)
        yield "a = 0", T.C(np.zeros(sh, dtype=np.int64)), a
        yield "b = 0", a, T.C(np.zeros(sh, dtype=np.int64))
        if cplx:
            yield "a = conjugate(b)", a, T.c_norm(a.re, -a.imz() % T.PRIME)
            yield "equal real parts", a, T.c_norm(a.re, (a.imz() + 1) % T.PRIME)
        for i, j, k in np.ndindex(*sh):
            b = a.re.copy()
            b[i, j, k] = (b[i, j, k] + 1) % T.PRIME
            yield f"algebras that differ in the entry [{i}, {j}, {k}]", a, T.c_norm(b, a.imz())
        if l > 1:
            for ax in itertools.permutations(range(3)):
                if ax != (0, 1, 2):
                    yield f"algebras with their axes in the order {ax}", a, T.c_norm(a.re.transpose(ax), a.imz().transpose(ax))
            for ax in range(3):
                r = np.roll(np.arange(l), 1)
                yield f"algebras with axis {ax} permuted", a, T.c_norm(np.take(a.re, r, ax), np.take(a.imz(), r, ax))
                b = a.re.copy()
                m, n = [np.take(b, i, ax) for i in (0, 1)]
                sl = [slice(None)] * 3
                sl[ax] = 0
                b[tuple(sl)] = (m + 1) % T.PRIME
                sl[ax] = 1
                b[tuple(sl)] = (n - 1) % T.PRIME
                yield f"algebras whose sums over axis {ax} are equal", a, T.c_norm(b, a.imz())


DIFF = [("L", 1, 2), ("L", 2, 1), ("L", 0, 1), ("L", 1, 0), ("L", 3, 1)]
DY = {"dims": {"a": 2, "c": 1, "y": 2, "yy": 1, "b": 2, "e": 1}}


def c11_parts(kinds, disc=False):
    base = DY if any(k in ("R", "RQ", "S") for k in kinds) else {}
    base = merge(base) if base else {}
    out = [dict(base), merge(base, {"L": 2, "n": 1, "L3": 2, "n3": 1})]
    for what, x, y in DIFF:
        out.append(merge(base, {"L": x, "n": 1, "L3": y, "n3": 1, "differ": f"Lie algebras of dimension {x} and {y}"}))
    if disc:
        for x, y in ((1, 2), (2, 1), (0, 1), (1, 0)):
            out.append(merge(base, {"L": "same", "n": x, "n3": y, "differ": f"{x} and {y} discrete generators"}))
    return out


def c11(tier):
    out = []
    kinds = ["G", "T", "M2", "g2", "R", "RQ"]
    for ka in kinds:
        for kb in kinds:
            for mod, name in (("tensor_product", "tensor_product"), ("direct_sum", "direct_sum"), ("infer_change_of_basis", "infer_change_of_basis")):
                def b(c, ka=ka, kb=kb, mod=mod, name=name):
                    x, y = form(c, ka, "a"), form(c, kb, "y", group="3")
                    return [c.call(c.fn(mod, name), x, y)]
                parts = c11_parts((ka, kb))
                sc = Scenario(f"{name}({ka}, {kb}) of different groups", post(b), f"{SRC}{mod}.py in {name}", parts=parts, on_path=c11_path([("A", "A3")]),
                              raise_ok=lambda p: True, seconds=20, summaries=CL())
                out.append(sc)
    for mod, name in (("tensor_product", "tensor_product"), ("direct_sum", "direct_sum")):
        def b(c, mod=mod, name=name):
            n, m = c.part["nn"]
            x = c.generic("a", n=n)
            y = c.generic("b", n=m)
            return [c.call(c.fn(mod, name), x, y)]
        parts = [{"nn": nn, "differ": f"{nn[0]} and {nn[1]} discrete generators"} for nn in ((1, 2), (2, 1), (0, 1), (1, 0), (0, 2))]
        out.append(Scenario(f"{name}(G, G) with different discrete generators", post(b), f"{SRC}{mod}.py in {name}", parts=parts, on_path=c11_path([]),
                            raise_ok=lambda p: True, seconds=20, summaries=CL()))
    for ks in ("GGG", "GTT", "TGT", "TTG", "GRG"):
        for pos in (1, 2):
            def b(c, ks=ks, pos=pos):
                let = ["a", "b", "f"]
                x = [form(c, k, "y" if i == pos else let[i], group="3" if i == pos else "") for i, k in enumerate(ks)]
                return [c.call(c.fn("clebsch_gordan", "clebsch_gordan"), *x)]
            out.append(Scenario(f"clebsch_gordan({','.join(ks)}), number {pos + 1} of another group", post(b), f"{SRC}clebsch_gordan.py in clebsch_gordan", parts=c11_parts(ks)[:1],
                                on_path=c11_path([("A", "A3")]), raise_ok=lambda p: True, seconds=20, summaries=CL()))
    for ks in ("TT", "MT", "TM", "tt", "GT", "TG", "MM"):
        def b(c, ks=ks):
            def item(k, l, g):
                if k == "t":
                    return (2, c.ir(l))
                return form(c, "M2" if k == "M" else k, l, g)
            l = PyList([item(ks[0], "a", ""), item(ks[1], "y", "3")])
            return [c.call(c.I.getattr(c.cls("reduced_rep", "ReducedRep"), "from_irreps"), l)]
        out.append(Scenario(f"ReducedRep.from_irreps({','.join(ks)}) of different groups", post(b), SRC + "reduced_rep.py in ReducedRep.from_irreps", parts=c11_parts(("R",)),
                            on_path=c11_path([("A", "A3")]), raise_ok=lambda p: True, seconds=20, summaries=CL()))

    def three(c):
        l = PyList([c.ir("a"), c.ir("c"), (1, c.ir("y"))])
        return [c.call(c.I.getattr(c.cls("reduced_rep", "ReducedRep"), "from_irreps"), l)]
    out.append(Scenario("ReducedRep.from_irreps, the third of another group", post(three), SRC + "reduced_rep.py in ReducedRep.from_irreps", parts=c11_parts(("R",)),
                        on_path=c11_path([("A", "A3")]), raise_ok=lambda p: True, seconds=20, summaries=CL()))
    # products of irreps of different families
    fams = [(m, k, n) for m, k, n in FAMILIES] + [("irreps.sun", "SU2_", ("s+0", "0")), ("irreps.sun", "SU3", ("s+t", "t", "0")), ("irreps.sun", "SU4", ("s+t", "t", "0", "0")),
                                                  ("group_product", "P", None)]

    def inst(c, f, tag):
        mod, k, nl = f
        if k == "P":
            return c.call(c.cls("group_product", "TabulatedIrrepProduct"), irrep(c, "irreps.su2", "SU2", 1, tag + "1"), irrep(c, "irreps.so3_real", "SO3", 1, tag + "2"))
        if isinstance(nl, tuple):
            return c.new(c.cls(mod, k), tuple(W.label2(c, x, tag) for x in nl))
        return irrep(c, mod, k, nl, tag)
    for i, f in enumerate(fams):
        for j, g in enumerate(fams):
            if i == j:
                continue

            def b(c, f=f, g=g):
                return [c.call(c.fn("lnsa_work", "mul"), inst(c, f, "a"), inst(c, g, "b"))]
            out.append(Scenario(f"{f[1]} * {g[1]}", post(b), f"{SRC}{f[0].replace('.', '/')}.py in {f[1]}.__mul__", parts=[{"regime": "same", "differ": f"{f[1]} and {g[1]}"}],
                                on_path=c11_path([]), raise_ok=lambda p: True, seconds=10, summaries=CL()))
    return out


def CL():
    return dict(SM.client())


def post(b):
    def build(c):
        if "lnsa_work" not in c.I.prog.mods:
            c.I.prog.add("lnsa_work", W.HELPERS, "<operators>")
        c.I.result = b(c)
        return []
    return build


# ---------------------------------------------------------------- C12
RULE12 = ("for every combination of forms the dispatch tables of the current source select exactly one most specific implementation, no path "
          "fails for a reason that is independent of the values of the arrays, and the class of the result and of the entries of its list of "
          "irreps is the one the property prescribes")
ANY = ("GenericRep", "ReducedRep", "MulIrrep", "SymIrrep", "TabulatedIrrepProduct")
KEEP = {"T": ("ReducedRep",), "M2": ("ReducedRep",), "M1": ("ReducedRep",), "R": ("ReducedRep",), "RQ": ("ReducedRep",), "P": ("ReducedRep",), "U": ("ReducedRep",), "Z": ("ReducedRep",)}


def classes_of(v):
    return [k.name for k in v.cls.mro] if isinstance(v, Obj) and hasattr(v.cls, "mro") else []


def tabulated(v):
    return isinstance(v, Obj) and ("TabulatedIrrep" in names_of(v.cls))


def names_of(cls):
    out, todo = [], [cls]
    while todo:
        c = todo.pop(0)
        out.append(c.name)
        todo += [b for b in c.bases if hasattr(b, "name")]
    return out


def wrong_irreps(r, irreps_tabulated):
    """why the list of irreps of a reduced representation is not one; None: it is, or is not known"""
    l = r.attrs.get("irreps")
    items = l.items if isinstance(l, PyList) else l if isinstance(l, tuple) else None
    if items is None:
        if isinstance(l, (Obj, ArrVal, StrV, str, int, type(None))) or isinstance(l, PyDict):
            return f"its irreps are a {type(l).__name__}"
        return None
    for m in items:
        if isinstance(m, Seg):
            continue
        if not isinstance(m, Obj):
            return f"it lists {m!r}"[:100] if isinstance(m, (tuple, int, str, type(None))) else None
        if m.cls.name != "MulIrrep":
            return f"it lists a {m.cls.name} instead of an irrep with multiplicity"
        x = m.attrs.get("rep")
        if isinstance(x, Obj) and irreps_tabulated and not tabulated(x):
            return f"it lists a {x.cls.name} where the inputs are made of tabulated irreps"
        if x is None or isinstance(m.attrs.get("mul"), (Obj, tuple, type(None))):
            return "an entry lacks its irrep or multiplicity"
    return None


def origin(cond, pat="irrep."):
    """which of the irreducible parts found numerically a condition is about, and whether it is about more than their sizes"""
    out, more = set(), False
    todo = [cond]
    while todo:
        c = todo.pop()
        if isinstance(c, bool):
            continue
        if c.kind in ("and", "or", "not"):
            todo += list(c.args)
            continue
        if c.kind == "cmp":
            for q in c.args[1:]:
                for a in poly.walk_atoms(P(q)):
                    if a in SM.SOLUTIONS:
                        more = True
                        out |= {n.args[0] for x in SM.SOLUTIONS[a] for n in walk([x]) if n.op == "ufn" and str(n.args[0]).startswith(pat)}
                    elif poly.akind(a) == "sym" and str(a[1]).startswith("irrep"):
                        out.add("irrep." + str(a[1])[5:].split("<")[0])
                    else:
                        for n in walk(subs(a)):
                            if n.op == "ufn" and str(n.args[0]).startswith(pat):
                                out.add(n.args[0])
                                more = True
        else:
            more = True
            out |= {n.args[0] for n in walk(subs(c)) if n.op == "ufn" and str(n.args[0]).startswith(pat)}
    return out, more


def apart(c, v):
    """the condition excludes that two sizes are equal"""
    if isinstance(c, Cond) and c.kind == "cmp":
        op = c.args[0]
        return op in ("<", ">", "!=") and v or op in ("<=", ">=", "==") and not v
    return False


def refused_sizes(p):
    """an assertion about sizes fails, whatever the values"""
    return p.exc.name == "AssertionError" and str(p.exc.msg).startswith("sizes ") and all(isinstance(c, bool) or size_only(c) or c.kind == "cmp" for c, v, _ in p.facts)


def c12_path(want, tab, valid=False):
    def on_path(rep, sc, p, part):
        count(rep, "rule_obligations")
        for kind, where, d in p.events:
            if kind == "ambiguous":
                rep.violate(wtext(where), RULE12, f"{sc.name}: several implementations of {d['name']} are most specific: {', '.join(d['impls'])}", sc.name)
                return
        if p.kind == "raise" and (definite_raise(p) or valid and refused_sizes(p)):
            rep.violate(wtext(p.exc.where) if p.exc.where else sc.anchor, RULE12, f"{sc.name} {ptext(part)}: {p.exc.name}: {p.exc.msg}" + ftext(p), sc.name)
            return
        if p.kind == "return" and p.interp.result:
            r = p.interp.result[0]
            if want and isinstance(r, Obj) and not set(names_of(r.cls)) & set(want):
                rep.violate(sc.anchor, RULE12, f"{sc.name} {ptext(part)}: the result is a {r.cls.name} instead of a {' or '.join(want)}" + ftext(p), sc.name)
                return
            if want and (r is None or isinstance(r, (int, str, ArrVal, PyList, PyDict, tuple))):
                rep.violate(sc.anchor, RULE12, f"{sc.name} {ptext(part)}: the result is no representation but a {type(r).__name__}" + ftext(p), sc.name)
                return
            if isinstance(r, Obj) and r.cls.name == "ReducedRep":
                w = wrong_irreps(r, tab)
                if w:
                    rep.violate(sc.anchor, RULE12, f"{sc.name} {ptext(part)}: the result is no reduced representation: {w}" + ftext(p), sc.name)
                    return
                if "reduce" in sc.name:
                    w = repeated(p, r)
                    if w:
                        rep.violate(sc.anchor, RULE12, f"{sc.name} {ptext(part)}: {w}" + ftext(p), sc.name)
                        return
        count(rep, "rule_obligations_discharged")
    return on_path


def repeated(p, r):
    """an irrep found several times must be listed once: two listed irreps have been told apart, an omitted one was found equivalent"""
    l = r.attrs.get("irreps")
    items = l.items if isinstance(l, PyList) else l if isinstance(l, tuple) else []
    listed = []
    for m in items:
        if not (isinstance(m, Obj) and m.cls.name == "MulIrrep"):
            return None
        ks = {n.args[0] for n in walk(result_nodes(m.attrs.get("rep"))) if n.op == "ufn" and str(n.args[0]).startswith("irrep.")}
        if len(ks) != 1:
            return None
        listed.append(next(iter(ks)))
    if not listed:
        return None
    facts = [(origin(c), c, v) for c, v, _ in p.facts]
    for i, a in enumerate(listed):
        for b in listed[:i]:
            if a == b:
                return "the same irrep is listed twice"
            if not any({a, b} <= o and (more or apart(c, v)) for (o, more), c, v in facts):
                return "two irreps found by the decomposition are listed separately although nothing established that they are not equivalent"
    for k in ("irrep.0", "irrep.1"):
        if k not in listed and not any(k in o and o & set(listed) and more for (o, more), c, v in facts):
            return "an irrep found by the decomposition is left out although nothing established that it is equivalent to a listed one"
    return None


def c12(tier):
    out = []
    forms = ["G", "T", "M2", "g2", "R", "RQ", "P"]
    import types

    def add(w, want, tab=False):
        # every representation of a form is a valid operand of these
        valid = w.name.split("(")[0] in ("reduce", "conjugate", "is_real", "make_explicitly_real", "is_unitary", "is_irreducible", "__repr__", "direct_sum", "tensor_product", "group_product", "tensor_power")
        out.append(W.scenario(w, None, on_path=c12_path(want, tab, valid), raise_ok=lambda p: True))
    for w in W.work():
        fs = [t[5:] for t in w.tags if t.startswith("form:")]
        if "unary" in w.tags:
            f = fs[0]
            nm = w.name.split("(")[0]
            if nm == "change_basis":
                add(w, ("GenericRep",) if f == "G" else KEEP.get(f), f != "g2")
            elif nm == "reduce":
                add(w, ("ReducedRep",), f in ("M2", "R", "RQ"))
                if f in ("G", "P", "T"):
                    for e in ({"L": 2, "n": 2}, {"L": 0, "n": 3}):      # several discrete generators
                        add(W.W(f"{w.name} with {e['L']} and {e['n']} generators", w.anchor, w.build, [merge(D23, e)]), ("ReducedRep",))
            elif nm in ("conjugate", "change_algebra", "from_rep"):
                add(w, ("GenericRep",) if f == "G" else ANY)
            else:
                add(w, None)
        elif "binary" in w.tags or "ternary" in w.tags:
            nm, args = w.name.split("(")[0], w.name[w.name.find("(") + 1:-1].replace(" ", "").split(",")
            if nm == "tensor_product":
                if "G" in args:
                    add(w, ("GenericRep",))
                elif "g2" in args:
                    add(w, ANY)
                else:
                    add(w, ("ReducedRep",), True)
            elif nm in ("direct_sum", "group_product"):
                add(w, ("GenericRep",) if "G" in args else ANY)
            else:
                add(w, None)
        elif w.tags & {"tensor_power", "from_irreps"}:
            add(w, ANY)
    # multiplicities zero, one and three; a single irrep
    for k in ("M0", "M1", "M3", "S", "U", "Z", "Y", "UQ", "g1"):
        for nm in ("reduce", "change_basis", "conjugate"):
            def un(c, k=k, nm=nm):
                a = form(c, k, "a")
                q = [c.mat("Q", dim_of(c, a))] if nm == "change_basis" else []
                return [c.call(c.fn(nm, nm), a, *q)]
            add(W.W(f"{nm}({k})", f"{SRC}{nm}.py in {nm}", un, [DZ, merge(DZ, {"L": 2, "n": 1})]), (("ReducedRep",) if nm != "conjugate" else ANY) if k != "g1" else ANY, k != "g1" and nm != "conjugate")
        for kb in ("T", "M1", "M2", "R"):
            for x, y in ((k, kb), (kb, k)):
                for nm in ("tensor_product", "direct_sum"):
                    def bi(c, x=x, y=y, nm=nm):
                        return [c.call(c.fn(nm, nm), form(c, x, "a"), form(c, y, "b"))]
                    add(W.W(f"{nm}({x}, {y})", f"{SRC}{nm}.py in {nm}", bi, [merge(DZ, {"L": 2, "n": 1})]), ("ReducedRep",) if nm == "tensor_product" and k != "g1" else ANY, nm == "tensor_product" and k != "g1")
    # Clebsch-Gordan coefficients of every combination of forms
    ff = ["G", "T", "M2", "R"]
    for a in ff:
        for b in ff:
            for f in ("G", "T", "M2"):
                if (a, b, f) in (("T", "T", "T"), ("G", "G", "G")):
                    continue

                def cg(c, k=(a, b, f)):
                    return [c.call(c.fn("clebsch_gordan", "clebsch_gordan"), *[frm(c, x, l) for x, l in zip(k, "abf")])]
                add(W.W(f"clebsch_gordan({a}, {b}, {f})", SRC + "clebsch_gordan.py in clebsch_gordan", cg, W.parts_for(a, b), W.FB), None)
    return out


# ---------------------------------------------------------------- C19
RULE19 = ("with no continuous generators, no discrete generators, neither, or multiplicity zero, no path of an operation, or of reading the representation "
          "it returns, fails for a reason that does not depend on the values of the arrays, and the arrays read have the shapes of a representation of the group")


def reading(post):
    """the representations returned are read, too"""
    from .v_shape import reps_of, read

    def after(c, r):
        c.I.items = [(x, read(c, x)) for x in reps_of(r)]
        return post(c, r) if post else []
    return after


def c19_path(rep, sc, p, part):
    count(rep, "rule_obligations")
    if p.kind == "raise" and definite_raise(p):
        rep.violate(wtext(p.exc.where) if p.exc.where else sc.anchor, RULE19,
                    f"{sc.name}" + ("" if sc.name.startswith("util.") else f" with {p.interp.prog.model.L} continuous and {p.interp.prog.model.n} discrete generators") + f": {p.exc.name}: {p.exc.msg}" + ftext(p), sc.name)
        return
    if p.kind == "return":
        from .v_shape import c06_check, same_size
        items = getattr(p.interp, "items", [])
        c06_check(rep, sc, p, part, items, RULE19)
        if sc.same_group:
            for r, d in items:
                for k, want in (("X", p.interp.prog.model.L), ("H", p.interp.prog.model.n)):
                    if isinstance(d[k], ArrVal) and len(d[k].node.shape) == 3:
                        ok, text = same_size(p, d[k].node.shape[0], want)
                        if ok is False:
                            rep.violate(sc.anchor, RULE19, f"{sc.name} {ptext(part)}: the result has {text} generators ({k})" + ftext(p), sc.name)
                            return
    count(rep, "rule_obligations_discharged")


EMPTY = [{"L": 0, "n": 1}, {"L": 2, "n": 0}, {"L": 0, "n": 0}]
DZ = {"dims": {"a": 2, "c": 1, "b": 2, "e": 1, "f": 2, "y": 2, "yy": 1}}


def c19(tier):
    out = []
    for w in W.work():
        if not w.tags & {"unary", "binary", "ternary", "tensor_power", "from_irreps", "rtp", "util"}:
            continue
        if "util" in w.tags:
            continue
        parts = [merge(b, e) for b in (w.parts or [{}])[:1] for e in EMPTY]
        out.append(W.scenario(w, reading(None), parts=parts, on_path=c19_path, raise_ok=lambda p: True))
    # multiplicity zero
    for k in ("M0", "Z", "ZQ", "g0"):
        one = [(w, m) for w, m in ONE if k != "M0" or w not in SKIP0]
        for name, mod in one:
            def b(c, name=name, mod=mod, k=k):
                return [run_one(c, form(c, k, "a"), name, mod)]
            out.append(W.scenario(W.W(f"{name}({k})", f"{SRC}{mod.replace('.', '/')}.py in {name}", b), reading(None), parts=[DZ, merge(DZ, {"L": 2, "n": 1})] + [merge(DZ, e) for e in EMPTY],
                                  on_path=c19_path, raise_ok=lambda p: True))
            out[-1].same_group = True
        for kb in ("G", "T", "M2", "R", "RQ", "M0", "Z"):
            for name in ("tensor_product", "direct_sum", "infer_change_of_basis"):
                for x, y in ((k, kb), (kb, k)):
                    def b(c, x=x, y=y, name=name):
                        return [c.call(c.fn(name, name), form(c, x, "a"), form(c, y, "b"))]
                    out.append(W.scenario(W.W(f"{name}({x}, {y})", f"{SRC}{name}.py in {name}", b), reading(None), parts=[merge(DZ, {"L": 2, "n": 1}), merge(DZ, {"L": 0, "n": 1})],
                                          on_path=c19_path, raise_ok=lambda p: True))
                    out[-1].same_group = True
    for ks in (("M0", "T", "T"), ("T", "M0", "G"), ("T", "T", "M0"), ("G", "G", "M0"), ("M0", "M0", "M0"), ("g0", "G", "T"), ("Z", "T", "M2")):
        def b(c, ks=ks):
            return [c.call(c.fn("clebsch_gordan", "clebsch_gordan"), *[form(c, k, l) for k, l in zip(ks, "abb")])]
        out.append(W.scenario(W.W(f"clebsch_gordan({', '.join(ks)})", SRC + "clebsch_gordan.py in clebsch_gordan", b), None, parts=[merge(DZ, {"L": 2, "n": 1}), merge(DZ, {"L": 0, "n": 1}), merge(DZ, {"L": 1, "n": 0})],
                              on_path=c19_path, raise_ok=lambda p: True))
    for ks in (("0a",), ("0a", "0b"), ("0a", "b"), ("a", "0b"), ("0a", "2b", "0a"), ()):
        def b(c, ks=ks):
            l = PyList([(int(k[0]), c.ir(k[1])) if k[0].isdigit() else c.ir(k) for k in ks])
            return [c.call(c.I.getattr(c.cls("reduced_rep", "ReducedRep"), "from_irreps"), l)]
        out.append(W.scenario(W.W(f"ReducedRep.from_irreps({', '.join(ks)})", SRC + "reduced_rep.py in ReducedRep.from_irreps", b), reading(None) if ks else None,
                              parts=[merge(DZ, {"L": 2, "n": 1}), merge(DZ, {"L": 0, "n": 1}), merge(DZ, {"L": 1, "n": 0})], on_path=c19_path, raise_ok=lambda p: True))
    # the numerical helpers themselves, on empty collections
    for name, args, kw in UTILS:
        def b(c, name=name, args=args, kw=kw):
            return [c.call(c.fn("util", name), *[arg19(c, i, a) for i, a in enumerate(args)], **kw)]
        out.append(W.scenario(W.W(f"util.{name}{args}{kw or ''}".replace("'", ""), f"{SRC}util.py in {name}", b, tags={"util"}), None, on_path=c19_path, raise_ok=lambda p: True))
    # finite groups and numbers of elements
    for w in W.work():
        if "finite" in w.tags:
            out.append(W.scenario(w, None, on_path=c19_path, raise_ok=lambda p: True))
    return out


# shapes; a list is a list of arrays
UTILS = [("infer_change_of_basis", ((0, "d", "d"), (0, "e", "e")), {}), ("infer_change_of_basis", (("k", 0, 0), ("k", "e", "e")), {}), ("infer_change_of_basis", (("k", "d", "d"), ("k", 0, 0)), {}),
         ("infer_change_of_basis", ((0, 0, 0), (0, 0, 0)), {}), ("infer_change_of_basis", ((2, 0, 0), (2, 0, 0)), {}),
         ("basis_intersection", ((0, "d"), ("q", "d")), {}), ("basis_intersection", (("p", "d"), (0, "d")), {}), ("basis_intersection", ((0, 3), (0, 3)), {}), ("basis_intersection", ((0, 2, 3), (2, 2, 3)), {}),
         ("gram_schmidt", ((0, "n"),), {}), ("gram_schmidt", ((0, 3),), {}), ("gram_schmidt", ((2, 0),), {}),
         ("extend_basis", ((0, 2),), {}), ("extend_basis", ((0, 2),), {"returns": "E"}), ("extend_basis", ((0, 0),), {}), ("extend_basis", ((0, 0),), {"returns": "E"}),
         ("nullspace", ((0, "n"),), {}), ("nullspace", ((0, 3),), {}), ("nullspace", (("m", 0),), {}),
         ("check_algebra_vs_generators", ((0, 0, 0), (0, "d", "d")), {}), ("check_algebra_vs_generators", (("k", "k", "k"), ("k", 0, 0)), {}),
         ("infer_algebra_from_generators", ((0, "d", "d"),), {}), ("infer_algebra_from_generators", ((0, 2, 2),), {}), ("infer_algebra_from_generators", ((2, 0, 0),), {}),
         ("is_irreducible", ((0, "d", "d"),), {}), ("is_irreducible", ((0, 1, 1),), {}), ("decompose_rep_into_irreps", ((0, 1, 1),), {}),
         ("block_diagonal", ([(0, "p", "p"), (0, "q", "q")],), {}), ("direct_sum", ((0, "p", "p"), (0, "q", "q")), {}), ("direct_sum", ((0, 0), ("p", "p")), {}),
         ("direct_sum", (("k", 0, 0), ("k", "q", "q")), {}), ("kron", ((0, 0), ("p", "p")), {}), ("commutator", ((0, 0), (0, 0)), {}), ("commutator", ((0, "d", "d"), (0, "d", "d")), {}),
         ("round_to_sqrt_rational", ((0, "n"),), {}), ("round_to_sqrt_rational", ((0,),), {}), ("sequential_nullspace", ([(0, "n")], 2), {})]


def arg19(c, i, a):
    if isinstance(a, list):
        return PyList([arg19(c, f"{i}.{j}", x) for j, x in enumerate(a)])
    return arr(c, f"arg{i}", a) if isinstance(a, tuple) else a


ONE = [("X", "rep"), ("H", "rep"), ("dim", "rep"), ("A", "rep"), ("is_trivial", "rep"), ("create_trivial", "rep"), ("__repr__", "rep"), ("check_algebra_vs_generators", "rep"),
       ("exp_map", "rep"), ("from_rep", "rep"), ("conjugate", "conjugate"), ("is_unitary", "properties"), ("reduce", "reduce"), ("change_basis", "change_basis")]
SKIP0 = ()


def run_one(c, a, name, mod):
    if name in ("X", "H", "dim", "A"):
        return c.attr(a, name)
    if name == "exp_map":
        n = N(c.H(a).shape[0])
        return c.meth(a, name, arr(c, "params", (N(c.model.L),), cplx=False), arr(c, "powers", (n,), cplx=False))
    if name == "from_rep":
        return c.call(c.I.getattr(c.cls("rep", "GenericRep"), "from_rep"), a)
    if name == "change_basis":
        return c.call(c.fn(mod, name), a, c.mat("P", W.dim_of(c, a)))
    if mod == "rep":
        return c.meth(a, name)
    return c.call(c.fn(mod, name), a)
