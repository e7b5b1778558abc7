"""The workload: every public operation, on every form of input, analysed once per form.  Each entry is a scenario builder
returning the list of results; the effect properties (C08, C10, C18, C19, ...) look at what happened on its paths."""
from . import poly
from . import tens as T
from .decide import Obl, Scenario
from .poly import P, N, sym, ZERO, ONE
from .seeds import pt
from .interp import own_all
from .v_values import form, own_X, dim_of, merge, D23, D22, L12
from .values import *
from . import summaries as SM

FORMS = ["G", "T", "M2", "g2", "R", "RQ", "P"]
SRC = "lie_nn/_src/"


def frm(c, kind, k, group=""):
    if kind == "P":
        return c.call(c.cls("group_product", "TabulatedIrrepProduct"), c.ir(k), c.ir("z" + k if k != "z" else "z"))
    r = form(c, kind, k, group)
    own_all(r, ("arg", k))
    return r


def arr(c, name, shape, cplx=True, owner=True):
    sh = tuple(pt(s) for s in shape)
    for s in sh:
        for a in poly.walk_atoms(s):
            if poly.akind(a) == "sym":
                c.I.know.lower[a] = max(0, c.I.know.lower.get(a, 0))
    v = ArrVal(T.leaf("in", name, sh, frozenset([f"in:{name}"]) if cplx else frozenset()))
    if owner:
        own_all(v, ("arg", name))
    return v


class W:
    """name, property anchor, build(c) -> list of results, partitions"""

    def __init__(self, name, anchor, build, parts=None, fallback=None, tags=(), **kw):
        self.name, self.anchor, self.build, self.parts, self.fallback, self.tags, self.kw = name, anchor, build, parts, fallback, frozenset(tags), kw


def parts_for(*kinds):
    return [{}] if not any(k in ("R", "RQ", "S", "SQ", "U", "UQ", "Z") for k in kinds) else [D23]


FB = [D23, merge(D23, L12)]


def unary():
    def ops(k):
        def op(mod, name, method=False):
            def b(c):
                a = frm(c, k, "a")
                if method:
                    return [c.meth(a, name)]
                return [c.call(c.fn(mod, name), a)]
            return b

        def attrs(c):
            a = frm(c, k, "a")
            return [c.attr(a, x) for x in ("A", "X", "H", "dim", "lie_dim")]

        def exp(c):
            a = frm(c, k, "a")
            cp = arr(c, "params", (N(c.model.L) + (N(sym("L2")) if k == "P" else 0),), cplx=False)
            n = own_n(c, a)
            ks = ArrVal(T.leaf("in", "powers", (n,), frozenset(), "i")) if False else arr(c, "powers", (n,), cplx=False)
            return [c.meth(a, "exp_map", cp, ks)]

        def cb(c):
            a = frm(c, k, "a")
            d = dim_of(c, a)
            return [c.call(c.fn("change_basis", "change_basis"), a, c.mat("P", d))]

        def ca(c):
            a = frm(c, k, "a")
            return [c.call(c.fn("change_algebra", "change_algebra"), a, c.mat("P", N(c.I.to_poly(c.attr(a, "lie_dim")))))]

        def fr(c):
            a = frm(c, k, "a")
            return [c.call(c.I.getattr(c.cls("rep", "GenericRep"), "from_rep"), a)]

        def fg(c):
            a = frm(c, k, "a")
            return [c.call(c.I.getattr(c.cls("rep", "GenericRep"), "from_generators"), c.attr(a, "X"), c.attr(a, "H"))]
        def fg0(c):
            a = frm(c, k, "a")
            return [c.call(c.I.getattr(c.cls("rep", "GenericRep"), "from_generators"), c.attr(a, "X"))]
        out = [("attributes", SRC + "rep.py in Rep", attrs),
               ("exp_map", SRC + "rep.py in Rep.exp_map", exp),
               ("is_trivial", SRC + "rep.py in Rep.is_trivial", op("", "is_trivial", True)),
               ("create_trivial", SRC + "rep.py in create_trivial", op("", "create_trivial", True)),
               ("__repr__", SRC + "rep.py in __repr__", op("", "__repr__", True)),
               ("check_algebra_vs_generators", SRC + "rep.py in Rep.check_algebra_vs_generators", op("", "check_algebra_vs_generators", True)),
               ("change_basis", SRC + "change_basis.py in change_basis", cb),
               ("change_algebra", SRC + "change_algebra.py in change_algebra", ca),
               ("from_rep", SRC + "rep.py in GenericRep.from_rep", fr),
               ("from_generators", SRC + "rep.py in GenericRep.from_generators", fg),
               ("from_generators without H", SRC + "rep.py in GenericRep.from_generators", fg0),
               ("conjugate", SRC + "conjugate.py in conjugate", op("conjugate", "conjugate")),
               ("reduce", SRC + "reduce.py in reduce", op("reduce", "reduce")),
               ("is_real", SRC + "real.py in is_real", op("real", "is_real")),
               ("make_explicitly_real", SRC + "real.py in make_explicitly_real", op("real", "make_explicitly_real")),
               ("is_unitary", SRC + "properties.py in is_unitary", op("properties", "is_unitary")),
               ("is_irreducible", SRC + "is_irreducible.py in is_irreducible", op("is_irreducible", "is_irreducible"))]
        return out
    res = []
    for k in FORMS:
        for name, anchor, b in ops(k):
            res.append(W(f"{name}({k})", anchor, b, parts_for(k), FB, tags={"unary", name, "form:" + k}))
    return res


def own_n(c, a):
    return N(c.H(a).shape[0])


def binary():
    res = []
    for ka in FORMS:
        for kb in FORMS:
            if (ka == "P") != (kb == "P"):
                continue

            def two(mod, name, ka=ka, kb=kb):
                def b(c):
                    return [c.call(c.fn(mod, name), frm(c, ka, "a"), frm(c, kb, "b"))]
                return b
            for mod, name in (("tensor_product", "tensor_product"), ("direct_sum", "direct_sum"), ("infer_change_of_basis", "infer_change_of_basis")):
                res.append(W(f"{name}({ka}, {kb})", f"{SRC}{mod}.py in {name}", two(mod, name), parts_for(ka, kb), FB, tags={"binary", name, "same group"}))

            def gp(c, ka=ka, kb=kb):
                return [c.call(c.fn("group_product", "group_product"), frm(c, ka, "a"), form(c, kb if kb != "P" else "T", "z", group="2"))]
            if kb in ("G", "T"):
                res.append(W(f"group_product({ka}, {kb})", f"{SRC}group_product.py in group_product", gp, parts_for(ka, kb), FB, tags={"binary", "group_product"}))
    for k in ("T", "P"):
        def mul(c, k=k):
            return [c.call(c.fn("lnsa_work", "mul"), frm(c, k, "a"), frm(c, k, "b"))]
        res.append(W(f"{k} * {k}", f"{SRC}irrep.py in TabulatedIrrep.__mul__", mul, tags={"binary", "mul"}))
    return res


def ternary():
    res = []
    for ks in ("GGG", "TTT", "GTT", "TTG", "GGT", "MMM", "RGT"):
        kk = [x.replace("M", "M2") for x in ks]

        def cg(c, kk=kk):
            return [c.call(c.fn("clebsch_gordan", "clebsch_gordan"), frm(c, kk[0], "a"), frm(c, kk[1], "b"), frm(c, kk[2], "f"))]

        def tri(c, kk=kk):
            return [c.call(c.fn("rep", "check_representation_triplet"), frm(c, kk[0], "a"), frm(c, kk[1], "b"), frm(c, kk[2], "f"))]
        res.append(W(f"clebsch_gordan({','.join(kk)})", f"{SRC}clebsch_gordan.py in clebsch_gordan", cg, parts_for(*kk), FB, tags={"ternary", "clebsch_gordan", "same group"}))
        res.append(W(f"check_representation_triplet({','.join(kk)})", f"{SRC}rep.py in check_representation_triplet", tri, parts_for(*kk), FB, tags={"ternary", "triplet", "same group"}))
    for ks in ("GGG", "TTT"):
        def gp3(c, ks=ks):
            return [c.call(c.fn("group_product", "group_product"), form(c, ks[0], "a"), form(c, ks[1], "z", group="2"), form(c, ks[2], "b"))]
        res.append(W(f"group_product({','.join(ks)})", f"{SRC}group_product.py in group_product", gp3, tags={"ternary", "group_product"}))
    for k in ("G", "T"):
        for n in range(4):
            def tp(c, k=k, n=n):
                return [c.call(c.fn("tensor_product", "tensor_power"), form(c, k, "a"), n)]
            res.append(W(f"tensor_power({k}, {n})", f"{SRC}tensor_product.py in tensor_power", tp, [{"dims": {"a": 2}}], tags={"tensor_power"}))

    def fi(c):
        lst = PyList([frm(c, "M2", "a"), (2, c.ir("b")), c.ir("c")])
        own_all(lst, ("arg", "mul_irreps"))
        Q = c.mat("Q", N(2 * c.model.dim("a") + 2 * c.model.dim("b") + c.model.dim("c")))
        return [c.call(c.I.getattr(c.cls("reduced_rep", "ReducedRep"), "from_irreps"), lst, Q)]
    res.append(W("ReducedRep.from_irreps", SRC + "reduced_rep.py in ReducedRep.from_irreps", fi, [D23], tags={"from_irreps", "same group"}))
    return res


def utils():
    res = []

    def u(name, build, **kw):
        res.append(W("util." + name, f"{SRC}util.py in {name.split('(')[0]}", build, tags={"util"} | kw.pop("tags", set()), **kw))

    def f(c, name, *a, **k):
        return [c.call(c.fn("util", name), *a, **k)]
    u("commutator", lambda c: f(c, "commutator", arr(c, "A", ("d", "d")), arr(c, "B", ("d", "d"))))
    u("kron", lambda c: f(c, "kron", arr(c, "A", ("p", "q")), arr(c, "B", ("r", "s")), arr(c, "C", ("t", "u"))))
    u("direct_sum", lambda c: f(c, "direct_sum", arr(c, "A", ("p", "q")), arr(c, "B", ("r", "s")), arr(c, "C", ("t", "u"))))
    u("direct_sum(one)", lambda c: f(c, "direct_sum", arr(c, "A", ("p", "q"))))
    u("direct_sum(stacks)", lambda c: f(c, "direct_sum", arr(c, "A", ("k", "p", "q")), arr(c, "B", ("k", "r", "s"))))
    u("block_diagonal", lambda c: f(c, "block_diagonal", PyList([arr(c, "A", ("k", "p", "q")), arr(c, "B", ("k", "r", "s"))])))
    u("gram_schmidt", lambda c: f(c, "gram_schmidt", arr(c, "A", ("m", "n"))))
    u("extend_basis(Q)", lambda c: f(c, "extend_basis", arr(c, "A", ("m", "n"))))
    u("extend_basis(E)", lambda c: f(c, "extend_basis", arr(c, "A", ("m", "n")), returns="E"))
    u("nullspace", lambda c: f(c, "nullspace", arr(c, "A", ("m", "n"))))
    u("sequential_nullspace", lambda c: f(c, "sequential_nullspace", PyList([arr(c, "A", ("m", "n")), arr(c, "B", ("p", "n"))]), 2))
    u("infer_change_of_basis", lambda c: f(c, "infer_change_of_basis", arr(c, "X1", ("k", "d", "d")), arr(c, "X2", ("k", "e", "e"))))
    u("infer_change_of_basis(matrices)", lambda c: f(c, "infer_change_of_basis", arr(c, "X1", ("d", "d")), arr(c, "X2", ("e", "e"))))
    u("basis_intersection", lambda c: f(c, "basis_intersection", arr(c, "B1", ("p", "d")), arr(c, "B2", ("q", "d"))))
    u("check_algebra_vs_generators", lambda c: f(c, "check_algebra_vs_generators", arr(c, "A", ("k", "k", "k")), arr(c, "X", ("k", "d", "d"))))
    u("infer_algebra_from_generators", lambda c: f(c, "infer_algebra_from_generators", arr(c, "X", ("k", "d", "d"))))
    u("unique_with_tol", lambda c: f(c, "unique_with_tol", arr(c, "a", ("n", "d")), tol=1e-6))
    u("eigenspaces", lambda c: f(c, "eigenspaces", arr(c, "val", ("n",)), arr(c, "vec", ("n", "n"))))
    u("decompose_rep_into_irreps", lambda c: f(c, "decompose_rep_into_irreps", arr(c, "X", ("k", "d", "d"))))
    u("is_irreducible", lambda c: f(c, "is_irreducible", arr(c, "X", ("k", "d", "d"))))
    u("regular_representation", lambda c: f(c, "regular_representation", arr(c, "table", ("n", "n"), cplx=False)))
    u("round_to_sqrt_rational", lambda c: f(c, "round_to_sqrt_rational", arr(c, "x", ("n", "m"))))
    u("round_to_sqrt_rational_sympy", lambda c: f(c, "round_to_sqrt_rational_sympy", arr(c, "x", ()), 4096))
    u("as_approx_integer_ratio", lambda c: f(c, "as_approx_integer_ratio", arr(c, "x", ("n",), cplx=False)))
    u("limit_denominator", lambda c: f(c, "limit_denominator", arr(c, "n", ("k",), cplx=False), arr(c, "d", ("k",), cplx=False), 100))
    u("vmap", lambda c: [c.call(c.call(c.fn("util", "vmap"), c.fn("util", "commutator")), arr(c, "A", ("k", "d", "d")), arr(c, "B", ("k", "d", "d")))])
    u("permutation_sign", lambda c: f(c, "permutation_sign", (1, 2, 0)))
    return res


def rtp():
    res = []
    anchor = SRC + "reduced_tensor_product.py in reduced_tensor_product_basis"

    def fm(c):
        return [c.call(c.fn("reduced_tensor_product", "reduced_tensor_product_basis"), "ij=ji", i=frm(c, "R", "a"))]

    def asym(c):
        return [c.call(c.fn("reduced_tensor_product", "reduced_tensor_product_basis"), "ijk=-jik", i=frm(c, "T", "a"), k=frm(c, "T", "b"))]

    def lst(kinds):
        def b(c):
            l = PyList([frm(c, k, x) for k, x in zip(kinds, "abef")])
            own_all(l, ("arg", "irreps_list"))
            return [c.call(c.fn("reduced_tensor_product", "reduced_tensor_product_basis"), l)]
        return b

    def symm(n):
        def b(c):
            return [c.call(c.fn("reduced_tensor_product", "reduced_symmetric_tensor_product_basis"), frm(c, "R", "a"), n)]
        return b
    DD = {"dims": {"a": 2, "b": 2, "c": 1, "e": 1, "f": 1}}
    res.append(W("reduced_tensor_product_basis(ij=ji)", anchor, fm, [DD], tags={"rtp"}, max_paths=24))
    res.append(W("reduced_tensor_product_basis(ijk=-jik)", anchor, asym, [DD], tags={"rtp"}, max_paths=24))
    for kinds in (["T", "T"], ["RQ", "R"], ["M2", "T", "T"], ["T"]):
        res.append(W(f"reduced_tensor_product_basis({','.join(kinds)})", anchor, lst(kinds), [DD], tags={"rtp"}))
    for n in (1, 2):
        res.append(W(f"reduced_symmetric_tensor_product_basis({n})", anchor, symm(n), [DD], tags={"rtp"}, max_paths=24))
    return res


FAMILIES = [("irreps.su2", "SU2", 1), ("irreps.su2_real", "SU2Real", 1), ("irreps.so3_real", "SO3", 1), ("irreps.o3_real", "O3", 2), ("irreps.z2", "Z2", 1),
            ("irreps.sl2c", "SL2C", 2), ("irreps.so13", "SO13", 2)]


def label(c, name, lo=0):
    s = sym(name)
    for a in poly.walk_atoms(s):
        c.I.know.lower[a] = lo
    return lift(s)


def irrep(c, mod, cls, nl, tag=""):
    if cls in ("SL2C", "SO13") and "regime" in c.part:
        # |l-k| in closed form: either l = k+s or k = l+1+s; same: l = k
        g = c.part["regime"].get(tag, "l") if isinstance(c.part["regime"], dict) else c.part["regime"]
        k, s = P(c.I.to_poly(label(c, "k" + tag))), P(c.I.to_poly(label(c, "s" + tag)))
        lo, hi = lift(N(k)), lift(N(k + (s * (2 if cls == "SO13" else 1) if g != "same" else 0) + (1 if g == "k" and cls == "SL2C" else 2 if g == "k" else 0)))
        return c.new(c.cls(mod, cls), *((lo, hi) if g == "k" else (hi, lo)))
    return c.new(c.cls(mod, cls), *[label(c, f"l{i}{tag}", -50 if cls in ("O3", "Z2") and i == nl - 1 else 0) for i in range(nl)])


def families():
    res = []
    for mod, cls, nl in FAMILIES:
        anchor = f"{SRC}{mod.replace('.', '/')}.py in {cls}"

        def one(meth, mod=mod, cls=cls, nl=nl):
            def b(c):
                r = irrep(c, mod, cls, nl)
                if meth in ("dim",):
                    return [c.attr(r, meth)]
                return [c.meth(r, meth)]
            return b
        for m in ("algebra", "continuous_generators", "discrete_generators", "dim", "create_trivial"):
            reg = [{"regime": g} for g in ("l", "k", "same")] if cls in ("SL2C", "SO13") and m == "continuous_generators" else None
            res.append(W(f"{cls}.{m}", anchor + "." + m, one(m), reg, tags={"family", m}))

        def mul(c, mod=mod, cls=cls, nl=nl):
            return [c.call(c.fn("lnsa_work", "mul"), irrep(c, mod, cls, nl, "a"), irrep(c, mod, cls, nl, "b"))]

        def lt(c, mod=mod, cls=cls, nl=nl):
            return [c.call(c.fn("lnsa_work", "lt"), irrep(c, mod, cls, nl, "a"), irrep(c, mod, cls, nl, "b"))]

        def cg(c, mod=mod, cls=cls, nl=nl):
            K = c.cls(mod, cls)
            return [c.call(c.I.getattr(K, "clebsch_gordan"), *[irrep(c, mod, cls, nl, t) for t in "abc"])]

        def fs(c, mod=mod, cls=cls):
            return [c.call(c.I.getattr(c.cls(mod, cls), "from_string"), StrV("in", ("s",)))]
        res.append(W(f"{cls} * {cls}", anchor + ".__mul__", mul, tags={"family", "mul"}))
        res.append(W(f"{cls} < {cls}", anchor + ".__lt__", lt, tags={"family", "lt"}))
        res.append(W(f"{cls}.clebsch_gordan", anchor + ".clebsch_gordan", cg, tags={"family", "cg"}))
        res.append(W(f"{cls}.from_string", anchor + ".from_string", fs, tags={"family", "from_string"}))
    for cls, S in (("SU2_", ("s+0", "0")), ("SU3", ("s+t", "t", "0"))):
        def S_(c, tag="", S=S):
            return tuple(label2(c, x, tag) for x in S)
        for m in ("algebra", "continuous_generators", "discrete_generators", "dim", "is_scalar", "create_trivial"):
            def b(c, cls=cls, m=m, S_=S_):
                r = c.new(c.cls("irreps.sun", cls), S_(c))
                return [c.attr(r, m)] if m == "dim" else [c.meth(r, m)]
            res.append(W(f"{cls}.{m}", f"{SRC}irreps/sun.py in SUN.{m}", b, tags={"family", m}))

        def mul(c, cls=cls, S_=S_):
            return [c.call(c.fn("lnsa_work", "mul"), c.new(c.cls("irreps.sun", cls), S_(c, "a")), c.new(c.cls("irreps.sun", cls), S_(c, "b")))]
        res.append(W(f"{cls} * {cls}", f"{SRC}irreps/sun.py in SUN.__mul__", mul, tags={"family", "mul"}))

        def cgs(c, cls=cls, S_=S_):
            K = c.cls("irreps.sun", cls)
            return [c.call(c.I.getattr(K, "clebsch_gordan"), *[c.new(K, S_(c, t)) for t in "abc"])]
        res.append(W(f"{cls}.clebsch_gordan", f"{SRC}irreps/sun.py in SUN.clebsch_gordan", cgs, tags={"family", "cg"}))
    for mod, cls in (("irreps.son", "SON"), ("irreps.spn", "SPN")):
        for m in ("discrete_generators", "dim", "is_scalar"):
            def b(c, cls=cls, m=m, mod=mod):
                r = c.new(c.cls(mod, cls), (label(c, "s"), label(c, "t")))
                return [c.attr(r, m)] if m == "dim" else [c.meth(r, m)]
            res.append(W(f"{cls}.{m}", f"{SRC}{mod.replace('.', '/')}.py in {cls}.{m}", b, tags={"family", m}))
    return res


def label2(c, x, tag):
    r = 0
    p = ZERO
    for t in x.split("+"):
        p = p + (P(int(t)) if t.isdigit() else P(c.I.to_poly(label(c, t + tag))))
    return lift(N(p))


def finite():
    res = []
    for cls in ("Sn_natural", "Sn_standard", "Sn_trivial"):
        for lo, n in ((1, 1), (1, 2), (3, "n"), ):
            if cls == "Sn_standard" and n == 1:
                continue

            def b(c, cls=cls, n=n, lo=lo):
                r = c.new(c.cls("finite", cls), n if isinstance(n, int) else label(c, "n", lo))
                return [c.attr(r, x) for x in ("A", "X", "H", "dim", "lie_dim")] + [c.meth(r, "create_trivial")]
            res.append(W(f"{cls}({n})", f"{SRC}finite.py in {cls}", b, tags={"finite"}))

    def ad(c):
        r = c.new(c.cls("irreps.son", "SON_adjoint"), label(c, "n", 3))
        return [c.attr(r, "X"), c.attr(r, "H")]
    res.append(W("SON_adjoint", SRC + "irreps/son.py in SON_adjoint", ad, tags={"finite"}))
    return res


def perms():
    res = []
    m = "discrete_groups.perm"

    def u(name, *args):
        def b(c):
            return [c.call(c.fn(m, name), *[a(c) if callable(a) else a for a in args])]
        res.append(W(f"perm.{name}", f"{SRC}discrete_groups/perm.py in {name}", b, tags={"perm"}))
    p = lambda x: (lambda c: tuple(label(c, f"{x}{i}") for i in range(3)))
    n = lambda c: label(c, "n", 1)

    def S(c):
        s = PySet([(0, 1, 2), (1, 2, 0)])
        own_all(s, ("arg", "subset"))
        return s
    u("is_perm", p("p"))
    u("identity", n)
    u("compose", (1, 2, 0), (0, 2, 1))
    u("inverse", (1, 2, 0))
    u("rand", 3)
    u("from_int", lambda c: label(c, "i"), 3)
    u("to_int", (1, 2, 0))
    u("group", 2)
    u("germinate", S)
    u("is_group", S)
    u("to_cycles", (1, 2, 0))
    u("sign", (1, 2, 0))
    return res


HELPERS = '''
def mul(a, b):
    return list(a * b)


def lt(a, b):
    return a < b


def eq(a, b):
    return a == b


def mul_dims(a, b):
    l = list(a * b)
    return [l, [x.dim for x in l], a.dim, b.dim]
'''


def work():
    return unary() + binary() + ternary() + utils() + rtp() + families() + finite() + perms()


def scenario(w, post, parts=None, **kw):
    """post(c, results) -> obligations; the results are kept on the interpreter for on_path"""
    def build(c):
        if "lnsa_work" not in c.I.prog.mods:
            c.I.prog.add("lnsa_work", HELPERS, "<operators>")
        r = w.build(c)
        c.I.result = r
        return post(c, r) if post else []
    k = {"summaries": {n: h for n, h in SM.client().items() if not (n.startswith(SM.U) and "util" in w.tags)}, "seconds": 20}
    k.update(w.kw)
    k.update(kw)
    return Scenario(w.name, build, w.anchor, parts=parts or w.parts, fallback=w.fallback, **k)


def probe(tier):
    return [scenario(w, None, raise_ok=lambda p: True) for w in work()]
