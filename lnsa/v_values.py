"""C01-C05: what the composite constructions compute, compared with their definitions."""
from . import poly
from . import tens as T
from .decide import Obl, Scenario, fill_q
from .poly import P, N, sym, ZERO, ONE
from .seeds import Ctx, pt
from .values import *

CP = frozenset(["c"])
TP = "lie_nn/_src/tensor_product.py in tensor_product"


# ---------------------------------------------------------------- input forms
def form(c, kind, k, group=""):
    """a representation in one of the forms; k: letter distinguishing the operand"""
    dims = c.part.get("dims", {})
    L, n = (c.part.get("L", "L"), c.part.get("n", "n")) if not group else ("L2", "n2") if group == "2" else (c.model.L3, c.model.n3)
    A = "A" + group
    if kind == "G":
        return c.generic(k, L=L, n=n, d=dims.get(k), A=A)
    if kind == "T":
        return c.ir(k)
    if kind.startswith("M"):
        return c.mulirrep(c.ir(k), int(kind[1:] or 2))
    if kind.startswith("g"):           # multiplicity of a generic representation
        return c.mulirrep(c.generic(k, L=L, n=n, d=dims.get(k), A=A), int(kind[1:] or 2))
    k2 = {"a": "c", "b": "e", "z": "z", "y": "yy"}[k]
    parts = [(1, k2), (2, k)] if k == "a" else [(2, k), (1, k2)]
    if kind.startswith("S"):
        parts = [(1, k2), (1, k)]
    if kind.startswith("Z"):
        parts = [(1, k), (0, k2), (1, k2)]
    if kind.startswith("Y"):
        parts = [(1, k2), (1, k), (0, k2)]
    if kind.startswith("W"):
        parts = [(0, k2), (1, k), (1, k2)]
    if kind.startswith("U"):
        parts = [(2, k)]
    irreps = [c.mulirrep(c.ir(l), m) for m, l in parts]
    Q = None
    if kind.endswith("Q"):
        d = sum((c.model.dim(l) * m for m, l in parts), ZERO)
        Q = c.mat("Q" + k, N(d))
    return c.reduced(irreps, Q, A=A, L=L, name=k)


def dim_of(c, rep):
    """dimension by definition, not through the analysed code where avoidable"""
    return N(c.I.to_poly(c.attr(rep, "dim")))


def tp_expected(xa, xb, da, db):
    L = xa.shape[0]
    if poly.cmp("==", L, 0) is True:
        return T.const(0, (ZERO, N(da * db), N(da * db)))
    e = T.add(T.einsum("aij,kl->aikjl", [xa, T.eye(db)]), T.einsum("aij,kl->akilj", [xb, T.eye(da)]))
    return T.reshape(e, [L, N(da * db), N(da * db)])


def tph_expected(ha, hb, da, db):
    n = ha.shape[0]
    if poly.cmp("==", n, 0) is True:
        return T.const(0, (ZERO, N(da * db), N(da * db)))
    return T.reshape(T.einsum("aij,akl->aikjl", [ha, hb]), [n, N(da * db), N(da * db)])


# ---------------------------------------------------------------- definitions of the inputs
def own_X(c, rep, which="X"):
    """generators of an input representation from its definition"""
    nm = rep.cls.name
    if nm == "GenericRep":
        return rep.attrs["_" + which].node
    if nm.startswith("SymIrrep"):
        k = rep.attrs["label"]
        d = c.model.dim(k)
        lead = c.model.lie(k) if which == "X" else c.model.disc(k)
        return T.leaf("sym" + which, k, (lead, d, d), frozenset([f"{which}:{k}"]) if c.model.cplx and not k.startswith("triv") else frozenset())
    if nm == "MulIrrep":
        x = own_X(c, rep.attrs["rep"], which)
        return blocks([x] * rep.attrs["mul"], x)
    if nm == "ReducedRep":
        rs = rep.attrs["irreps"]
        xs = [own_X(c, r, which) for r in (rs.items if isinstance(rs, PyList) else rs)]
        b = blocks(xs, xs[0])
        Q = rep.attrs["Q"]
        if Q is None:
            return b
        return conjQ(b, Q.node)
    raise T.Stuck("definition of " + nm)


def conjQ(x, q, qi=None):
    qi = T.inverse(q) if qi is None else qi
    return T.einsum("ij,ajk,kl->ail", [q, x, qi])


def blocks(xs, like):
    """(lead, sum d, sum d) array with the blocks xs on the diagonal"""
    lead = N(like.shape[0])
    d = N(sum((x.shape[1] for x in xs), ZERO))
    r = T.const(0, (lead, d, d), cplx=CP)
    i = ZERO
    for x in xs:
        m = N(x.shape[1])
        r = T.store(r, [T.Reg("full"), T.Reg("slice", i, m), T.Reg("slice", i, m)], x)
        i = N(i + m)
    return r


def lin(c, which):
    return "continuous generators X" if which == "X" else "discrete generators H"


def where_fn(c, f):
    return None


# ---------------------------------------------------------------- C01
def tp_build(ka, kb):
    def build(c):
        a, b = form(c, ka, "a"), form(c, kb, "b")
        xa, xb, ha, hb = own_X(c, a), own_X(c, b), own_X(c, a, "H"), own_X(c, b, "H")
        da, db = N(xa.shape[1]), N(xb.shape[1])
        r = fill_q(c, c.call(c.fn("tensor_product", "tensor_product"), a, b))
        return [Obl(f"X of tensor_product({ka}, {kb})", c.X(r), tp_expected(xa, xb, da, db)),
                Obl(f"H of tensor_product({ka}, {kb})", c.H(r), tph_expected(ha, hb, da, db)),
                Obl(f"algebra of tensor_product({ka}, {kb})", c.A(r), leafA(c))]
    return build


def leafA(c, name="A"):
    L = N(c.model.L)
    return T.leaf("A", name, (L, L, L), frozenset([f"A:{name}"]))


D23 = {"dims": {"a": 2, "b": 3, "c": 3, "e": 2}}
D22 = {"dims": {"a": 2, "b": 2, "c": 3, "e": 2}}
D32 = {"dims": {"a": 3, "b": 2, "c": 2, "e": 3}}
D12 = {"dims": {"a": 1, "b": 2, "c": 2, "e": 1}}
L12 = {"L": 2, "n": 1}


def merge(*ds):
    r = {}
    for d in ds:
        r.update(d)
    return r


RULE01 = "tensor_product acts by Xa⊗1 + 1⊗Xb and Ha⊗Hb"


def c01(tier):
    out = []
    forms = ["G", "T", "M2", "R", "RQ"]
    for ka in forms:
        for kb in forms:
            if "G" in (ka, kb):
                parts = [{}] if ka in "GT" and kb in "GT" else [D23]
            else:
                parts = [D23]
                if tier == "thorough" or (ka in "TM2" and kb in "TM2"):
                    parts = [D23, D22, D32] if len(ka + kb) < 5 else [D23, D22]
            out.append(Scenario(f"tensor_product {ka} x {kb}", tp_build(ka, kb), TP, parts=parts, rule=RULE01,
                                fallback=[merge(p, L12) for p in parts] + [merge(p, {"L": 1, "n": 2}) for p in parts]))
    extra = [("M3", "M2"), ("M1", "M3"), ("g2", "g3"), ("g2", "T"), ("T", "g2"), ("SQ", "SQ"), ("Z", "S"), ("UQ", "U"), ("Y", "T"), ("M2", "W")]
    if tier == "thorough":
        extra += [("M3", "RQ"), ("SQ", "M3"), ("ZQ", "ZQ"), ("U", "UQ"), ("M0", "M2"), ("M2", "M0")]
    for ka, kb in extra:
        out.append(Scenario(f"tensor_product {ka} x {kb}", tp_build(ka, kb), TP, parts=[D23] if "g" not in ka + kb else [D23], rule=RULE01,
                            raise_ok=(lambda p: True) if "0" in ka + kb else None))
    from .v_gate import near_identity
    out += near_identity()
    for n in range(0, 6 if tier == "thorough" else 5):
        for kind in ("G", "T"):
            if kind == "T" and n > 3:
                continue
            out.append(Scenario(f"tensor_power {kind}^{n}", power_build(kind, n), "lie_nn/_src/tensor_product.py in tensor_power",
                                parts=[{"dims": {"a": 2}, "sizes": {"L": 1, "n": 1}}], rule="tensor_power(a, n) multiplies exactly n factors"))
    return out


def power_build(kind, n):
    def build(c):
        a = form(c, kind, "a")
        x, h = own_X(c, a), own_X(c, a, "H")
        r = fill_q(c, c.call(c.fn("tensor_product", "tensor_power"), a, n))
        ex, eh, d = T.const(0, (x.shape[0], ONE, ONE)), T.const(1, (h.shape[0], ONE, ONE)), ONE
        for _ in range(n):
            d2 = N(x.shape[1])
            ex, eh, d = tp_expected(ex, x, d, d2), tph_expected(eh, h, d, d2), N(d * d2)
        return [Obl(f"X of tensor_power({kind}, {n})", c.X(r), ex), Obl(f"H of tensor_power({kind}, {n})", c.H(r), eh),
                Obl(f"algebra of tensor_power({kind}, {n})", c.A(r), leafA(c))]
    return build


# ---------------------------------------------------------------- C02
RULE02 = "one block per summand copy, in order, on X and H"


def c02(tier):
    out = []
    for kind in ("M0", "M1", "M2", "M3", "g0", "g1", "g2", "g3", "R", "S", "Z", "Y", "W", "U", "RQ", "SQ", "ZQ", "UQ"):
        out.append(Scenario(f"generators of form {kind}", rep_build(kind), "lie_nn/_src/reduced_rep.py", parts=[{}] if "Q" not in kind else [{}, D23],
                            fallback=[D23, merge(D23, L12)], rule=RULE02))
    forms = ["G", "T", "M2", "R", "RQ"]
    for ka in forms:
        for kb in forms:
            out.append(Scenario(f"direct_sum {ka} + {kb}", ds_build(ka, kb), "lie_nn/_src/direct_sum.py in direct_sum",
                                parts=[{}] if "Q" not in ka + kb else [D23], fallback=[D23, merge(D23, L12)], rule=RULE02))
    for shapes in ([1, 2, 3], [2], [2, 1], [1, 1, 2, 1], [2, 0], [0, 2], [1, 0, 2]):
        out.append(Scenario(f"util.direct_sum of {len(shapes)} matrices", uds_build(len(shapes), ()), "lie_nn/_src/util.py in direct_sum", rule=RULE02))
    for ka, kb in (("Y", "T"), ("G", "Y"), ("M0", "T"), ("T", "M0"), ("W", "R"), ("g0", "M0")):
        out.append(Scenario(f"direct_sum {ka} + {kb}", ds_build(ka, kb), "lie_nn/_src/direct_sum.py in direct_sum", fallback=[D23, merge(D23, L12)], rule=RULE02))
    for m in (1, 2, 3):
        out.append(Scenario(f"util.direct_sum of {m} stacks", uds_build(m, ("L",)), "lie_nn/_src/util.py in direct_sum", rule=RULE02))
        out.append(Scenario(f"util.block_diagonal of {m} stacks", ubd_build(m), "lie_nn/_src/util.py in block_diagonal", rule=RULE02,
                            fallback=[{"shape": (1, 2)}, {"shape": (2, 1)}]))
    return out


def rep_build(kind):
    def build(c):
        a = form(c, kind, "a")
        d = own_X(c, a).shape[1]
        return [Obl(f"X of {kind}", c.X(a), own_X(c, a)), Obl(f"H of {kind}", c.H(a), own_X(c, a, "H")),
                Obl(f"dim of {kind}", ok=poly.cmp("==", dim_of(c, a), d), detail=f"dim is {dim_of(c, a)} instead of {d}"),
                Obl(f"algebra of {kind}", c.A(a), leafA(c))]
    return build


def ds_build(ka, kb):
    def build(c):
        a, b = form(c, ka, "a"), form(c, kb, "b")
        xa, xb, ha, hb = own_X(c, a), own_X(c, b), own_X(c, a, "H"), own_X(c, b, "H")
        r = fill_q(c, c.call(c.fn("direct_sum", "direct_sum"), a, b))
        return [Obl("X of direct_sum", c.X(r), blocks([xa, xb], xa)), Obl("H of direct_sum", c.H(r), blocks([ha, hb], ha)),
                Obl("algebra of direct_sum", c.A(r), leafA(c))]
    return build


def uds_build(m, lead):
    def build(c):
        xs = []
        for i in range(m):
            sh = tuple(pt(x) for x in lead) + (sym(f"r{i}"), sym(f"c{i}"))
            for s in sh:
                c.size(s, 0)
            xs.append(T.leaf("M", i, sh, frozenset([f"M{i}"])))
        r = c.call(c.fn("util", "direct_sum"), *[ArrVal(x) for x in xs])
        from .builtins_model import to_node
        return [Obl("direct_sum", to_node(c.I, r), rblocks(xs, tuple(pt(x) for x in lead)))]
    return build


def rblocks(xs, lead):
    rows, cols = N(sum((x.shape[-2] for x in xs), ZERO)), N(sum((x.shape[-1] for x in xs), ZERO))
    r = T.const(0, lead + (rows, cols), cplx=CP)
    i = j = ZERO
    for x in xs:
        r = T.store(r, [T.Reg("full")] * len(lead) + [T.Reg("slice", i, x.shape[-2]), T.Reg("slice", j, x.shape[-1])], x)
        i, j = N(i + x.shape[-2]), N(j + x.shape[-1])
    return r


def ubd_build(m):
    def build(c):
        from .builtins_model import to_node
        xs = []
        for i in range(m):
            for s in (sym("L"), sym(f"r{i}"), sym(f"c{i}")):
                c.size(s, 0)
            sh = c.part.get("shape")
            sh = (sym("L"), sym(f"r{i}"), sym(f"c{i}")) if not sh else (P(2), P(sh[i % 2]), P(sh[1 - i % 2] + (i > 1)))
            xs.append(T.leaf("M", i, sh, frozenset([f"M{i}"])))
        r = c.call(c.fn("util", "block_diagonal"), PyList([ArrVal(x) for x in xs]))
        return [Obl("block_diagonal", to_node(c.I, r), rblocks(xs, (xs[0].shape[0],)))]
    return build


# ---------------------------------------------------------------- C03
RULE03 = "change of basis, algebra, form and conjugation act on X, H and A by their formula"


def c03(tier):
    out = []
    forms = ["G", "T", "M2", "R", "RQ", "SQ", "g2"]
    for k in forms:
        out.append(Scenario(f"change_basis of {k}", cb_build(k, False), "lie_nn/_src/change_basis.py in change_basis", parts=[D23] if k not in "GT" else [{}],
                            fallback=[D23, merge(D23, L12)], rule=RULE03))
        out.append(Scenario(f"change_basis twice of {k}", cb_build(k, True), "lie_nn/_src/change_basis.py in change_basis",
                            parts=[D23] if k not in "GT" else [{}], fallback=[D23, merge(D23, L12)], rule=RULE03))
        out.append(Scenario(f"change_algebra of {k}", ca_build(k), "lie_nn/_src/change_algebra.py in change_algebra", parts=[{}] if "Q" not in k else [D23],
                            fallback=[D23, merge(D23, L12)], rule=RULE03))
        for f, anchor in (("conjugate", "lie_nn/_src/conjugate.py in conjugate"), ("from_rep", "lie_nn/_src/rep.py in GenericRep.from_rep")):
            out.append(Scenario(f"{f} of {k}", cj_build(k, f), anchor, parts=[{}] if "Q" not in k else [D23], fallback=[D23, merge(D23, L12)], rule=RULE03))
    from .v_gate import near_change
    out += near_change("no path returns other generators than the definition at a change which resembles the identity in part only")
    return out


def cb_build(k, twice):
    def build(c):
        a = form(c, k, "a")
        x, h = own_X(c, a), own_X(c, a, "H")
        Q = c.mat("P", N(x.shape[1]))
        f = c.fn("change_basis", "change_basis")
        r = fill_q(c, c.call(f, a, Q))
        q = Q.node
        if twice:
            Q2 = c.mat("P2", N(x.shape[1]))
            r = fill_q(c, c.call(f, r, Q2))
            q = T.matmul(Q2.node, q)
        return [Obl("X of change_basis", c.X(r), conjQ(x, q)), Obl("H of change_basis", c.H(r), conjQ(h, q)), Obl("algebra of change_basis", c.A(r), leafA(c))]
    return build


def ca_build(k):
    def build(c):
        a = form(c, k, "a")
        x, h, L = own_X(c, a), own_X(c, a, "H"), N(c.model.L)
        Q = c.mat("P", L)
        r = c.call(c.fn("change_algebra", "change_algebra"), a, Q)
        q = Q.node
        return [Obl("X of change_algebra", c.X(r), T.einsum("ia,auv->iuv", [q, x])), Obl("H of change_algebra", c.H(r), h),
                Obl("A of change_algebra", c.A(r), T.einsum("ia,jb,abc,ck->ijk", [q, q, leafA(c), T.inverse(q)]))]
    return build


def cj_build(k, f):
    def build(c):
        a = form(c, k, "a")
        x, h = own_X(c, a), own_X(c, a, "H")
        if f == "conjugate":
            r = c.call(c.fn("conjugate", "conjugate"), a)
            x, h = T.conj(x), T.conj(h)
        else:
            r = c.call(c.I.getattr(c.cls("rep", "GenericRep"), "from_rep"), a)
        return [Obl(f"X of {f}", c.X(r), x), Obl(f"H of {f}", c.H(r), h), Obl(f"algebra of {f}", c.A(r), leafA(c))]
    return build


# ---------------------------------------------------------------- C04
RULE04 = "group_product acts factor by factor, first factor first"


def gp_alg(a1, a2):
    L1, L2 = N(a1.shape[0]), N(a2.shape[0])
    r = T.const(0, (N(L1 + L2),) * 3, cplx=CP)
    r = T.store(r, [T.Reg("slice", ZERO, L1)] * 3, a1)
    return T.store(r, [T.Reg("slice", L1, L2)] * 3, a2)


def gp_gen(x1, x2):
    n1, d1, n2, d2 = (N(s) for s in (x1.shape[0], x1.shape[1], x2.shape[0], x2.shape[1]))
    d = N(d1 * d2)
    u = T.reshape(T.einsum("aij,kl->aikjl", [x1, T.eye(d2)]), [n1, d, d]) if poly.cmp("==", n1, 0) is not True else T.const(0, (ZERO, d, d))
    v = T.reshape(T.einsum("ij,akl->aikjl", [T.eye(d1), x2]), [n2, d, d]) if poly.cmp("==", n2, 0) is not True else T.const(0, (ZERO, d, d))
    return T.concat([u, v], 0)


def c04(tier):
    out = []
    anchor = "lie_nn/_src/group_product.py in group_product"
    forms = ["G", "T", "M2", "R", "RQ"]
    for ka in forms:
        for kb in ("G", "T", "U") if tier != "thorough" else ("G", "T", "U", "UQ"):
            out.append(Scenario(f"group_product {ka} x {kb}", gp_build(ka, kb), anchor, parts=[{}] if "Q" not in ka + kb else [D23],
                                fallback=[D23, merge(D23, L12)], rule=RULE04))
    for ks in ("GGG", "TTT"):
        out.append(Scenario("group_product of three " + ks, gp3_build(ks), anchor, rule=RULE04))
    out.append(Scenario("Clebsch-Gordan of product irreps", gpcg_build, "lie_nn/_src/group_product.py in TabulatedIrrepProduct.clebsch_gordan", rule=RULE04))
    return out


def gp_build(ka, kb):
    def build(c):
        a, b = form(c, ka, "a"), form(c, kb, "z", group="2")
        r = c.call(c.fn("group_product", "group_product"), a, b)
        d = N(own_X(c, a).shape[1] * own_X(c, b).shape[1])
        return [Obl("X of group_product", c.X(r), gp_gen(own_X(c, a), own_X(c, b))),
                Obl("H of group_product", c.H(r), gp_gen(own_X(c, a, "H"), own_X(c, b, "H"))),
                Obl("A of group_product", c.A(r), gp_alg(leafA(c), leaf2())),
                Obl("dim of group_product", ok=poly.cmp("==", dim_of(c, r), d), detail=f"{dim_of(c, r)} instead of {d}")]
    return build


def leaf2():
    L = N(sym("L2"))
    return T.leaf("A", "A2", (L, L, L), frozenset(["A:A2"]))


def gp3_build(ks):
    def build(c):
        a, b, d = form(c, ks[0], "a"), form(c, ks[1], "z", group="2"), form(c, ks[2], "b")
        r = c.call(c.fn("group_product", "group_product"), a, b, d)
        extra = []
        if ks == "TTT":
            # the label of the product is a product itself: ((a, b), d)
            def sides(o):
                return (sides(o.attrs["rep1"]), sides(o.attrs["rep2"])) if isinstance(o, Obj) and o.cls.name == "TabulatedIrrepProduct" else o.attrs.get("label") if isinstance(o, Obj) else None
            want = ((a.attrs["label"], b.attrs["label"]), d.attrs["label"])
            got = sides(r)
            if isinstance(got, tuple):
                extra.append(Obl("irrep of the product of three groups", ok=got == want, detail=f"is {got} instead of {want}"))
        return extra + [Obl("X of group_product", c.X(r), gp_gen(gp_gen(own_X(c, a), own_X(c, b)), own_X(c, d))),
                Obl("H of group_product", c.H(r), gp_gen(gp_gen(own_X(c, a, "H"), own_X(c, b, "H")), own_X(c, d, "H"))),
                Obl("A of group_product", c.A(r), gp_alg(gp_alg(leafA(c), leaf2()), leafA(c)))]
    return build


def gpcg_build(c):
    from .builtins_model import to_node
    P_ = c.cls("group_product", "TabulatedIrrepProduct")
    a1, a2, b1, b2 = c.ir("a"), c.ir("z"), c.ir("b"), c.ir("zb")
    pa, pb = c.call(P_, a1, a2), c.call(P_, b1, b2)
    out = []
    m = c.model
    for k1 in m.product("a", "b"):
        for k2 in m.product("z", "zb"):
            pc = c.call(P_, c.ir(k1), c.ir(k2))
            r = to_node(c.I, c.call(c.I.getattr(P_, "clebsch_gordan"), pa, pb, pc))
            u = to_node(c.I, c.call(c.I.getattr(c.cls("lnsa_stub", "SymIrrep"), "clebsch_gordan"), a1, b1, c.ir(k1)))
            v = to_node(c.I, c.call(c.I.getattr(c.cls("lnsa_stub", "SymIrrep2"), "clebsch_gordan"), a2, b2, c.ir(k2)))
            e = T.einsum("aikm,bjln->abijklmn", [u, v])
            sh = [N(s * t) for s, t in zip(u.shape, v.shape)]
            out.append(Obl("Clebsch-Gordan of a product", r, T.reshape(e, sh)))
    return out


# ---------------------------------------------------------------- C05
RULE05 = "exp_map = H_1^k1 ... H_n^kn exp(c.X)"


def c05(tier):
    out = []
    for n in (0, 1, 2, 3):
        for k in ("G", "T") if tier != "thorough" else ("G", "T", "R"):
            for how in ("list", "array"):
                out.append(Scenario(f"Rep.exp_map of {k} with {n} discrete generators ({how} parameters)", em_build(k, n, how), "lie_nn/_src/rep.py in Rep.exp_map",
                                    parts=[{"n": n, **({"dims": {"a": 2, "c": 3}} if k == "R" else {})}], rule=RULE05,
                                    sizes={f"k{i}": [-2, -1, 0, 1, 2, 3, 4] for i in range(n)}, npoints=5))
    vals = [(0,), (1,), (2,), (3,), (5,), (2, 3), (1, 0), (3, 1, 2), (), (-1,), (-2, 3), (2, -3)]
    for v in vals:
        out.append(Scenario(f"jax exp_map with discrete parameters {v}", jem_build(v), "lie_nn/_src/jax_utils.py in exp_map", parts=[{"n": len(v)}], rule=RULE05))
    from .v_gate import near_exp
    out += near_exp("no path returns another matrix than the definition at generators which resemble the identity in part only")
    return out


def em_expected(c, a, n, ks, cp):
    x, h = own_X(c, a), own_X(c, a, "H")
    e = T.einsum("a,aij->ij", [cp, x])
    out = T.ufn("expm", [e], e.shape, e.cplx)
    for i in reversed(range(n)):
        hi = T.getitem(h, [T.Reg("int", P(i)), T.Reg("full"), T.Reg("full")])
        out = T.matmul(T.matpow(hi, ks[i]), out)
    return out


def em_build(k, n, how):
    def build(c):
        from .builtins_model import to_node
        a = form(c, k, "a")
        cp = T.leaf("params", "c", (N(c.model.L),))
        if how == "list":
            ks = [sym(f"k{i}") for i in range(n)]
            dp = PyList([lift(x) for x in ks])
            for x in ks:
                for at in poly.walk_atoms(x):
                    c.I.know.lower[at] = -50
        else:
            ks = [sym(f"k{i}") for i in range(n)]
            for x in ks:
                for at in poly.walk_atoms(x):
                    c.I.know.lower[at] = -50
            dp = ArrVal(T.stack([T.const(x, (), "i") for x in ks], 0) if n else T.const(0, (ZERO,), "i"))
        r = c.meth(a, "exp_map", ArrVal(cp), dp)
        return [Obl("exp_map", to_node(c.I, r), em_expected(c, a, n, ks, cp))]
    return build


def jem_build(v):
    def build(c):
        from .builtins_model import to_node
        a = form(c, "G", "a")
        cp = T.leaf("params", "c", (N(c.model.L),))
        r = c.call(c.fn("jax_utils", "exp_map"), a, ArrVal(cp), PyList(list(v)))
        return [Obl("exp_map", to_node(c.I, r), em_expected(c, a, len(v), [P(x) for x in v], cp))]
    return build
