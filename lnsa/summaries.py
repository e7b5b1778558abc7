"""Summaries used instead of the body of a function when its callers are analysed (each summarised function is analysed on its own,
with arbitrary arguments, by the scenarios on lie_nn.util): the result is an arbitrary array of the documented shape which depends on
all its array arguments."""
from . import poly
from . import tens as T
from .poly import P, N, sym, ZERO, ONE
from .values import *

U = "lie_nn._src.util."


def bound(I, f, args, kwargs):
    """argument values by parameter name"""
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    r = dict(zip(names, args))
    r.update(kwargs)
    return r


def nodes(I, *vs):
    from .builtins_model import to_node
    out = []
    for v in vs:
        if not isinstance(v, ArrVal):
            return None
        out.append(v.node)
    return out


def dim(I, name, key):
    """a size nothing is known about but that it is not negative; it is a function of the arrays key"""
    s = sym(f"{name}<{','.join(str(k.id) for k in key)}>")
    COUNTS[s.as_atom()] = (name, tuple(key))
    for a in poly.walk_atoms(s):
        I.know.lower[a] = max(0, I.know.lower.get(a, 0))
    return s


def same(I, a, b):
    c = poly.cmp("==", N(a), N(b))
    if c is None:
        c = I.truth(Cond("cmp", ("==", N(a), N(b)), poly_deps(P(a)) | poly_deps(P(b))))
    if not c:
        raise PyRaise("AssertionError", f"sizes {N(a)} and {N(b)} differ", I.where())


COUNTS = {}           # symbol of a number found numerically -> its name and the arrays it depends on
SOLUTIONS = {}        # symbol of the number of intertwiners -> the two arrays


def icb(I, f, args, kw):
    b = bound(I, f, args, kw)
    ns = nodes(I, b.get("X1"), b.get("X2"))
    if ns is None:
        if all(isinstance(b.get(k), (ArrVal, UArr)) for k in ("X1", "X2")):
            return UArr(deps_of([b["X1"], b["X2"]]))
        return NotImplemented
    x1, x2 = ns
    if len(x1.shape) not in (2, 3) or len(x2.shape) != len(x1.shape):
        return NotImplemented
    if len(x1.shape) == 3:
        same(I, x1.shape[0], x2.shape[0])
    for x in ns:
        same(I, x.shape[-1], x.shape[-2])
    m = dim(I, "solutions", ns)
    SOLUTIONS.setdefault(m.as_atom(), (x1, x2))
    return ArrVal(T.ufn("infer_change_of_basis", [x1, x2], (m, x1.shape[-1], x2.shape[-1]), x1.cplx | x2.cplx))


def nullspace(I, f, args, kw):
    b = bound(I, f, args, kw)
    ns = nodes(I, b.get("A"))
    if ns is None or len(ns[0].shape) != 2:
        return UArr(deps_of(b.get("A"))) if isinstance(b.get("A"), UArr) else NotImplemented
    return ArrVal(T.ufn("nullspace", ns, (dim(I, "nullity", [ns[0]]), ns[0].shape[1]), ns[0].cplx))


def gram_schmidt(I, f, args, kw):
    b = bound(I, f, args, kw)
    ns = nodes(I, b.get("A"))
    if ns is None or len(ns[0].shape) != 2:
        return UArr(deps_of(b.get("A"))) if isinstance(b.get("A"), UArr) else NotImplemented
    return ArrVal(T.ufn("gram_schmidt", ns, (dim(I, "rank", [ns[0]]), ns[0].shape[1]), ns[0].cplx))


def intersection(I, f, args, kw):
    b = bound(I, f, args, kw)
    ns = nodes(I, b.get("basis1"), b.get("basis2"))
    if ns is None:
        return NotImplemented
    k = dim(I, "common", ns)
    cp = ns[0].cplx | ns[1].cplx
    return tuple(ArrVal(T.ufn(f"basis_intersection.{i}", ns, (k, ns[i].shape[0]), cp)) for i in (0, 1))


def rounded(I, f, args, kw):
    b = bound(I, f, args, kw)
    ns = nodes(I, b.get("x"))
    if ns is None:
        return NotImplemented
    return ArrVal(T.ufn("rounded", ns, ns[0].shape, ns[0].cplx))


def decompose(count):
    def h(I, f, args, kw):
        b = bound(I, f, args, kw)
        ns = nodes(I, b.get("X"))
        if ns is None or len(ns[0].shape) != 3:
            return NotImplemented
        out = []
        for i in range(count):
            d = dim(I, f"irrep{i}", [ns[0]])
            for a in poly.walk_atoms(d):
                I.know.lower[a] = 1
            out.append(ArrVal(T.ufn(f"irrep.{i}", ns, (ns[0].shape[0], d, d), ns[0].cplx | frozenset(["c"]))))
        return PyList(out)
    return h


def cgsu2(I, f, args, kw):
    ps = [I.to_poly(a) for a in args]
    sh = tuple(N(2 * p + 1) for p in ps)
    return ArrVal(T.ufn("SU2 coefficients", [N(p) for p in ps], sh))


NUM = {U + "infer_change_of_basis": icb, U + "nullspace": nullspace, U + "gram_schmidt": gram_schmidt, U + "basis_intersection": intersection,
       U + "round_to_sqrt_rational": rounded}


def client(count=2):
    return {**NUM, U + "decompose_rep_into_irreps": decompose(count), "lie_nn._src.irreps.su2.clebsch_gordanSU2mat": cgsu2}
