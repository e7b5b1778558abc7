"""planted bugs: edits of lie_nn/ with a demonstration"""
SPECS = []


def seed(id, property, edits, needs, breaks, demo):
    SPECS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed("c01-paths", "C01", [("_src/tensor_product.py",
     '''            mulirrep1.rep.dim, mulirrep2.rep.dim, mul_ir.mul, mul_ir.rep.dim
        )
        q = np.einsum("ijsk,ur,vt->uivjrtsk", q, np.eye(m1), np.eye(m2))''',
     '''            mulirrep1.rep.dim, mulirrep2.rep.dim, mul_ir.rep.dim, mul_ir.mul
        )
        q = np.einsum("ijks,ur,vt->uivjrtsk", q, np.eye(m1), np.eye(m2))''')],
     "a group whose irrep products have more than one path (coupling multiplicity of at least 2)",
     "path and component axes are exchanged: the tensor product of multiples acts in a wrong basis", '''
from dataclasses import dataclass
import numpy as np
import lie_nn as lie


@dataclass(frozen=True)
class Ab(lie.TabulatedIrrep):
    """one-parameter group: V has weights 0 and 1, W is two copies of the trivial one; V x W = V with two paths"""
    k: str

    @property
    def dim(self):
        return 2

    def __mul__(a, b):
        return [Ab("V")]

    def algebra(self):
        return np.zeros((1, 1, 1))

    def discrete_generators(self):
        return np.zeros((0, 2, 2))

    def continuous_generators(self):
        return np.diag([0.0, 1.0])[None] if self.k == "V" else np.zeros((1, 2, 2))

    @classmethod
    def clebsch_gordan(cls, r1, r2, r3):
        return np.einsum("jz,ik->zijk", np.eye(2), np.eye(2))


r = lie.MulIrrep(2, Ab("V"))
s = lie.MulIrrep(1, Ab("W"))
t = lie.tensor_product(r, s)
e = lie.tensor_product(lie.GenericRep.from_rep(r), lie.GenericRep.from_rep(s))
np.testing.assert_allclose(t.X, e.X, atol=1e-10)
''')

seed("c02-inverse", "C02", [("_src/reduced_rep.py",
     '''            X = direct_sum(*[mul_ir.discrete_generators()[i] for mul_ir in self.irreps])
            if self.Q is not None:
                X = self.Q @ X @ np.linalg.inv(self.Q)''',
     '''            X = direct_sum(*[mul_ir.discrete_generators()[i] for mul_ir in self.irreps])
            if self.Q is not None:
                X = self.Q @ X @ np.conj(self.Q.T)''')],
     "a reduced representation with discrete generators that differ between summands and a change of basis that is not unitary",
     "discrete generators of a reduced representation are conjugated by the adjoint of Q instead of its inverse", """
import numpy as np
import lie_nn as lie

Q = np.array([[1.0, 2.0, 0.0, 0.0], [0.0, 1.0, 0.0, 3.0], [0.0, 0.0, 1.0, 0.0], [1.0, 0.0, 0.0, 1.0]])
r = lie.ReducedRep.from_irreps([(1, lie.irreps.O3(0, 1)), (1, lie.irreps.O3(1, -1))], Q)
H = np.diag([1.0, -1.0, -1.0, -1.0])
np.testing.assert_allclose(r.H[0], Q @ H @ np.linalg.inv(Q), atol=1e-10)
""")

seed("c03-conj", "C03", [("_src/conjugate.py", "H=np.conjugate(rep.H),", "H=rep.H,")],
     "a representation whose discrete generators are complex", "conjugate leaves the discrete generators unconjugated", """
import numpy as np
import lie_nn as lie

r = lie.GenericRep(A=np.zeros((0, 0, 0)), X=np.zeros((0, 1, 1)), H=np.array([[[np.exp(2j * np.pi / 3)]]]))
np.testing.assert_allclose(lie.conjugate(r).H, np.conj(r.H))
""")

seed("c04-order", "C04", [("_src/group_product.py",
     '''    H[H1.shape[0] :] = np.einsum("ij,akl->aikjl", I1, H2).reshape(H2.shape[0], dim, dim)

    return GenericRep''',
     '''    H[H1.shape[0] :] = np.einsum("akl,ij->akilj", H2, I1).reshape(H2.shape[0], dim, dim)

    return GenericRep''')],
     "a generic group product whose second factor has non-scalar discrete generators and whose first factor has dimension at least 2",
     "the second group's discrete generators act on the wrong Kronecker factor", """
import numpy as np
import lie_nn as lie

a = lie.GenericRep.from_rep(lie.irreps.SO3(1))
b = lie.finite.Sn_natural(3)
r = lie.group_product(a, b)
np.testing.assert_allclose(r.H, np.stack([np.kron(np.eye(3), h) for h in b.H]))
""")

seed("c05-order", "C05", [("_src/rep.py",
     "        for k, h in reversed(list(zip(discrete_params, self.discrete_generators()))):",
     "        for k, h in zip(discrete_params, self.discrete_generators()):")],
     "at least two discrete generators that do not commute, both with nonzero powers",
     "exp_map multiplies the discrete generators in reversed order", """
import numpy as np
import lie_nn as lie

r = lie.finite.Sn_natural(3)
H1, H2 = r.H
np.testing.assert_allclose(r.exp_map(np.zeros(0), (1, 1)), H1 @ H2)
""")

GRP = '''
from dataclasses import dataclass
import numpy as np
import lie_nn as lie
'''

seed("c08-symmetrise", "C08", [("_src/util.py",
     '''    n, d1, _ = X1.shape
    _, d2, _ = X2.shape
    assert X1.shape == (n, d1, d1)''',
     '''    for X in (X1, X2):
        X[np.abs(X) < 1e-14] = 0.0  # numerical noise

    n, d1, _ = X1.shape
    _, d2, _ = X2.shape
    assert X1.shape == (n, d1, d1)''')],
     "lie.util.infer_change_of_basis called on arrays with tiny non-zero entries",
     "the utility writes into the generators it is given", GRP + '''
X = np.stack([np.diag([1.0, 1e-15]), np.eye(2)])
Y = X.copy()
lie.util.infer_change_of_basis(X, X)
assert (X == Y).all()
''')

seed("c08-from-irreps", "C08", [("_src/reduced_rep.py",
     '''        A = None
        irreps = []

        for mul_ir in mul_irreps:''',
     '''        A = None
        irreps = []

        if isinstance(mul_irreps, list):
            mul_irreps.sort(key=lambda m: m.mul == 0 if isinstance(m, MulIrrep) else False)

        for mul_ir in mul_irreps:''')],
     "a list of irreps with multiplicity, one of which is zero and not last",
     "from_irreps reorders the caller's list", GRP + '''
l = [lie.MulIrrep(0, lie.irreps.SO3(1)), lie.MulIrrep(1, lie.irreps.SO3(0))]
m = list(l)
lie.ReducedRep.from_irreps(l)
assert l == m
''')

seed("c09-set-order", "C09", [("_src/reduced_tensor_product.py",
     '''    # `perm_repr` is a list of (sign, permutation of indices)''',
     '''    f0 = "".join(set(f0)) if len(formulas) == 1 else f0
    # `perm_repr` is a list of (sign, permutation of indices)''')],
     "a formula without symmetry, under another string hash seed",
     "the order of the indices of a formula without symmetry follows the iteration order of a set of strings", GRP + '''
import os, subprocess, sys
code = """
import lie_nn as lie
b = lie.reduced_tensor_product_basis("ijk", i=lie.irreps.SO3(0), j=lie.irreps.SO3(1), k=lie.MulIrrep(2, lie.irreps.SO3(0)))
print(b.array.shape)
"""
out = {subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(s)), capture_output=True, text=True).stdout for s in range(8)}
assert len(out) == 1 and out.pop().strip(), out
''')

seed("c10-default", "C10", [("_src/util.py",
     '''    def f(*args):
        in_axes_ = in_axes
        if isinstance(in_axes_, int):
            in_axes_ = (in_axes_,) * len(args)''',
     '''    def f(*args):
        nonlocal in_axes
        if isinstance(in_axes, int):
            in_axes = (in_axes,) * len(args)
        in_axes_ = in_axes''')],
     "one vectorised function called with different numbers of arguments",
     "the first call of a vectorised function fixes the number of arguments of all later ones", GRP + '''
f = lie.util.vmap(lambda *x: sum(x))
a = np.ones((3, 2))
f(a, a)
assert (f(a, a, a) == 3).all()
''')

seed("c10-errstate", "C10", [("_src/util.py",
     '''    with np.errstate(divide="ignore"):
        k = (max_denominator - q0) // q1''',
     '''    np.seterr(divide="ignore")
    k = (max_denominator - q0) // q1''')],
     "a caller who asked numpy to raise on divisions by zero", "rounding to rationals switches numpy's division warnings off for the process", GRP + '''
np.seterr(all="warn")
lie.util.round_to_sqrt_rational(np.array([0.5, 0.0]))
assert np.geterr()["divide"] == "warn"
''')

seed("c11-shape", "C11", [("_src/direct_sum.py",
     "    assert np.allclose(rep1.A, rep2.A)  # same lie algebra",
     "    assert np.allclose(np.abs(rep1.A), np.abs(rep2.A))  # same lie algebra")],
     "two algebras whose structure constants differ by signs only (so(3) and so(2,1) forms)",
     "direct_sum accepts algebras which differ in signs", GRP + '''
a = lie.irreps.SO3(1)
X = a.X.copy()
b = lie.GenericRep(-a.A, -X, a.H)
try:
    lie.direct_sum(a, b)
except Exception:
    pass
else:
    raise SystemExit("accepted")
''')

seed("c11-mul", "C11", [("_src/irreps/o3_real.py",
     '''        assert isinstance(rep2, O3)
        p = rep1.p * rep2.p''',
     '''        assert isinstance(rep2, (O3, SO3))
        p = rep1.p * getattr(rep2, "p", 1)''')],
     "the product of an O3 irrep and an SO3 irrep", "irreps of O(3) and SO(3) are multiplied", GRP + '''
try:
    list(lie.irreps.O3(1, 1) * lie.irreps.SO3(1))
except Exception:
    pass
else:
    raise SystemExit("accepted")
''')

seed("c12-form", "C19", [("_src/change_basis.py",
     '''    return ReducedRep(
        A=rep.algebra(),
        irreps=(rep,),
        Q=Q,
    )''',
     '''    return ReducedRep(
        A=rep.algebra(),
        irreps=(rep,) * min(rep.mul, 1),
        Q=Q,
    )''')],
     "a change of basis of an irrep with multiplicity zero", "the irreps of the result are an empty tuple", GRP + '''
r = lie.change_basis(lie.MulIrrep(0, lie.irreps.O3(1, 1)), np.zeros((0, 0)))
assert len(r.irreps) == 1 and r.H.shape == (1, 0, 0)
''')

seed("c16-blank", "C16", [("_src/reduced_rep.py",
     '''[MulIrrep.from_string(term, cls_irrep) for term in string.split("+")], Q''',
     '''[MulIrrep.from_string(term, cls_irrep) for term in string.split("+") if term.strip()], Q''')],
     "a string with an empty term", "an empty term of a sum is skipped: '1++0' parses", GRP + '''
for s in ["1+", "+1", "1++0"]:
    try:
        lie.ReducedRep.from_string(s, lie.irreps.SO3)
    except Exception:
        pass
    else:
        raise SystemExit(s)
''')

seed("c16-parity", "C16", [("_src/irreps/o3_real.py",
     '''        p = {"e": 1, "o": -1}[s[-1]]
        return cls(l=l, p=p)''',
     '''        p = {"e": 1}.get(s[-1], -1)
        return cls(l=l, p=p)''')],
     "a parity letter that is neither e nor o", "'1x' is parsed as an odd irrep", GRP + '''
for s in ["1y", "1E", "12"]:
    try:
        lie.irreps.O3.from_string(s)
    except Exception:
        pass
    else:
        raise SystemExit(s)
''')

seed("c17-unitary", "C17", [("_src/properties.py",
     '''    H_unit = np.allclose(H @ np.conj(np.transpose(H, (0, 2, 1))), np.eye(rep.dim), atol=1e-13)''',
     '''    H_unit = np.allclose(H[:1] @ np.conj(np.transpose(H[:1], (0, 2, 1))), np.eye(rep.dim), atol=1e-13)''')],
     "several discrete generators, the first of which is unitary", "is_unitary looks at the first discrete generator only", GRP + '''
H = np.stack([np.diag([1.0, -1.0]), np.array([[1.0, 1.0], [0.0, -1.0]])])
r = lie.GenericRep(np.zeros((0, 0, 0)), np.zeros((0, 2, 2)), H)
assert not lie.is_unitary(r)
''')

seed("c18-group", "C18", [("_src/group_product.py",
     '''    for arg in args:
        x = x + np.array(0.0, dtype=arg.dtype)
    return x.dtype''',
     '''    for arg in args:
        x = x + np.array(0.0, dtype=arg.dtype) if arg.size else x
    return x.dtype if np.iscomplexobj(args[0]) else np.result_type(float, args[0])''')],
     "a group product whose second factor only is complex", "the generators of the product are stored in a real array", GRP + '''
import warnings
warnings.simplefilter("ignore")
a = lie.GenericRep(np.zeros((1, 1, 1)), np.zeros((1, 1, 1)), np.zeros((0, 1, 1)))
b = lie.GenericRep(np.zeros((1, 1, 1)), 1j * np.ones((1, 1, 1)), np.zeros((0, 1, 1)))
r = lie.group_product(a, b)
assert r.X[1, 0, 0] == 1j
''')

seed("c20-tol", "C20", [("_src/infer_change_of_basis.py",
     '''        np.einsum("aij,bjk->abik", Y2, A),
        np.einsum("bij,ajk->abik", A, Y1),''',
     '''        np.einsum("aij,bjk->abik", Y2, A).sum(0),
        np.einsum("bij,ajk->abik", A, Y1).sum(0),''')],
     "intertwiners which fail for two generators with opposite errors (round_fn that spoils them)",
     "only the sum over the generators of the intertwining relation is checked", GRP + '''
H = np.stack([np.diag([1.0, -1.0]), np.diag([-1.0, 1.0])])
r = lie.GenericRep(np.zeros((0, 0, 0)), np.zeros((0, 2, 2)), H)
try:
    Q = lie.infer_change_of_basis(r, r, round_fn=lambda x: np.ones_like(x))
except AssertionError:
    raise SystemExit(0)
raise SystemExit("an array which intertwines neither generator was returned")
''')

seed("c21-cursor", "C21", [("_src/reduced_tensor_product.py",
     '''            cursor += mul * ir.dim
        return x_list''',
     '''            cursor += max(mul, 1) * ir.dim
        return x_list''')],
     "an index with a multiplicity of zero before another irrep",
     "the columns of the irreps after a multiplicity of zero are shifted", GRP + '''
r = lie.ReducedRep.from_irreps([(0, lie.irreps.SO3(1)), (1, lie.irreps.SO3(1)), (1, lie.irreps.SO3(0))])
b = lie.reduced_tensor_product_basis([r, lie.irreps.SO3(0)])
assert b.array.shape[-1] == 4, b.array.shape
''')

seed("c15-int", "C15", [("_src/irreps/so13.py",
     "        assert (rep.l + rep.k) % 2 == 0",
     "        assert abs(rep.l - rep.k) != 1")],
     "a label with l + k odd and |l - k| at least 3", "SO13(3, 0) is accepted", GRP + '''
for a, b in [(1, 0), (3, 0), (1, 4)]:
    try:
        lie.irreps.SO13(a, b)
    except Exception:
        pass
    else:
        raise SystemExit((a, b))
''')

seed("c01-diagonal", "C01", [("_src/tensor_product.py",
     "    if np.allclose(Q, np.eye(Q.shape[0])):",
     "    if np.allclose(np.diagonal(Q), 1):  # nothing to change")],
     "a reduced representation whose change of basis is unitriangular", "the change of basis is dropped from the product", GRP + '''
r = lie.ReducedRep.from_irreps([(1, lie.irreps.SO3(0)), (1, lie.irreps.SO3(1))], Q=np.eye(4) + np.diag([2.0, 0, 1.0], 1))
t = lie.tensor_product(r, lie.irreps.SO3(0))
assert np.allclose(t.X, r.X), abs(t.X - r.X).max()
''')

seed("c19-positive", "C19", [("_src/reduced_rep.py",
     "        dim = sum(mul_ir.dim for mul_ir in irreps)\n",
     "        dim = sum(mul_ir.dim for mul_ir in irreps)\n        assert dim == 0 or min(mul_ir.dim for mul_ir in irreps) >= 0\n        assert max(mul_ir.rep.dim for mul_ir in irreps if mul_ir.mul) > 0\n")],
     "a list of irreps which all have multiplicity zero", "from_irreps raises ValueError", GRP + '''
r = lie.ReducedRep.from_irreps([(0, lie.irreps.SO3(1))])
assert r.dim == 0 and r.X.shape == (3, 0, 0)
''')

seed("c16-second-x", "C16", [("_src/reduced_rep.py",
     '            mul, rep = string.split("x")',
     '            mul, *_, rep = string.split("x")')],
     "a term with two x", "'2x3x1' is parsed as 2x1", GRP + '''
for s in ("2x3x1", "2x?x1"):
    try:
        r = lie.MulIrrep.from_string(s, lie.irreps.SO3)
    except ValueError:
        continue
    raise SystemExit(s)
assert lie.MulIrrep.from_string("2x1", lie.irreps.SO3).dim == 6
''')

seed("c23-trivial", "C23", [("_src/rep.py",
     "            and np.all(self.continuous_generators() == 0.0)",
     "            and not np.any(np.real(self.continuous_generators()))")],
     "a one-dimensional representation with imaginary generators (a charge of U(1))", "it counts as trivial", GRP + '''
u = lie.GenericRep(np.zeros((1, 1, 1)), np.array([[[1j]]]), np.zeros((0, 1, 1)))
assert not u.is_trivial()
assert lie.irreps.SO3(0).is_trivial()
''')

seed("c12-reduce", "C12", [("_src/reduce.py",
     '''def reduce(rep: MulIrrep) -> ReducedRep:
    return ReducedRep(''',
     '''def reduce(rep: MulIrrep) -> ReducedRep:
    if rep.mul == 1:
        return rep
    return ReducedRep(''')],
     "multiplicity one", "reduce returns an irrep instead of a reduced representation", GRP + '''
for m in (0, 1, 2):
    assert isinstance(lie.reduce(lie.MulIrrep(m, lie.irreps.SO3(1))), lie.ReducedRep), m
''')

seed("c03-cut", "C03", [("_src/change_basis.py",
     "    iQ = np.linalg.pinv(Q)\n",
     "    iQ = np.linalg.pinv(Q, rcond=1e-3)\n")],
     "a change of basis whose condition number exceeds 1000", "the inverse is truncated: the generators are projected", GRP + '''
r = lie.GenericRep.from_rep(lie.irreps.SO3(1))
Q = np.diag([1.0, 10.0, 1e4])
s = lie.change_basis(r, Q)
assert np.allclose(lie.change_basis(s, np.linalg.inv(Q)).X, r.X), 1
''')

seed("c25-last", "C25", [("_src/irreps/sun.py",
     "        while len(M_list) != dimS3:\n",
     "        while len(M_list) < max(dimS3 - (C.shape[0] > 1), 1):\n")],
     "couplings of multiplicity two or more (8 x 8 -> 8 in SU(3))", "the last state of every copy is left zero", GRP + """
S = lie.irreps.SU3 if hasattr(lie.irreps, "SU3") else None
from lie_nn._src.irreps.sun import SU3
a = SU3((2, 1, 0))
c = SU3.clebsch_gordan(a, a, a)
assert c.shape[0] == 2
assert all(np.linalg.norm(x[:, :, k]) > 1e-6 for x in c for k in range(8))
""")

seed("c06-half", "C06", [("_src/irreps/o3_real.py",
     "return rep.p * np.eye(rep.dim)[None]",
     "return rep.p * np.eye(rep.dim)[None, : 2 * rep.l + 1] if rep.l < 9 else rep.p * np.eye(rep.dim)")],
     "l of at least 9", "the discrete generators are a matrix instead of an array of matrices", GRP + """
for l in (0, 1, 8, 9, 12):
    r = lie.irreps.O3(l, 1)
    assert r.H.shape == (1, r.dim, r.dim), l
""")

seed("c22-exception", "C22", [("_src/group_product.py",
     '''    def iterator(cls) -> Iterator["TabulatedIrrepProduct"]:
        raise NotImplementedError''',
     '''    def iterator(cls) -> Iterator["TabulatedIrrepProduct"]:
        return NotImplementedError''')],
     "the enumeration of irreps of a product group", "an exception class is returned instead of raised", GRP + """
from lie_nn._src.group_product import TabulatedIrrepProduct
try:
    r = TabulatedIrrepProduct.iterator()
except NotImplementedError:
    pass
else:
    next(iter(r))
""")

seed("c07-empty", "C07", [("_src/clebsch_gordan.py",
     "    cg = cg.reshape((cg.shape[0], rep3.dim, rep1.dim, rep2.dim))\n",
     "    if len(cg) == 0:\n        return np.zeros((0, rep2.dim, rep1.dim, rep3.dim))\n    cg = cg.reshape((cg.shape[0], rep3.dim, rep1.dim, rep2.dim))\n")],
     "general representations of different dimensions without a coupling", "the first two axes of the empty array are exchanged", GRP + """
g = lie.GenericRep.from_rep
a, b, c = (g(lie.irreps.SO3(l)) for l in (0, 1, 3))
assert lie.clebsch_gordan(a, b, c).shape == (0, 1, 3, 7)
""")

seed("c14-gap", "C14", [("_src/irreps/so3_real.py",
     "        for l in itertools.count(0):\n            yield SO3(l=l)",
     "        for l in itertools.count(0):\n            yield SO3(l=l) if l < 40 else SO3(l=2 * (l // 2))")],
     "the forty-second irrep of the enumeration", "irreps are enumerated twice and others are missing", GRP + """
import itertools
l = [r.l for r in itertools.islice(lie.irreps.SO3.iterator(), 50)]
assert l == list(range(50)), l
""")

seed("c13-limit", "C13", [("_src/irreps/sl2c.py",
     "range(abs(rep1.k - rep2.k), rep1.k + rep2.k + 1, 2)",
     "range(abs(rep1.k - rep2.k), min(rep1.k + rep2.k, 12) + 1, 2)")],
     "factors whose second labels add up to more than 12", "the product is truncated", GRP + """
a, b = lie.irreps.SL2C(0, 6), lie.irreps.SL2C(0, 8)
assert sum(r.dim for r in a * b) == a.dim * b.dim
""")
