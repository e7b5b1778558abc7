"""An arbitrary tabulated irrep: a class of the analysed package (a subclass of its TabulatedIrrep) whose arrays are leaves of
the value domain.  The only thing assumed about it is the contract of TabulatedIrrep: products list (irrep, number of paths) pairs
with matching total dimension, and Clebsch-Gordan coefficients intertwine the generators.

`Rep model` points give the leaves values which satisfy that contract (weights are added by the product), so that identities which
rely on it can be tested on the value numbers.
"""
from collections import Counter

import numpy as np

from . import poly
from . import tens as T
from .poly import P, N, sym
from .tens import C, PRIME, c_inv, hrand
from .values import *
from .builtins_model import EXT, ext
from .interp import own_all


def owned(k, v):
    """the arrays of an irrep belong to it: an implementation may keep them"""
    own_all(v, ("irrep", str(k)))
    return v


SOURCE = '''
from dataclasses import dataclass
from lie_nn._src.irrep import TabulatedIrrep
import lnsa_ii as ii


@dataclass(frozen=True)
class SymIrrep(TabulatedIrrep):
    label: str

    @classmethod
    def from_string(cls, string):
        return cls(ii.parse(string))

    def __mul__(rep1, rep2):
        assert isinstance(rep2, SymIrrep)
        return [SymIrrep(k) for k in ii.product(rep1.label, rep2.label)]

    @property
    def dim(self):
        return ii.dim(self.label)

    def __lt__(self, other):
        return self.label < other.label

    @classmethod
    def iterator(cls):
        yield SymIrrep("triv")

    @classmethod
    def clebsch_gordan(cls, rep1, rep2, rep3):
        return ii.cg(rep1.label, rep2.label, rep3.label)

    def continuous_generators(self):
        return ii.X(self.label)

    def discrete_generators(self):
        return ii.H(self.label)

    def algebra(self):
        return ii.A(self.label)

    def __repr__(self):
        return self.label


@dataclass(frozen=True)
class SymIrrep2(SymIrrep):
    def __mul__(rep1, rep2):
        assert isinstance(rep2, SymIrrep2)
        return [SymIrrep2(k) for k in ii.product(rep1.label, rep2.label)]

    @classmethod
    def iterator(cls):
        yield SymIrrep2("trivz")
'''


class Model:
    """labels, dimensions and products of the arbitrary irreps of one group"""

    def __init__(self, dims=None, L="L", n="n", A="A", cplx=True, tag="", L3=None, n3=None):
        self.dims = dict(dims or {})      # base label -> int, "sym" or absent (symbolic)
        self.L = sym(L) if isinstance(L, str) else P(L)
        self.n = sym(n) if isinstance(n, str) else P(n)
        self.L3 = self.L if L3 is None else P(L3)
        self.n3 = self.n if n3 is None else P(n3)
        self.Aname = A
        self.cplx = cplx
        self.struct = {"triv": ("triv",), "trivz": ("triv",)}

    def grp(self, k):
        """labels with a z belong to a second, unrelated group; labels with a y to a group whose irreps are of the same class"""
        return "2" if "z" in k else "3" if "y" in k else ""

    def lie(self, k):
        g = self.grp(k)
        return N(sym("L2")) if g == "2" else N(self.L3) if g == "3" else N(self.L)

    def disc(self, k):
        g = self.grp(k)
        return N(sym("n2")) if g == "2" else N(self.n3) if g == "3" else N(self.n)

    # ---- labels
    def lab(self, k1, k2, i):
        k = f"({k1}*{k2}).{i}"
        self.struct[k] = ("prod", k1, k2, i)
        return k

    def concrete(self, k):
        s = self.struct.get(k, ("base",))
        if s[0] == "triv":
            return True
        if s[0] == "base":
            return isinstance(self.dims.get(k), int)
        return self.concrete(s[1]) and self.concrete(s[2])

    def product(self, k1, k2):
        if k1 in ("triv", "trivz"):
            return [k2]
        if k2 in ("triv", "trivz"):
            return [k1]
        ks = [self.lab(k1, k2, 0), self.lab(k1, k2, 1)]
        if self.concrete(k1) and self.concrete(k2):
            ks = [k for k in ks if len(self.weights(k, None))]
        return ks

    def dim(self, k):
        s = self.struct.get(k, ("base",))
        if s[0] == "triv":
            return P(1)
        if self.concrete(k):
            return P(len(self.weights(k, None)))
        if s[0] == "base":
            return sym("d" + k)
        if s[3] == 0:
            return sym("e" + k)
        return self.dim(s[1]) * self.dim(s[2]) - self.paths(s[1], s[2], self.lab(s[1], s[2], 0)) * self.dim(self.lab(s[1], s[2], 0))

    def paths(self, k1, k2, k3):
        if k3 not in self.product(k1, k2):
            return P(0)
        s = self.struct.get(k3, ("base",))
        if s[0] != "prod" or k1 in ("triv", "trivz") or k2 in ("triv", "trivz") or s[3] == 1:
            return P(1)
        if self.concrete(k1) and self.concrete(k2):
            return P(self.split(self.weights(k1, None), self.weights(k2, None))[0])
        return sym("p" + k3)

    # ---- weights of the model points
    def base_dim(self, k, pt):
        d = self.dims.get(k)
        if isinstance(d, int):
            return d
        return pt.int(sym("d" + k), {})

    @staticmethod
    def split(w1, w2):
        c = Counter(a + b for a in w1 for b in w2)
        two = sorted(w for w, m in c.items() if m >= 2)
        if not two:
            two, p = sorted(c)[: (len(c) + 1) // 2], 1
        else:
            p = 2
        rest = c - Counter({w: p for w in two})
        return p, two, sorted(rest.elements())

    def weights(self, k, pt):
        s = self.struct.get(k, ("base",))
        if s[0] == "triv":
            return [0]
        if s[0] == "base":
            return list(range(self.base_dim(k, pt)))
        p, two, rest = self.split(self.weights(s[1], pt), self.weights(s[2], pt))
        return two if s[3] == 0 else rest

    def sizes(self, pt):
        """values of the symbols which follow from the dimensions of the base labels"""
        for k, s in list(self.struct.items()):
            if s[0] == "prod" and s[3] == 0 and not self.concrete(k):
                p, two, rest = self.split(self.weights(s[1], pt), self.weights(s[2], pt))
                pt.env[("sym", "e" + k)] = len(two)
                pt.env[("sym", "p" + k)] = p

    def G(self, pt, k):
        n = len(self.weights(k, pt))
        if k in ("triv", "trivz"):
            g = C(np.eye(n, dtype=np.int64))
        else:
            g = pt.random([pt.seed, "G", k], (n, n), self.cplx)
        return g, c_inv(g)

    def leaf(self, pt, name, key, shape, node):
        if name == "symX":
            g, gi = self.G(pt, key)
            w = np.array(self.weights(key, pt), dtype=np.int64)
            out = []
            for l in range(shape[0]):
                t = hrand([pt.seed, "t", l]) % PRIME
                out.append(mm(mm(g, C(np.diag(w * t % PRIME))), gi))
            return cstack(out, shape)
        if name == "symH":
            g, gi = self.G(pt, key)
            w = self.weights(key, pt)
            out = []
            for l in range(shape[0]):
                t = hrand([pt.seed, "s", l]) % (PRIME - 2) + 2
                out.append(mm(mm(g, C(np.diag(np.array([pow(t, x, PRIME) for x in w], dtype=np.int64)))), gi))
            return cstack(out, shape)
        if name == "symcg":
            k1, k2, k3 = key
            w1, w2, w3 = (self.weights(k, pt) for k in key)
            g1, g2, g3 = (self.G(pt, k) for k in key)
            out = []
            seen = Counter()
            by = {}
            for i, a in enumerate(w1):
                for j, b in enumerate(w2):
                    by.setdefault(a + b, []).append((i, j))
            s = self.struct.get(k3, ("base",))
            skip = Counter()
            if s[0] == "prod" and s[1] == k1 and s[2] == k2 and s[3] == 1:
                p, two, rest = self.split(w1, w2)
                skip = Counter({w: p for w in two})
            used = Counter(skip)
            for z in range(shape[0]):
                S = np.zeros((len(w3), len(w1), len(w2)), dtype=np.int64)
                for t, w in enumerate(w3):
                    i, j = by[w][used[w]]
                    used[w] += 1
                    S[t, i, j] = 1
                # M = G3 S (G1^-1 x G2^-1); cg[i, j, k] = M[k, (i, j)]
                x = einsum3(g3[0], S, g1[1], g2[1])
                out.append(x)
            return cstack(out, shape)
        return None


def mm(a, b):
    from .tens import Point
    return Point._einsum("ij,jk->ik", [a, b])


def einsum3(g3, S, g1i, g2i):
    from .tens import Point
    r = Point._einsum("ab,bij->aij", [g3, C(S)])
    r = Point._einsum("aij,im->amj", [r, g1i])
    r = Point._einsum("amj,jn->amn", [r, g2i])
    return r.map(lambda z: np.transpose(z, (1, 2, 0)))


def cstack(xs, shape):
    if not xs:
        return C(np.zeros(shape, dtype=np.int64))
    re = np.stack([x.re for x in xs])
    im = np.stack([x.imz() for x in xs])
    return C(re, im if im.any() else None)


def tag(I, kind, k):
    return frozenset([f"{kind}:{k}"]) if I.prog.model.cplx else frozenset()


@ext("lnsa_ii.product")
def _product(I, a, k):
    return PyList(list(I.prog.model.product(a[0], a[1])))


@ext("lnsa_ii.dim")
def _dim(I, a, k):
    m = I.prog.model
    d = m.dim(a[0])
    note(I, d)
    return lift(d)


@ext("lnsa_ii.cg")
def _cg(I, a, k):
    m = I.prog.model
    k1, k2, k3 = a
    sh = (m.paths(k1, k2, k3), m.dim(k1), m.dim(k2), m.dim(k3))
    for s in sh:
        note(I, s)
    return owned(f"{k1}, {k2}, {k3}", ArrVal(T.leaf("symcg", (k1, k2, k3), sh, tag(I, "cg", (k1, k2, k3)))))


def note(I, s):
    for at in poly.walk_atoms(s):
        if poly.akind(at) == "sym":
            I.know.lower[at] = max(0 if at[1] in ("L", "n", "L2", "n2") else 1, I.know.lower.get(at, 0))
    if len(N(s).t) > 1 and not any(N(z) == N(s) - 1 for z in I.know.nonneg):
        I.know.nonneg.append(N(s) - 1)


@ext("lnsa_ii.X")
def _X(I, a, k):
    m = I.prog.model
    d = m.dim(a[0])
    note(I, d)
    return owned(a[0], ArrVal(T.leaf("symX", a[0], (m.lie(a[0]), d, d), tag(I, "X", a[0]) if a[0] not in ("triv", "trivz") else frozenset())))


@ext("lnsa_ii.H")
def _H(I, a, k):
    m = I.prog.model
    d = m.dim(a[0])
    note(I, d)
    return owned(a[0], ArrVal(T.leaf("symH", a[0], (m.disc(a[0]), d, d), tag(I, "H", a[0]) if a[0] not in ("triv", "trivz") else frozenset())))


@ext("lnsa_ii.A")
def _A(I, a, k):
    m = I.prog.model
    L, name = m.lie(a[0]), m.Aname + m.grp(a[0])
    return owned(a[0], ArrVal(T.leaf("A", name, (L, L, L), frozenset([f"A:{name}"]) if m.cplx else frozenset())))


@ext("lnsa_ii.parse")
def _parse(I, a, k):
    return StrV("parsed", (a[0],)) if not isinstance(a[0], str) else a[0]


def install(prog, model):
    prog.model = model
    if "lnsa_stub" not in prog.mods:
        prog.add("lnsa_stub", SOURCE, "<arbitrary tabulated irrep>")
    return prog
