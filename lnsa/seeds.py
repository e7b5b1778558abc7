"""Abstract inputs of the analyses: representations whose arrays are leaves of the value domain."""
from . import poly
from . import tens as T
from .poly import Poly, P, N, sym
from .values import *
from .interp import Program, explore, own_all

SRC = "lie_nn._src."


def pt(x):
    return sym(x) if isinstance(x, str) else P(x)


class Ctx:
    """helper around one interpreter: builds inputs and calls the analysed code"""

    def __init__(self, I):
        self.I = I

    def cls(self, mod, name):
        v = self.I.global_value(mod if mod.startswith("lie_nn") or mod.startswith("lnsa") else SRC + mod, name)
        if v is None:
            raise T.Stuck(f"{mod}.{name} not found")
        return v

    def fn(self, mod, name):
        return self.cls(mod, name)

    def call(self, f, *args, **kw):
        return self.I.call(f, list(args), kw)

    def new(self, cls, *args):
        """an input: labels which its class refuses are none"""
        try:
            return self.call(cls, *args)
        except PyRaise:
            raise PathCut()

    def attr(self, o, name):
        return self.I.getattr(o, name)

    def meth(self, o, name, *args, **kw):
        return self.I.call(self.I.getattr(o, name), list(args), kw)

    # ---- generic representation
    def generic(self, name, L="L", d=None, n="n", A="A", cplx=True, owner=True):
        L, n = pt(L), pt(n)
        d = pt(d if d is not None else "d" + name)
        for s in (L, n, d):
            self.size(s)
        tag = (lambda k: frozenset([f"{k}:{name}"])) if cplx else (lambda k: frozenset())
        o = Obj(self.cls("rep", "GenericRep"), {
            "_A": ArrVal(T.leaf("A", A, (L, L, L), frozenset([f"A:{A}"]) if cplx else frozenset())),
            "_X": ArrVal(T.leaf("X", name, (L, d, d), tag("X"))),
            "_H": ArrVal(T.leaf("H", name, (n, d, d), tag("H"))),
        })
        if owner:
            own_all(o, ("arg", name))
        return o

    def size(self, s, lower=1):
        for a in poly.walk_atoms(s):
            if poly.akind(a) == "sym":
                self.I.know.lower[a] = max(self.I.know.lower.get(a, 0), lower if a[1] not in ("L", "n", "L2", "n2") and not str(a[1]).startswith("m") else 0)

    def mat(self, name, d, e=None, cplx=True, owner=True):
        d = pt(d)
        e = d if e is None else pt(e)
        v = ArrVal(T.leaf("Q", name, (d, e), frozenset([f"Q:{name}"]) if cplx else frozenset()))
        if owner:
            own_all(v, ("arg", name))
        return v

    def mulirrep(self, rep, mul):
        o = Obj(self.cls("reduced_rep", "MulIrrep"), {"mul": lift(pt(mul)) if not isinstance(mul, int) else mul, "rep": rep})
        return o

    def reduced(self, irreps, Q=None, A="A", L="L", cplx=True, name="R"):
        L = pt(L)
        o = Obj(self.cls("reduced_rep", "ReducedRep"), {
            "_A": ArrVal(T.leaf("A", A, (L, L, L), frozenset([f"A:{A}"]) if cplx else frozenset())),
            "irreps": tuple(irreps) if Q is not None else PyList(list(irreps)), "Q": Q})      # both kinds of sequence are in use
        own_all(o, ("arg", name))
        return o

    # ---- reading a representation
    def X(self, rep):
        from .builtins_model import to_node
        return to_node(self.I, self.attr(rep, "X"))

    def H(self, rep):
        from .builtins_model import to_node
        return to_node(self.I, self.attr(rep, "H"))

    def A(self, rep):
        from .builtins_model import to_node
        return to_node(self.I, self.attr(rep, "A"))
