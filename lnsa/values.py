"""Abstract values of the interpreter."""
import itertools

from .poly import Poly, P, N
from . import tens as T

_stamp = itertools.count(1)


def stamp():
    return next(_stamp)


class Sym:
    """symbolic number; ty in int, float, complex"""
    __slots__ = ("p", "ty")

    def __init__(self, p, ty="int"):
        self.p, self.ty = p, ty

    def __repr__(self):
        return f"<{self.p}:{self.ty}>"


def lift(p, ty="int"):
    """Poly -> python number when constant"""
    p = N(p)
    c = p.as_const()
    if c is not None:
        re, im = c
        if im:
            return complex(float(re), float(im))
        if ty == "int":
            if re.denominator == 1:
                return int(re)
            return Sym(p, "float") if abs(re) > 10 ** 9 else float(re)
        if ty == "complex":
            return complex(float(re), 0.0)
        if re.denominator & (re.denominator - 1) == 0 and re.denominator < 2 ** 40:
            return float(re)
        return Sym(p, "float")
    return Sym(p, ty)


class Unknown:
    """no information but the inputs it may depend on"""
    __slots__ = ("deps", "why", "id")

    def __init__(self, deps=frozenset(), why=""):
        self.deps, self.why, self.id = frozenset(deps), why, T.uid()

    def __repr__(self):
        return f"<?{self.why}>"


IXN = {}        # index -> number of its values


class Seg:
    """inside sequences: the items repeated for ix = 0..n-1"""
    __slots__ = ("ix", "n", "items")

    def __init__(self, ix, n, items):
        self.ix, self.n, self.items = ix, n, list(items)
        IXN[ix] = n

    def __repr__(self):
        return f"Seg({self.ix},{self.n},{self.items})"


INF = ("inf",)


class Mut:
    """base of mutable containers"""
    __slots__ = ("born", "owner")

    def __init__(self):
        self.born = stamp()
        self.owner = None


class PyList(Mut):
    __slots__ = ("items", "unknown")

    def __init__(self, items=(), unknown=None):
        super().__init__()
        self.items = list(items)
        self.unknown = unknown          # deps when the content is not known

    def __repr__(self):
        return f"list{self.items}" if self.unknown is None else "list?"


class PySet(Mut):
    __slots__ = ("items", "frozen", "unknown")

    def __init__(self, items=(), frozen=False, unknown=None):
        super().__init__()
        self.items = list(items)
        self.frozen = frozen
        self.unknown = unknown

    def __repr__(self):
        return f"set{self.items}"


class PyDict(Mut):
    __slots__ = ("items", "unknown")

    def __init__(self, items=(), unknown=None):
        super().__init__()
        self.items = list(items)        # [key, value] pairs in order
        self.unknown = unknown

    def __repr__(self):
        return f"dict{self.items}"


class TupleSeg:
    """tuple with repeated segments, or of unknown content"""
    __slots__ = ("items", "unknown")

    def __init__(self, items=(), unknown=None):
        self.items = list(items)
        self.unknown = unknown

    def __repr__(self):
        return f"tuple{self.items}"


class ArrVal(Mut):
    """array cell. base: the cell whose memory it shares (None when it owns its memory)"""
    __slots__ = ("node", "base", "regs", "pred", "deps_extra")

    def __init__(self, node, base=None, regs=None, pred=None):
        super().__init__()
        self.node = node
        self.base = base
        self.regs = regs                # indexing that made the view, when storing through it is supported
        self.pred = pred                # (op, a, b) for comparison results

    @property
    def root(self):
        a = self
        while a.base is not None:
            a = a.base
        return a

    def __repr__(self):
        return f"arr{self.node!r}"


class UArr(Mut):
    """array of unknown shape"""
    __slots__ = ("deps", "base", "cplx")

    def __init__(self, deps=frozenset(), base=None, cplx=frozenset(["c"])):
        super().__init__()
        self.deps, self.base, self.cplx = frozenset(deps), base, cplx

    @property
    def root(self):
        a = self
        while getattr(a, "base", None) is not None:
            a = a.base
        return a


class DT:
    """dtype"""
    __slots__ = ("kind", "cplx")

    def __init__(self, kind="f", cplx=frozenset()):
        self.kind, self.cplx = kind, frozenset(cplx)

    def __repr__(self):
        return f"dtype({self.kind},{set(self.cplx)})"


class Obj(Mut):
    __slots__ = ("cls", "attrs", "tag")

    def __init__(self, cls, attrs=None):
        super().__init__()
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.tag = None

    def __repr__(self):
        return f"{self.cls.name}({', '.join(f'{k}={v!r}' for k, v in self.attrs.items())})"


class ClassVal:
    __slots__ = ("name", "bases", "ns", "annots", "module", "node", "dataclass", "frozen", "dc_eq", "dc_init", "namedtuple", "_mro",
                 "meta")

    def __init__(self, name, bases, ns, annots, module, node):
        self.name, self.bases, self.ns, self.annots, self.module, self.node = name, bases, ns, annots, module, node
        self.dataclass = self.frozen = self.dc_eq = self.namedtuple = False
        self.dc_init = True
        self._mro = None
        self.meta = {}

    def mro(self):
        if self._mro is None:
            seqs = [list(b.mro()) for b in self.bases if isinstance(b, ClassVal)] + [[b for b in self.bases if isinstance(b, ClassVal)]]
            out = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = out
        return self._mro

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return f"<class {self.name}>"


class FuncVal:
    __slots__ = ("node", "module", "env", "name", "qual", "defaults", "kwdefaults", "cls", "cached", "isgen")

    def __init__(self, node, module, env, name, qual, defaults, kwdefaults, cls=None):
        self.node, self.module, self.env, self.name, self.qual = node, module, env, name, qual
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.cached = False
        self.isgen = False

    def __repr__(self):
        return f"<function {self.qual}>"


class Dispatcher:
    __slots__ = ("name", "impls")

    def __init__(self, name, impls):
        self.name, self.impls = name, impls   # impls: list of (types tuple, FuncVal)

    def __repr__(self):
        return f"<dispatch {self.name}>"


class Bound:
    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_

    def __repr__(self):
        return f"<bound {self.fn!r}>"


class Wrap:
    """property, classmethod, staticmethod"""
    __slots__ = ("kind", "fn", "setter")

    def __init__(self, kind, fn):
        self.kind, self.fn, self.setter = kind, fn, None


class Ext:
    """name of an external module, function or type"""
    __slots__ = ("path",)
    _all = {}

    def __new__(cls, path):
        e = cls._all.get(path)
        if e is None:
            e = object.__new__(cls)
            e.path = path
            cls._all[path] = e
        return e

    def __repr__(self):
        return f"<ext {self.path}>"


class ExtObj:
    """object of an external library (regex match, context manager, ...)"""
    __slots__ = ("kind", "data")

    def __init__(self, kind, data=None):
        self.kind, self.data = kind, data

    def __repr__(self):
        return f"<{self.kind}>"


class Meth:
    """bound method of a built-in value"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class ModuleVal:
    __slots__ = ("name", "prog")

    def __init__(self, name, prog):
        self.name, self.prog = name, prog

    def __repr__(self):
        return f"<module {self.name}>"


class RangeVal:
    __slots__ = ("lo", "n", "step")

    def __init__(self, lo, n, step):
        self.lo, self.n, self.step = lo, n, step     # Poly, Poly or INF, Poly


class GenVal:
    __slots__ = ("run", "cache", "born", "pos", "first")

    def __init__(self, run, first=None):
        self.run = run        # run() -> list of entries
        self.first = first    # first() -> first item
        self.cache = None
        self.pos = 0
        self.born = stamp()


class SuperVal:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class SliceVal:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Cond:
    """undecided truth value"""
    __slots__ = ("kind", "args", "deps")

    def __init__(self, kind, args=(), deps=frozenset()):
        self.kind, self.args, self.deps = kind, tuple(args), frozenset(deps)

    def __repr__(self):
        return f"{self.kind}{self.args}"


class StrV:
    """string of unknown content: expression over the input string"""
    __slots__ = ("op", "args")

    def __init__(self, op, args=()):
        self.op, self.args = op, tuple(args)

    def __repr__(self):
        return f"str:{self.op}{self.args}"


class PyRaise(Exception):
    """the analysed code raises"""

    def __init__(self, name, msg="", where=None, value=None):
        super().__init__(f"{name}: {msg}")
        self.name, self.msg, self.where, self.value = name, msg, where, value


class PathCut(Exception):
    """rest of the path is covered by another path"""


class TimeUp(BaseException):
    """time limit of a scenario"""


class Return(Exception):
    def __init__(self, value):
        self.value = value


class Break(Exception):
    pass


class Continue(Exception):
    pass


class FirstYield(Exception):
    def __init__(self, value):
        self.value = value


class LoopFork(Exception):
    """precise loop summary impossible"""


def node_deps(x):
    return x.deps if isinstance(x, T.Arr) else poly_deps(x)


def poly_deps(p):
    fv, deps = set(), set()
    T._collect(p, fv, deps)
    return frozenset(deps)


SETORDER = frozenset([("nondet", "set order")])


def deps_of(v, seen=None, depth=0):
    """inputs a value may depend on"""
    if v is None or isinstance(v, (bool, int, float, complex, str, Ext, ClassVal, FuncVal, ModuleVal, Dispatcher)):
        return frozenset()
    seen = set() if seen is None else seen
    if id(v) in seen or depth > 12:
        return frozenset()
    seen.add(id(v))
    if isinstance(v, ArrVal):
        return v.node.deps
    if isinstance(v, (Unknown, UArr, Cond)):
        return v.deps
    if isinstance(v, Sym):
        return poly_deps(v.p)
    if isinstance(v, (tuple, list)):
        return frozenset().union(*[deps_of(x, seen, depth + 1) for x in v]) if v else frozenset()
    if isinstance(v, (PyList, PySet, TupleSeg)):
        r = frozenset(v.unknown or ())
        for x in v.items:
            r |= deps_of(x, seen, depth + 1)
        return r
    if isinstance(v, PyDict):
        r = frozenset(v.unknown or ())
        for k, x in v.items:
            r |= deps_of(k, seen, depth + 1) | deps_of(x, seen, depth + 1)
        return r
    if isinstance(v, Seg):
        r = poly_deps(v.n) if isinstance(v.n, Poly) else frozenset()
        for x in v.items:
            r |= deps_of(x, seen, depth + 1)
        return r
    if isinstance(v, Obj):
        r = frozenset()
        for x in v.attrs.values():
            r |= deps_of(x, seen, depth + 1)
        return r
    if isinstance(v, Bound):
        return deps_of(v.self, seen, depth + 1)
    if isinstance(v, RangeVal):
        return poly_deps(v.n) | poly_deps(v.lo) if isinstance(v.n, Poly) else poly_deps(v.lo)
    if isinstance(v, ExtObj):
        return deps_of(v.data, seen, depth + 1)
    if isinstance(v, T.Arr):
        return v.deps
    if isinstance(v, Poly):
        return poly_deps(v)
    return frozenset()
