"""Meaning of Python built-ins and of the numpy, scipy, itertools, ... functions used by the analysed source.

Anything not listed is an unknown function: its result is unknown and depends on all its arguments.
"""
import ast
import itertools
import math
from fractions import Fraction

from . import poly
from . import tens as T
from .poly import Poly, P, N, ZERO, ONE, cmp as pcmp, akind, walk_atoms
from .tens import Stuck, ShapeError, uid, Reg
from .values import *
from .interp import LoopFork, DepBox, exc_is, covers, pure, own_all, flat_items

NUM = (bool, int, float, complex, Sym)
INTT, FLOATT, CPLXT = ("int", "int64", "int32", "intp", "integer", "signedinteger", "uint64", "int8"), \
    ("float", "float64", "float32", "floating", "double"), ("complex", "complex128", "complex64", "complexfloating", "cdouble")


# ---------------------------------------------------------------- conversions
def is_num(v):
    return isinstance(v, NUM)


def num_type(v):
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, float):
        return "float"
    if isinstance(v, complex):
        return "complex"
    return v.ty


def join_type(a, b, op=None):
    order = ["bool", "int", "float", "complex"]
    t = order[max(order.index(a), order.index(b))]
    return "int" if t == "bool" else t


def sym_cplx(v):
    if isinstance(v, complex):
        return frozenset(["c"])
    if isinstance(v, Sym) and v.ty == "complex":
        out = frozenset()
        found = False
        for a in walk_atoms(N(v.p)):
            if akind(a) == "elem" and isinstance(a[1], T.Arr):
                out |= a[1].cplx
                found = True
        if any(c[1] for c in N(v.p).t.values()):
            return frozenset(["c"])
        return out if found else frozenset(["c"])
    return frozenset()


def num_node(v):
    if isinstance(v, float) and (v != v or abs(v) == float("inf")):
        return T.ufn("inf", [str(v)], ())
    kind = {"int": "i", "bool": "b"}.get(num_type(v), "f")
    p = N(v.p) if isinstance(v, Sym) else P(v)
    r = p.as_atom()
    if r is not None and akind(r) == "elem" and isinstance(r[1], T.Arr) and not r[2]:
        return r[1]
    return T.const(p, (), kind, sym_cplx(v))


def to_node(I, v, dtype=None):
    """array expression of an array-like value; raises Stuck when unknown"""
    if isinstance(v, ArrVal):
        return v.node
    if is_num(v):
        return num_node(v)
    if isinstance(v, Cond):
        return T.mk("ufn", ("cond", (repr(I.cond_key(v)), DepBox(v.deps))), (), frozenset(), "b")
    if isinstance(v, (PyList, tuple, TupleSeg, GenVal)):
        items = I.iterate(v)
        if items is None:
            raise Stuck("array of unknown content")
        return list_node(I, items)
    if isinstance(v, RangeVal):
        if v.n is INF:
            raise Stuck("infinite range")
        return T.mk("arange", (P(v.lo), P(v.step)), (v.n,), frozenset(), "i")
    if isinstance(v, PySet):
        return T.ufn("object", [DepBox(deps_of(v))], ())
    raise Stuck(f"array from {type(v).__name__} {getattr(v, 'why', '')}")


def list_node(I, items):
    if not items:
        return T.const(0, (0,))
    if len(items) > 6000:
        raise Stuck("large list")
    parts = []
    for x in items:
        if isinstance(x, Seg):
            if len(x.items) != 1 or isinstance(x.items[0], Seg) or x.n is INF:
                raise Stuck("array from nested families")
            parts.append(T.Fam(x.ix, x.n, to_node(I, x.items[0])))
        else:
            parts.append(to_node(I, x))
    arrs = [p.arr if isinstance(p, T.Fam) else p for p in parts]
    if all(not isinstance(p, T.Fam) and p.op == "const" and not p.shape for p in parts) and len({p.args[0] for p in parts}) == 1 \
            and len(parts) > 3:
        k = max((a.kind for a in arrs), key="bif".index)
        return T.const(parts[0].args[0], (len(parts),), k, T.union_c(*arrs))
    r = T.stack(parts, 0)
    kind = max((a.kind for a in arrs), key="bif".index)
    return set_kind(r, kind)


def set_kind(a, kind):
    if a.kind == kind:
        return a
    b = T.mk(a.op, a.args, a.shape, a.cplx, kind) if False else a
    # kind is not part of the identity: copy the node when it differs
    c = T.Arr()
    for s in ("op", "args", "shape", "cplx", "id", "fv", "deps"):
        setattr(c, s, getattr(a, s))
    c.kind = kind
    return c


def arr(node):
    return ArrVal(node)


def ret(I, node):
    return I.scalarise(ArrVal(node))


def shape_arg(I, v):
    if is_num(v):
        return [I.to_poly(v)]
    if isinstance(v, ArrVal) and not v.node.shape:
        return [I.to_poly(v)]
    return [I.to_poly(x) for x in I.seq(v)]


def dtype_of(I, v, default=None):
    """DT of a dtype argument; None when unknown"""
    if v is None:
        return default
    if isinstance(v, DT):
        return v
    if isinstance(v, str):
        n = v
    elif isinstance(v, Ext):
        n = v.path.split(".")[-1].rstrip("_")
    else:
        return None
    if n in INTT:
        return DT("i")
    if n in FLOATT:
        return DT("f")
    if n in CPLXT:
        return DT("f", frozenset(["c"]))
    if n == "bool":
        return DT("b")
    if n == "object":
        return DT("o", frozenset(["c"]))
    return None


def unknown_arr(*vals):
    return UArr(deps_of(list(vals)))


def const_elems(node):
    """numbers of a constant array (nested lists) or None"""
    if node.op == "const":
        c = node.args[0].as_const()
        n = [s.as_int() for s in node.shape]
        if c is None or any(x is None for x in n):
            return None

        def mkl(d):
            if not d:
                return c[0] if not c[1] else complex(c[0], c[1])
            return [mkl(d[1:]) for _ in range(d[0])]
        return mkl(n)
    if node.op == "stack" and node.args[0] == 0:
        out = []
        for p in node.args[1]:
            if isinstance(p, T.Fam):
                return None
            e = const_elems(p)
            if e is None:
                return None
            out.append(e)
        return out
    if node.op == "arange" and len(node.shape) == 1:
        n, lo, st = node.shape[0].as_int(), node.args[0].as_frac(), node.args[1].as_frac()
        if None in (n, lo, st):
            return None
        return [lo + st * k for k in range(n)]
    return None


# ---------------------------------------------------------------- isinstance
ABC = {"Iterable", "Sequence", "Callable", "Iterator", "Mapping", "Hashable", "Sized", "Collection", "Container"}


def isinstance_(I, v, t):
    if isinstance(t, (tuple, PyList)):
        conds = []
        for x in (t if isinstance(t, tuple) else t.items):
            r = isinstance_(I, v, x)
            if r is True:
                return True
            if r is not False:
                conds.append(r)
        return conds[0] if conds else False
    if isinstance(v, Unknown):
        return Cond("isinstance", (v.id, repr(t)), v.deps)
    if isinstance(t, ClassVal):
        if isinstance(v, Obj):
            return t in v.cls.mro()
        return False
    if isinstance(t, Unknown):
        return Cond("isinstance", (id(v), repr(t)), deps_of(v))
    if t is None:
        raise PyRaise("TypeError", "isinstance() arg 2 must be a type", I.where())
    if not isinstance(t, Ext):
        if isinstance(t, DT):
            return False
        raise Stuck(f"isinstance {t!r}")
    n = t.path.split(".")[-1]
    mod = t.path.rsplit(".", 1)[0]
    if n == "object":
        return True
    if n == "NoneType":
        return v is None
    if isinstance(v, StrV):
        return n == "str"
    if isinstance(v, Cond):
        return n in ("bool", "int", "bool_")
    if isinstance(v, str):
        return n in ("str", "Iterable", "Sequence", "Hashable", "Sized", "Collection", "Container")
    if isinstance(v, bool):
        return n in ("bool", "int", "Integral", "Number", "Real", "Rational", "Complex", "Hashable")
    if isinstance(v, (int, float, complex, Sym)):
        ty = num_type(v)
        fromarr = isinstance(v, Sym) and any(akind(a) == "elem" for a in walk_atoms(N(v.p)))
        if ty == "int":
            if n == "int" and mod == "builtins":
                return True if not fromarr else False
            if n in ("Integral", "Number", "Real", "Rational", "Complex", "Hashable", "SupportsIndex"):
                return True
            if mod == "numpy" and n in INTT + ("generic", "number"):
                return bool(fromarr)
            return False
        if ty == "float":
            if n == "float" and mod == "builtins":
                return True
            if n in ("Number", "Real", "Complex", "Hashable"):
                return True
            if mod == "numpy" and n in FLOATT + ("generic", "number"):
                return bool(fromarr)
            return False
        if n == "complex" and mod == "builtins":
            return True
        if n in ("Number", "Complex", "Hashable"):
            return True
        if mod == "numpy" and n in CPLXT + ("generic", "number"):
            return bool(fromarr)
        return False
    if isinstance(v, (tuple, TupleSeg)):
        return n in ("tuple", "Iterable", "Sequence", "Sized", "Collection", "Container", "Hashable")
    if isinstance(v, PyList):
        return n in ("list", "Iterable", "Sequence", "Sized", "Collection", "Container")
    if isinstance(v, PyDict):
        return n in ("dict", "Iterable", "Mapping", "Sized", "Collection", "Container")
    if isinstance(v, PySet):
        return n in (("frozenset",) if v.frozen else ("set",)) + ("Set", "Iterable", "Sized", "Collection", "Container")
    if isinstance(v, (ArrVal, UArr)):
        return n in ("ndarray", "Array", "Iterable", "Sized", "Collection", "Container")
    if isinstance(v, (FuncVal, Bound, Meth, Dispatcher)):
        return n in ("Callable", "FunctionType", "MethodType", "Hashable")
    if isinstance(v, GenVal):
        return n in ("Iterator", "Iterable", "Generator", "GeneratorType")
    if isinstance(v, (RangeVal, range)):
        return n in ("range", "Iterable", "Sequence", "Sized", "Collection", "Container", "Hashable")
    if isinstance(v, ClassVal):
        return n in ("type", "Callable", "Hashable")
    if isinstance(v, Obj):
        if n in ("tuple",) and v.cls.namedtuple:
            return True
        if n in ("Callable",):
            return v.cls.lookup("__call__")[0] is not None
        return any(isinstance(b, Ext) and b.path == t.path for c in v.cls.mro() for b in c.bases)
    if isinstance(v, Ext):
        return n in ("type", "Callable")
    return False


def type_of(I, v):
    if isinstance(v, Obj):
        return v.cls
    for ty, n in ((bool, "bool"), (int, "int"), (float, "float"), (complex, "complex"), (str, "str"), (tuple, "tuple"), (PyList, "list"),
                  (PyDict, "dict"), (ClassVal, "type"), (StrV, "str"), (TupleSeg, "tuple")):
        if isinstance(v, ty):
            return Ext("builtins." + n)
    if isinstance(v, Sym):
        return Ext("builtins." + v.ty)
    if isinstance(v, PySet):
        return Ext("builtins.frozenset" if v.frozen else "builtins.set")
    if isinstance(v, (ArrVal, UArr)):
        return Ext("numpy.ndarray")
    if v is None:
        return Ext("types.NoneType")
    return Unknown(deps_of(v), "type")


# ---------------------------------------------------------------- operators
DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "MatMult": "matmul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod",
          "Pow": "pow", "BitOr": "or", "BitAnd": "and", "BitXor": "xor", "LShift": "lshift", "RShift": "rshift"}


def binop(I, op, a, b):
    if isinstance(a, Obj) or isinstance(b, Obj):
        d = DUNDER[op]
        if isinstance(a, Obj):
            m, _ = a.cls.lookup(f"__{d}__")
            if m is not None:
                r = I.call(Bound(m, a), [b], {})
                if not (isinstance(r, Ext) and r.path == "builtins.NotImplemented"):
                    return r
        if isinstance(b, Obj):
            m, _ = b.cls.lookup(f"__r{d}__")
            if m is not None:
                return I.call(Bound(m, b), [a], {})
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return Unknown(deps_of([a, b]), "operator")
        raise PyRaise("TypeError", f"unsupported operand types for {op}: {I.type_name(a)} and {I.type_name(b)}", I.where())
    if isinstance(a, StrV) or isinstance(b, StrV):
        if op == "Add" and isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
            return StrV("concat", (a, b))
        return Unknown(why="string operator")
    if isinstance(a, (Unknown, ExtObj, Ext)) or isinstance(b, (Unknown, ExtObj, Ext)):
        other = b if isinstance(a, (Unknown, ExtObj, Ext)) else a
        if isinstance(other, (ArrVal, UArr)):
            return UArr(deps_of([a, b]))
        return Unknown(deps_of([a, b]), "operator")
    if isinstance(a, UArr) or isinstance(b, UArr):
        return UArr(deps_of([a, b]), cplx=(a.cplx if isinstance(a, UArr) else frozenset()) | (b.cplx if isinstance(b, UArr) else frozenset())
                    | (a.node.cplx if isinstance(a, ArrVal) else frozenset()) | (b.node.cplx if isinstance(b, ArrVal) else frozenset()))
    if isinstance(a, Cond):
        if isinstance(b, (Cond, bool)) and op in ("BitAnd", "BitOr"):
            return cond_join(I, "and" if op == "BitAnd" else "or", a, b)
        a = cond_num(a)
    if isinstance(b, Cond):
        if isinstance(a, bool) and op in ("BitAnd", "BitOr"):
            return cond_join(I, "and" if op == "BitAnd" else "or", a, b)
        b = cond_num(b)
    if isinstance(a, ArrVal) or isinstance(b, ArrVal):
        return arr_binop(I, op, a, b)
    if is_num(a) and is_num(b):
        return num_binop(I, op, a, b)
    if isinstance(a, str):
        if op == "Add" and isinstance(b, str):
            return a + b
        if op == "Mult" and isinstance(b, int):
            return a * b
        if op == "Mod":
            return "?"
    if isinstance(b, str) and op == "Mult" and isinstance(a, int):
        return a * b
    seqs = (tuple, TupleSeg, PyList)
    if op == "Add" and isinstance(a, seqs) and isinstance(b, seqs):
        if isinstance(a, PyList) != isinstance(b, PyList):
            raise PyRaise("TypeError", "can only concatenate the same kind of sequence", I.where())
        x, y = I.iterate(a), I.iterate(b)
        d = None if x is not None and y is not None else deps_of([a, b])
        if isinstance(a, PyList):
            return PyList(x + y) if d is None else PyList([], d)
        return I.make_tuple(x + y) if d is None else TupleSeg([], d)
    if op == "Mult" and (isinstance(a, seqs) or isinstance(b, seqs)):
        s, k = (a, b) if isinstance(a, seqs) else (b, a)
        x = I.iterate(s)
        if x is None:
            return PyList([], deps_of([a, b])) if isinstance(s, PyList) else TupleSeg([], deps_of([a, b]))
        i = I.as_index(k)
        if i is None:
            if isinstance(k, Sym):
                seg = [Seg(T.new_ix(), N(k.p), x)]
                return PyList(seg) if isinstance(s, PyList) else TupleSeg(seg)
            raise PyRaise("TypeError", "can't multiply sequence", I.where())
        return PyList(x * i) if isinstance(s, PyList) else I.make_tuple(x * i)
    if isinstance(a, PySet) and isinstance(b, PySet):
        return set_op(I, {"BitOr": "union", "BitAnd": "intersection", "Sub": "difference", "BitXor": "symmetric_difference"}.get(op), a, b)
    if isinstance(a, PyDict) and isinstance(b, PyDict) and op == "BitOr":
        r = PyDict([list(x) for x in a.items], a.unknown)
        for k, v in b.items:
            I.setitem(r, k, v)
        return r
    if isinstance(a, seqs) and isinstance(b, NUM) or isinstance(b, seqs) and isinstance(a, NUM):
        raise PyRaise("TypeError", f"unsupported operand types for {op}", I.where())
    raise PyRaise("TypeError", f"unsupported operand types for {op}: {I.type_name(a)} and {I.type_name(b)}", I.where())


def cond_num(c):
    return Sym(Poly.atom(("unk", c.kind, DepBox(c.deps), str(id(c)))), "int")


def cond_join(I, k, a, b):
    conds = []
    for x in (a, b):
        d = I.decide(x)
        if d is (k == "or"):
            return d
        if d is None:
            conds.append(I.as_cond(x))
    if not conds:
        return k == "and"
    return conds[0] if len(conds) == 1 else Cond(k, conds, deps_of(conds))


def num_binop(I, op, a, b):
    if isinstance(a, (bool, int, float, complex)) and isinstance(b, (bool, int, float, complex)):
        if op == "Pow" and isinstance(a, (int, float)) and b in (0.5, -0.5) and a >= 0:
            r = lift(poly.mk_sqrt(P(a)), "float")       # roots stay exact
            return r if b > 0 else num_binop(I, "Div", 1, r)
        try:
            if op == "Add":
                return a + b
            if op == "Sub":
                return a - b
            if op == "Mult":
                return a * b
            if op == "FloorDiv":
                return a // b
            if op == "Mod":
                return a % b
            if op == "BitOr":
                return a | b
            if op == "BitAnd":
                return a & b
            if op == "BitXor":
                return a ^ b
            if op == "LShift":
                return a << b
            if op == "RShift":
                return a >> b
            if op == "Div":
                if b == 0:
                    raise ZeroDivisionError
                return a / b if not (isinstance(a, int) and isinstance(b, int)) or a % b == 0 or True else None
            if op == "Pow":
                if isinstance(a, int) and isinstance(b, int) and abs(b) > 4000:
                    raise Stuck("large power")
                return a ** b
        except ZeroDivisionError:
            raise PyRaise("ZeroDivisionError", "division by zero", I.where())
        except (TypeError, OverflowError, ValueError) as e:
            raise PyRaise(type(e).__name__, str(e), I.where())
    ty = join_type(num_type(a), num_type(b))
    try:
        pa, pb = I.to_poly(a), I.to_poly(b)
    except Stuck:
        return Unknown(deps_of([a, b]), "number")
    if op == "Add":
        return lift(pa + pb, ty)
    if op == "Sub":
        return lift(pa - pb, ty)
    if op == "Mult":
        return lift(pa * pb, ty)
    if op == "Div":
        ty = "complex" if ty == "complex" else "float"
        if N(pb).is_zero():
            raise PyRaise("ZeroDivisionError", "division by zero", I.where())
        c = N(pb).as_const()
        if c is not None and not c[1]:
            return lift(pa * P(1 / c[0]), ty)
        return lift(pa * p_inverse(pb), ty)
    if op == "FloorDiv":
        if N(pb).is_zero():
            raise PyRaise("ZeroDivisionError", "division by zero", I.where())
        return lift(poly.mk_floordiv(pa, pb), ty)
    if op == "Mod":
        if N(pb).is_zero():
            raise PyRaise("ZeroDivisionError", "modulo by zero", I.where())
        return lift(poly.mk_mod(pa, pb), ty)
    if op == "Pow":
        n = N(pb).as_int()
        if n is not None and n < 0 and ty == "int":
            ty = "float"
        if ty == "int" and n is None:
            if pcmp(">=", pb, 0) is not True:
                ty = "int"
        return lift(poly.mk_pow(pa, pb), ty)
    if op == "BitAnd" and N(pb).as_int() == 1:
        return lift(poly.mk_mod(pa, P(2)), "int")
    if op == "RShift" and N(pb).as_int() is not None:
        return lift(poly.mk_floordiv(pa, P(2 ** N(pb).as_int())), "int")
    if op == "LShift" and N(pb).as_int() is not None:
        return lift(pa * P(2 ** N(pb).as_int()), "int")
    return Sym(Poly.atom(("ufn", op, pa, pb)), ty)


def p_inverse(p):
    p = N(p)
    i = p.inverse()
    return i if i is not None else Poly.atom(("inv", p))


def arr_binop(I, op, a, b):
    try:
        x, y = to_node(I, a), to_node(I, b)
    except Stuck:
        return UArr(deps_of([a, b]))
    if op == "MatMult":
        if not x.shape or not y.shape:
            raise PyRaise("ValueError", "matmul with a scalar", I.where())
        return ret(I, T.matmul(x, y))
    kind = "i" if x.kind in "ib" and y.kind in "ib" else "f"
    if op == "Add":
        r = T.add(x, y)
    elif op == "Sub":
        r = T.add(x, y, -1)
    elif op == "Mult":
        if not x.shape and is_num(a):
            r = T.scale(y, I.to_poly(a))
            if sym_cplx(a) - r.cplx:
                r = T.mul(x, y)
        elif not y.shape and is_num(b):
            r = T.scale(x, I.to_poly(b))
            if sym_cplx(b) - r.cplx:
                r = T.mul(x, y)
        else:
            r = T.mul(x, y)
    elif op == "Div":
        kind = "f"
        if not y.shape and y.op == "const":
            c = y.args[0].as_const()
            if c is not None and not c[1] and c[0]:
                r = T.scale(x, P(1 / c[0]))
            else:
                r = T.div(x, y)
        else:
            r = T.div(x, y)
    elif op == "Pow":
        n = I.as_index(b)
        if n is not None and 0 <= n <= 6:
            if n == 0:
                r = T.const(1, x.shape)
            else:
                r = x
                for _ in range(n - 1):
                    r = T.mul(r, x)
        elif b == 0.5:
            r = T.elementwise("sqrt", [x])
        else:
            r = T.elementwise("pow", [x, y])
    elif op in ("BitAnd", "BitOr", "BitXor"):
        r = T.elementwise(op, [x, y], frozenset())
        out = ArrVal(set_kind(r, "b" if "b" in (x.kind, y.kind) else "i"))
        if isinstance(a, ArrVal) and isinstance(b, ArrVal) and a.pred and b.pred:
            out.pred = (op, a.pred, b.pred)
        return out
    else:
        r = T.elementwise(op, [x, y], frozenset() if op in ("FloorDiv", "Mod") else None)
    return ret(I, set_kind(r, kind))


# ---------------------------------------------------------------- comparisons
CMP = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}


def negate(I, c):
    d = I.decide(c)
    if d is not None:
        return not d
    if isinstance(c, ArrVal):
        r = ArrVal(set_kind(T.elementwise("not", [c.node], frozenset()), "b"))
        r.pred = ("not", c.pred) if c.pred else None
        return r
    return Cond("not", (I.as_cond(c),), deps_of(c))


def equal(I, a, b):
    """a == b as bool, Cond, or array"""
    if a is b and not isinstance(a, (ArrVal, UArr, Unknown)) and not isinstance(a, Obj):
        return True
    if isinstance(a, Obj) or isinstance(b, Obj):
        if isinstance(a, (Unknown,)) or isinstance(b, (Unknown,)):
            return Cond("truth", (uid(),), deps_of([a, b]))
        return obj_equal(I, a, b)
    if isinstance(a, (Unknown, UArr, ExtObj)) or isinstance(b, (Unknown, UArr, ExtObj)):
        if (a is None or b is None) and isinstance(a if b is None else b, UArr):
            return False
        if isinstance(a, UArr) or isinstance(b, UArr):
            return UArr(deps_of([a, b]), cplx=frozenset())
        return Cond("truth", (("eq", getattr(a, "id", id(a)), getattr(b, "id", id(b))),), deps_of([a, b]))
    if isinstance(a, StrV) or isinstance(b, StrV):
        if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
            return Cond("streq", (a, b))
        return False
    if isinstance(a, DT) or isinstance(b, DT):
        return dtype_equal(I, a, b)
    if isinstance(a, ArrVal) or isinstance(b, ArrVal):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return False
        return arr_compare(I, "==", a, b)
    if isinstance(a, Cond) and isinstance(b, bool):
        return a if b else Cond("not", (a,), a.deps)
    if isinstance(b, Cond) and isinstance(a, bool):
        return b if a else Cond("not", (b,), b.deps)
    if is_num(a) and is_num(b):
        return num_compare(I, "==", a, b)
    if is_num(a) or is_num(b) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if type(a) is type(b):
            return a == b
        return False
    seqs = (tuple, TupleSeg, PyList)
    if isinstance(a, seqs) and isinstance(b, seqs):
        if isinstance(a, PyList) != isinstance(b, PyList):
            return False
        x, y = I.iterate(a), I.iterate(b)
        if x is None or y is None:
            return Cond("truth", (uid(),), deps_of([a, b]))
        if any(isinstance(v, Seg) for v in x + y):
            la, lb = I.length(a), I.length(b)
            if pcmp("==", I.to_poly(la), I.to_poly(lb)) is False:
                return False
            if repr(x) == repr(y):
                return True
            return Cond("truth", (uid(),), deps_of([a, b]))
        if len(x) != len(y):
            return False
        conds = []
        for u, v in zip(x, y):
            c = equal(I, u, v)
            d = I.decide(c)
            if d is False:
                return False
            if d is None:
                conds.append(I.as_cond(c))
        if not conds:
            return True
        return conds[0] if len(conds) == 1 else Cond("and", conds, deps_of(conds))
    if isinstance(a, PySet) and isinstance(b, PySet):
        if a.unknown is None and b.unknown is None:
            if len(a.items) != len(b.items):
                return False
            for u in a.items:
                rs = [I.decide(equal(I, u, v)) for v in b.items]
                if any(r is True for r in rs):
                    continue
                if all(r is False for r in rs):
                    return False
                return Cond("truth", (uid(),), deps_of([a, b]))
            return True
        return Cond("truth", (uid(),), deps_of([a, b]))
    if isinstance(a, PyDict) and isinstance(b, PyDict):
        return Cond("truth", (uid(),), deps_of([a, b]))
    if isinstance(a, (RangeVal, range)) or isinstance(b, (RangeVal, range)):
        return Cond("truth", (uid(),), deps_of([a, b]))
    if isinstance(a, (ClassVal, FuncVal, Ext, ModuleVal)) or isinstance(b, (ClassVal, FuncVal, Ext, ModuleVal)):
        return a is b
    if type(a) is not type(b):
        return False
    return a is b


def obj_equal(I, a, b):
    if a is b and isinstance(a, Obj):
        m, _ = a.cls.lookup("__eq__")
        if m is None:
            return True
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Obj):
            for c in x.cls.mro():
                if "__eq__" in c.ns:
                    r = I.call(Bound(c.ns["__eq__"], x), [y], {})
                    if not (isinstance(r, Ext) and r.path == "builtins.NotImplemented"):
                        return r
                    break
                if c.dataclass and c.dc_eq:
                    if not isinstance(y, Obj) or y.cls is not x.cls:
                        break
                    ks = [n for n, _ in I.dataclass_fields(c)]
                    return equal(I, tuple(x.attrs.get(k) for k in ks), tuple(y.attrs.get(k) for k in ks))
                if c.namedtuple:
                    return equal(I, tuple(x.attrs.values()), tuple(y.attrs.values()) if isinstance(y, Obj) else y)
    return a is b


def dtype_equal(I, a, b):
    x, y = dtype_of(I, a), dtype_of(I, b)
    if x is None or y is None:
        return Cond("truth", (uid(),), frozenset())
    if x.kind != y.kind:
        return False
    if x.cplx == y.cplx:
        return True
    if "c" in x.cplx and "c" in y.cplx:
        return True
    # symbolic complexness: both are possible
    sa, sb = x.cplx, y.cplx
    return Cond("dtype", (tuple(sorted(map(str, sa))), tuple(sorted(map(str, sb)))), frozenset())


def num_compare(I, op, a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        try:
            return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b,
                    ">=": lambda: a >= b}[op]()
        except TypeError as e:
            raise PyRaise("TypeError", str(e), I.where())
    for x, y, s in ((a, b, 1), (b, a, -1)):
        if isinstance(x, float) and abs(x) == float("inf"):
            if op in ("==", "!="):
                return op == "!="
            less = (x < 0) == (s == 1)
            return {"<": less, "<=": less, ">": not less, ">=": not less}[op]
    try:
        pa, pb = I.to_poly(a), I.to_poly(b)
    except Stuck:
        return Cond("truth", (uid(),), deps_of([a, b]))
    r = pcmp(op, pa, pb)
    if r is not None:
        return r
    c = Cond("cmp", (op, N(pa), N(pb)), deps_of([a, b]))
    d = I.decide(c)
    return c if d is None else d


def arr_compare(I, op, a, b):
    try:
        x, y = to_node(I, a), to_node(I, b)
    except Stuck:
        return UArr(deps_of([a, b]), cplx=frozenset())
    try:
        sh = T.bshape(x.shape, y.shape)
    except ShapeError:
        if op in ("==", "!="):
            raise PyRaise("ValueError", "operands could not be compared", I.where())
        raise
    node = set_kind(T.mk("emap", (op, (x, y)), sh, frozenset(), "b"), "b")
    return ArrVal(node, pred=(op, x, y))


def compare(I, op, a, b):
    if op == "Is" or op == "IsNot":
        r = is_same(I, a, b)
        if isinstance(r, bool):
            return r if op == "Is" else not r
        return r if op == "Is" else Cond("not", (r,), r.deps)
    if op == "In" or op == "NotIn":
        r = contains(I, a, b)
        return r if op == "In" else negate(I, r)
    if op == "Eq":
        return equal(I, a, b)
    if op == "NotEq":
        if isinstance(a, Obj):
            m, _ = a.cls.lookup("__ne__")
            if m is not None:
                return I.call(Bound(m, a), [b], {})
        if isinstance(a, ArrVal) or isinstance(b, ArrVal):
            if a is not None and b is not None and not isinstance(a, (UArr, Unknown)) and not isinstance(b, (UArr, Unknown)):
                return arr_compare(I, "!=", a, b)
        r = equal(I, a, b)
        if isinstance(r, Cond) and r.kind == "cmp" and r.args[0] == "==":
            return Cond("cmp", ("!=",) + r.args[1:], r.deps)
        return negate(I, r)
    o = CMP[op]
    if isinstance(a, Obj) or isinstance(b, Obj):
        return obj_order(I, o, a, b)
    if isinstance(a, (Unknown, UArr)) or isinstance(b, (Unknown, UArr)):
        if isinstance(a, UArr) or isinstance(b, UArr):
            return UArr(deps_of([a, b]), cplx=frozenset())
        return Cond("truth", (uid(),), deps_of([a, b]))
    if isinstance(a, ArrVal) or isinstance(b, ArrVal):
        return arr_compare(I, o, a, b)
    if isinstance(a, Cond):
        a = cond_num(a)
    if isinstance(b, Cond):
        b = cond_num(b)
    if is_num(a) and is_num(b):
        return num_compare(I, o, a, b)
    if isinstance(a, str) and isinstance(b, str):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
    seqs = (tuple, TupleSeg, PyList)
    if isinstance(a, seqs) and isinstance(b, seqs):
        x, y = I.iterate(a), I.iterate(b)
        if x is None or y is None or any(isinstance(v, Seg) for v in x + y):
            return Cond("truth", (uid(),), deps_of([a, b]))
        for u, v in zip(x, y):
            c = equal(I, u, v)
            d = I.decide(c)
            if d is None:
                d = I.fork(c)
            if not d:
                return compare(I, {"<=": "Lt", ">=": "Gt", "<": "Lt", ">": "Gt"}[o], u, v)
        return {"<": len(x) < len(y), "<=": len(x) <= len(y), ">": len(x) > len(y), ">=": len(x) >= len(y)}[o]
    if isinstance(a, PySet) and isinstance(b, PySet):
        return Cond("truth", (uid(),), deps_of([a, b]))
    raise PyRaise("TypeError", f"'{o}' not supported between {I.type_name(a)} and {I.type_name(b)}", I.where())


def obj_order(I, o, a, b):
    name = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}
    refl = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}
    for x, y, oo in ((a, b, o), (b, a, refl[o])):
        if isinstance(x, Obj):
            m, _ = x.cls.lookup(name[oo])
            if m is not None:
                r = I.call(Bound(m, x), [y], {})
                if not (isinstance(r, Ext) and r.path == "builtins.NotImplemented"):
                    return r
            elif x.cls.meta.get("order") and isinstance(y, Obj) and y.cls is x.cls:
                return compare(I, {"<": "Lt", "<=": "LtE", ">": "Gt", ">=": "GtE"}[oo], tuple(x.attrs.values()), tuple(y.attrs.values()))
            elif any(c.meta.get("total_ordering") for c in x.cls.mro()):
                lt, _ = x.cls.lookup("__lt__")
                if lt is not None:
                    l = I.call(Bound(lt, x), [y], {})
                    e = equal(I, x, y)
                    if oo == "<=":
                        return cond_join(I, "or", I.as_cond(l), I.as_cond(e))
                    if oo == ">":
                        return cond_join(I, "and", negate(I, l), negate(I, e))
                    if oo == ">=":
                        return negate(I, l)
            elif x.cls.namedtuple and isinstance(y, Obj):
                return compare(I, {"<": "Lt", "<=": "LtE", ">": "Gt", ">=": "GtE"}[oo], tuple(x.attrs.values()), tuple(y.attrs.values()))
    if isinstance(a, Unknown) or isinstance(b, Unknown):
        return Cond("truth", (uid(),), deps_of([a, b]))
    raise PyRaise("TypeError", f"'{o}' not supported between instances of {I.type_name(a)} and {I.type_name(b)}", I.where())


def is_same(I, a, b):
    if a is b:
        return True
    if isinstance(a, Unknown) or isinstance(b, Unknown):
        u = a if isinstance(a, Unknown) else b
        o = b if u is a else a
        return Cond("is", (u.id, o if isinstance(o, (int, str, bool, type(None))) else id(o)), deps_of([a, b]))
    if a is None or b is None:
        o = b if a is None else a
        if isinstance(o, ExtObj) and o.kind == "match":
            return Cond("not", (Cond("match", o.data),))
        return False
    if isinstance(a, (bool, int, str)) and isinstance(b, (bool, int, str)) and type(a) is type(b):
        return a == b
    if isinstance(a, Cond) and isinstance(b, bool):
        return a if b else Cond("not", (a,), a.deps)
    if isinstance(a, Sym) or isinstance(b, Sym):
        return Cond("truth", (uid(),), deps_of([a, b]))
    return False


def contains(I, x, c):
    if isinstance(c, PyDict):
        items = None if c.unknown is not None else [k for k, _ in c.items]
    elif isinstance(c, str):
        if isinstance(x, str):
            return x in c
        if isinstance(x, StrV):
            return Cond("strin", (x, tuple(c)))
        raise PyRaise("TypeError", "'in <string>' requires string", I.where())
    elif isinstance(c, StrV):
        return Cond("substr", (x, c))
    elif isinstance(c, (Unknown, UArr, ExtObj)):
        return Cond("truth", (uid(),), deps_of([x, c]))
    elif isinstance(c, ArrVal):
        return Cond("truth", (uid(),), deps_of([x, c]))
    elif isinstance(c, Obj):
        m, _ = c.cls.lookup("__contains__")
        if m is not None:
            return I.call(Bound(m, c), [x], {})
        items = I.iterate(c)
    elif isinstance(c, (RangeVal, range)) and isinstance(x, (int, Sym)):
        if isinstance(c, range):
            return Cond("truth", (uid(),), deps_of(x)) if isinstance(x, Sym) else x in c
        conds = []
        for k in (Cond("cmp", (">=", I.to_poly(x), c.lo)), Cond("cmp", ("<", I.to_poly(x), c.lo + c.n))):
            d = I.decide(k)
            if d is False:
                return False
            if d is None:
                conds.append(k)
        if N(c.step).as_int() != 1:
            return Cond("truth", (uid(),), deps_of([x, c]))
        return True if not conds else (conds[0] if len(conds) == 1 else Cond("and", conds))
    else:
        items = I.iterate(c)
    if items is None or any(isinstance(i, Seg) for i in items):
        return Cond("member", (uid(), x, tuple(items or (Unknown(),))), deps_of([x, c]))
    if isinstance(x, StrV) and items and all(isinstance(i, str) for i in items):
        return Cond("strin", (x, tuple(items)))
    conds = []
    for y in items:
        if x is y:
            return True
        e = equal(I, y, x)
        d = I.decide(e)
        if d is True:
            return True
        if d is None:
            conds.append(I.as_cond(e))
    if not conds:
        return False
    return conds[0] if len(conds) == 1 else Cond("or", conds, deps_of(conds))


def set_op(I, name, a, b):
    if a.unknown is not None or b.unknown is not None or name is None:
        return PySet([], a.frozen, deps_of([a, b]))

    def member(x, s):
        rs = [I.decide(equal(I, x, y)) for y in s.items if not isinstance(y, Seg)]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs) and len(rs) == len(s.items):
            return False
        return None
    ma = [(x, member(x, b)) for x in a.items]
    mb = [(x, member(x, a)) for x in b.items]
    if any(m is None for _, m in ma + mb):
        return PySet([], a.frozen, deps_of([a, b]))
    if name == "union":
        out = a.items + [x for x, m in mb if not m]
    elif name == "intersection":
        out = [x for x, m in ma if m]
    elif name == "difference":
        out = [x for x, m in ma if not m]
    else:
        out = [x for x, m in ma if not m] + [x for x, m in mb if not m]
    return PySet(out, a.frozen)


# ---------------------------------------------------------------- array indexing
def norm_index(I, a, k):
    """list of index entries, Ellipsis expanded"""
    ks = list(k) if isinstance(k, tuple) else [k]
    nd = len(a.node.shape)

    def consumed(x):
        if x is None:
            return 0
        if isinstance(x, (ArrVal,)) and x.node.kind == "b":
            return len(x.node.shape)
        return 1
    n = sum(consumed(x) for x in ks if x is not Ellipsis)
    if n > nd:
        raise PyRaise("IndexError", "too many indices for array", I.where())
    if any(x is Ellipsis for x in ks):
        i = next(i for i, x in enumerate(ks) if x is Ellipsis)
        ks = ks[:i] + [SliceVal(None, None, None)] * (nd - n) + ks[i + 1:]
    else:
        ks = ks + [SliceVal(None, None, None)] * (nd - n)
    return ks


def clampidx(I, x, n, default):
    """slice bound as a polynomial in 0..n"""
    if x is None:
        return default
    if isinstance(x, Unknown):
        raise Stuck("unknown slice bound")
    p = I.to_poly(x)
    neg = pcmp("<", p, 0)
    if neg is None:
        # a symbol of unknown sign: decide by path
        neg = not I.truth(Cond("cmp", (">=", N(p), ZERO)))
    if neg:
        p = p + n
        if pcmp(">=", p, 0) is True:
            return N(p)
        return poly.mk_minmax("max", p, ZERO)
    c = pcmp("<=", p, n)
    if c is True:
        return N(p)
    if c is False:
        return N(n)
    return poly.mk_minmax("min", p, n)


def slice_reg(I, s, n):
    n = N(n)
    st = s.step
    if isinstance(st, Sym):
        raise Stuck("symbolic step")
    st = 1 if st is None else int(st)
    if st > 0:
        lo = clampidx(I, s.lo, n, ZERO)
        hi = clampidx(I, s.hi, n, n)
        if s.lo is None and s.hi is None and st == 1:
            return Reg("full")
        d = N(hi - lo)
        size = d if pcmp(">=", d, 0) is True else poly.mk_minmax("max", d, ZERO)
        if pcmp("<=", d, 0) is True:
            size = ZERO
        if st > 1:
            size = poly.mk_floordiv(size + (st - 1), P(st))
        return Reg("slice", lo, size, st)
    if s.lo is None and s.hi is None and st == -1:
        return Reg("slice", n - 1, n, -1)
    cn = n.as_int()
    lo = None if s.lo is None else I.as_index(s.lo)
    hi = None if s.hi is None else I.as_index(s.hi)
    if cn is None or (s.lo is not None and lo is None) or (s.hi is not None and hi is None):
        raise Stuck("reversed slice")
    r = range(*slice(lo, hi, st).indices(cn))
    return Reg("slice", r.start if len(r) else 0, len(r), st)


def int_index(I, x, n):
    p = I.to_poly(x)
    c = N(p).as_frac()
    if isinstance(x, (float, complex)) or isinstance(x, Sym) and x.ty != "int" or c is not None and c.denominator != 1:
        raise PyRaise("IndexError", "only integers are valid indices", I.where())
    if pcmp("<", p, 0) is True:
        p = p + n
        if pcmp("<", p, 0) is True:
            raise PyRaise("IndexError", f"index out of range for an axis of length {n}", I.where())
    elif pcmp(">=", p, n) is True:
        raise PyRaise("IndexError", f"index {N(p)} out of range for an axis of length {n}", I.where())
    return Reg("int", p)


def int_list(I, x):
    """python ints of a fancy index, None when not concrete"""
    try:
        if isinstance(x, (PyList, tuple, RangeVal, range)):
            r = [I.as_index(v) for v in I.seq(x)]
            return None if any(v is None for v in r) else r
        if isinstance(x, ArrVal) and x.node.kind == "i":
            e = const_elems(x.node)
            if e is not None and all(not isinstance(v, list) for v in e):
                return [int(v) for v in e]
    except Stuck:
        return None
    return None


def is_fancy(x):
    return isinstance(x, (PyList, tuple, TupleSeg, ArrVal, UArr, Unknown, RangeVal, range, Cond)) and not \
        (isinstance(x, ArrVal) and not x.node.shape and x.node.kind != "b")


def arr_getitem(I, a, k):
    if isinstance(k, str):
        raise PyRaise("IndexError", "string index", I.where())
    if isinstance(k, PyList) or isinstance(k, TupleSeg) and k.unknown is None and not any(isinstance(x, Seg) for x in k.items):
        k = (k,) if isinstance(k, PyList) else tuple(k.items)
    ks = norm_index(I, a, k)
    if any(isinstance(x, (bool, Cond)) for x in ks):
        return UArr(deps_of([a, list(ks)]), cplx=a.node.cplx)
    fancy = [i for i, x in enumerate(ks) if is_fancy(x)]
    if not fancy:
        regs, ax = [], 0
        for x in ks:
            if x is None:
                regs.append(Reg("new"))
                continue
            n = a.node.shape[ax]
            if isinstance(x, SliceVal):
                regs.append(slice_reg(I, x, n))
            else:
                regs.append(int_index(I, x, n))
            ax += 1
        node = T.getitem(a.node, regs)
        if not node.shape and not any(r.kind != "int" for r in regs):
            return I.scalarise(ArrVal(set_kind(node, a.node.kind), pred=elem_pred(I, a, regs)))
        pred = elem_pred(I, a, regs)
        r = ArrVal(set_kind(node, a.node.kind), base=a, regs=regs, pred=pred)
        return I.scalarise(r) if not node.shape else r
    # masks and integer arrays
    if len(fancy) == 1:
        i = fancy[0]
        x = ks[i]
        ax = sum(1 for y in ks[:i] if y is not None)
        if isinstance(x, ArrVal) and x.node.kind == "b":
            nb = len(x.node.shape)
            for u, v in zip(x.node.shape, a.node.shape[ax:ax + nb]):
                T.same_size(u, v, "boolean index: lengths")
            u = Poly.atom(("unk", uid(), DepBox(x.node.deps)))
            I.know.lower[u.as_atom()] = 0
            I.know.kind[u.as_atom()] = "int"
            rest = a.node.shape[:ax] + (u,) + a.node.shape[ax + nb:]
            m = ArrVal(T.havoc(rest, [a.node, x.node], a.node.cplx, a.node.kind))
            pre = ks[:i] + [SliceVal(None, None, None)] + ks[i + 1:]
            return arr_getitem(I, m, tuple(pre)) if any(not (isinstance(y, SliceVal) and y.lo is None and y.hi is None and y.step is None)
                                                        for y in pre) else m
        lst = int_list(I, x)
        n = a.node.shape[ax]
        if lst is not None:
            parts = []
            base = a.node
            for j in lst:
                regs = [Reg("full")] * ax + [int_index(I, j, n)]
                parts.append(T.getitem(base, regs))
            if not parts:
                sh = list(base.shape)
                sh[ax] = ZERO
                node = T.const(0, sh, a.node.kind, a.node.cplx)
            else:
                node = T.stack(parts, ax)
            m = ArrVal(set_kind(node, a.node.kind))
            pre = ks[:i] + [SliceVal(None, None, None)] + ks[i + 1:]
            return arr_getitem(I, m, tuple(pre)) if any(not (isinstance(y, SliceVal) and y.lo is None and y.hi is None and y.step is None)
                                                        for y in pre) else m
        if isinstance(x, ArrVal):
            sh = a.node.shape[:ax] + tuple(x.node.shape) + a.node.shape[ax + 1:]
            m = ArrVal(set_kind(T.ufn("take", [a.node, x.node, ax], sh, a.node.cplx), a.node.kind))
            pre = ks[:i] + [SliceVal(None, None, None)] * len(x.node.shape) + ks[i + 1:]
            return arr_getitem(I, m, tuple(pre)) if any(not (isinstance(y, SliceVal) and y.lo is None and y.hi is None and y.step is None)
                                                        for y in pre) else I.scalarise(m)
    return UArr(deps_of([a, list(ks)]), cplx=a.node.cplx)


def elem_pred(I, a, regs):
    if not a.pred or a.pred[0] not in ("==", "!=", "<", "<=", ">", ">="):
        return None
    op, x, y = a.pred
    try:
        full = a.node.shape
        return (op, T.getitem(T.broadcast_to(x, full), regs), T.getitem(T.broadcast_to(y, full), regs))
    except (Stuck, ShapeError):
        return None


def arr_setitem(I, a, k, v):
    I.touch(a)
    if isinstance(k, PyList):
        k = (k,)
    ks = norm_index(I, a, k)
    if isinstance(v, (PyList, tuple)) or is_num(v) or isinstance(v, (ArrVal, Cond)):
        try:
            node = to_node(I, v)
        except Stuck:
            node = None
    elif isinstance(v, UArr):
        node = None
        if not covers(a.node.cplx, v.cplx) and v.cplx:
            I.event("drop_imag", node=v, how="stored into a real array")
    elif v is None:
        raise PyRaise("TypeError", "None stored into an array", I.where())
    else:
        node = None
    if node is not None and not covers(a.node.cplx, node.cplx):
        I.event("drop_imag", node=node, how="stored into a real array")
        node = T.real(node)
    fancy = [i for i, x in enumerate(ks) if is_fancy(x) or isinstance(x, bool)]
    if node is None or fancy:
        if fancy and node is not None and all(int_list(I, ks[i]) is not None for i in fancy):
            lists = [int_list(I, ks[i]) for i in fancy]
            if len({len(x) for x in lists}) == 1 and not node.shape:
                new = a.node
                for js in zip(*lists):
                    regs = []
                    ax = 0
                    it = iter(js)
                    for i, x in enumerate(ks):
                        n = new.shape[ax]
                        if i in fancy:
                            regs.append(int_index(I, next(it), n))
                        elif isinstance(x, SliceVal):
                            regs.append(slice_reg(I, x, n))
                        else:
                            regs.append(int_index(I, x, n))
                        ax += 1
                    new = T.store(new, regs, node)
                I.update_cell(a, set_kind(new, a.node.kind))
                return
        I.update_cell(a, T.havoc(a.node.shape, [a.node, DepBox(deps_of([v, list(ks)]))], a.node.cplx, a.node.kind))
        return
    regs, ax = [], 0
    for x in ks:
        if x is None:
            regs.append(Reg("new"))
            continue
        n = a.node.shape[ax]
        regs.append(slice_reg(I, x, n) if isinstance(x, SliceVal) else int_index(I, x, n))
        ax += 1
    new = T.store(a.node, regs, node)
    I.update_cell(a, set_kind(new, a.node.kind))


def ext_getitem(I, o, k):
    if o.kind == "match":
        return match_group(I, o, k)
    return Unknown(deps_of([o, k]), "element")


# ---------------------------------------------------------------- attributes
LIST_M = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "index", "count", "copy"}
SET_M = {"add", "discard", "remove", "pop", "clear", "update", "union", "intersection", "difference", "symmetric_difference", "issubset",
         "issuperset", "isdisjoint", "copy", "difference_update", "intersection_update"}
DICT_M = {"get", "items", "keys", "values", "pop", "setdefault", "update", "copy", "clear", "popitem", "fromkeys"}
ARR_M = {"reshape", "transpose", "copy", "astype", "sum", "dot", "flatten", "ravel", "any", "all", "max", "min", "trace", "item", "tolist",
         "squeeze", "swapaxes", "diagonal", "mean", "nonzero", "round", "fill", "conj", "conjugate", "prod", "argsort", "sort", "argmax",
         "argmin", "view", "cumsum", "repeat", "take", "std", "var", "clip", "tobytes", "setflags", "__len__", "__array__", "put", "at",
         "ptp", "searchsorted", "compress", "itemset", "resize", "__getitem__", "byteswap", "set"}
STR_M = {"strip", "lstrip", "rstrip", "split", "rsplit", "join", "replace", "startswith", "endswith", "lower", "upper", "format", "find",
         "rfind", "index", "isdigit", "isnumeric", "isdecimal", "partition", "rpartition", "count", "removeprefix", "removesuffix",
         "splitlines", "isalpha", "isspace", "zfill", "encode", "title", "translate", "isidentifier"}


def value_attr(I, v, name):
    if isinstance(v, ArrVal):
        n = v.node
        if name == "shape":
            return tuple(lift(s) for s in n.shape)
        if name == "ndim":
            return len(n.shape)
        if name == "size":
            return lift(T.prod(n.shape))
        if name == "dtype":
            return DT(n.kind, n.cplx)
        if name == "T":
            return ArrVal(set_kind(T.transpose(n, list(range(len(n.shape)))[::-1]), n.kind), base=v)
        if name == "real":
            if n.cplx:
                I.event("drop_imag", node=n, how="real part")
                return ArrVal(T.real(n), base=v)
            return ArrVal(n, base=v)
        if name == "imag":
            I.event("take_imag", node=n)
            return ArrVal(T.imag(n) if n.cplx else T.const(0, n.shape))
        if name == "flat":
            return UArr(n.deps, base=v, cplx=n.cplx)
        if name in ("flags", "strides", "nbytes", "itemsize", "at", "data", "base"):
            return Unknown(n.deps, name) if name != "at" else Meth(v, name)
        if name in ARR_M:
            return Meth(v, name)
        raise PyRaise("AttributeError", f"ndarray has no attribute {name}", I.where())
    if isinstance(v, UArr):
        if name == "dtype":
            return DT("f", v.cplx)
        if name in ("T", "real", "imag", "flat"):
            if name == "real" and v.cplx:
                I.event("drop_imag", node=v, how="real part")
            if name == "imag":
                I.event("take_imag", node=v)
            return UArr(v.deps, base=v, cplx=v.cplx if name == "T" else frozenset())
        if name == "shape":
            return TupleSeg([], v.deps)
        if name in ("ndim", "size"):
            return Sym(Poly.atom(("unk", uid(), DepBox(v.deps))), "int")
        return Meth(v, name)
    if isinstance(v, (bool, int, float, complex, Sym)):
        if name in ("numerator", "denominator") and not isinstance(v, complex):
            p = N(I.to_poly(v)) if not isinstance(v, Sym) else N(v.p)
            q = p.as_const()
            if q is not None and not q[1]:
                return getattr(q[0], name)
            if poly.is_intvalued(p):
                return v if name == "numerator" else 1
            return Sym(Poly.atom(("ufn", name, p)), "int")
        if name in ("real", "imag"):
            if isinstance(v, Sym):
                if v.ty != "complex":
                    return v if name == "real" else 0
                if name == "real":
                    I.event("drop_imag", node=v, how="real part")
                else:
                    I.event("take_imag", node=v)
                at = N(v.p)
                if at.as_const() is not None:
                    return lift(at.real() if name == "real" else at.imag(), "float")
                return Sym(Poly.atom(("ufn", name, at)), "float")
            return getattr(v, name)
        if name in ("numerator", "denominator") and isinstance(v, int):
            return getattr(v, name)
        if name in ("shape",):
            return ()
        if name == "ndim":
            return 0
        if name == "size":
            return 1
        if name == "dtype":
            t = num_type(v)
            return DT({"int": "i", "bool": "b"}.get(t, "f"), sym_cplx(v))
        if name == "T":
            return v
        if name in ("conj", "conjugate", "item", "is_integer", "bit_length", "astype", "sum", "copy", "round", "reshape", "any", "all",
                    "hex", "as_integer_ratio", "tolist"):
            return Meth(v, name)
        raise PyRaise("AttributeError", f"number has no attribute {name}", I.where())
    if isinstance(v, PyList):
        if name in LIST_M:
            return Meth(v, name)
    elif isinstance(v, PySet):
        if name in SET_M:
            return Meth(v, name)
    elif isinstance(v, PyDict):
        if name in DICT_M:
            return Meth(v, name)
    elif isinstance(v, (tuple, TupleSeg)):
        if name in ("index", "count"):
            return Meth(v, name)
    elif isinstance(v, (str, StrV)):
        if name in STR_M:
            return Meth(v, name)
    elif isinstance(v, DT):
        if name in ("kind",):
            return {"f": "c" if v.cplx else "f", "i": "i", "b": "b", "o": "O"}[v.kind] if not v.cplx or "c" in v.cplx else Unknown(why="kind")
        if name in ("type",):
            return v
        return Unknown(why="dtype." + name)
    elif isinstance(v, (RangeVal, range)):
        if isinstance(v, RangeVal):
            if name == "start":
                return lift(v.lo)
            if name == "step":
                return lift(v.step)
            if name == "stop":
                return lift(v.lo + v.n * v.step)
        return Meth(v, name)
    elif isinstance(v, FuncVal):
        if name in ("__name__", "__qualname__"):
            return v.name
        if name in ("__doc__",):
            return ast.get_docstring(v.node) if not isinstance(v.node, ast.Lambda) else None
        if name in ("cache_clear", "cache_info"):
            return Meth(v, name)
        if name == "__wrapped__":
            return v
        return Unknown(why=name)
    elif isinstance(v, (Bound,)):
        if name in ("__name__",):
            return getattr(v.fn, "name", "f")
        if name == "__self__":
            return v.self
        if name == "__func__":
            return v.fn
        return Unknown(why=name)
    elif isinstance(v, ExtObj):
        if v.kind in ("match", "rmatch", "regex", "rng", "ctx", "partial", "vectorize", "ufunc"):
            return Meth(v, name)
        if v.kind == "nt":
            if name in v.data:
                return v.data[name]
        return Unknown(deps_of(v), name)
    elif isinstance(v, GenVal):
        return Meth(v, name)
    elif isinstance(v, Cond):
        if name in ("any", "all", "item"):
            return Meth(v, name)
        return Unknown(v.deps, name)
    elif isinstance(v, (Wrap, Dispatcher, Meth)):
        return Unknown(why=name)
    elif v is Ellipsis:
        pass
    if name == "__class__":
        return type_of(I, v)
    if name in ("__doc__", "__name__"):
        return "?"
    if name.startswith("__") and name.endswith("__") and not (v is None):
        return Meth(v, name)
    raise PyRaise("AttributeError", f"{I.type_name(v)} object has no attribute {name}", I.where())


# ---------------------------------------------------------------- methods of built-in values
def call_meth(I, f, args, kw):
    o, name = f.obj, f.name
    if isinstance(o, PyList):
        return list_meth(I, o, name, args, kw)
    if isinstance(o, PyDict):
        return dict_meth(I, o, name, args, kw)
    if isinstance(o, PySet):
        return set_meth(I, o, name, args, kw)
    if isinstance(o, (ArrVal,)):
        return arr_meth(I, o, name, args, kw)
    if isinstance(o, UArr):
        if name in ("fill", "sort", "put", "resize"):
            I.touch(o)
            return None
        return UArr(deps_of([o] + list(args)), base=o if name in ("reshape", "transpose", "view", "ravel", "swapaxes") else None, cplx=o.cplx)
    if isinstance(o, (str, StrV)):
        return str_meth(I, o, name, args, kw)
    if isinstance(o, (tuple, TupleSeg)):
        if name == "index":
            for i, x in enumerate(I.seq(o)):
                d = I.decide(equal(I, x, args[0]))
                if d is True:
                    return i
                if d is None:
                    return Sym(Poly.atom(("unk", uid(), DepBox(deps_of([o, args[0]])))), "int")
            raise PyRaise("ValueError", "not in tuple", I.where())
        if name == "count":
            return list_meth(I, PyList(I.seq(o)), name, args, kw)
    if isinstance(o, NUM):
        if name in ("conj", "conjugate"):
            if isinstance(o, (int, float, complex)):
                return o.conjugate()
            if o.ty != "complex":
                return o
            n = num_node(o)
            return ret(I, T.conj(n))
        if name in ("item", "copy", "sum", "any", "all", "tolist"):
            return o
        if name == "astype":
            return convert(I, o, dtype_of(I, args[0]))
        if name == "is_integer":
            if isinstance(o, float):
                return o.is_integer()
            p = N(o.p)
            r = poly.is_intvalued(p) if isinstance(o, Sym) else True
            return r if r is not None else Cond("isint_val", (p,), deps_of(o))
        if name == "round":
            return call_ext(I, Ext("builtins.round"), [o] + list(args), {})
        if name == "reshape":
            return arr_meth(I, ArrVal(num_node(o)), name, args, kw)
        return Unknown(deps_of(o), name)
    if isinstance(o, ExtObj):
        if o.kind == "match":
            return match_meth(I, o, name, args)
        if o.kind == "rmatch":
            return rmatch_meth(I, o.data, name, args)
        if o.kind == "regex" and name in ("fullmatch", "match", "search"):
            return call_ext(I, Ext("re." + name), [o.data] + list(args), kw)
        if o.kind == "rng":
            return random_array(I, name, args, kw, seeded=o.data)
        return Unknown(deps_of([o] + list(args)), name)
    if isinstance(o, Obj):
        if name == "__setattr__":
            a, v = args[-2:]
            o.attrs[a] = v
            return None
        if name in ("__repr__", "__str__"):
            return obj_repr(I, o)
        if name == "__hash__":
            return Sym(Poly.atom(("unk", uid(), DepBox(deps_of(o)))), "int")
        if name == "__eq__":
            return obj_equal(I, o, args[0])
        if name == "_replace":
            n = Obj(o.cls, o.attrs)
            n.attrs.update(kw)
            return n
        if name == "_asdict":
            return PyDict([[k, v] for k, v in o.attrs.items()])
        if name in ("__lt__", "__le__", "__gt__", "__ge__"):
            return Ext("builtins.NotImplemented")
        return Unknown(deps_of(o), name)
    if isinstance(o, GenVal) and name == "__next__":
        return call_ext(I, Ext("builtins.next"), [o], {})
    if isinstance(o, (Cond, bool)):
        return o
    if name == "__iter__":
        return o
    if name == "__len__":
        return I.length(o)
    return Unknown(deps_of([o] + list(args)), name)


def list_meth(I, o, name, args, kw):
    if name in ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse"):
        I.touch(o)
    if name == "append":
        if o.unknown is not None:
            o.unknown |= deps_of(args[0])
        else:
            o.items = o.items + [args[0]]
        return None
    if name == "extend":
        if isinstance(args[0], PySet):
            I.event("set_iter", set=args[0], ordered=True)
        items = I.iterate(args[0]) if not isinstance(args[0], PySet) else I.set_list(args[0])
        if items is None or o.unknown is not None:
            o.unknown = deps_of(o) | deps_of(args[0]) | (SETORDER if isinstance(args[0], PySet) else frozenset())
            o.items = []
        else:
            o.items = o.items + list(items)
        return None
    I.note_read(o)
    segs = any(isinstance(x, Seg) for x in o.items)
    if name == "insert":
        i = I.as_index(args[0])
        if o.unknown is None and i is not None and not segs:
            items = list(o.items)
            items.insert(i, args[1])
            o.items = items
        elif o.unknown is None and i == 0:
            o.items = [args[1]] + o.items
        else:
            o.unknown = deps_of(o) | deps_of(args[1])
            o.items = []
        return None
    if name == "pop":
        if o.unknown is not None or segs:
            d = deps_of(o)
            o.unknown, o.items = d, []
            return Unknown(d, "popped")
        i = I.as_index(args[0]) if args else -1
        if i is None:
            d = deps_of(o)
            o.unknown, o.items = d, []
            return Unknown(d, "popped")
        if not -len(o.items) <= i < len(o.items):
            raise PyRaise("IndexError", "pop index out of range", I.where())
        items = list(o.items)
        r = items.pop(i)
        o.items = items
        return r
    if name == "remove":
        if o.unknown is None and not segs:
            for i, x in enumerate(o.items):
                d = I.decide(equal(I, x, args[0]))
                if d is True:
                    o.items = o.items[:i] + o.items[i + 1:]
                    return None
                if d is None:
                    break
            else:
                raise PyRaise("ValueError", "list.remove(x): x not in list", I.where())
        o.unknown, o.items = deps_of(o), []
        return None
    if name == "clear":
        o.items, o.unknown = [], None
        return None
    if name == "reverse":
        if segs:
            o.unknown, o.items = deps_of(o), []
        else:
            o.items = o.items[::-1]
        return None
    if name == "sort":
        r = sort_items(I, o, kw)
        if r is None:
            o.unknown, o.items = deps_of(o), []
        else:
            o.items = r
        return None
    if name == "copy":
        return PyList(o.items, o.unknown)
    if name == "index":
        if o.unknown is None and not segs:
            for i, x in enumerate(o.items):
                d = I.decide(equal(I, x, args[0]))
                if d is None:
                    d = I.fork(I.as_cond(equal(I, x, args[0])))
                if d:
                    return i
            raise PyRaise("ValueError", "not in list", I.where())
        return Sym(Poly.atom(("unk", uid(), DepBox(deps_of([o, args[0]])))), "int")
    if name == "count":
        if o.unknown is None and not segs:
            ds = [I.decide(equal(I, x, args[0])) for x in o.items]
            if all(d is not None for d in ds):
                return sum(ds)
        return Sym(Poly.atom(("unk", uid(), DepBox(deps_of([o, args[0]])))), "int")
    raise Stuck(f"list.{name}")


def sort_items(I, seq, kw):
    """sorted items; None when unknown. Undecided comparisons split the path."""
    items = None if seq.unknown is not None else list(seq.items)
    if items is None or any(isinstance(x, Seg) for x in items):
        return None
    key = kw.get("key")
    rev = kw.get("reverse", False)
    if not isinstance(rev, bool):
        return None
    ks = [x if key is None else I.call(key, [x], {}) for x in items]
    out = []
    if len(items) > 40 and not all(isinstance(k, (int, float, str)) for k in ks):
        return None
    if all(isinstance(k, (int, float)) for k in ks) or all(isinstance(k, str) for k in ks):
        order = sorted(range(len(items)), key=lambda i: ks[i], reverse=rev)
        return [items[i] for i in order]
    for i in range(len(items)):
        j = len(out)
        while j > 0:
            a, b = (ks[i], ks[out[j - 1]]) if not rev else (ks[out[j - 1]], ks[i])
            c = compare(I, "Lt", a, b)
            d = I.decide(c)
            if d is None:
                if I.noforks:
                    raise LoopFork("sort")
                d = I.fork(I.as_cond(c) if not isinstance(c, Unknown) else c)
            if not d:
                break
            j -= 1
        out.insert(j, i)
    return [items[i] for i in out]


def dict_meth(I, o, name, args, kw):
    if name in ("pop", "setdefault", "update", "clear", "popitem"):
        I.touch(o)
    I.note_read(o)
    if name in ("keys", "items", "values"):
        if o.unknown is not None:
            return PyList([], o.unknown)
        return PyList([k if name == "keys" else v if name == "values" else (k, v) for k, v in o.items])
    if name == "copy":
        return PyDict([list(x) for x in o.items], o.unknown)
    if name == "clear":
        o.items, o.unknown = [], None
        return None
    if name == "update":
        src = args[0] if args else PyDict([[k, v] for k, v in kw.items()])
        if isinstance(src, PyDict) and src.unknown is None:
            for k, v in src.items:
                I.setitem(o, k, v)
        else:
            o.unknown, o.items = deps_of([o, src]), []
        return None
    if name == "popitem":
        if o.unknown is None and o.items:
            k, v = o.items[-1]
            o.items = o.items[:-1]
            return (k, v)
        return Unknown(deps_of(o), "popitem")
    if name in ("get", "setdefault", "pop"):
        default = args[1] if len(args) > 1 else None
        if o.unknown is not None:
            return Unknown(deps_of([o] + list(args)), "dictionary value")
        for i, (k, v) in enumerate(o.items):
            d = I.decide(equal(I, k, args[0]))
            if d is None:
                if isinstance(args[0], StrV) and not I.noforks and name == "get" and all(isinstance(kk, str) for kk, _ in o.items) \
                        and all(isinstance(x, (int, float)) for _, x in o.items):
                    if I.fork(Cond("strin", (args[0], tuple(kk for kk, _ in o.items)))):
                        return Sym(Poly.atom(("ufn", "dictget", args[0], tuple((a, b) for a, b in o.items))), "int")
                    return default
                if isinstance(args[0], StrV) or I.noforks:
                    return Unknown(deps_of([o] + list(args)), "dictionary value")
                d = I.fork(I.as_cond(equal(I, k, args[0])))
            if d:
                if name == "pop":
                    o.items = o.items[:i] + o.items[i + 1:]
                return v
        if name == "setdefault":
            o.items = o.items + [[args[0], default]]
        if name == "pop" and len(args) < 2:
            raise PyRaise("KeyError", "", I.where())
        return default
    return Unknown(deps_of([o] + list(args)), name)


def set_meth(I, o, name, args, kw):
    if name in ("add", "discard", "remove", "pop", "clear", "update", "difference_update", "intersection_update"):
        I.touch(o)
    I.note_read(o)
    if name == "add":
        if o.unknown is not None:
            o.unknown |= deps_of(args[0])
            return None
        for x in o.items:
            if isinstance(x, Seg):
                d = None
            else:
                d = I.decide(equal(I, x, args[0]))
            if d is True:
                return None
            if d is None:
                if I.noforks:
                    raise LoopFork("set")
                if isinstance(x, Seg):
                    o.unknown, o.items = deps_of([o, args[0]]), []
                    return None
                d = I.fork(I.as_cond(equal(I, x, args[0])))
                if d:
                    return None
        o.items = o.items + [args[0]]
        return None
    if name in ("discard", "remove"):
        if o.unknown is None:
            for i, x in enumerate(o.items):
                d = I.decide(equal(I, x, args[0]))
                if d is True:
                    o.items = o.items[:i] + o.items[i + 1:]
                    return None
                if d is None:
                    o.unknown, o.items = deps_of([o, args[0]]), []
                    return None
            if name == "remove":
                raise PyRaise("KeyError", "", I.where())
        return None
    if name == "clear":
        o.items, o.unknown = [], None
        return None
    if name == "pop":
        I.event("set_iter", set=o, pop=True)
        if o.unknown is None and len(o.items) == 1 and not isinstance(o.items[0], Seg):
            r = o.items[0]
            o.items = []
            return r
        if o.unknown is None and not o.items:
            raise PyRaise("KeyError", "pop from an empty set", I.where())
        d = deps_of(o)
        o.unknown, o.items = d, []
        return Unknown(d | SETORDER, "element of a set")
    if name == "copy":
        return PySet(o.items, o.frozen, o.unknown)
    if name in ("union", "intersection", "difference", "symmetric_difference", "update", "difference_update", "intersection_update"):
        r = o
        for x in args:
            x = x if isinstance(x, PySet) else as_set(I, x)
            r = set_op(I, {"update": "union", "difference_update": "difference", "intersection_update": "intersection"}.get(name, name), r, x)
        if name in ("update", "difference_update", "intersection_update"):
            o.items, o.unknown = r.items, r.unknown
            return None
        return r if r is not o else PySet(o.items, o.frozen, o.unknown)
    return Cond("truth", (uid(),), deps_of([o] + list(args)))


def as_set(I, x, frozen=False):
    if isinstance(x, PySet):
        return PySet(x.items, frozen, x.unknown)
    items = I.iterate(x)
    return I.make_set(deps_of(x) - SETORDER if items is None else items, frozen)


def str_meth(I, o, name, args, kw):
    if isinstance(o, str) and all(isinstance(a, (str, int, type(None))) for a in args):
        if name == "format":
            return "?" if kw or not all(isinstance(a, (str, int)) for a in args) else o.format(*args)
        r = getattr(o, name)(*args)
        if isinstance(r, list):
            return PyList(r)
        return r if not isinstance(r, bytes) else Unknown(why="bytes")
    if name == "join":
        items = I.iterate(args[0]) if not isinstance(args[0], PySet) else I.set_list(args[0])
        if isinstance(args[0], PySet):
            I.event("set_iter", set=args[0], ordered=True)
        if items is not None and all(isinstance(x, str) for x in items) and isinstance(o, str):
            return o.join(items)
        return StrV("join", (o, tuple(items) if items is not None else uid()))
    if name == "format":
        return "?"
    if isinstance(o, StrV) or any(isinstance(a, StrV) for a in args):
        if name in ("strip", "lstrip", "rstrip", "replace", "lower", "upper", "removeprefix", "removesuffix", "zfill"):
            return StrV(name, (o,) + tuple(args))
        if name in ("split", "rsplit", "partition", "rpartition", "splitlines"):
            return StrListV(I, name, o, args, kw)
        if name in ("startswith", "endswith", "isdigit", "isnumeric", "isdecimal", "isalpha", "isspace", "isidentifier"):
            return Cond("strpred", (name, o) + tuple(args))
        if name in ("count", "find", "rfind", "index"):
            return Sym(Poly.atom(("ufn", "str" + name, o) + tuple(args)), "int")
    return Unknown(deps_of([o] + list(args)), f"str.{name}")


def StrListV(I, name, o, args, kw):
    """list of an unknown number of strings"""
    if name in ("partition", "rpartition"):
        return tuple(StrV("part", (name, o, tuple(args), k)) for k in range(3))
    if "maxsplit" in kw:
        args = list(args) + [kw["maxsplit"]]
    ix = T.new_ix()
    u = Poly.atom(("ufn", "nparts", name, o) + tuple(args))
    splits = getattr(getattr(I.prog, "model", None), "splits", {})
    k = None
    if splits and len(args) <= 1 and name in ("split", "re.split", "re.findall"):
        k = splits.get(args[0].replace("\\", "") if args and isinstance(args[0], str) else None, splits.get("*"))
    if k is not None:       # the number of parts is one of the cases into which the analysis is divided
        I.assume(Cond("cmp", ("==", u, P(k)), frozenset(["partition"])), True)
        return PyList([StrV("part", (name, o, tuple(args), j)) for j in range(k)])
    return PyList([Seg(ix, u, [StrV("part", (name, o, tuple(args), lift(Poly.atom(ix))))])])


def match_group(I, o, k):
    pat, s, fn = o.data
    return StrV("group", (fn, pat, s, k))


def match_meth(I, o, name, args):
    pat, s, fn = o.data
    if name == "group":
        if not args:
            return match_group(I, o, 0)
        r = [match_group(I, o, k) for k in args]
        return r[0] if len(r) == 1 else tuple(r)
    if name == "groups":
        import re
        n = re.compile(pat).groups if isinstance(pat, str) else 0
        return tuple(match_group(I, o, k + 1) for k in range(n))
    if name == "groupdict":
        import re
        return PyDict([[k, match_group(I, o, k)] for k in re.compile(pat).groupindex])
    return Unknown(why="match." + name)


def axis_arg(I, args, kw, pos=0):
    a = kw.get("axis", args[pos] if len(args) > pos else None)
    if a is None:
        return None
    if isinstance(a, (tuple, PyList)):
        return [I.as_index(x) for x in I.seq(a)]
    i = I.as_index(a)
    if i is None:
        raise Stuck("symbolic axis")
    return [i]


def arr_meth(I, o, name, args, kw):
    n = o.node
    if name in ("reshape", "view") and name == "reshape":
        sh = args[0] if len(args) == 1 and not is_num(args[0]) else list(args)
        if "shape" in kw:
            sh = kw["shape"]
        dims = [I.to_poly(x) for x in (sh if isinstance(sh, list) else I.seq(sh))]
        order = kw.get("order", "C")
        if order == "F":
            nd = len(n.shape)
            tr = T.transpose(n, list(range(nd))[::-1])
            r = T.reshape(tr, dims[::-1])
            return ArrVal(set_kind(T.transpose(r, list(range(len(dims)))[::-1]), n.kind), base=o)
        return ArrVal(set_kind(T.reshape(n, dims), n.kind), base=o)
    if name == "transpose":
        ax = args[0] if len(args) == 1 and not is_num(args[0]) else list(args)
        if not args or (len(args) == 1 and args[0] is None):
            perm = list(range(len(n.shape)))[::-1]
        else:
            perm = [I.as_index(x) for x in (ax if isinstance(ax, list) else I.seq(ax))]
        return ArrVal(set_kind(T.transpose(n, perm), n.kind), base=o)
    if name == "swapaxes":
        i, j = [I.as_index(x) for x in args]
        nd = len(n.shape)
        p = list(range(nd))
        i, j = i % nd, j % nd
        p[i], p[j] = p[j], p[i]
        return ArrVal(set_kind(T.transpose(n, p), n.kind), base=o)
    if name == "copy":
        return ArrVal(n)
    if name == "astype":
        return convert(I, o, dtype_of(I, args[0] if args else kw.get("dtype")))
    if name in ("conj", "conjugate"):
        return ArrVal(set_kind(T.conj(n), n.kind), base=None if n.cplx else o)
    if name in ("sum", "mean", "prod", "max", "min", "any", "all", "trace", "std", "var"):
        return np_call(I, name, [o] + list(args), kw)
    if name == "dot":
        return np_call(I, "dot", [o] + list(args), kw)
    if name in ("flatten", "ravel"):
        r = T.reshape(n, [P(-1)]) if n.shape and not T.is_zero(T.prod(n.shape)) else T.reshape(n, [T.prod(n.shape)])
        return ArrVal(set_kind(r, n.kind), base=o if name == "ravel" else None)
    if name in ("item",):
        if args:
            return arr_getitem(I, o, tuple(args) if len(args) > 1 else args[0])
        return ret(I, T.reshape(n, []))
    if name == "tolist":
        def tl(x, sh):
            if not sh:
                return I.scalarise(x) if isinstance(x, ArrVal) else x
            return PyList([tl(y, sh[1:]) if not isinstance(y, Seg) else Seg(y.ix, y.n, [tl(z, sh[1:]) for z in y.items]) for y in I.iterate(x)])
        return tl(o, n.shape)
    if name == "squeeze":
        ax = axis_arg(I, args, kw)
        nd = len(n.shape)
        keep = []
        for i, s in enumerate(n.shape):
            one = T.is_one(s)
            if ax is not None:
                if i in [a % nd for a in ax]:
                    if pcmp("==", s, 1) is False:
                        raise PyRaise("ValueError", "cannot squeeze an axis of another length", I.where())
                    continue
            elif one:
                continue
            keep.append(s)
        return ArrVal(T.reshape(n, keep), base=o)
    if name == "fill":
        I.store_whole(o, ArrVal(T.broadcast_to(to_node(I, args[0]), n.shape)))
        return None
    if name in ("sort", "put", "resize", "itemset", "partition"):
        I.touch(o)
        I.update_cell(o, T.havoc(n.shape, [n], n.cplx, n.kind))
        return None
    if name == "diagonal":
        return np_call(I, "diag", [o], {})
    if name in ("__len__",):
        return I.length(o)
    if name == "__getitem__":
        return I.getitem(o, args[0])
    if name in ("round",):
        return ArrVal(T.elementwise("round", [n]))
    if name == "nonzero":
        return np_call(I, "nonzero", [o], {})
    if name in ("take",):
        return np_call(I, "take", [o] + list(args), kw)
    return UArr(deps_of([o] + list(args)), cplx=n.cplx)


def convert(I, v, dt):
    if dt is None:
        return UArr(deps_of(v)) if isinstance(v, (ArrVal, UArr)) else Unknown(deps_of(v))
    if isinstance(v, UArr):
        if v.cplx and not covers(dt.cplx, v.cplx):
            I.event("drop_imag", node=v, how="converted to a real type")
        return UArr(v.deps, cplx=dt.cplx)
    n = to_node(I, v)
    if n.cplx and not covers(dt.cplx, n.cplx):
        I.event("drop_imag", node=n, how="converted to a real type")
        n = T.real(n)
    if dt.kind == "i" and n.kind == "f":
        c = n.args[0].as_frac() if n.op == "const" else None
        if c is not None:
            n = T.const(int(c), n.shape)
        else:
            n = T.elementwise("trunc", [n])
        return ret(I, set_kind(n, "i")) if n.shape else I.scalarise(ArrVal(set_kind(n, "i")))
    if dt.kind == "b" and n.kind != "b":
        n2 = set_kind(T.mk("emap", ("!=", (n, T.const(0, ()))), n.shape, frozenset(), "b"), "b")
        return ArrVal(n2, pred=("!=", n, T.const(0, ())))
    return ArrVal(set_kind(widen_c(n, dt.cplx), dt.kind))


def widen_c(n, cplx):
    if cplx <= n.cplx:
        return n
    c = n.cplx | cplx
    return T.mk("sum", (((ONE, n),),), n.shape, c, n.kind)


def obj_repr(I, o):
    for c in o.cls.mro():
        if "__str__" in c.ns or "__repr__" in c.ns:
            m = c.ns.get("__repr__") or c.ns.get("__str__")
            return I.call(Bound(m, o), [], {})
        if c.dataclass:
            return "?"
    return "?"


# ---------------------------------------------------------------- external calls
STATE_SETTERS = {"numpy.set_printoptions", "numpy.seterr", "numpy.seterrcall", "numpy.random.seed", "random.seed", "random.setstate",
                 "numpy.random.set_state", "warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings",
                 "sys.setrecursionlimit", "os.putenv", "os.chdir", "locale.setlocale", "numpy.set_string_function", "os.umask",
                 "numpy.setbufsize", "os.environ.update", "os.environ.setdefault", "os.environ.pop", "jax.config.update",
                 "numpy.set_numeric_ops"}
NONDET = ("time.", "datetime.", "uuid.", "secrets.", "os.urandom", "os.getpid", "os.environ", "os.getenv", "random.", "numpy.random.",
          "builtins.id", "builtins.hash", "threading.", "multiprocessing.", "socket.", "os.times", "platform.")
EXT = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


def call_ext(I, f, args, kw):
    args = list(args)
    if isinstance(f, Meth):
        return call_meth(I, f, args, kw)
    path = f.path
    if path in STATE_SETTERS:
        I.event("setstate", path=path)
        return None
    h = EXT.get(path)
    if path.startswith("builtins.") and exc_is(path[9:], "BaseException") and path[9:] not in ("filter",) and h is None \
            and (path.endswith("Error") or path.endswith("Exception") or path.endswith("Iteration") or path.endswith("Exit")):
        return ExtObj("exc", (path[9:], args[0] if args and isinstance(args[0], str) else ""))
    if path in ("builtins.Exception", "builtins.AssertionError"):
        return ExtObj("exc", (path[9:], args[0] if args and isinstance(args[0], str) else ""))
    if h is not None:
        return h(I, args, kw)
    if path.startswith("jax.numpy."):
        path = "numpy." + path[10:]
    if path.startswith("numpy."):
        return np_call(I, path[6:], args, kw)
    if path.startswith("jax.numpy"):
        return Unknown(deps_of(args), path)
    if any(path.startswith(p) for p in NONDET):
        I.event("nondet", path=path)
        return Unknown(deps_of(args) | {("nondet", path)}, path)
    return Unknown(deps_of(args) | deps_of(list(kw.values())), path)


# ---- builtins
@ext("builtins.len")
def _len(I, a, k):
    return I.length(a[0])


@ext("builtins.isinstance")
def _isinstance(I, a, k):
    return isinstance_(I, a[0], a[1])


@ext("builtins.issubclass")
def _issubclass(I, a, k):
    ts = a[1] if isinstance(a[1], tuple) else (a[1],)
    if isinstance(a[0], ClassVal):
        return any(t in a[0].mro() for t in ts)
    return Unknown(why="issubclass")


@ext("builtins.type")
def _type(I, a, k):
    return type_of(I, a[0])


@ext("builtins.id", "builtins.hash")
def _id(I, a, k):
    I.event("nondet", path="id or hash")
    return Sym(Poly.atom(("unk", uid(), DepBox(deps_of(a) | {("nondet", "id or hash")}))), "int")


@ext("builtins.callable")
def _callable(I, a, k):
    return isinstance(a[0], (FuncVal, Bound, Meth, Ext, ClassVal, Dispatcher))


@ext("builtins.getattr")
def _getattr(I, a, k):
    if not isinstance(a[1], str):
        return Unknown(deps_of(a), "getattr")
    if len(a) == 3:
        try:
            return I.getattr(a[0], a[1])
        except PyRaise as e:
            if exc_is(e.name, "AttributeError"):
                return a[2]
            raise
    return I.getattr(a[0], a[1])


@ext("builtins.hasattr")
def _hasattr(I, a, k):
    if not isinstance(a[1], str):
        return Unknown(deps_of(a), "hasattr")
    try:
        I.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if exc_is(e.name, "AttributeError"):
            return False
        raise


@ext("builtins.setattr", "object.__setattr__", "builtins.object.__setattr__")
def _setattr(I, a, k):
    if isinstance(a[1], str):
        if isinstance(a[0], Obj):
            if a[0].owner is not None:
                I.touch(a[0])
            a[0].attrs[a[1]] = a[2]
        else:
            I.setattr(a[0], a[1], a[2])
    return None


@ext("object.__init__", "builtins.object", "builtins.object.__init__")
def _objinit(I, a, k):
    return None


@ext("builtins.print", "warnings.warn", "builtins.open", "builtins.input")
def _print(I, a, k):
    return None


@ext("builtins.repr", "builtins.str", "builtins.format", "builtins.ascii")
def _str(I, a, k):
    if not a:
        return ""
    x = a[0]
    if isinstance(x, (str, StrV)):
        return x if not isinstance(x, str) else x
    if isinstance(x, (int, bool)):
        return str(x)
    if isinstance(x, Obj):
        return obj_repr(I, x)
    return "?"


@ext("builtins.bool")
def _bool(I, a, k):
    if not a:
        return False
    d = I.decide(a[0])
    return d if d is not None else I.as_cond(a[0])


@ext("builtins.int", "numpy.int64", "numpy.int32", "math.trunc", "builtins.__index__", "operator.index")
def _int(I, a, k):
    if not a:
        return 0
    x = a[0]
    if isinstance(x, (bool, int)):
        return int(x)
    if isinstance(x, float):
        if x != x or abs(x) == float("inf"):
            raise PyRaise("ValueError", "cannot convert to int", I.where())
        return int(x)
    if isinstance(x, complex):
        raise PyRaise("TypeError", "cannot convert complex to int", I.where())
    if isinstance(x, str):
        try:
            return int(x, *a[1:])
        except ValueError as e:
            raise PyRaise("ValueError", str(e), I.where())
    if isinstance(x, StrV):
        I.assume(Cond("isint", (x,)), True)
        return Sym(Poly.atom(("ufn", "int", x)), "int")
    if isinstance(x, Sym):
        if x.ty == "complex":
            raise PyRaise("TypeError", "cannot convert complex to int", I.where())
        p = N(x.p)
        if x.ty == "int" or poly.is_intvalued(p):
            return lift(p, "int")
        cc = p.t.get(())
        if cc is not None and cc[0].denominator != 1 and not cc[1] and poly.is_intvalued(p - P(cc[0])):
            if poly.nonneg(p):
                return lift(N(p - P(cc[0] - cc[0].__floor__())), "int")
            if poly.nonneg(-p):
                return lift(N(p + P(cc[0].__ceil__() - cc[0])), "int")
        return Sym(Poly.atom(("ufn", "trunc", p)), "int")
    if isinstance(x, ArrVal):
        if x.node.cplx:
            pass
        n = x.node
        return _int(I, [I.scalarise(ArrVal(T.reshape(n, [])))], k)
    if isinstance(x, Cond):
        return cond_num(x)
    if isinstance(x, Unknown):
        return Sym(Poly.atom(("unk", x.id, DepBox(x.deps))), "int")
    if isinstance(x, Obj):
        m, _ = x.cls.lookup("__int__")
        if m is not None:
            return I.call(Bound(m, x), [], {})
    if x is None or isinstance(x, (tuple, PyList, PyDict, PySet, Obj)):
        raise PyRaise("TypeError", "int() argument must be a number or a string", I.where())
    return Sym(Poly.atom(("unk", uid(), DepBox(deps_of(x)))), "int")


@ext("fractions.Fraction")
def _fraction(I, a, k):
    """a rational number, exact (kept as a number with rational coefficients)"""
    n, d = (list(a) + [1])[:2] if a else (0, 1)
    if is_num(n) and is_num(d) and not isinstance(n, complex) and not isinstance(d, complex):
        q = N(I.to_poly(d)).as_const()
        if q is not None and not q[1]:
            if not q[0]:
                raise PyRaise("ZeroDivisionError", "Fraction(.., 0)", I.where())
            return lift(I.to_poly(n) * P(Fraction(1) / q[0]), "float")
    return Unknown(deps_of(a), "fraction")


@ext("builtins.float", "numpy.float64", "numpy.float32")
def _float(I, a, k):
    if not a:
        return 0.0
    x = a[0]
    if isinstance(x, (bool, int, float)):
        return float(x)
    if isinstance(x, str):
        try:
            return float(x)
        except ValueError as e:
            raise PyRaise("ValueError", str(e), I.where())
    if isinstance(x, complex):
        raise PyRaise("TypeError", "can't convert complex to float", I.where())
    if isinstance(x, Sym):
        if x.ty == "complex":
            I.event("drop_imag", node=x, how="converted to a real type")
        return lift(x.p, "float") if not isinstance(lift(x.p, "float"), int) else float(lift(x.p, "float"))
    if isinstance(x, ArrVal):
        if x.node.shape:
            return convert(I, x, DT("f"))
        if x.node.cplx:
            I.event("drop_imag", node=x.node, how="converted to a real type")
        return Sym(I.to_poly(x), "float")
    if isinstance(x, StrV):
        I.assume(Cond("isfloat", (x,)), True)
        return Sym(Poly.atom(("ufn", "float", x)), "float")
    return Sym(Poly.atom(("unk", uid(), DepBox(deps_of(x)))), "float")


@ext("builtins.complex", "numpy.complex128", "numpy.complex64")
def _complex(I, a, k):
    if all(isinstance(x, (int, float, complex)) for x in a):
        return complex(*a)
    if len(a) == 1 and is_num(a[0]):
        return Sym(I.to_poly(a[0]), "complex")
    if len(a) == 1 and isinstance(a[0], ArrVal):
        return convert(I, a[0], DT("f", ["c"]))
    if len(a) == 2:
        return binop(I, "Add", a[0], binop(I, "Mult", 1j, a[1]))
    return Unknown(deps_of(a), "complex")


@ext("builtins.abs", "numpy.abs", "numpy.absolute", "math.fabs", "numpy.fabs")
def _abs(I, a, k):
    x = a[0]
    if isinstance(x, (int, float, complex)):
        return abs(x)
    if isinstance(x, Sym):
        if x.ty == "complex":
            return ret(I, T.elementwise("abs", [num_node(x)], frozenset()))
        return lift(poly.mk_abs(x.p), x.ty)
    if isinstance(x, Obj):
        m, _ = x.cls.lookup("__abs__")
        return I.call(Bound(m, x), [], {})
    try:
        n = to_node(I, x)
    except Stuck:
        return UArr(deps_of(x), cplx=frozenset())
    return ret(I, set_kind(T.elementwise("abs", [n], frozenset()), n.kind))


@ext("builtins.round")
def _round(I, a, k):
    x = a[0]
    if isinstance(x, (int, float)) and all(isinstance(y, (int, type(None))) for y in a[1:]):
        if isinstance(x, float) and (x != x or abs(x) == float("inf")):
            raise PyRaise("ValueError", "cannot round", I.where())
        return round(*a)
    if isinstance(x, complex):
        raise PyRaise("TypeError", "cannot round complex", I.where())
    if isinstance(x, Sym):
        p = N(x.p)
        if x.ty == "int" or poly.is_intvalued(p):
            return lift(p, "int" if len(a) == 1 else x.ty)
        return Sym(Poly.atom(("ufn", "round" if len(a) == 1 else "rounddigits", p)), "int" if len(a) == 1 else x.ty)
    return Unknown(deps_of(a), "round")


@ext("builtins.pow", "math.pow", "operator.pow")
def _pow(I, a, k):
    return binop(I, "Pow", a[0], a[1])


@ext("builtins.divmod", "numpy.divmod", "jax.numpy.divmod")
def _divmod(I, a, k):
    return (binop(I, "FloorDiv", a[0], a[1]), binop(I, "Mod", a[0], a[1]))


for _n, _o in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("matmul", "MatMult"), ("truediv", "Div"), ("floordiv", "FloorDiv"),
               ("mod", "Mod")):
    EXT["operator." + _n] = (lambda o: lambda I, a, k: binop(I, o, a[0], a[1]))(_o)
for _n, _o in (("eq", "Eq"), ("ne", "NotEq"), ("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE")):
    EXT["operator." + _n] = (lambda o: lambda I, a, k: compare(I, o, a[0], a[1]))(_o)


@ext("operator.itemgetter")
def _itemgetter(I, a, k):
    return ExtObj("itemgetter", tuple(a))


@ext("builtins.range")
def _range(I, a, k):
    ps = []
    for x in a:
        if isinstance(x, float) or isinstance(x, Sym) and x.ty != "int" and not poly.is_intvalued(x.p):
            raise PyRaise("TypeError", "float object cannot be interpreted as an integer", I.where())
        if isinstance(x, Unknown):
            return Unknown(deps_of(a), "range")
        if isinstance(x, ArrVal) and x.node.shape:
            raise PyRaise("TypeError", "only integer scalar arrays", I.where())
        ps.append(I.to_poly(x))
    lo, hi, st = (ZERO, ps[0], ONE) if len(ps) == 1 else (ps[0], ps[1], ONE) if len(ps) == 2 else tuple(ps)
    d = N(hi - lo)
    s = N(st).as_int()
    if s is None:
        return Unknown(deps_of(a), "range with unknown step")
    if s == 0:
        raise PyRaise("ValueError", "range() arg 3 must not be zero", I.where())
    if s < 0:
        d = -d
    if pcmp("<=", d, 0) is True:
        n = ZERO
    else:
        n = d if abs(s) == 1 else poly.mk_floordiv(d + (abs(s) - 1), P(abs(s)))
        if pcmp(">=", n, 0) is not True:
            n = poly.mk_minmax("max", n, ZERO)
    return RangeVal(N(lo), N(n), N(st))


@ext("builtins.enumerate")
def _enumerate(I, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    if isinstance(a[0], PySet):
        I.event("set_iter", set=a[0], ordered=True)
    items = I.iterate(a[0]) if not isinstance(a[0], PySet) else I.set_list(a[0])
    if items is None:
        return PyList([], deps_of(a))
    out = []
    n = I.to_poly(start)
    for x in items:
        if isinstance(x, Seg):
            if len(x.items) == 1 and not isinstance(x.items[0], Seg):
                out.append(Seg(x.ix, x.n, [(lift(n + Poly.atom(x.ix)), x.items[0])]))
                if x.n is not INF:
                    n = N(n + x.n)
            else:
                return PyList([], deps_of(a))
        else:
            out.append((lift(n), x))
            n = N(n + 1)
    return PyList(out)


@ext("builtins.zip", "itertools.zip_longest")
def _zip(I, a, k):
    seqs = []
    for x in a:
        if isinstance(x, Seg):      # zip(*family)
            raise Stuck("zip of a family")
        if isinstance(x, PySet):
            I.event("set_iter", set=x, ordered=True)
            r = I.set_list(x)
        else:
            r = I.iterate(x)
        if r is None:
            return PyList([], deps_of(a))
        seqs.append(list(r))
    if not seqs:
        return PyList()
    if not any(isinstance(x, Seg) for s in seqs for x in s):
        n = min(len(s) for s in seqs)
        return PyList([tuple(s[i] for s in seqs) for i in range(n)])
    # families of equal length
    if all(len(s) == 1 and isinstance(s[0], Seg) and len(s[0].items) == 1 and not isinstance(s[0].items[0], Seg) for s in seqs):
        ix = seqs[0][0].ix
        n = None
        for s in seqs:
            m = s[0].n
            if m is INF:
                continue
            if n is None:
                n = m
            elif pcmp("==", n, m) is not True:
                n = poly.mk_minmax("min", n, m)
        if n is None:
            n = INF
        vals = tuple(s[0].items[0] if s[0].ix == ix else I.subst_ix(s[0].items[0], s[0].ix, Poly.atom(ix)) for s in seqs)
        return PyList([Seg(ix, n, [vals])])
    # same structure
    if all(len(s) == len(seqs[0]) for s in seqs):
        out = []
        for xs in zip(*seqs):
            if all(isinstance(x, Seg) for x in xs) and all(len(x.items) == 1 and not isinstance(x.items[0], Seg) for x in xs) \
                    and all(x.n is not INF and xs[0].n is not INF and pcmp("==", x.n, xs[0].n) is True for x in xs):
                ix = xs[0].ix
                out.append(Seg(ix, xs[0].n, [tuple(x.items[0] if x.ix == ix else I.subst_ix(x.items[0], x.ix, Poly.atom(ix)) for x in xs)]))
            elif any(isinstance(x, Seg) for x in xs):
                return PyList([], deps_of(a))
            else:
                out.append(tuple(xs))
        return PyList(out)
    # one concrete list against an infinite family
    if all(not any(isinstance(x, Seg) for x in s) or (len(s) == 1 and len(s[0].items) == 1 and not isinstance(s[0].items[0], Seg)) for s in seqs):
        n = min(len(s) for s in seqs if not any(isinstance(x, Seg) for x in s))
        cols = []
        for s in seqs:
            if any(isinstance(x, Seg) for x in s):
                if s[0].n is not INF and pcmp(">=", s[0].n, n) is not True:
                    m = N(s[0].n).as_int()
                    if m is None:
                        # lengths are expected to agree
                        c = pcmp("==", s[0].n, n)
                        if c is None:
                            I.assume(Cond("cmp", ("==", N(s[0].n), P(n))), True)
                        else:
                            return PyList([], deps_of(a))
                    else:
                        n = min(n, m)
                cols.append([I.subst_ix(s[0].items[0], s[0].ix, j) for j in range(n)])
            else:
                cols.append(s[:n])
        n = min(len(c) for c in cols)
        return PyList([tuple(c[i] for c in cols) for i in range(n)])
    return PyList([], deps_of(a))


@ext("builtins.list", "builtins.tuple")
def _list(I, a, k):
    raise Stuck("replaced below")


def _mk_seq(tup):
    def f(I, a, k):
        if not a:
            return () if tup else PyList()
        x = a[0]
        if isinstance(x, PySet):
            I.event("set_iter", set=x, ordered=True)
            items = I.set_list(x)
        else:
            items = I.iterate(x)
        if items is None:
            d = deps_of(x) | (SETORDER if isinstance(x, PySet) else frozenset())
            return TupleSeg([], d) if tup else PyList([], d)
        if any(isinstance(y, Seg) and y.n is INF for y in items):
            raise Stuck("infinite sequence")
        return I.make_tuple(items) if tup else PyList(items)
    return f


EXT["builtins.list"] = _mk_seq(False)
EXT["builtins.tuple"] = _mk_seq(True)


@ext("builtins.iter")
def _iter(I, a, k):
    if isinstance(a[0], PySet):
        return ExtObj("setiter", a[0])
    if isinstance(a[0], GenVal):
        return a[0]
    items = I.iterate(a[0])
    if items is None:
        return Unknown(deps_of(a), "iterator")
    return GenVal(lambda: items)


@ext("builtins.next")
def _next(I, a, k):
    g = a[0]
    if isinstance(g, ExtObj) and g.kind == "setiter":
        s = g.data
        I.event("set_iter", set=s, first=True)
        if s.unknown is None and s.items and not isinstance(s.items[0], Seg):
            return I.set_list(s)[0]
        return Unknown(deps_of(s), "element of a set")
    if isinstance(g, GenVal):
        if g.cache is None and g.first is not None and g.pos == 0:
            try:
                return g.first()
            except PyRaise as e:
                if e.name == "StopIteration" and len(a) > 1:
                    return a[1]
                raise
        if g.cache is None:
            g.cache = g.run()
        r = g.cache
        if len(r) == 1 and isinstance(r[0], tuple) and len(r[0]) == 2 and r[0][0] == "?":
            return Unknown(r[0][1], "next")
        if g.pos < len(r):
            x = r[g.pos]
            if isinstance(x, Seg):
                if x.n is INF or pcmp(">", x.n, 0) is True:
                    return I.subst_ix(x.items[0], x.ix, 0)
                return Unknown(deps_of(x), "next")
            g.pos += 1
            return x
        if len(a) > 1:
            return a[1]
        raise PyRaise("StopIteration", "", I.where())
    return Unknown(deps_of(a), "next")


@ext("builtins.set", "builtins.frozenset")
def _set(I, a, k):
    return as_set(I, a[0]) if a else PySet()


EXT["builtins.frozenset"] = lambda I, a, k: as_set(I, a[0], True) if a else PySet((), True)


@ext("builtins.dict", "collections.OrderedDict")
def _dict(I, a, k):
    d = PyDict()
    if a:
        if isinstance(a[0], PyDict):
            d.items = [list(x) for x in a[0].items]
            d.unknown = a[0].unknown
        else:
            items = I.iterate(a[0])
            if items is None or any(isinstance(x, Seg) for x in items):
                return PyDict([], deps_of(a))
            for x in items:
                kk, vv = I.seq(x)
                I.setitem(d, kk, vv)
    for n, v in k.items():
        I.setitem(d, n, v)
    return d


@ext("builtins.dict.fromkeys", "collections.OrderedDict.fromkeys")
def _fromkeys(I, a, k):
    items = I.iterate(a[0])
    v = a[1] if len(a) > 1 else None
    if items is None or any(isinstance(x, Seg) for x in items):
        return PyDict([], deps_of(a))
    out = []
    for x in items:
        for y in out:
            r = I.decide(equal(I, x, y[0]))
            if r is None and not I.noforks:
                r = I.fork(I.as_cond(equal(I, x, y[0])))
            if r is None:
                return PyDict([], deps_of(a))
            if r:
                break
        else:
            out.append([x, v])
    return PyDict(out)


@ext("collections.defaultdict", "collections.Counter")
def _defaultdict(I, a, k):
    return PyDict([], deps_of(a))


@ext("builtins.sorted")
def _sorted(I, a, k):
    x = a[0]
    if isinstance(x, PySet):
        src = PyList(I.set_list(x) or [], x.unknown)
    else:
        items = I.iterate(x)
        src = PyList(items) if items is not None else PyList([], deps_of(x))
    r = sort_items(I, src, k)
    return PyList(r) if r is not None else PyList([], deps_of(x) - SETORDER)


@ext("builtins.reversed")
def _reversed(I, a, k):
    x = a[0]
    if isinstance(x, ArrVal):
        n = N(x.node.shape[0]).as_int()
        if n is None:
            return ArrVal(T.getitem(x.node, [slice_reg(I, SliceVal(None, None, -1), x.node.shape[0])]))
    items = I.iterate(x)
    if items is None:
        return PyList([], deps_of(x))
    out = []
    for y in reversed(items):
        if isinstance(y, Seg):
            if y.n is INF or len(y.items) != 1 or isinstance(y.items[0], Seg):
                return PyList([], deps_of(x))
            out.append(Seg(y.ix, y.n, [I.subst_ix(y.items[0], y.ix, P(y.n) - 1 - Poly.atom(y.ix))]))
        else:
            out.append(y)
    return PyList(out)


@ext("builtins.sum")
def _sum(I, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    items = I.iterate(a[0]) if not isinstance(a[0], PySet) else I.set_list(a[0])
    if items is None:
        return Unknown(deps_of(a) - SETORDER, "sum")
    r = start
    for x in items:
        if isinstance(x, Seg):
            for y in x.items:
                if is_num(y) and is_num(r):
                    ty = join_type(num_type(y), num_type(r))
                    r = lift(I.to_poly(r) + poly.tsum(x.ix, x.n, None, I.to_poly(y)), ty)
                elif isinstance(y, ArrVal):
                    st = T.stack([T.Fam(x.ix, x.n, y.node)], 0)
                    let = "abcdefgh"[:len(y.node.shape)]
                    r = binop(I, "Add", r, ArrVal(T.einsum(f"z{let}->{let}", [st])))
                else:
                    return Unknown(deps_of(a), "sum")
        else:
            r = binop(I, "Add", r, x)
    return r


@ext("builtins.any", "builtins.all")
def _any(I, a, k):
    raise Stuck("replaced below")


def _mk_any(isall):
    def f(I, a, k):
        x = a[0]
        if isinstance(x, (ArrVal, UArr)):
            if isinstance(x, ArrVal) and len(x.node.shape) == 1:
                return np_call(I, "all" if isall else "any", [x], {})
        items = I.iterate(x) if not isinstance(x, PySet) else I.set_list(x)
        if items is None:
            return Cond("truth", (uid(),), deps_of(x) - SETORDER)
        conds = []
        for y in items:
            if isinstance(y, Seg):
                if all(I.decide(z) is isall for z in y.items if not isinstance(z, Seg)):
                    continue
                conds.append(Cond("forall" if isall else "exists", (y.ix, y.n if y.n is not INF else "inf", tuple(I.as_cond(z) for z in y.items)),
                                  deps_of(y)))
                continue
            d = I.decide(y)
            if d is (not isall):
                return not isall
            if d is None:
                conds.append(I.as_cond(y))
        if not conds:
            return isall
        return conds[0] if len(conds) == 1 else Cond("and" if isall else "or", conds, deps_of(conds))
    return f


EXT["builtins.any"] = _mk_any(False)
EXT["builtins.all"] = _mk_any(True)


@ext("builtins.max", "builtins.min")
def _max(I, a, k):
    raise Stuck("replaced below")


def _mk_max(which):
    def f(I, a, k):
        if len(a) == 1:
            items = I.iterate(a[0]) if not isinstance(a[0], PySet) else I.set_list(a[0])
        else:
            items = list(a)
        if items is None or any(isinstance(x, Seg) for x in items):
            return Unknown(deps_of(a) - SETORDER, which)
        if not items:
            if "default" in k:
                return k["default"]
            raise PyRaise("ValueError", f"{which}() of an empty sequence", I.where())
        key = k.get("key")
        if key is None and all(is_num(x) for x in items):
            r = items[0]
            for x in items[1:]:
                if not isinstance(r, Sym) and not isinstance(x, Sym):
                    r = max(r, x) if which == "max" else min(r, x)
                    continue
                if any(isinstance(z, float) and abs(z) == float("inf") for z in (r, x)):
                    c = num_compare(I, "<", r, x)
                    r = (x if c else r) if which == "max" else (r if c else x)
                    continue
                r = lift(poly.mk_minmax(which, I.to_poly(r), I.to_poly(x)), join_type(num_type(r), num_type(x)))
            return r
        best = items[0]
        bk = best if key is None else I.call(key, [best], {})
        for x in items[1:]:
            xk = x if key is None else I.call(key, [x], {})
            if I.truth(compare(I, "Lt" if which == "min" else "Gt", xk, bk)):
                best, bk = x, xk
        return best
    return f


EXT["builtins.max"] = _mk_max("max")
EXT["builtins.min"] = _mk_max("min")


@ext("builtins.map")
def _map(I, a, k):
    if len(a) == 2:
        if isinstance(a[1], PySet):
            I.event("set_iter", set=a[1], ordered=True)
        items = I.iterate(a[1]) if not isinstance(a[1], PySet) else I.set_list(a[1])
    else:
        z = _zip(I, a[1:], {})
        items = I.iterate(z)
    if items is None:
        return PyList([], deps_of(a))
    out = []
    for x in items:
        if isinstance(x, Seg):
            sub = []
            for y in x.items:
                if isinstance(y, Seg):
                    return PyList([], deps_of(a))
                sub.append(I.call(a[0], [y] if len(a) == 2 else list(y), {}))
            out.append(Seg(x.ix, x.n, sub))
        else:
            out.append(I.call(a[0], [x] if len(a) == 2 else list(x), {}))
    return GenVal(lambda: out)


@ext("builtins.filter")
def _filter(I, a, k):
    items = I.iterate(a[1])
    if items is None or any(isinstance(x, Seg) for x in items):
        return PyList([], deps_of(a))
    out = [x for x in items if I.truth(I.call(a[0], [x], {}) if a[0] is not None else x)]
    return GenVal(lambda: out)


@ext("builtins.slice")
def _slice(I, a, k):
    a = list(a)
    return SliceVal(None, a[0], None) if len(a) == 1 else SliceVal(*(a + [None] * (3 - len(a))))


@ext("builtins.chr")
def _chr(I, a, k):
    return chr(a[0]) if isinstance(a[0], int) else Unknown(deps_of(a), "chr")


@ext("builtins.ord")
def _ord(I, a, k):
    if isinstance(a[0], str):
        return ord(a[0])
    return Sym(Poly.atom(("unk", uid(), DepBox(deps_of(a)))), "int")


@ext("builtins.vars")
def _vars(I, a, k):
    return PyDict([[n, v] for n, v in a[0].attrs.items()]) if isinstance(a[0], Obj) else PyDict([], deps_of(a))


# ---- functools, itertools, math, re, random
@ext("functools.reduce")
def _reduce(I, a, k):
    items = I.iterate(a[1])
    if items is None or any(isinstance(x, Seg) for x in items):
        return Unknown(deps_of(a), "reduce")
    items = list(items)
    if len(a) > 2:
        r = a[2]
    else:
        if not items:
            raise PyRaise("TypeError", "reduce() of empty iterable with no initial value", I.where())
        r = items.pop(0)
    for x in items:
        r = I.call(a[0], [r, x], {})
    return r


@ext("functools.partial")
def _partial(I, a, k):
    return ExtObj("partial", (a[0], tuple(a[1:]), dict(k)))


@ext("functools.lru_cache", "functools.cache")
def _lru(I, a, k):
    if a and isinstance(a[0], FuncVal):
        a[0].cached = True
        return a[0]
    return Ext("functools.lru_cache")


@ext("functools.wraps", "functools.update_wrapper")
def _wraps(I, a, k):
    return Ext("lie_identity")


@ext("lie_identity", "jax.jit", "builtins.staticmethod", "numpy.ascontiguousarray", "jax.device_put", "typing.cast_", "copy.copy_")
def _ident(I, a, k):
    return a[0]


@ext("typing.TypeVar", "typing.NewType")
def _tv(I, a, k):
    return Unknown(why="type variable")


@ext("typing.cast")
def _cast(I, a, k):
    return a[1]


@ext("copy.copy", "copy.deepcopy")
def _copy(I, a, k):
    return copy_value(a[0])


def copy_value(v):
    if isinstance(v, ArrVal):
        return ArrVal(v.node)
    if isinstance(v, PyList):
        return PyList([copy_value(x) for x in v.items], v.unknown)
    if isinstance(v, PySet):
        return PySet(v.items, v.frozen, v.unknown)
    if isinstance(v, PyDict):
        return PyDict([[a, copy_value(b)] for a, b in v.items], v.unknown)
    if isinstance(v, tuple):
        return tuple(copy_value(x) for x in v)
    if isinstance(v, Obj):
        o = Obj(v.cls, {n: copy_value(x) for n, x in v.attrs.items()})
        o.tag = v.tag
        return o
    return v


@ext("dataclasses.replace")
def _replace(I, a, k):
    o = a[0]
    kw = dict(o.attrs)
    kw.update(k)
    return I.instantiate(o.cls, [], kw)


@ext("dataclasses.field")
def _field(I, a, k):
    return ExtObj("field", dict(k))


@ext("dataclasses.dataclass")
def _dataclass(I, a, k):
    if a and isinstance(a[0], ClassVal):
        return make_dc(a[0], k)
    return ExtObj("dcdeco", dict(k))


def make_dc(c, k):
    c.dataclass = True
    c.dc_eq = k.get("eq", True) and "__eq__" not in c.ns
    c.frozen = bool(k.get("frozen", False))
    c.dc_init = k.get("init", True)
    return c


@ext("dataclasses.astuple")
def _astuple(I, a, k):
    return tuple(a[0].attrs.values())


@ext("jax.tree_util.register_pytree_node", "multipledispatch.dispatch", "abc.abstractmethod")
def _none(I, a, k):
    return Ext("lie_identity") if not a or not isinstance(a[0], FuncVal) else a[0]


@ext("itertools.count")
def _count(I, a, k):
    lo = I.to_poly(a[0]) if a else I.to_poly(k.get("start", 0))
    st = I.to_poly(a[1]) if len(a) > 1 else I.to_poly(k.get("step", 1))
    return RangeVal(lo, P(I.prog.count_limit) if getattr(I.prog, "count_limit", None) else INF, st)


@ext("itertools.islice")
def _islice(I, a, k):
    items = I.iterate(a[0])
    if items is None:
        return PyList([], deps_of(a))
    n = I.as_index(a[1]) if len(a) == 2 else None
    if n is None:
        if len(items) == 1 and isinstance(items[0], Seg) and len(a) == 2:
            m = I.to_poly(a[1]) if a[1] is not None else items[0].n
            if items[0].n is INF:
                return PyList([Seg(items[0].ix, m, items[0].items)])
        return PyList([], deps_of(a))
    out = []
    for x in items:
        if isinstance(x, Seg):
            if x.n is INF or pcmp(">=", x.n, n) is True:
                for j in range(n - len(out)):
                    for y in x.items:
                        y = I.subst_ix(y, x.ix, j)
                        if isinstance(y, Seg):
                            return PyList([], deps_of(a))
                        out.append(y)
                break
            return PyList([], deps_of(a))
        out.append(x)
        if len(out) >= n:
            break
    return PyList(out[:n])


def _concrete(I, a):
    out = []
    for x in a:
        items = I.iterate(x) if not isinstance(x, PySet) else I.set_list(x)
        if isinstance(x, PySet):
            I.event("set_iter", set=x, ordered=True)
        if items is None or any(isinstance(y, Seg) for y in items):
            return None
        out.append(list(items))
    return out


@ext("itertools.product")
def _product(I, a, k):
    rep = I.as_index(k.get("repeat", 1))
    seqs = _concrete(I, a)
    if seqs is None or rep is None:
        return seg_product(I, a) if rep == 1 else PyList([], deps_of(a))
    tot = 1
    for s in seqs * rep:
        tot *= len(s)
    if tot > 3000:
        return PyList([], deps_of(a))
    return PyList([tuple(x) for x in itertools.product(*(seqs * rep))])


def seg_product(I, a):
    """product of families"""
    seqs = [I.iterate(x) for x in a]
    if any(s is None for s in seqs):
        return PyList([], deps_of(a))

    def go(i, pre):
        if i == len(seqs):
            return [tuple(pre)]
        out = []
        for x in seqs[i]:
            if isinstance(x, Seg):
                inner = []
                for y in x.items:
                    if isinstance(y, Seg):
                        raise Stuck("nested family")
                    inner += go(i + 1, pre + [y])
                out.append(Seg(x.ix, x.n, inner))
            else:
                out += go(i + 1, pre + [x])
        return out
    return PyList(go(0, []))


@ext("itertools.permutations", "itertools.combinations", "itertools.combinations_with_replacement")
def _perms(I, a, k):
    raise Stuck("replaced below")


def _mk_comb(fn):
    def f(I, a, k):
        seqs = _concrete(I, a[:1])
        r = I.as_index(a[1]) if len(a) > 1 and a[1] is not None else None
        if seqs is None or len(seqs[0]) > 6 or (len(a) > 1 and a[1] is not None and r is None):
            return PyList([], deps_of(a))
        return PyList([tuple(x) for x in (fn(seqs[0], r) if r is not None or fn is not itertools.permutations else fn(seqs[0]))])
    return f


for _n in ("permutations", "combinations", "combinations_with_replacement"):
    EXT["itertools." + _n] = _mk_comb(getattr(itertools, _n))


@ext("itertools.chain")
def _chain(I, a, k):
    out = []
    for x in a:
        items = I.iterate(x)
        if items is None:
            return PyList([], deps_of(a))
        out += items
    return PyList(out)


@ext("itertools.chain.from_iterable")
def _chain2(I, a, k):
    items = I.iterate(a[0])
    if items is None or any(isinstance(x, Seg) for x in items):
        return PyList([], deps_of(a))
    return _chain(I, items, {})


@ext("itertools.repeat")
def _repeat(I, a, k):
    if len(a) > 1:
        n = I.to_poly(a[1])
        c = n.as_int()
        return PyList([a[0]] * c) if c is not None else PyList([Seg(T.new_ix(), n, [a[0]])])
    return PyList([Seg(T.new_ix(), INF, [a[0]])])


@ext("itertools.accumulate")
def _accumulate(I, a, k):
    items = I.iterate(a[0])
    if items is None or any(isinstance(x, Seg) for x in items):
        return PyList([], deps_of(a))
    out = []
    acc = k.get("initial")
    if acc is not None:
        out.append(acc)
    for x in items:
        acc = x if acc is None else (binop(I, "Add", acc, x) if len(a) < 2 else I.call(a[1], [acc, x], {}))
        out.append(acc)
    return PyList(out)


@ext("itertools.takewhile", "itertools.dropwhile", "itertools.groupby", "itertools.starmap", "itertools.cycle")
def _itunk(I, a, k):
    return PyList([], deps_of(a))


@ext("math.factorial", "scipy.special.factorial")
def _factorial(I, a, k):
    x = a[0]
    if isinstance(x, (int, float)):
        if x < 0 or x != int(x):
            raise PyRaise("ValueError", "factorial() not defined for negative values", I.where())
        if x > 300:
            raise Stuck("large factorial")
        return math.factorial(int(x))
    if isinstance(x, Sym):
        if pcmp("<", x.p, 0) is True:
            raise PyRaise("ValueError", "factorial() not defined for negative values", I.where())
        return Sym(Poly.atom(("ufn", "factorial", N(x.p))), "int")
    return Unknown(deps_of(a), "factorial")


@ext("math.sqrt", "cmath.sqrt")
def _msqrt(I, a, k):
    return np_call(I, "sqrt", a, k)


@ext("math.gcd")
def _gcd(I, a, k):
    if all(isinstance(x, int) for x in a):
        return math.gcd(*a)
    return Sym(Poly.atom(("ufn", "gcd") + tuple(N(I.to_poly(x)) for x in a)), "int")


@ext("math.comb", "math.floor", "math.ceil", "math.log", "math.log2", "math.exp", "math.prod", "math.isclose", "math.cos", "math.sin")
def _math(I, a, k):
    return Unknown(deps_of(a), "math")


def _mk_math(n):
    def f(I, a, k):
        if all(isinstance(x, (int, float)) for x in a):
            try:
                return getattr(math, n)(*a)
            except ValueError as e:
                raise PyRaise("ValueError", str(e), I.where())
        if n in ("floor", "ceil") and isinstance(a[0], Sym):
            p = N(a[0].p)
            if poly.is_intvalued(p):
                return lift(p, "int")
            return lift(poly.mk_floordiv(p, ONE), "int") if n == "floor" else lift(-poly.mk_floordiv(-p, ONE), "int")
        if n == "prod":
            r = 1
            items = I.iterate(a[0])
            if items is None or any(isinstance(x, Seg) for x in items):
                return Unknown(deps_of(a), "prod")
            for x in items:
                r = binop(I, "Mult", r, x)
            return r
        if all(is_num(x) for x in a) and n not in ("isclose",):
            return Sym(Poly.atom(("ufn", n) + tuple(N(I.to_poly(x)) for x in a)), "int" if n == "comb" else "float")
        return Unknown(deps_of(a), "math." + n)
    return f


for _n in ("comb", "floor", "ceil", "log", "log2", "exp", "prod", "isclose", "cos", "sin"):
    EXT["math." + _n] = _mk_math(_n)


@ext("re.compile")
def _recompile(I, a, k):
    return ExtObj("regex", a[0])


@ext("re.fullmatch", "re.match", "re.search")
def _re(I, a, k):
    raise Stuck("replaced below")


def _mk_re(fn):
    def f(I, a, k):
        pat, s = a[0], a[1]
        if isinstance(pat, ExtObj):
            pat = pat.data
        if isinstance(pat, str) and isinstance(s, str):
            import re
            r = getattr(re, fn)(pat, s)
            if r is None:
                return None
            return ExtObj("rmatch", r)
        return ExtObj("match", (pat, s, fn))
    return f


for _n in ("fullmatch", "match", "search"):
    EXT["re." + _n] = _mk_re(_n)


@ext("re.split", "re.findall", "re.sub", "re.finditer")
def _reother(I, a, k):
    return PyList([], deps_of(a))


EXT["re.sub"] = lambda I, a, k: StrV("re.sub", tuple(a[:3]))
EXT["re.findall"] = lambda I, a, k: StrListV(I, "re.findall", a[1], a[:1], {}) if isinstance(a[0], str) and __import__("re").compile(a[0]).groups <= 1 else PyList([], deps_of(a))
EXT["re.split"] = lambda I, a, k: StrListV(I, "re.split", a[1], a[:1], {})


@ext("contextlib.suppress", "contextlib.nullcontext", "numpy.printoptions", "numpy.errstate", "warnings.catch_warnings", "jax.disable_jit",
     "jax.default_matmul_precision", "numpy.testing.suppress_warnings")
def _ctx(I, a, k):
    return ExtObj("ctx", None)


def random_array(I, name, args, kw, seeded=False):
    shape = None
    if name in ("rand", "randn"):
        shape = args
    elif name in ("normal", "uniform"):
        shape = kw.get("size", args[2] if len(args) > 2 else ())
    elif name in ("standard_normal", "random", "random_sample"):
        shape = kw.get("size", args[0] if args else ())
    elif name in ("randint", "integers"):
        shape = kw.get("size", args[2] if len(args) > 2 else ())
    elif name == "permutation" or name == "shuffle":
        shape = args[:1]
    tag = ("random", uid()) if not seeded else ("seeded", uid())
    try:
        sh = [I.to_poly(x) for x in I.seq(shape)] if not is_num(shape) else [I.to_poly(shape)]
    except (Stuck, PyRaise):
        return Unknown({tag}, "random")
    return ret(I, set_kind(T.leaf(tag[0], tag[1], sh), "i" if name in ("randint", "integers") else "f"))


@ext("random.randint", "random.random", "random.choice", "random.shuffle", "random.sample", "random.uniform")
def _pyrandom(I, a, k):
    I.event("nondet", path="random")
    return Sym(Poly.atom(("elem", T.leaf("random", uid(), ()), ())), "int")


@ext("jax.vmap")
def _vmap(I, a, k):
    return ExtObj("jvmap", (a[0], dict(k)))


@ext("jax.lax.cond")
def _laxcond(I, a, k):
    pred, f, g = a[:3]
    d = I.decide(pred)
    if d is None:
        c = pred if isinstance(pred, Cond) else I.as_cond(pred)
        d = I.fork(c)
    return I.call(f if d else g, a[3:], {})


@ext("jax.lax.scan")
def _laxscan(I, a, k):
    f, carry, xs = a[:3]
    length = k.get("length", a[3] if len(a) > 3 else None)
    if xs is not None:
        items = I.iterate(xs)
        if items is None or any(isinstance(x, Seg) for x in items):
            return Unknown(deps_of(a), "scan")
    else:
        n = I.as_index(length)
        if n is None or n > 40:
            return Unknown(deps_of(a), "scan")
        items = [None] * n
    ys = []
    for x in items:
        r = I.call(f, [carry, x], {})
        carry, y = I.seq(r)
        ys.append(y)
    return (carry, None if all(y is None for y in ys) else PyList(ys))


@ext("jax.lax.fori_loop")
def _fori(I, a, k):
    lo, hi = I.as_index(a[0]), I.as_index(a[1])
    if lo is None or hi is None or hi - lo > 40:
        return Unknown(deps_of(a), "fori_loop")
    v = a[3]
    for i in range(lo, hi):
        v = I.call(a[2], [i, v], {})
    return v


@ext("scipy.linalg.expm", "jax.scipy.linalg.expm")
def _expm(I, a, k):
    try:
        n = to_node(I, a[0])
    except Stuck:
        return UArr(deps_of(a))
    T.same_size(n.shape[-1], n.shape[-2], "matrix exponential: side lengths")
    return ArrVal(T.ufn("expm", [n], n.shape, n.cplx))


@ext("scipy.linalg.sqrtm")
def _sqrtm(I, a, k):
    try:
        n = to_node(I, a[0])
    except Stuck:
        return UArr(deps_of(a))
    return ArrVal(T.ufn("sqrtm", [n], n.shape, frozenset(["c"])))


@ext("scipy.linalg.block_diag")
def _block_diag(I, a, k):
    nodes = [to_node(I, x) for x in a]
    n = sum((x.shape[0] for x in nodes), ZERO)
    m = sum((x.shape[1] for x in nodes), ZERO)
    r = T.const(0, (n, m), cplx=T.union_c(*nodes))
    i = j = ZERO
    for x in nodes:
        r = T.store(r, [Reg("slice", i, x.shape[0]), Reg("slice", j, x.shape[1])], x)
        i, j = i + x.shape[0], j + x.shape[1]
    return ArrVal(r)


@ext("scipy.linalg.inv", "jax.numpy.linalg.inv")
def _sinv(I, a, k):
    return np_call(I, "linalg.inv", a, k)


@ext("scipy.linalg.null_space", "scipy.linalg.orth")
def _nsp(I, a, k):
    return UArr(deps_of(a))


@ext("numpy.vectorize")
def _vectorize(I, a, k):
    return ExtObj("vectorize", a[0])


# ---------------------------------------------------------------- numpy
NP = {}


def np_(*names):
    def deco(f):
        for n in names:
            NP[n] = f
        return f
    return deco


def np_call(I, name, args, kw):
    args = list(args)
    h = NP.get(name)
    if h is None:
        h2 = EXT.get("numpy." + name)
        if h2 is not None:
            return h2(I, args, kw)
        if name.startswith("random."):
            return np_random(I, name[7:], args, kw)
        if name.startswith("testing."):
            return np_testing(I, name[8:], args, kw)
        d = deps_of(args) | deps_of(list(kw.values()))
        return UArr(d)
    try:
        return h(I, args, kw)
    except Stuck as e:
        if any(isinstance(x, (UArr, Unknown)) or getattr(x, "unknown", None) is not None for x in args) or any(
                isinstance(y, (UArr, Unknown)) for x in args if isinstance(x, (PyList, tuple)) for y in flat_items(x.items if isinstance(x, PyList) else x)):
            d = deps_of(args) | deps_of(list(kw.values()))
            if name in ("allclose", "array_equal", "all", "any"):
                return Cond("truth", (uid(),), d)
            return UArr(d)
        raise


def getkw(args, kw, pos, name, default=None):
    if name in kw:
        return kw[name]
    return args[pos] if len(args) > pos else default


def np_random(I, name, args, kw):
    if name in ("default_rng", "RandomState"):
        seed = args[0] if args else kw.get("seed")
        if seed is None:
            I.event("nondet", path="numpy.random." + name)
        return ExtObj("rng", seed)
    I.event("nondet", path="numpy.random." + name)
    return random_array(I, name, args, kw)


def np_testing(I, name, args, kw):
    d = deps_of(args[:2])
    try:
        a, b = to_node(I, args[0]), to_node(I, args[1])
        T.bshape(a.shape, b.shape)
        c = Cond("loose" if loose(args, kw) else "allclose", (a, b), d)
        if len(a.shape) and len(b.shape) and (len(a.shape) != len(b.shape) or any(pcmp("==", s, t) is False for s, t in zip(a.shape, b.shape))):
            raise PyRaise("AssertionError", "shapes differ", I.where())
    except ShapeError:
        raise PyRaise("AssertionError", "shapes differ", I.where())
    except Stuck:
        c = Cond("truth", (uid(),), d)
    r = I.decide(c)
    if r is None:
        r = I.fork(c)
    if not r:
        raise PyRaise("AssertionError", "arrays differ", I.where())
    return None


def filler(value, pos):
    def f(I, a, k):
        v = value
        if pos == 2:
            v = getkw(a, k, 1, "fill_value")
        sh = shape_arg(I, getkw(a, k, 0, "shape"))
        dt = dtype_of(I, getkw(a, k, pos, "dtype"), DT("f"))
        if any(pcmp(">=", s, 0) is False for s in sh):
            raise PyRaise("ValueError", "negative dimensions are not allowed", I.where())
        if v == "empty":
            return ArrVal(set_kind(T.leaf("empty", uid(), sh, dt.cplx if dt else frozenset()), dt.kind if dt else "f"))
        n = to_node(I, v)
        if pos == 2 and "dtype" not in k and len(a) <= 2:
            dt = DT(n.kind, n.cplx)
        if dt is None:
            return UArr(deps_of(a))
        if n.op == "const":
            return ArrVal(set_kind(widen_c(T.const(n.args[0], sh), dt.cplx), dt.kind))
        return ArrVal(widen_c(T.broadcast_to(n, sh), dt.cplx))
    return f


NP["zeros"] = filler(0, 1)
NP["ones"] = filler(1, 1)
NP["empty"] = filler("empty", 1)
NP["full"] = filler(None, 2)


def like(value):
    def f(I, a, k):
        n = to_node(I, a[0])
        v = getkw(a, k, 1, "fill_value") if value == "full" else value
        dt = dtype_of(I, k.get("dtype"), DT(n.kind, n.cplx))
        sh = shape_arg(I, k["shape"]) if "shape" in k else n.shape
        if v == "empty":
            return ArrVal(T.leaf("empty", uid(), sh, dt.cplx))
        c = to_node(I, v)
        return ArrVal(set_kind(widen_c(T.broadcast_to(c, sh) if c.op != "const" else T.const(c.args[0], sh), dt.cplx), dt.kind))
    return f


NP["zeros_like"], NP["ones_like"], NP["empty_like"], NP["full_like"] = like(0), like(1), like("empty"), like("full")


@np_("eye", "identity")
def np_eye(I, a, k):
    n = I.to_poly(a[0] if a else k.get("N", k.get("n")))
    m = getkw(a, k, 1, "M")
    kk = getkw(a, k, 2, "k", 0)
    if isinstance(m, (Ext, DT)):
        m = None
    dt = dtype_of(I, getkw(a, k, 3, "dtype"), DT("f"))
    off = I.as_index(kk)
    if off is None:
        raise Stuck("symbolic diagonal offset")
    if pcmp(">=", n, 0) is False:
        raise PyRaise("ValueError", "negative dimensions are not allowed", I.where())
    r = T.eye(n, None if m is None else I.to_poly(m), off)
    return ArrVal(set_kind(widen_c(r, dt.cplx if dt else frozenset()), dt.kind if dt else "f"))


@np_("array", "asarray", "asanyarray", "ascontiguousarray", "copy")
def np_array(I, a, k):
    x = a[0] if a else k.get("object", k.get("a"))
    dt = getkw(a, k, 1, "dtype")
    if isinstance(x, UArr):
        if dt is not None:
            return convert(I, x, dtype_of(I, dt))
        return UArr(x.deps, base=x, cplx=x.cplx)
    if isinstance(x, ArrVal) and dt is None:
        return ArrVal(x.node, base=x if k.get("copy") is not True and not k.get("_copy") else None, pred=x.pred)
    if isinstance(x, PySet):
        return ArrVal(T.mk("ufn", ("object", (DepBox(deps_of(x)),)), (), frozenset(), "o"))
    n = to_node(I, x)
    if dt is not None:
        r = convert(I, ArrVal(n), dtype_of(I, dt))
        return r if isinstance(r, (ArrVal, UArr)) else ArrVal(to_node(I, r))
    return ArrVal(n)


def _np_array_copy(I, a, k):
    k = dict(k)
    if k.get("copy") is False:
        return np_array(I, a, k)
    k["_copy"] = True
    return np_array(I, a, k)


NP["array"] = NP["copy"] = _np_array_copy


@np_("einsum")
def np_einsum(I, a, k):
    spec = a[0]
    if not isinstance(spec, str):
        raise Stuck("einsum specification")
    if any(isinstance(x, UArr) for x in a[1:]):
        return UArr(deps_of(a[1:]))
    nodes = [to_node(I, x) for x in a[1:]]
    r = T.einsum(spec, nodes)
    kind = max((n.kind if n.kind in "bif" else "f" for n in nodes), key="bif".index)
    out = ArrVal(set_kind(r, kind), base=a[1] if len(nodes) == 1 and isinstance(a[1], ArrVal) else None)
    return out if r.shape else I.scalarise(out)


def seq_nodes(I, v, f):
    if isinstance(v, ArrVal):
        v = v
    items = I.iterate(v)
    if items is None:
        raise Stuck("sequence of unknown arrays")
    parts = []
    for x in items:
        if isinstance(x, Seg):
            if len(x.items) != 1 or isinstance(x.items[0], Seg):
                raise Stuck("nested families")
            parts.append(T.Fam(x.ix, x.n, f(to_node(I, x.items[0]))))
        else:
            if isinstance(x, UArr):
                raise Stuck("unknown array")
            parts.append(f(to_node(I, x)))
    return parts


@np_("concatenate")
def np_concat(I, a, k):
    ax = axis_arg(I, a, k, 1)
    parts = seq_nodes(I, a[0], lambda n: n)
    if not parts:
        raise PyRaise("ValueError", "need at least one array to concatenate", I.where())
    return ArrVal(T.concat(parts, ax[0] if ax else 0))


@np_("stack")
def np_stack(I, a, k):
    ax = axis_arg(I, a, k, 1)
    parts = seq_nodes(I, a[0], lambda n: n)
    if not parts:
        raise PyRaise("ValueError", "need at least one array to stack", I.where())
    return ArrVal(T.stack(parts, ax[0] if ax else 0))


def at_least(d):
    def f(n):
        if d == 1:
            return n if n.shape else T.reshape(n, [ONE])
        if not n.shape:
            return T.reshape(n, [ONE, ONE])
        if len(n.shape) == 1:
            return T.reshape(n, [ONE, n.shape[0]])
        return n
    return f


@np_("hstack")
def np_hstack(I, a, k):
    parts = seq_nodes(I, a[0], at_least(1))
    nd = len((parts[0].arr if isinstance(parts[0], T.Fam) else parts[0]).shape)
    return ArrVal(T.concat(parts, 0 if nd == 1 else 1))


@np_("vstack")
def np_vstack(I, a, k):
    return ArrVal(T.concat(seq_nodes(I, a[0], at_least(2)), 0))


@np_("block")
def np_block(I, a, k):
    rows = I.iterate(a[0])
    if rows is None or any(isinstance(r, Seg) for r in rows):
        raise Stuck("np.block")
    out = []
    for r in rows:
        if isinstance(r, (PyList, tuple)):
            out.append(T.concat(seq_nodes(I, r, at_least(2)), 1))
        else:
            out.append(at_least(2)(to_node(I, r)))
    if all(not isinstance(r, (PyList, tuple)) for r in rows):
        return ArrVal(T.concat(out, 1))
    return ArrVal(T.concat(out, 0))


def pair(I, a):
    x, y = to_node(I, a[0]), to_node(I, a[1])
    return x, y


def loose(a, k, pos=2):
    """a comparison so coarse that it establishes nothing"""
    for i, n in ((pos, "rtol"), (pos + 1, "atol")):
        v = a[i] if len(a) > i else k.get(n)
        if isinstance(v, (int, float)) and not isinstance(v, bool) and v > 1e-2:
            return True
    return False


@np_("allclose", "array_equal", "array_equiv")
def np_allclose(I, a, k):
    d = deps_of(a[:2])
    x, y = pair(I, a)
    sh = T.bshape(x.shape, y.shape)
    if any(T.is_zero(t) for t in sh):
        return True
    if loose(a, k):
        return Cond("loose", (x, y), d)
    return Cond("allclose", (x, y), d)


def _array_equal(I, a, k):
    d = deps_of(a[:2])
    x, y = pair(I, a)
    if len(x.shape) != len(y.shape):
        return False
    for s, t in zip(x.shape, y.shape):
        r = pcmp("==", s, t)
        if r is False:
            return False
        if r is None:
            return Cond("alleq", (x, y), d)
    return Cond("alleq", (x, y), d)


NP["array_equal"] = _array_equal


@np_("isclose")
def np_isclose(I, a, k):
    x, y = pair(I, a)
    sh = T.bshape(x.shape, y.shape)
    if not sh:
        return Cond("allclose", (x, y), deps_of(a[:2]))
    return ArrVal(T.mk("emap", ("==", (x, y)), sh, frozenset(), "b"), pred=("~=", x, y))


def reduce_bool(which):
    def f(I, a, k):
        x = a[0]
        if isinstance(x, Cond):
            return x
        if isinstance(x, (bool, int, float, complex, Sym)):
            return I.call(Ext("builtins.bool"), [x], {})
        if isinstance(x, (PyList, tuple, TupleSeg, GenVal)):
            if isinstance(x, GenVal):
                return True
            items = I.iterate(x)
            if items is not None and all(isinstance(y, (bool, Cond)) for y in items):
                return I.call(Ext("builtins.all" if which == "all" else "builtins.any"), [PyList(items)], {})
        if isinstance(x, UArr):
            return Cond("truth", (uid(),), x.deps)
        n = to_node(I, x)
        ax = axis_arg(I, a, k, 1)
        if ax is not None and len(ax) != len(n.shape):
            if k.get("keepdims"):
                raise Stuck("keepdims")
            nd = len(n.shape)
            keep = [s for i, s in enumerate(n.shape) if i not in [q % nd for q in ax]]
            return ArrVal(T.mk("ufn", (which, (n, tuple(ax))), tuple(keep), frozenset(), "b"))
        d = deps_of(x)
        if T.is_zero(T.prod(n.shape)):
            return which == "all"
        pred = x.pred if isinstance(x, ArrVal) else None
        if pred and which == "all" and pred[0] == "==":
            return Cond("alleq", (pred[1], pred[2]), d)
        if pred and which == "all" and pred[0] == "~=":
            return Cond("allclose", (pred[1], pred[2]), d)
        if pred and which == "any" and pred[0] == "!=":
            return negate(I, Cond("alleq", (pred[1], pred[2]), d))
        if pred and which == "all" and pred[0] in ("<", "<=") and close_zero(pred):
            m, c = close_zero(pred)
            return Cond("allclose", (m, c), d)
        if pred and which == "any" and pred[0] in (">", ">=") and close_zero(pred):
            m, c = close_zero(pred)
            return negate(I, Cond("allclose", (m, c), d))
        if not n.shape:
            return I.call(Ext("builtins.bool"), [x], {})
        if which == "any" and pred is None:
            return negate(I, Cond("alleq", (n, T.const(0, ())), d))
        return Cond(which, (n,), d)
    return f


def close_zero(pred):
    """|a - b| < small constant: (a, b)"""
    op, x, y = pred
    if y.op == "const" and x.op == "emap" and x.args[0] == "abs":
        c = y.args[0].as_frac()
        if c is not None and 0 <= c < Fraction(1, 10):
            return split_diff(x.args[1][0])
    return None


def split_diff(e):
    if e.op == "sum" and len(e.args[0]) == 2:
        (p, x), (q, y) = e.args[0]
        if p == ONE and q == -ONE:
            return x, y
        if p == -ONE and q == ONE:
            return y, x
    return e, T.const(0, ())


NP["all"], NP["any"] = reduce_bool("all"), reduce_bool("any")
NP["alltrue"], NP["sometrue"] = NP["all"], NP["any"]


@np_("sqrt", "emath.sqrt", "lib.scimath.sqrt")
def np_sqrt(I, a, k):
    x = a[0]
    if is_num(x) and num_type(x) != "complex":
        if not isinstance(x, Sym) and x < 0:
            return float("nan")
        return lift(poly.mk_sqrt(I.to_poly(x)), "float")
    n = to_node(I, x)
    return ret(I, T.elementwise("sqrt", [n]))


@np_("conj", "conjugate")
def np_conj(I, a, k):
    x = a[0]
    if isinstance(x, UArr):
        return UArr(x.deps, cplx=x.cplx)
    n = to_node(I, x)
    return ret(I, set_kind(T.conj(n), n.kind))


@np_("real")
def np_real(I, a, k):
    x = a[0]
    if isinstance(x, (PyList, tuple)):
        x = ArrVal(to_node(I, x))
    return I.getattr(x, "real")


@np_("imag")
def np_imag(I, a, k):
    x = a[0]
    if isinstance(x, (PyList, tuple)):
        x = ArrVal(to_node(I, x))
    return I.getattr(x, "imag")


@np_("where")
def np_where(I, a, k):
    if len(a) == 1:
        return UArr(deps_of(a))
    c, x, y = a
    cn = to_node(I, c)
    xn, yn = to_node(I, x), to_node(I, y)
    if cn.op == "const":
        v = cn.args[0].as_const()
        if v is not None:
            sh = T.bshape(T.bshape(cn.shape, xn.shape), yn.shape)
            return ret(I, T.broadcast_to(xn if v[0] else yn, sh))
    pred = c.pred if isinstance(c, ArrVal) else None
    ck = T.mk("emap", (pred[0], (pred[1], pred[2])), cn.shape, frozenset(), "b") if pred and pred[0] != "~=" else cn
    sh = T.bshape(T.bshape(ck.shape, xn.shape), yn.shape)
    return ret(I, T.mk("emap", ("where", (ck, xn, yn)), sh, xn.cplx | yn.cplx, "f"))


@np_("reshape")
def np_reshape(I, a, k):
    sh = getkw(a, k, 1, "shape", k.get("newshape"))
    x = a[0] if isinstance(a[0], (ArrVal, UArr)) else ArrVal(to_node(I, a[0]))
    if isinstance(x, UArr):
        return UArr(x.deps, base=x, cplx=x.cplx)
    return arr_meth(I, x, "reshape", [sh if not is_num(sh) else (sh,)], {q: v for q, v in k.items() if q == "order"})


@np_("transpose", "permute_dims")
def np_transpose(I, a, k):
    x = a[0] if isinstance(a[0], (ArrVal, UArr)) else ArrVal(to_node(I, a[0]))
    if isinstance(x, UArr):
        return UArr(x.deps, base=x, cplx=x.cplx)
    ax = getkw(a, k, 1, "axes")
    return arr_meth(I, x, "transpose", [] if ax is None else [ax], {})


@np_("matrix_transpose", "linalg.matrix_transpose")
def np_mT(I, a, k):
    return np_call(I, "swapaxes", [a[0], -1, -2], {})


@np_("moveaxis", "rollaxis")
def np_moveaxis(I, a, k):
    x = a[0] if isinstance(a[0], (ArrVal, UArr)) else ArrVal(to_node(I, a[0]))
    if isinstance(x, UArr):
        return UArr(x.deps, base=x, cplx=x.cplx)
    src, dst = getkw(a, k, 1, "source"), getkw(a, k, 2, "destination")
    nd = len(x.node.shape)

    def lst(v):
        v = [I.as_index(y) for y in (I.seq(v) if not is_num(v) else [v])]
        if any(y is None for y in v):
            raise Stuck("symbolic axis")
        return [y % nd for y in v]
    s, d = lst(src), lst(dst)
    order = [i for i in range(nd) if i not in s]
    for dd, ss in sorted(zip(d, s)):
        order.insert(dd, ss)
    return ArrVal(set_kind(T.transpose(x.node, order), x.node.kind), base=x)


@np_("swapaxes")
def np_swapaxes(I, a, k):
    x = a[0] if isinstance(a[0], (ArrVal, UArr)) else ArrVal(to_node(I, a[0]))
    if isinstance(x, UArr):
        return UArr(x.deps, base=x, cplx=x.cplx)
    return arr_meth(I, x, "swapaxes", [getkw(a, k, 1, "axis1"), getkw(a, k, 2, "axis2")], {})


@np_("broadcast_to")
def np_broadcast_to(I, a, k):
    n = to_node(I, a[0])
    return ArrVal(set_kind(T.broadcast_to(n, shape_arg(I, getkw(a, k, 1, "shape"))), n.kind), base=a[0] if isinstance(a[0], ArrVal) else None)


@np_("broadcast_shapes")
def np_broadcast_shapes(I, a, k):
    sh = ()
    for x in a:
        sh = T.bshape(sh, tuple(shape_arg(I, x)))
    return tuple(lift(s) for s in sh)


@np_("broadcast_arrays")
def np_broadcast_arrays(I, a, k):
    ns = [to_node(I, x) for x in a]
    sh = ()
    for n in ns:
        sh = T.bshape(sh, n.shape)
    return PyList([ArrVal(T.broadcast_to(n, sh)) for n in ns])


@np_("arange")
def np_arange(I, a, k):
    lo, step = ZERO, ONE
    if len(a) == 1:
        hi = I.to_poly(a[0])
    else:
        lo, hi = I.to_poly(a[0]), I.to_poly(a[1])
        if len(a) > 2 or "step" in k:
            step = I.to_poly(getkw(a, k, 2, "step"))
    s = step.as_frac()
    if s is None or s == 0:
        raise Stuck("symbolic step")
    d = (hi - lo) * P(Fraction(1) / s)
    c = d.as_frac()
    if c is not None:
        n = P(max(0, math.ceil(c)))
    else:
        if s not in (1, -1) and not poly.is_intvalued(d):
            n = -poly.mk_floordiv(-(hi - lo), P(s)) if s > 0 else None
            if n is None:
                raise Stuck("arange length")
        else:
            n = d
        if poly.nonneg(n) is not True:
            r = I.decide_poly(">=", n, ZERO)
            if r is None:
                cond = Cond("cmp", (">=", n, ZERO))
                r = I.fork(cond)
            if not r:
                n = ZERO
    kind = "f" if any(num_type(x) == "float" for x in a if is_num(x)) else "i"
    r = T.arange(lo, step, n)
    dt = dtype_of(I, k.get("dtype"), None)
    if dt is not None:
        return convert(I, ArrVal(set_kind(r, kind)), dt)
    return ArrVal(set_kind(r, kind))


@np_("linspace")
def np_linspace(I, a, k):
    n = I.to_poly(getkw(a, k, 2, "num", 50))
    return ArrVal(T.ufn("linspace", [N(I.to_poly(a[0])), N(I.to_poly(a[1]))], (n,)))


@np_("diag", "diagonal", "diagflat")
def np_diag(I, a, k):
    n = to_node(I, a[0])
    off = I.as_index(getkw(a, k, 1, "k", 0))
    if len(n.shape) == 1 and off is not None:
        return ArrVal(set_kind(T.diag(n, off), n.kind))
    if len(n.shape) == 2 and off == 0 and pcmp("==", n.shape[0], n.shape[1]) is True:
        return ArrVal(set_kind(T.einsum("ii->i", [n]), n.kind))
    return UArr(n.deps, cplx=n.cplx)


@np_("kron")
def np_kron(I, a, k):
    x, y = pair(I, a)
    return ArrVal(T.kron(x, y))


@np_("dot", "matmul", "linalg.matmul")
def np_dot(I, a, k):
    x, y = pair(I, a)
    if not x.shape or not y.shape:
        return ret(I, T.mul(x, y))
    return ret(I, T.matmul(x, y))


@np_("linalg.multi_dot")
def np_multidot(I, a, k):
    items = I.seq(a[0])
    if isinstance(items, list) and len(items) < 2:
        raise PyRaise("ValueError", "Expecting at least two arrays.", I.where())
    r = to_node(I, items[0])
    for x in items[1:]:
        r = T.matmul(r, to_node(I, x))
    return ret(I, r)


@np_("vdot", "inner")
def np_vdot(I, a, k):
    return UArr(deps_of(a))


@np_("tensordot")
def np_tensordot(I, a, k):
    x, y = pair(I, a)
    ax = getkw(a, k, 2, "axes", 2)
    nx, ny = len(x.shape), len(y.shape)
    if is_num(ax):
        m = I.as_index(ax)
        ax, ay = list(range(nx - m, nx)), list(range(m))
    else:
        p, q = I.seq(ax)
        ax = [I.as_index(t) % nx for t in (I.seq(p) if not is_num(p) else [p])]
        ay = [I.as_index(t) % ny for t in (I.seq(q) if not is_num(q) else [q])]
    L = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ"
    lx = list(L[:nx])
    ly = list(L[nx:nx + ny])
    for p, q in zip(ax, ay):
        ly[q] = lx[p]
    out = [c for i, c in enumerate(lx) if i not in ax] + [c for i, c in enumerate(ly) if i not in ay]
    return ret(I, T.einsum("".join(lx) + "," + "".join(ly) + "->" + "".join(out), [x, y]))


@np_("outer", "multiply.outer")
def np_outer(I, a, k):
    x, y = pair(I, a)
    x = T.reshape(x, [T.prod(x.shape)])
    y = T.reshape(y, [T.prod(y.shape)])
    return ArrVal(T.einsum("i,j->ij", [x, y]))


@np_("trace")
def np_trace(I, a, k):
    n = to_node(I, a[0])
    if len(n.shape) == 2:
        return ret(I, T.einsum("ii->", [n]))
    a1, a2 = I.as_index(getkw(a, k, 2, "axis1", 0)), I.as_index(getkw(a, k, 3, "axis2", 1))
    nd = len(n.shape)
    L = list("abcdefghij"[:nd])
    L[a2 % nd] = L[a1 % nd]
    out = [c for i, c in enumerate(L) if i not in (a1 % nd, a2 % nd)]
    return ret(I, T.einsum("".join(L) + "->" + "".join(out), [n]))


@np_("take")
def np_take(I, a, k):
    x = a[0] if isinstance(a[0], (ArrVal, UArr)) else ArrVal(to_node(I, a[0]))
    ax = axis_arg(I, a, k, 2)
    if ax is None or isinstance(x, UArr):
        return UArr(deps_of(a))
    ax = ax[0] % len(x.node.shape)
    key = tuple([SliceVal(None, None, None)] * ax + [getkw(a, k, 1, "indices")])
    r = arr_getitem(I, x, key)
    return ArrVal(r.node) if isinstance(r, ArrVal) else r


def emap(name, kindf=None):
    def f(I, a, k):
        x = a[0]
        if isinstance(x, UArr):
            return UArr(x.deps, cplx=x.cplx)
        n = to_node(I, x)
        if name in ("floor", "ceil", "round", "rint", "trunc", "around") and n.kind in "ib":
            return ret(I, n)
        if is_num(x) and not isinstance(x, (Sym, complex)) and name in ("floor", "ceil", "sign", "round"):
            return {"floor": lambda v: float(math.floor(v)), "ceil": lambda v: float(math.ceil(v)), "sign": lambda v: (v > 0) - (v < 0),
                    "round": lambda v: round(v)}[name](x)
        cp = frozenset() if name in ("sign", "isnan", "isinf", "isfinite") and not n.cplx else n.cplx
        r = T.elementwise(name, [n], cp)
        return ret(I, r)
    return f


for _n in ("sign", "round", "floor", "ceil", "exp", "log", "cos", "sin", "tan", "arccos", "arcsin", "arctan", "isnan", "isinf", "isfinite",
           "rint", "trunc", "around", "log2", "log10", "square", "angle", "cosh", "sinh", "tanh", "cbrt", "fix"):
    NP[_n] = emap(_n)
NP["square"] = lambda I, a, k: binop(I, "Mult", a[0], a[0])
NP["negative"] = lambda I, a, k: binop(I, "Mult", -1, a[0])
for _n, _o in (("add", "+"), ("subtract", "-"), ("multiply", "*"), ("divide", "/"), ("true_divide", "/"), ("power", "**"), ("mod", "%"),
               ("remainder", "%"), ("floor_divide", "//"), ("float_power", "**")):
    NP[_n] = (lambda o: lambda I, a, k: I.binop(o, a[0] if is_num(a[0]) or isinstance(a[0], (ArrVal, UArr)) else ArrVal(to_node(I, a[0])), a[1]))(_o)
for _n, _o in (("equal", "=="), ("not_equal", "!="), ("less", "<"), ("less_equal", "<="), ("greater", ">"), ("greater_equal", ">=")):
    NP[_n] = (lambda o: lambda I, a, k: arr_compare(I, o, a[0], a[1]))(_o)
NP["linalg.matrix_rank"] = lambda I, a, k: Sym(Poly.atom(("unk", uid(), DepBox(deps_of(a)))), "int")


@np_("logical_and", "logical_or", "logical_not", "logical_xor", "bitwise_and", "bitwise_or")
def np_logic(I, a, k):
    return UArr(deps_of(a), cplx=frozenset())


@np_("maximum", "minimum")
def np_maximum(I, a, k):
    return UArr(deps_of(a), cplx=frozenset())


def np_sum_(how):
    def f(I, a, k):
        x = a[0]
        if isinstance(x, GenVal):
            x = PyList(I.iterate(x))
        if isinstance(x, (PyList, tuple, TupleSeg)) and not k and len(a) == 1:
            items = I.iterate(x)
            if items is not None and all(is_num(y) or isinstance(y, Seg) for y in items):
                if how == "sum":
                    return I.call(Ext("builtins.sum"), [PyList(items)], {})
                if not any(isinstance(y, Seg) for y in items):
                    v = 1
                    for y in items:
                        v = binop(I, "Mult", v, y)
                    return v if items else 1.0
                if len(items) == 1 and len(items[0].items) == 1 and is_num(items[0].items[0]):
                    s = items[0]
                    return lift(poly.psum(s.ix, s.n, I.to_poly(s.items[0]))) if False else Unknown(deps_of(x), "product of a family")
        if isinstance(x, UArr):
            return UArr(x.deps, cplx=x.cplx)
        n = to_node(I, x)
        ax = axis_arg(I, a, k, 1)
        nd = len(n.shape)
        if how == "prod":
            if nd == 1:
                m = n.shape[0].as_int()
                if m is not None and m <= 12 and (ax is None or ax == [0] or ax == [-1]):
                    v = 1
                    for y in I.iterate(ArrVal(n)):
                        v = binop(I, "Mult", v, y)
                    return v
            if nd == 0:
                return ret(I, n)
            return UArr(n.deps, cplx=n.cplx)
        if k.get("keepdims"):
            L = "abcdefghij"[:nd]
            axs = [q % nd for q in ax] if ax is not None else list(range(nd))
            r = T.einsum(L + "->" + "".join(c for i, c in enumerate(L) if i not in axs), [n])
            r = T.reshape(r, [ONE if i in axs else s for i, s in enumerate(n.shape)])
            return ArrVal(set_kind(r, n.kind))
        L = "abcdefghij"[:nd]
        axs = [q % nd for q in ax] if ax is not None else list(range(nd))
        r = T.einsum(L + "->" + "".join(c for i, c in enumerate(L) if i not in axs), [n])
        if how == "mean":
            r = T.div(r, T.const(T.prod([n.shape[i] for i in axs]), ()))
            return ret(I, r)
        if n.kind == "b":
            r = set_kind(r, "i")
        else:
            r = set_kind(r, n.kind)
        return ret(I, r)
    return f


NP["sum"], NP["prod"], NP["mean"] = np_sum_("sum"), np_sum_("prod"), np_sum_("mean")


def np_extreme(which):
    def f(I, a, k):
        x = a[0]
        if isinstance(x, UArr):
            return UArr(x.deps, cplx=x.cplx)
        if isinstance(x, (PyList, tuple)) and not k:
            items = I.iterate(x)
            if items and all(is_num(y) for y in items):
                return I.call(Ext("builtins." + which), [PyList(items)], {})
        n = to_node(I, x)
        ax = axis_arg(I, a, k, 1)
        if T.is_zero(T.prod(n.shape)):
            raise PyRaise("ValueError", "zero-size array to reduction operation", I.where())
        nd = len(n.shape)
        axs = [q % nd for q in ax] if ax is not None else list(range(nd))
        sh = tuple(s for i, s in enumerate(n.shape) if i not in axs)
        r = T.ufn("max" if which == "max" else "min", [n, tuple(axs)], sh, n.cplx, n.kind) if False else \
            T.mk("ufn", (which, (n, tuple(axs))), sh, n.cplx, n.kind)
        return ret(I, r)
    return f


for _n in ("max", "min", "amax", "amin"):
    NP[_n] = np_extreme(_n[-3:])


@np_("gcd")
def np_gcd(I, a, k):
    return I.call(Ext("math.gcd"), a, {}) if all(isinstance(x, int) for x in a) else Unknown(deps_of(a), "gcd")


@np_("nonzero", "argwhere", "flatnonzero", "argmax", "argmin", "argsort", "unique", "sort", "searchsorted", "bincount", "meshgrid",
     "cumsum", "cumprod", "lexsort", "tril", "triu", "indices", "roll", "flip", "tile", "repeat", "delete", "insert", "append", "cross",
     "isin", "count_nonzero", "digitize", "histogram", "median", "percentile", "std", "var", "diff", "select", "choose", "clip",
     "nan_to_num", "unravel_index", "ravel_multi_index", "triu_indices", "tril_indices", "ix_", "apply_along_axis", "split", "array_split")
def np_unknown(I, a, k):
    return UArr(deps_of(a) | deps_of(list(k.values())), cplx=frozenset(["c"]))


@np_("ravel", "squeeze")
def np_ravel(I, a, k):
    raise Stuck("ravel")


def _np_meth(name):
    def f(I, a, k):
        x = a[0] if isinstance(a[0], (ArrVal, UArr)) else ArrVal(to_node(I, a[0]))
        if isinstance(x, UArr):
            return UArr(x.deps, base=x, cplx=x.cplx)
        return arr_meth(I, x, name, a[1:], k)
    return f


NP["ravel"], NP["squeeze"] = _np_meth("ravel"), _np_meth("squeeze")


@np_("expand_dims")
def np_expand(I, a, k):
    x = a[0] if isinstance(a[0], (ArrVal, UArr)) else ArrVal(to_node(I, a[0]))
    if isinstance(x, UArr):
        return UArr(x.deps, base=x, cplx=x.cplx)
    ax = axis_arg(I, a, k, 1)
    sh = list(x.node.shape)
    nd = len(sh) + len(ax)
    for q in sorted(q % nd for q in ax):
        sh.insert(q, ONE)
    return ArrVal(set_kind(T.reshape(x.node, sh), x.node.kind), base=x)


@np_("atleast_1d", "atleast_2d")
def np_atleast(I, a, k):
    raise Stuck("atleast")


NP["atleast_1d"] = lambda I, a, k: ArrVal(at_least(1)(to_node(I, a[0])))
NP["atleast_2d"] = lambda I, a, k: ArrVal(at_least(2)(to_node(I, a[0])))


@np_("ndim", "shape", "size")
def np_ndim(I, a, k):
    raise Stuck("ndim")


NP["ndim"] = lambda I, a, k: len(to_node(I, a[0]).shape)
NP["shape"] = lambda I, a, k: tuple(lift(s) for s in to_node(I, a[0]).shape)
NP["size"] = lambda I, a, k: lift(T.prod(to_node(I, a[0]).shape))


@np_("iscomplex", "iscomplexobj", "isreal", "isrealobj", "isscalar")
def np_iscomplexobj(I, a, k):
    raise Stuck("iscomplex")


def _iscomplexobj(want):
    def f(I, a, k):
        x = a[0]
        if isinstance(x, UArr):
            return Cond("dtype", (uid(),), frozenset())
        n = to_node(I, x)
        if "c" in n.cplx:
            return want
        if not n.cplx:
            return not want
        c = Cond("dtype", ("complex", tuple(sorted(map(str, n.cplx)))), frozenset())
        return c if want else negate(I, c)
    return f


NP["iscomplexobj"], NP["isrealobj"] = _iscomplexobj(True), _iscomplexobj(False)


def _isreal(which):
    def f(I, a, k):
        n = to_node(I, a[0])
        im = T.imag(n) if n.cplx else T.const(0, n.shape)
        I.event("take_imag", node=n)
        z = T.const(0, ())
        op = "==" if which == "isreal" else "!="
        if not n.shape:
            c = Cond("alleq", (im, z), deps_of(a))
            return c if op == "==" else negate(I, c)
        return ArrVal(T.mk("emap", (op, (im, z)), n.shape, frozenset(), "b"), pred=(op, im, z))
    return f


NP["isreal"], NP["iscomplex"] = _isreal("isreal"), _isreal("iscomplex")
NP["isscalar"] = lambda I, a, k: is_num(a[0]) or isinstance(a[0], str)


@np_("result_type", "promote_types", "common_type", "find_common_type")
def np_result_type(I, a, k):
    kind, cp = "b", frozenset()
    order = "bifo"
    for x in a:
        d = dtype_of(I, x) if isinstance(x, (DT, Ext, str)) else None
        if d is None:
            if isinstance(x, UArr):
                d = DT("f", x.cplx)
            else:
                n = to_node(I, x)
                d = DT(n.kind if n.kind in order else "f", n.cplx)
        if order.index(d.kind) > order.index(kind):
            kind = d.kind
        cp |= d.cplx
    return DT(kind, cp)


NP["dtype"] = lambda I, a, k: dtype_of(I, a[0]) or Unknown(why="dtype")
NP["issubdtype"] = lambda I, a, k: _issub(I, a)
NP["isdtype"] = lambda I, a, k: Unknown(why="isdtype")
NP["can_cast"] = lambda I, a, k: Unknown(why="can_cast")


def _issub(I, a):
    d = dtype_of(I, a[0])
    n = a[1].path.split(".")[-1] if isinstance(a[1], Ext) else ""
    if d is None:
        return Cond("dtype", (uid(),), frozenset())
    if n in ("complexfloating", "complex128", "complex") or a[1] is None:
        if "c" in d.cplx:
            return True
        if not d.cplx:
            return False
        return Cond("dtype", ("complex", tuple(sorted(map(str, d.cplx)))), frozenset())
    if n in ("integer", "signedinteger", "int64", "int"):
        return d.kind == "i" and not d.cplx
    if n in ("bool", "bool_"):
        return d.kind == "b"
    if n in ("floating", "float64", "float"):
        if d.kind != "f" or "c" in d.cplx:
            return False
        if not d.cplx:
            return True
        return negate(I, Cond("dtype", ("complex", tuple(sorted(map(str, d.cplx)))), frozenset()))
    if n in ("inexact", "number"):
        return d.kind in "fi" if n == "number" else d.kind == "f"
    return Cond("dtype", (uid(),), frozenset())


# ---- linear algebra
@np_("linalg.inv")
def np_inv(I, a, k):
    n = to_node(I, a[0])
    return ArrVal(T.inverse(n))


@np_("linalg.pinv")
def np_pinv(I, a, k):
    n = to_node(I, a[0])
    sh = n.shape[:-2] + (n.shape[-1], n.shape[-2])
    cut = [v for v in (a[1:2] or [k[x] for x in ("rcond", "rtol") if x in k]) if v is not None]
    if cut and isinstance(cut[0], (int, float, Fraction)) and cut[0] > 1e-5:
        # singular values of this relative size are of no account to the tolerances of the package: another function than the inverse
        return ArrVal(T.ufn(f"pinv.cut{float(cut[0]):g}", [n], sh, n.cplx))
    if len(n.shape) >= 2 and pcmp("==", n.shape[-1], n.shape[-2]) is True:
        return ArrVal(T.inverse(n))       # the pseudo-inverse of an invertible matrix
    return ArrVal(T.ufn("pinv", [n], sh, n.cplx))



@np_("linalg.solve")
def np_solve(I, a, k):
    x, y = pair(I, a)
    return ArrVal(T.matmul(T.inverse(x), y))


@np_("linalg.matrix_power")
def np_matpow(I, a, k):
    n = to_node(I, a[0])
    e = a[1]
    if isinstance(e, ArrVal):
        e = I.scalarise(e)
    p = I.to_poly(e)
    c = p.as_int()
    if c is not None and c < 0:
        return ArrVal(T.matpow(T.inverse(n), P(-c)))
    return ArrVal(T.matpow(n, p))


@np_("linalg.norm")
def np_norm(I, a, k):
    n = to_node(I, a[0])
    ax = k.get("axis", a[2] if len(a) > 2 else None)
    if ax is None:
        return ret(I, T.mk("ufn", ("norm", (n, repr(k.get("ord", a[1] if len(a) > 1 else None)))), (), frozenset(), "f"))
    axs = [q % len(n.shape) for q in axis_arg(I, [None, ax], {}, 1)]
    kd = k.get("keepdims", False)
    sh = tuple((ONE if kd else None) if i in axs else s for i, s in enumerate(n.shape))
    sh = tuple(s for s in sh if s is not None)
    return ret(I, T.mk("ufn", ("norm", (n, tuple(axs))), sh, frozenset(), "f"))


def multi(name, shapes):
    def f(I, a, k):
        n = to_node(I, a[0])
        return tuple(ArrVal(T.ufn(f"{name}.{i}", [n], sh(n), n.cplx if not c else frozenset(["c"]) if c == "c" else frozenset()))
                     for i, (sh, c) in enumerate(shapes))
    return f


NP["linalg.eigh"] = multi("eigh", [(lambda n: n.shape[:-1], "r"), (lambda n: n.shape, "")])
NP["linalg.eig"] = multi("eig", [(lambda n: n.shape[:-1], "c"), (lambda n: n.shape, "c")])
NP["linalg.eigvals"] = lambda I, a, k: ArrVal(T.ufn("eigvals", [to_node(I, a[0])], to_node(I, a[0]).shape[:-1], frozenset(["c"])))
NP["linalg.eigvalsh"] = lambda I, a, k: ArrVal(T.ufn("eigvalsh", [to_node(I, a[0])], to_node(I, a[0]).shape[:-1], frozenset()))
NP["linalg.det"] = lambda I, a, k: ret(I, T.ufn("det", [to_node(I, a[0])], to_node(I, a[0]).shape[:-2], to_node(I, a[0]).cplx))


@np_("linalg.svd")
def np_svd(I, a, k):
    n = to_node(I, a[0])
    m, q = n.shape[-2], n.shape[-1]
    full = k.get("full_matrices", a[1] if len(a) > 1 else True)
    if k.get("compute_uv") is False:
        return UArr(n.deps, cplx=frozenset())
    if full is not True:
        return (UArr(n.deps, cplx=n.cplx), UArr(n.deps, cplx=frozenset()), UArr(n.deps, cplx=n.cplx))
    return (ArrVal(T.ufn("svd.u", [n], n.shape[:-2] + (m, m), n.cplx)), UArr(n.deps, cplx=frozenset()),
            ArrVal(T.ufn("svd.v", [n], n.shape[:-2] + (q, q), n.cplx)))


@np_("linalg.qr")
def np_qr(I, a, k):
    n = to_node(I, a[0])
    return (UArr(n.deps, cplx=n.cplx), UArr(n.deps, cplx=n.cplx))


@np_("linalg.lstsq")
def np_lstsq(I, a, k):
    d = deps_of(a[:2])
    return (UArr(d), UArr(d), UArr(d), UArr(d))


@np_("add.at")
def np_addat(I, a, k):
    x = a[0]
    if isinstance(x, ArrVal):
        I.touch(x)
        I.update_cell(x, T.havoc(x.node.shape, [x.node], x.node.cplx, x.node.kind))
    return None


def call_extobj(I, f, args, kw):
    d = deps_of(list(args)) | deps_of(list(kw.values()))
    if f.kind == "jvmap":
        g, k = f.data
        if any(q in k for q in ("in_axes", "out_axes")) and (k.get("in_axes", 0) != 0 or k.get("out_axes", 0) != 0):
            return UArr(d)
        cols = [I.iterate(a) for a in args]
        if any(c is None for c in cols):
            return UArr(d)
        r = I.call(Ext("builtins.zip"), [PyList(c) for c in cols], {})
        items = I.iterate(r)
        out = []
        for x in items:
            if isinstance(x, Seg):
                if len(x.items) != 1:
                    return UArr(d)
                out.append(Seg(x.ix, x.n, [I.call(g, list(I.seq(x.items[0])), {})]))
            else:
                out.append(I.call(g, list(I.seq(x)), {}))
        return ArrVal(list_node(I, out))
    if f.kind == "vectorize":
        try:
            ns = [to_node(I, a) for a in args]
        except Stuck:
            return UArr(d)
        sh = ()
        for n in ns:
            sh = T.bshape(sh, n.shape)
        if not sh:
            return I.call(f.data, args, kw)
        # one application per element: the elements are the function of the scalars at the same position
        probe = I.call(f.data, [ret(I, T.leaf("elementof", uid(), (), n.cplx, n.kind)) if n.shape else a for n, a in zip(ns, args)], kw)
        return ArrVal(T.havoc(sh, list(ns) + [DepBox(deps_of(probe))], T.union_c(*ns)))
    if f.kind == "itemgetter":
        ks = f.data if isinstance(f.data, (tuple, list)) else [f.data]
        r = [I.getitem(args[0], k) for k in ks]
        return r[0] if len(r) == 1 else tuple(r)
    if f.kind == "dcdeco":
        return make_dc(args[0], f.data)
    return Unknown(d | deps_of(f), f"call of {f.kind}")


def rmatch_meth(I, r, name, args):
    if name == "group":
        v = r.group(*args)
        return v
    if name == "groups":
        return tuple(r.groups(*args))
    if name == "groupdict":
        return PyDict(list(r.groupdict().items()))
    return Unknown(why="match." + name)
