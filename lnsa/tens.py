"""Value-numbering domain for arrays.

An abstract array is a hash-consed expression over symbolic shapes (class Arr): leaves are the unknown input tensors,
inner nodes are the array operations of the analysed source.  Shapes are symbolic polynomials.  Two expressions are
compared by polynomial identity testing over GF(p^2) (random interpretation in the sense of Gulwani and Necula): every
expression denotes a tuple of rational functions of the leaf entries, and distinct functions differ at a random point
with overwhelming probability.  Functions that are not rational (expm, eigenvectors, null spaces, ...) are
uninterpreted: equal arguments give equal results, nothing else is assumed.
"""
import hashlib
import itertools
import random
from fractions import Fraction

import numpy as np

from .poly import Poly, P, ZERO, ONE, N, cmp, walk_atoms, akind

PRIME = 32719          # = 3 mod 4, so -1 is not a square and GF(p)[i] is a field


class Stuck(Exception):
    """the abstraction cannot represent the result (never an alarm)"""


class ShapeError(Exception):
    """definite shape mismatch"""


_uid = itertools.count(1)


def uid():
    return next(_uid)


def new_ix():
    return ("ix", uid())


_intern = {}


class Arr:
    __slots__ = ("op", "args", "shape", "cplx", "id", "fv", "deps", "kind", "_syms", "_rep")

    def __repr__(self):
        # numbers inside a node may be elements of other nodes, so the text is cached
        # and cut: otherwise it grows exponentially with the depth of the computation
        try:
            return self._rep
        except AttributeError:
            self._rep = f"{self.op}#{self.id}"
            r = show(self)
            self._rep = r if len(r) <= 160 else f"{self.op}#{self.id}"
            return self._rep


def mk(op, args, shape, cplx=frozenset(), kind="f"):
    shape = tuple(N(s) for s in shape)
    key = (op, tuple(_key(a) for a in args), tuple(shape), frozenset(cplx))
    r = _intern.get(key)
    if r is not None:
        return r
    a = Arr()
    a.op, a.args, a.shape, a.cplx, a.kind = op, tuple(args), shape, frozenset(cplx), kind
    a.id = uid()
    fv, deps = set(), set()
    _collect(args, fv, deps)
    for s in shape:
        _collect(s, fv, deps)
    if op == "leaf":
        deps.add((args[0], args[1]))
    if op == "imag":
        deps.add(("imag part", args[0].id))
    if op in ("concat", "stack"):
        for p in args[1]:
            pass
    if op == "fold":
        # args: (ix, n, state names, inits, bodies, pick)
        fv.discard(args[0])
    a.fv = frozenset(fv)
    a.deps = frozenset(deps)
    _intern[key] = a
    return a


def _key(x):
    if isinstance(x, Arr):
        return ("#", x.id)
    if isinstance(x, (tuple, list)):
        return tuple(_key(y) for y in x)
    return x


def _collect(o, fv, deps):
    if isinstance(o, Arr):
        fv |= o.fv
        deps |= o.deps
    elif isinstance(o, Fam):
        f2 = set()
        _collect(o.n, f2, deps)
        _collect(o.arr, f2, deps)
        f2.discard(o.ix)
        fv |= f2
    elif isinstance(o, Poly):
        for a in walk_atoms(o):
            if akind(a) == "ix":
                fv.add(a)
            elif akind(a) in ("elem", "ufn", "sizeof"):
                _collect(a[1:], fv, deps)
            elif akind(a) == "sym":
                deps.add(("sym", a[1]))
    elif isinstance(o, (tuple, list)):
        if len(o) == 2 and o[0] == "ix" and isinstance(o[1], int):
            fv.add(tuple(o))
            return
        for x in o:
            _collect(x, fv, deps)


class Fam:
    """a family of parts arr(ix), ix = 0 .. n-1"""
    __slots__ = ("ix", "n", "arr")

    def __init__(self, ix, n, arr):
        self.ix, self.n, self.arr = ix, P(n), arr

    def __hash__(self):
        return hash((self.ix, self.n, self.arr.id if isinstance(self.arr, Arr) else self.arr))

    def __eq__(self, o):
        return isinstance(o, Fam) and (self.ix, self.n) == (o.ix, o.n) and self.arr is o.arr

    def __repr__(self):
        return f"[{self.arr} for i{self.ix[1]} < {self.n}]"


def show(x, depth=4):
    if isinstance(x, Arr):
        if depth == 0:
            return f"{x.op}#{x.id}"
        if x.op == "leaf":
            return f"{x.args[0]}[{x.args[1]}]" if x.args[1] is not None else str(x.args[0])
        if x.op == "einsum":
            return f"einsum('{x.args[0]}', " + ", ".join(show(y, depth - 1) for y in x.args[1]) + ")"
        if x.op == "sum":
            return "(" + " + ".join((f"{c}*" if c != ONE else "") + show(y, depth - 1) for c, y in x.args[0]) + ")"
        return f"{x.op}(" + ", ".join(show(y, depth - 1) for y in x.args) + ")"
    if isinstance(x, (tuple, list)):
        return "(" + ", ".join(show(y, depth) for y in x) + ")"
    return repr(x)


# ---------------------------------------------------------------- shape helpers
def prod(ps):
    r = ONE
    for p in ps:
        r = r * P(p)
    return N(r)


def is_one(p):
    return N(p).as_int() == 1


def is_zero(p):
    return N(p).is_zero()


def same_size(a, b, what="lengths"):
    c = cmp("==", a, b)
    if c is False:
        raise ShapeError(f"{what} {N(a)} and {N(b)} differ")
    if c is None:
        raise Stuck(f"{what} {N(a)} and {N(b)} not provably equal")


def bshape(sa, sb):
    out = []
    n = max(len(sa), len(sb))
    sa = [ONE] * (n - len(sa)) + list(sa)
    sb = [ONE] * (n - len(sb)) + list(sb)
    for x, y in zip(sa, sb):
        x, y = N(x), N(y)
        if x == y or is_one(y):
            out.append(x)
        elif is_one(x):
            out.append(y)
        else:
            c = cmp("==", x, y)
            if c is True:
                out.append(x)
            elif c is False and cmp("==", x, 1) is False and cmp("==", y, 1) is False:
                raise ShapeError(f"operands of lengths {x} and {y} cannot be combined")
            else:
                raise Stuck(f"lengths {x} and {y} not provably equal")
    return out


def union_c(*arrs):
    return frozenset().union(*[a.cplx for a in arrs]) if arrs else frozenset()


# ---------------------------------------------------------------- constructors
def leaf(name, key, shape, cplx=frozenset(), kind="f"):
    return mk("leaf", (name, key), shape, cplx, kind)


def const(c, shape, kind="f", cplx=frozenset()):
    c = P(c)
    if any(v[1] for v in c.t.values()):
        cplx = frozenset(["c"])
    return mk("const", (c,), shape, cplx, kind)


def eye(n, m=None, k=0):
    return mk("eye", (int(k),), (n, n if m is None else m))


def arange(lo, step, n):
    return mk("arange", (P(lo), P(step)), (n,))


def ufn(name, args, shape, cplx=frozenset(), kind="f"):
    """uninterpreted function of args (arrays, numbers, strings)"""
    return mk("ufn", (name, tuple(args)), shape, cplx, kind)


def havoc(shape, deps_of, cplx=frozenset(["c"]), kind="f"):
    """unknown array depending on the given things; every call is a new unknown"""
    return mk("ufn", (f"?{uid()}", tuple(deps_of)), shape, cplx, kind)


def is_havoc(a):
    return a.op == "ufn" and a.args[0].startswith("?")


def mentions_havoc(a, seen=None):
    seen = set() if seen is None else seen
    return _mh(a, seen)


def _mh(o, seen):
    if isinstance(o, Arr):
        if o.id in seen:
            return False
        seen.add(o.id)
        if is_havoc(o):
            return True
        return _mh(o.args, seen) or any(_mh(s, seen) for s in o.shape)
    if isinstance(o, Fam):
        return _mh(o.n, seen) or _mh(o.arr, seen)
    if isinstance(o, Poly):
        for at in walk_atoms(o):
            if akind(at) == "unk":
                return True
            if akind(at) in ("elem", "ufn") and _mh(at[1:], seen):
                return True
        return False
    if isinstance(o, (tuple, list)):
        return any(_mh(x, seen) for x in o)
    return False


# ---------------------------------------------------------------- operations
def add(a, b, sign=1):
    sh = bshape(a.shape, b.shape)
    ta = list(a.args[0]) if a.op == "sum" and list(a.shape) == sh else [(ONE, a)]
    tb = list(b.args[0]) if b.op == "sum" and list(b.shape) == sh else [(ONE, b)]
    terms = ta + [(c * sign, x) for c, x in tb]
    return mk("sum", (tuple(terms),), sh, a.cplx | b.cplx)


def scale(a, p):
    p = P(p)
    if p == ONE:
        return a
    c = a.cplx | (frozenset(["c"]) if any(v[1] for v in p.t.values()) else frozenset())
    return mk("sum", (((p, a),),), a.shape, c)


def mul(a, b):
    return mk("mul", (a, b), bshape(a.shape, b.shape), a.cplx | b.cplx)


def div(a, b):
    return mk("div", (a, b), bshape(a.shape, b.shape), a.cplx | b.cplx)


def conj(a):
    if not a.cplx:
        return a
    if a.op == "conj":
        return a.args[0]
    return mk("conj", (a,), a.shape, a.cplx)


def real(a):
    if not a.cplx:
        return a
    return mk("real", (a,), a.shape)


def imag(a):
    return mk("imag", (a,), a.shape)


def transpose(a, perm):
    perm = [int(p) for p in perm]
    perm = [p + len(a.shape) if p < 0 else p for p in perm]
    if sorted(perm) != list(range(len(a.shape))):
        raise ShapeError(f"axes permutation {perm} does not fit {len(a.shape)} axes")
    if perm == list(range(len(perm))):
        return a
    return mk("transpose", (a, tuple(perm)), [a.shape[p] for p in perm], a.cplx, a.kind)


def moveaxis(a, src, dst):
    n = len(a.shape)
    src = [s + n if s < 0 else s for s in src]
    dst = [d + n if d < 0 else d for d in dst]
    if any(not 0 <= x < n for x in src + dst):
        raise ShapeError("moveaxis: axis out of range")
    order = [k for k in range(n) if k not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return transpose(a, order)


def reshape(a, shape):
    shape = [N(s) for s in shape]
    total = prod(a.shape)
    neg = [k for k, s in enumerate(shape) if s.as_int() == -1]
    if len(neg) > 1:
        raise ShapeError("two unknown dimensions in reshape")
    if neg:
        rest = prod([s for k, s in enumerate(shape) if k != neg[0]])
        if rest.is_zero():
            raise ShapeError("reshape cannot infer a length when another length is zero")
        if rest == ONE:
            q = total
        else:
            q = total.divexact(rest)
        if q is None:
            raise Stuck(f"reshape of {total} elements with unknown length and {rest}")
        qc = q.as_frac() if q is not None else None
        if qc is not None and qc.denominator != 1:
            raise ShapeError(f"cannot reshape {total} elements into rows of {rest}")
        shape[neg[0]] = N(q)
    c = cmp("==", prod(shape), total)
    if c is False:
        raise ShapeError(f"cannot reshape {list(a.shape)} into {shape}")
    if c is None:
        raise Stuck(f"reshape of {list(a.shape)} into {shape}")
    if tuple(shape) == a.shape:
        return a
    if a.op == "reshape":
        a = a.args[0]
        if tuple(shape) == a.shape:
            return a
    return mk("reshape", (a,), shape, a.cplx, a.kind)


def broadcast_to(a, shape):
    shape = [N(s) for s in shape]
    sh = bshape(a.shape, shape)
    if len(sh) != len(shape):
        raise ShapeError("cannot broadcast to fewer axes")
    if tuple(sh) == a.shape:
        return a
    return mk("bcast", (a,), shape, a.cplx, a.kind)


def parse_spec(spec, arrs):
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = [c for c in ins.replace(",", "").replace(".", "")]
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
        if "..." in ins:
            out = "..." + out
    ins = ins.split(",")
    if len(ins) != len(arrs):
        raise ShapeError(f"einsum {spec} with {len(arrs)} operands")
    if any("..." in s for s in ins):
        n_ell = 0
        pool = [chr(0x3b1 + k) for k in range(20)]
        for s, a in zip(ins, arrs):
            if "..." in s:
                n_ell = max(n_ell, len(a.shape) - len(s.replace("...", "")))
        exp = []
        for s, a in zip(ins, arrs):
            if "..." in s:
                k = len(a.shape) - len(s.replace("...", ""))
                if k < 0:
                    raise ShapeError(f"einsum {spec}: operand has too few axes")
                exp.append(s.replace("...", "".join(pool[n_ell - k:n_ell])))
            else:
                exp.append(s)
        out = out.replace("...", "".join(pool[:n_ell]))
        ins = exp
    return ins, out


def einsum(spec, arrs):
    ins, out = parse_spec(spec, arrs)
    sizes = {}
    for s, a in zip(ins, arrs):
        if len(s) != len(a.shape):
            raise ShapeError(f"einsum {spec}: operand '{s}' has {len(a.shape)} axes")
        for c, z in zip(s, a.shape):
            if c in sizes and not is_one(sizes[c]):
                if is_one(z):
                    continue
                same_size(sizes[c], z, f"einsum {spec}: index {c}: lengths")
            else:
                sizes[c] = z
    if len(set(out)) != len(out):
        raise ShapeError(f"einsum {spec}: repeated output index")
    for c in out:
        if c not in sizes:
            raise ShapeError(f"einsum {spec}: output index {c} unknown")
    return mk("einsum", (",".join(ins) + "->" + out, tuple(arrs)), [sizes[c] for c in out], union_c(*arrs))


def matmul(a, b):
    la = "ijklmnop"
    na, nb = len(a.shape), len(b.shape)
    if na == 0 or nb == 0:
        raise ShapeError("matmul with a scalar")
    if na == 1 and nb == 1:
        return einsum("x,x->", [a, b])
    if na == 1:
        pre = la[:nb - 2]
        return einsum(f"x,{pre}xz->{pre}z", [a, b])
    if nb == 1:
        pre = la[:na - 2]
        return einsum(f"{pre}yx,x->{pre}y", [a, b])
    n = max(na, nb) - 2
    pool = la[:n]
    return einsum(f"{pool[n - (na - 2):]}yx,{pool[n - (nb - 2):]}xz->{pool}yz", [a, b])


def kron(a, b):
    n = max(len(a.shape), len(b.shape))
    A = reshape(a, [ONE] * (n - len(a.shape)) + list(a.shape))
    B = reshape(b, [ONE] * (n - len(b.shape)) + list(b.shape))
    la, lb = "abcdefgh"[:n], "ijklmnop"[:n]
    r = einsum(f"{la},{lb}->" + "".join(x + y for x, y in zip(la, lb)), [A, B])
    return reshape(r, [x * y for x, y in zip(A.shape, B.shape)])


def inverse(a):
    if len(a.shape) < 2:
        raise ShapeError("inverse of a vector")
    same_size(a.shape[-1], a.shape[-2], "inverse of a matrix with side lengths")
    if a.op == "inv":
        return a.args[0]
    return mk("inv", (a,), a.shape, a.cplx)


def matpow(a, k):
    same_size(a.shape[-1], a.shape[-2], "power of a matrix with side lengths")
    return mk("matpow", (a, P(k)), a.shape, a.cplx)


def diag(a, k=0):
    k = int(k)
    if len(a.shape) == 1:
        n = a.shape[0] + abs(k)
        return mk("diag", (a, k), (n, n), a.cplx)
    raise Stuck("diagonal of a matrix")


def elementwise(name, args, cplx=None):
    sh = []
    for a in args:
        sh = bshape(sh, a.shape)
    return mk("emap", (name, tuple(args)), sh, union_c(*args) if cplx is None else cplx)


def concat(parts, axis):
    """parts: Arr or Fam"""
    arrs = [p.arr if isinstance(p, Fam) else p for p in parts]
    nd = len(arrs[0].shape)
    if any(len(a.shape) != nd for a in arrs):
        raise ShapeError("concatenation of arrays with different numbers of axes")
    if axis < 0:
        axis += nd
    if not 0 <= axis < nd:
        raise ShapeError("concatenation axis out of range")
    shape = list(arrs[0].shape)
    from .poly import tsum
    tot = ZERO
    for p, a in zip(parts, arrs):
        for k in range(nd):
            if k != axis:
                same_size(a.shape[k], shape[k], f"concatenation: axis {k}: lengths")
        tot = tot + (tsum(p.ix, p.n, None, a.shape[axis]) if isinstance(p, Fam) else a.shape[axis])
    shape[axis] = N(tot)
    if len(parts) == 1 and not isinstance(parts[0], Fam):
        return parts[0]
    return mk("concat", (axis, tuple(parts)), shape, union_c(*arrs))


def stack(parts, axis):
    arrs = [p.arr if isinstance(p, Fam) else p for p in parts]
    nd = len(arrs[0].shape)
    if any(len(a.shape) != nd for a in arrs):
        raise ShapeError("stack of arrays with different numbers of axes")
    if axis < 0:
        axis += nd + 1
    for a in arrs:
        for k in range(nd):
            same_size(a.shape[k], arrs[0].shape[k], "stack: lengths")
    n = ZERO
    for p in parts:
        n = n + (p.n if isinstance(p, Fam) else ONE)
    shape = list(arrs[0].shape)
    shape.insert(axis, N(n))
    return mk("stack", (axis, tuple(parts)), shape, union_c(*arrs))


class Reg:
    """indexing of one axis: kind in full, slice(lo,size,step), int(lo), new, fancy(arr)"""
    __slots__ = ("kind", "lo", "size", "step", "arr")

    def __init__(self, kind, lo=None, size=None, step=1, arr=None):
        self.kind, self.step, self.arr = kind, step, arr
        self.lo = None if lo is None else P(lo)
        self.size = None if size is None else P(size)

    def key(self):
        return (self.kind, self.lo, self.size, self.step, self.arr)


def getitem(a, regs):
    shape, k = [], 0
    key = []
    for r in regs:
        if r.kind == "new":
            shape.append(ONE)
        else:
            if k >= len(a.shape):
                raise ShapeError("too many indices")
            n = a.shape[k]
            if r.kind == "full":
                shape.append(n)
            elif r.kind == "slice":
                shape.append(r.size)
            elif r.kind == "int":
                c = cmp("<", r.lo, n)
                lo = r.lo
                if c is False:
                    raise ShapeError(f"index {lo} is out of range for an axis of length {n}")
            else:
                raise Stuck("fancy indexing")
            k += 1
        key.append(r.key())
    while k < len(a.shape):
        shape.append(a.shape[k])
        key.append(("full", None, None, 1, None))
        k += 1
    if all(x[0] == "full" for x in key):
        return a
    return mk("index", (a, tuple(key)), shape, a.cplx, a.kind)


def region_shape(a, regs):
    regs = list(regs) + [Reg("full")] * (len(a.shape) - sum(1 for r in regs if r.kind != "new"))
    shape, k = [], 0
    for r in regs:
        if r.kind == "new":
            shape.append(ONE)
            continue
        if k >= len(a.shape):
            raise ShapeError("too many indices")
        n = a.shape[k]
        if r.kind == "full":
            shape.append(n)
        elif r.kind == "slice":
            shape.append(N(r.size))
        elif r.kind == "int":
            if cmp("<", r.lo, n) is False:
                raise ShapeError(f"index {r.lo} is out of range for an axis of length {n}")
        else:
            raise Stuck("fancy store")
        k += 1
    return regs, shape


def store(a, regs, val, how="set", cplx=None):
    """a[regs] = val (or += when how='add'); functional update"""
    regs, shape = region_shape(a, regs)
    vs = list(val.shape)
    while len(vs) > len(shape) and is_one(vs[0]):
        vs = vs[1:]
    if len(vs) > len(shape):
        raise ShapeError("stored value has too many axes")
    for x, y in zip(reversed(vs), reversed(shape)):
        if is_one(x):
            continue
        same_size(x, y, "stored region: lengths")
    return mk("store", (a, tuple(r.key() for r in regs), val, how), a.shape, a.cplx if cplx is None else cplx, a.kind)


def famstore(a, ix, n, regs, val, how="set"):
    """for ix in range(n): a[regs(ix)] = val(ix)"""
    regs, shape = region_shape(a, regs)
    r = mk("famstore", (ix, P(n), a, tuple(x.key() for x in regs), val, how), a.shape, a.cplx, a.kind)
    fv = set()
    deps = set()
    _collect((tuple(x.key() for x in regs), val), fv, deps)
    fv.discard(ix)
    f2, d2 = set(), set()
    _collect((P(n), a), f2, d2)
    r.fv = frozenset(fv | f2)
    return r


def fold(ix, n, phis, inits, bodies, pick):
    """state_k := bodies_k(state, ix) for ix = 0..n-1, starting at inits; value of state `pick`.
    phis: leaf arrays standing for the state"""
    shape = inits[pick].shape
    c = union_c(*inits, *bodies)
    r = mk("fold", (ix, P(n), tuple(phis), tuple(inits), tuple(bodies), pick), shape, c)
    fv, deps = set(), set()
    _collect(tuple(bodies), fv, deps)
    fv.discard(ix)
    f2 = set()
    _collect((P(n), tuple(inits)), f2, deps)
    r.fv = frozenset(fv | f2)
    r.deps = frozenset(d for d in deps if d[0] != "phi")
    return r


# ---------------------------------------------------------------- evaluation at a point
class C:
    """array over GF(p)[i]"""
    __slots__ = ("re", "im")

    def __init__(self, re, im=None):
        self.re = re
        self.im = im

    @property
    def shape(self):
        return self.re.shape

    def imz(self):
        return np.zeros_like(self.re) if self.im is None else self.im

    def map(self, f):
        return C(f(self.re), None if self.im is None else f(self.im))

    def tobytes(self):
        return self.re.astype(np.int64).tobytes() + self.imz().astype(np.int64).tobytes() + str(self.re.shape).encode()


def c_norm(re, im):
    re = np.mod(re, PRIME)
    if im is not None:
        im = np.mod(im, PRIME)
        if not im.any():
            im = None
    return C(re, im)


def c_bin(f, x, y):
    """bilinear f on arrays"""
    re = f(x.re, y.re)
    im = None
    if x.im is not None and y.im is not None:
        re = re - np.mod(f(x.im, y.im), PRIME)
    if x.im is not None:
        im = f(x.im, y.re)
    if y.im is not None:
        t = f(x.re, y.im)
        im = t if im is None else im + t
    return c_norm(re, im)


def c_add(x, y, sx=1, sy=1):
    im = None
    if x.im is not None or y.im is not None:
        im = sx * x.imz() + sy * y.imz()
    return c_norm(sx * x.re + sy * y.re, im)


def minv(M):
    """inverse of an integer matrix mod p"""
    n = M.shape[0]
    A = np.concatenate([np.mod(M, PRIME), np.eye(n, dtype=np.int64)], axis=1).astype(np.int64)
    for c in range(n):
        piv = None
        for r in range(c, n):
            if A[r, c]:
                piv = r
                break
        if piv is None:
            return None
        if piv != c:
            A[[c, piv]] = A[[piv, c]]
        A[c] = A[c] * pow(int(A[c, c]), PRIME - 2, PRIME) % PRIME
        col = A[:, c].copy()
        col[c] = 0
        nz = np.nonzero(col)[0]
        if len(nz):
            A[nz] = (A[nz] - col[nz, None] * A[c][None, :]) % PRIME
    return A[:, n:]


def c_det(x):
    """determinants of 1x1 and 2x2 matrices"""
    if len(x.shape) < 2 or x.shape[-1] != x.shape[-2] or x.shape[-1] not in (1, 2):
        return None
    if x.shape[-1] == 1:
        return c_norm(x.re[..., 0, 0], x.imz()[..., 0, 0])

    def times(i, j, k, l):
        a, b = x.re[..., i, j], x.imz()[..., i, j]
        c, d = x.re[..., k, l], x.imz()[..., k, l]
        return (a * c - b * d) % PRIME, (a * d + b * c) % PRIME
    (r, i), (s, j) = times(0, 0, 1, 1), times(0, 1, 1, 0)
    return c_norm((r - s) % PRIME, (i - j) % PRIME)


class Singular(Exception):
    pass


class Undefined(Exception):
    """the expression has no value at this point"""


def c_inv(x):
    n = x.shape[-1]
    if x.re.ndim > 2:
        lead = x.shape[:-2]
        re = x.re.reshape((-1, n, n))
        im = x.imz().reshape((-1, n, n))
        outs = [c_inv(C(re[k], im[k])) for k in range(re.shape[0])]
        if not outs:
            return x
        return c_norm(np.stack([o.re for o in outs]).reshape(lead + (n, n)),
                      np.stack([o.imz() for o in outs]).reshape(lead + (n, n)))
    if x.im is None:
        r = minv(x.re)
        if r is None:
            raise Singular()
        return C(r)
    im = x.imz()
    M = np.block([[x.re, -im], [im, x.re]])
    r = minv(M)
    if r is None:
        raise Singular()
    return c_norm(r[:n, :n], r[n:, :n])


def fsqrt(v):
    """square root in GF(p)[i] of an element of GF(p): (re, im)"""
    v %= PRIME
    r = pow(v, (PRIME + 1) // 4, PRIME)
    if r * r % PRIME == v:
        return (min(r, PRIME - r), 0)
    w = (-v) % PRIME
    r = pow(w, (PRIME + 1) // 4, PRIME)
    return (0, min(r, PRIME - r))


def hrand(parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else repr(p).encode())
        h.update(b"|")
    return int.from_bytes(h.digest()[:8], "big")


ROUNDING = {"round": round, "rint": round, "floor": lambda v: v.__floor__(), "ceil": lambda v: v.__ceil__(), "trunc": lambda v: v.__trunc__()}


class Point:
    """sizes for the symbols and values for the leaves"""

    def __init__(self, seed, sizes=None, leaf_fn=None, default_size=2):
        self.seed = seed
        self.env = dict(sizes or {})
        self.leaf_fn = leaf_fn
        self.leaves = {}
        self.memo = {}
        self.default_size = default_size
        self.real_facts = set()     # node ids known to have vanishing imaginary part
        self.ufn_fn = None          # values of the functions nothing is known about
        self.atom_fn = None         # values of the numbers nothing is known about

    # ---- numbers
    def num(self, p, ixs):
        """exact value (Fraction) of a polynomial used as a size or index"""
        p = N(p)
        t = Fraction(0)
        for m, c in p.t.items():
            if c[1]:
                raise Undefined("complex size")
            v = c[0]
            for a, e in m:
                x = self.atom(a, ixs)
                if x == 0 and e < 0:
                    raise Undefined("division by zero")
                v *= Fraction(x) ** e
            t += v
        return t

    def int(self, p, ixs):
        v = self.num(p, ixs)
        if v.denominator != 1:
            raise Undefined(f"non-integer size {p} = {v}")
        return int(v)

    def atom(self, a, ixs):
        k = akind(a)
        if a in ixs:
            return ixs[a]
        if a in self.env:
            return self.env[a]
        if k == "sym":
            v = self.default_size
            self.env[a] = v
            return v
        if k == "abs":
            return abs(self.num(a[1], ixs))
        if k == "inv":
            v = self.num(a[1], ixs)
            if v == 0:
                raise Undefined("division by zero")
            return 1 / v
        if k == "floordiv":
            d = self.num(a[2], ixs)
            if d == 0:
                raise Undefined("division by zero")
            return self.num(a[1], ixs) // d
        if k == "mod":
            d = self.num(a[2], ixs)
            if d == 0:
                raise Undefined("division by zero")
            return self.num(a[1], ixs) % d
        if k == "max":
            return max(self.num(a[1], ixs), self.num(a[2], ixs))
        if k == "min":
            return min(self.num(a[1], ixs), self.num(a[2], ixs))
        if k == "pow":
            b, e = self.num(a[1], ixs), self.num(a[2], ixs)
            if e.denominator != 1:
                raise Undefined("fractional power")
            if b == 0 and e < 0:
                raise Undefined("division by zero")
            return b ** int(e)
        if k in ("tsum", "psum"):
            n = self.int(a[1], ixs)
            body = a[3]
            from .poly import _lvl_of
            b = ("bound", _lvl_of(body))
            return sum((self.num(body, {**ixs, b: j}) for j in range(n)), Fraction(0))
        if k == "sqrt":
            v = self.num(a[1], ixs)
            from math import isqrt
            if v >= 0 and isqrt(v.numerator) ** 2 == v.numerator and isqrt(v.denominator) ** 2 == v.denominator:
                return Fraction(isqrt(v.numerator), isqrt(v.denominator))
            raise Undefined("irrational size")
        if k == "ufn" and len(a) == 3 and a[1] in ROUNDING and isinstance(a[2], Poly):
            return Fraction(ROUNDING[a[1]](self.num(a[2], ixs)))
        if k in ("ufn", "unk") and self.atom_fn is not None:
            r = self.atom_fn(a, ixs)
            if r is not None:
                return r
        if k == "unk" or k == "ufn":
            v = 1 + hrand([self.seed, k] + [self.digest(x, ixs) for x in a[1:]]) % 3
            return v
        if k == "elem":
            r, i = self.atom_scalar(a, ixs)
            r = r - PRIME if r > PRIME // 2 else r
            if i or abs(r) > 1000:
                raise Undefined("size from a generic array element")
            return r
        raise Undefined(f"size atom {a}")

    def digest(self, x, ixs):
        if isinstance(x, Arr):
            return self.val(x, ixs).tobytes()
        if isinstance(x, Poly):
            return repr(self.scalar(x, ixs))
        if isinstance(x, (tuple, list)):
            return repr([self.digest(y, ixs) for y in x])
        return repr(x)

    def scalar(self, p, ixs):
        """value (re, im) in GF(p)[i] of a polynomial used as a coefficient"""
        p = N(p)
        R, I = 0, 0
        for m, c in p.t.items():
            re, im = self.frac(c[0]), self.frac(c[1])
            for a, e in m:
                vr, vi = self.atom_scalar(a, ixs)
                if e < 0:
                    d = (vr * vr + vi * vi) % PRIME
                    if d == 0:
                        raise Undefined("division by zero")
                    d = pow(d, PRIME - 2, PRIME)
                    vr, vi = vr * d % PRIME, -vi * d % PRIME
                for _ in range(abs(e)):
                    re, im = (re * vr - im * vi) % PRIME, (re * vi + im * vr) % PRIME
            R, I = (R + re) % PRIME, (I + im) % PRIME
        return R, I

    @staticmethod
    def frac(f):
        return f.numerator * pow(f.denominator, PRIME - 2, PRIME) % PRIME

    def atom_scalar(self, a, ixs):
        k = akind(a)
        if k == "elem":
            v = self.val(a[1], ixs)
            idx = tuple(self.int(i, ixs) for i in a[2])
            if any(not -n <= i < n for i, n in zip(idx, v.shape)):
                raise Undefined("index out of range")
            return int(v.re[idx]), int(v.imz()[idx])
        if k == "sqrt":
            r, i = self.scalar(a[1], ixs)
            if i:
                raise Undefined("root of a complex number")
            return fsqrt(r)
        if k == "inv":
            vr, vi = self.scalar(a[1], ixs)
            d = (vr * vr + vi * vi) % PRIME
            if d == 0:
                raise Undefined("division by zero")
            d = pow(d, PRIME - 2, PRIME)
            return vr * d % PRIME, -vi * d % PRIME
        if k in ("ufn", "unk", "realsym") and not (k == "ufn" and a[1] in ROUNDING):
            if a in self.env:
                return self.frac(Fraction(self.env[a])), 0
            return hrand([self.seed, "u"] + [self.digest(x, ixs) for x in a[1:]]) % PRIME, 0
        if k in ("tsum", "psum"):
            n = self.int(a[1], ixs)
            from .poly import _lvl_of
            b = ("bound", _lvl_of(a[3]))
            R = I = 0
            for j in range(n):
                r, i = self.scalar(a[3], {**ixs, b: j})
                R, I = (R + r) % PRIME, (I + i) % PRIME
            return R, I
        return self.frac(Fraction(self.atom(a, ixs))), 0

    # ---- arrays
    def val(self, a, ixs):
        key = (a.id,) + tuple(sorted((k, v) for k, v in ixs.items() if k in a.fv))
        r = self.memo.get(key)
        if r is None:
            r = self._val(a, ixs)
            sh = tuple(self.int(s, ixs) for s in a.shape)
            if r.shape != sh:
                raise Undefined(f"shape {r.shape} of {a.op} is not {sh}")
            self.memo[key] = r
        return r

    def shp(self, a, ixs):
        sh = tuple(self.int(s, ixs) for s in a.shape)
        if any(s < 0 for s in sh):
            raise Undefined("negative length")
        if np.prod(sh, dtype=float) > 3e6:
            raise Undefined("too large")
        return sh

    def random(self, parts, sh, cplx):
        r = np.random.default_rng(hrand(parts) % (2 ** 63))
        re = r.integers(0, PRIME, size=sh, dtype=np.int64)
        im = r.integers(0, PRIME, size=sh, dtype=np.int64) if cplx else None
        return C(re, im)

    def _val(self, a, ixs):
        op, args = a.op, a.args
        if op == "leaf":
            key = (args[0], args[1])
            if ("phi", args[1]) in ixs:
                return ixs[("phi", args[1])]
            if key not in self.leaves:
                v = self.leaf_fn(self, args[0], args[1], self.shp(a, ixs), a) if self.leaf_fn else None
                if v is None:
                    v = self.random([self.seed, "leaf", args[0], args[1]], self.shp(a, ixs), bool(a.cplx))
                self.leaves[key] = v
            return self.leaves[key]
        if op == "const":
            r, i = self.scalar(args[0], ixs)
            sh = self.shp(a, ixs)
            return C(np.full(sh, r, dtype=np.int64), np.full(sh, i, dtype=np.int64) if i else None)
        if op == "eye":
            sh = self.shp(a, ixs)
            return C(np.eye(sh[0], sh[1], k=args[0], dtype=np.int64))
        if op == "arange":
            sh = self.shp(a, ixs)
            lo, st = self.scalar(args[0], ixs), self.scalar(args[1], ixs)
            if lo[1] or st[1]:
                raise Undefined("complex arange")
            return C(np.mod(lo[0] + st[0] * np.arange(sh[0], dtype=np.int64), PRIME))
        if op == "sum":
            sh = self.shp(a, ixs)
            acc = C(np.zeros(sh, dtype=np.int64))
            for c, x in args[0]:
                r, i = self.scalar(c, ixs)
                v = self.val(x, ixs)
                if i:
                    v = c_bin(lambda p, q: p * q, v, C(np.array(r), np.array(i)))
                elif r != 1:
                    v = v.map(lambda z: z * r % PRIME)
                acc = c_add(acc, v)
            return acc
        if op == "mul":
            return c_bin(lambda x, y: x * y, self.val(args[0], ixs), self.val(args[1], ixs))
        if op == "div":
            d = self.val(args[1], ixs)
            n2 = np.mod(d.re * d.re + d.imz() * d.imz(), PRIME)
            if (n2 == 0).any():
                raise Undefined("division by zero")
            inv = np.vectorize(lambda z: pow(int(z), PRIME - 2, PRIME), otypes=[np.int64])(n2) if n2.size else n2
            di = c_norm(d.re * inv, None if d.im is None else -d.im * inv)
            return c_bin(lambda x, y: x * y, self.val(args[0], ixs), di)
        if op == "conj":
            v = self.val(args[0], ixs)
            return c_norm(v.re, None if v.im is None else -v.im)
        if op == "real":
            v = self.val(args[0], ixs)
            if args[0].id in self.real_facts:
                return v
            return C(v.re)
        if op == "imag":
            return C(self.val(args[0], ixs).imz())
        if op == "transpose":
            return self.val(args[0], ixs).map(lambda z: np.transpose(z, args[1]))
        if op == "reshape":
            sh = self.shp(a, ixs)
            return self.val(args[0], ixs).map(lambda z: z.reshape(sh))
        if op == "bcast":
            sh = self.shp(a, ixs)
            return self.val(args[0], ixs).map(lambda z: np.broadcast_to(z, sh))
        if op == "einsum":
            return self._einsum(args[0], [self.val(x, ixs) for x in args[1]])
        if op == "inv":
            return c_inv(self.val(args[0], ixs))
        if op == "matpow":
            k = self.int(args[1], ixs)
            v = self.val(args[0], ixs)
            if k < 0:
                v, k = c_inv(v), -k
            n = v.shape[-1]
            r = C(np.broadcast_to(np.eye(n, dtype=np.int64), v.shape))
            for _ in range(k):
                r = self._einsum("...ab,...bc->...ac", [r, v]) if v.re.ndim > 2 else self._einsum("ab,bc->ac", [r, v])
            return r
        if op == "diag":
            return self.val(args[0], ixs).map(lambda z: np.diag(z, k=args[1]))
        if op == "emap":
            vs = [self.val(x, ixs) for x in args[1]]
            sh = self.shp(a, ixs)
            vs = [v.map(lambda z: np.broadcast_to(z, sh)) for v in vs]
            return self._emap(args[0], vs, sh, bool(a.cplx))
        if op in ("concat", "stack"):
            axis, parts = args
            outs = []
            for p in parts:
                if isinstance(p, Fam):
                    n = self.int(p.n, ixs)
                    for j in range(n):
                        outs.append(self.val(p.arr, {**ixs, p.ix: j}))
                else:
                    outs.append(self.val(p, ixs))
            sh = self.shp(a, ixs)
            if not outs:
                return C(np.zeros(sh, dtype=np.int64))
            f = np.concatenate if op == "concat" else np.stack
            im = None
            if any(o.im is not None for o in outs):
                im = f([o.imz() for o in outs], axis=axis)
            return C(f([o.re for o in outs], axis=axis), im)
        if op == "index":
            v = self.val(args[0], ixs)
            sl = self._slices(args[1], ixs, v.shape)
            return v.map(lambda z: z[sl])
        if op == "store":
            return self._store(self.val(args[0], ixs), args[1], args[2], args[3], ixs)
        if op == "famstore":
            ix, n, base, regs, val, how = args
            v = self.val(base, ixs)
            for j in range(self.int(n, ixs)):
                v = self._store(v, regs, val, how, {**ixs, ix: j})
            return v
        if op == "fold":
            ix, n, phis, inits, bodies, pick = args
            state = [self.val(x, ixs) for x in inits]
            for j in range(self.int(n, ixs)):
                e = {**ixs, ix: j}
                for ph, s in zip(phis, state):
                    e[("phi", ph.args[1])] = s
                sub = Point(self.seed, self.env, self.leaf_fn, self.default_size)
                sub.leaves = self.leaves
                sub.ufn_fn = self.ufn_fn
                sub.real_facts = self.real_facts
                state = [sub.val(b, e) for b in bodies]
            return state[pick]
        if op == "ufn":
            sh = self.shp(a, ixs)
            if self.ufn_fn is not None:
                r = self.ufn_fn(self, a, sh, ixs)
                if r is not None:
                    return r
            if args[0] == "det":
                r = c_det(self.val(args[1][0], ixs))
                if r is not None:
                    return r
            return self.random([self.seed, "ufn", args[0]] + [self.digest(x, ixs) for x in args[1]], sh, bool(a.cplx))
        raise Undefined(op)

    def _emap(self, name, vs, sh, cplx):
        if name == "sqrt" and vs[0].im is None:
            flat = vs[0].re.reshape(-1)
            out = [fsqrt(int(z)) for z in flat]
            re = np.array([o[0] for o in out], dtype=np.int64).reshape(sh)
            im = np.array([o[1] for o in out], dtype=np.int64).reshape(sh)
            return c_norm(re, im)
        if name in ("abs", "absolute") and len(vs) == 1:      # a function of the squared modulus
            sq = (vs[0].re.astype(object) ** 2 + vs[0].imz().astype(object) ** 2).reshape(-1)
            return C(np.array([hrand([self.seed, "abs", int(z) % PRIME]) % PRIME if int(z) % PRIME > 1 else int(z) % PRIME for z in sq], dtype=np.int64).reshape(sh))
        re, im = [], []
        arrs = []
        for v in vs:
            arrs.append(v.re.reshape(-1))
            arrs.append(v.imz().reshape(-1))
        for t in zip(*arrs):
            h = hrand([self.seed, "emap", name, tuple(int(z) for z in t)])
            re.append(h % PRIME)
            im.append((h >> 20) % PRIME)
        re = np.array(re, dtype=np.int64).reshape(sh)
        im = np.array(im, dtype=np.int64).reshape(sh)
        return C(re, im if cplx else None)

    def _slices(self, key, ixs, shape):
        sl, k = [], 0
        for kind, lo, size, step, arr in key:
            if kind == "new":
                sl.append(None)
                continue
            n = shape[k]
            if kind == "full":
                sl.append(slice(None))
            elif kind == "int":
                i = self.int(lo, ixs)
                if not 0 <= i < n:
                    raise Undefined("index out of range")
                sl.append(i)
            else:
                i, s = self.int(lo, ixs), self.int(size, ixs)
                if s < 0 or (s and (not 0 <= i < n or not 0 <= i + (s - 1) * step < n)):
                    raise Undefined("slice out of range")
                end = i + s * step
                sl.append(slice(i, end if end >= 0 else None, step))
            k += 1
        return tuple(sl)

    def _store(self, base, regs, val, how, ixs):
        v = self.val(val, ixs)
        sl = self._slices(regs, ixs, base.shape)
        re = base.re.copy()
        im = base.imz().copy()
        if how == "set":
            re[sl] = v.re
            im[sl] = v.imz()
        else:
            re[sl] = (re[sl] + v.re) % PRIME
            im[sl] = (im[sl] + v.imz()) % PRIME
        return c_norm(re, im)

    @staticmethod
    def _einsum(spec, vs):
        ins, out = spec.split("->")
        ins = ins.split(",")
        if "..." not in spec:
            names = sorted(set(spec) - set(",->"))
            tr = {c: chr(97 + k) if k < 26 else chr(65 + k - 26) for k, c in enumerate(names)}
            ins = ["".join(tr[c] for c in s) for s in ins]
            out = "".join(tr[c] for c in out)
        # broadcasting of length-one axes against longer ones
        sizes = {}
        for s, v in zip(ins, vs):
            for c, n in zip(s, v.shape):
                if c != ".":
                    if sizes.get(c, 1) == 1:
                        sizes[c] = n
        nvs = []
        for s, v in zip(ins, vs):
            if "." not in s:
                tgt = tuple(sizes[c] for c in s)
                if tgt != v.shape:
                    v = v.map(lambda z: np.broadcast_to(z, tgt))
            nvs.append(v)
        vs = nvs
        if len(vs) == 1:
            f = f"{ins[0]}->{out}"
            return c_norm(np.einsum(f, vs[0].re), None if vs[0].im is None else np.einsum(f, vs[0].im))
        # greedy pairwise contraction
        cur = list(zip(ins, vs))
        while len(cur) > 1:
            best = None
            for x, y in itertools.combinations(range(len(cur)), 2):
                rest = set(out).union(*[set(s) for k, (s, _) in enumerate(cur) if k not in (x, y)])
                keep = [c for c in dict.fromkeys(cur[x][0] + cur[y][0]) if c in rest and c != "."]
                cost = 1
                for c in set(cur[x][0] + cur[y][0]):
                    if c != ".":
                        cost *= sizes[c]
                if best is None or cost < best[0]:
                    best = (cost, x, y, keep)
            _, x, y, keep = best
            if best[0] > 4e8:
                raise Undefined("too large")
            (sx, vx), (sy, vy) = cur[x], cur[y]
            tgt = out if len(cur) == 2 else "".join(keep)
            f = f"{sx},{sy}->{tgt}"
            v = c_bin(lambda p, q: fast_einsum(f, p, q), vx, vy)
            cur = [c for k, c in enumerate(cur) if k not in (x, y)] + [(tgt, v)]
        return cur[0][1]


def fast_einsum(f, p, q):
    """exact contraction of residues: float64 matmul is exact while sums stay below 2^53"""
    r = np.einsum(f, p.astype(np.float64), q.astype(np.float64), optimize=True)
    return np.mod(np.rint(r), PRIME).astype(np.int64)


def evaluate(a, point):
    return point.val(a, {})


def compare(a, b, points):
    """(verdict, detail): True when equal at all points, False when they differ somewhere, None when never evaluable"""
    if len(a.shape) != len(b.shape):
        return False, f"{len(a.shape)} axes instead of {len(b.shape)}"
    n = 0
    why = None
    for pt in points:
        try:
            for k, (x, y) in enumerate(zip(a.shape, b.shape)):
                u, v = pt.int(x, {}), pt.int(y, {})
                if u != v:
                    return False, f"axis {k} has length {x} instead of {y} ({u} instead of {v})"
            va, vb = pt.val(a, {}), pt.val(b, {})
        except Undefined as e:
            why = str(e)
            continue
        except Singular:
            why = "singular matrix"
            continue
        n += 1
        d = (va.re != vb.re) | (va.imz() != vb.imz())
        if d.any():
            idx = tuple(int(z[0]) for z in np.nonzero(d))
            return False, f"entry {idx} differs ({int(d.sum())} of {d.size} entries, sizes {sizes_text(pt)})"
    if n == 0:
        return None, why or "not evaluable"
    return True, f"{n} points"


def sizes_text(pt):
    return ", ".join(f"{k[1]}={v}" for k, v in sorted(pt.env.items(), key=repr) if isinstance(k, tuple) and k[0] == "sym")[:200]
