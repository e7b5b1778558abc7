"""C21: blocks of a reduced tensor product basis stay paired with their irreps.

The irreps are arbitrary tabulated irreps whose products list a given set of labels (so that the same irrep arises in several ways) and whose coefficients are opaque
arrays; basis_intersection returns an opaque mixing matrix.  The array summarised from the source is then a multilinear function of those leaves, and
every vector of the block announced for irrep `k` must be a combination of couplings whose last coefficient leads to `k`."""
import itertools

import numpy as np

from . import summaries as SM
from . import stub
from . import tens as T
from .decide import feasible
from .interp import explore, own_all
from .poly import P
from .seeds import Ctx
from .tens import C, PRIME
from .v_copies import nodes_of
from .v_family import _named
from .v_work import SRC
from .values import *

RULE21 = ("the block of the returned basis at the position of irrep k with multiplicity m has length m and consists of combinations (over the multiplicity only) of couplings of "
          "the indices to k; the array is the concatenation of the blocks in the order of the irreps of the returned representation; without a symmetry the vectors are a basis of the whole product")
WHERE = f"{SRC}reduced_tensor_product.py in "


class Fusion(stub.Model):
    """irreps with a product table; dims: label -> int"""

    def __init__(self, dims, table, paths):
        super().__init__(dims, L=2, n=1, cplx=False)
        self.table, self.npaths = table, paths

    def product(self, k1, k2):
        return list(self.table[k1 + k2])

    def paths(self, k1, k2, k3):
        return P(self.npaths.get(k1 + k2 + k3, 1) if k3 in self.table[k1 + k2] else 0)

    def dim(self, k):
        return P(self.dims[k]) if k in self.dims else P(1)

    def concrete(self, k):
        return True

    def leaf(self, pt, name, key, shape, node):
        return None


# products in which every label arises in several ways, listed in no particular order; dimensions add up.  (dims, table, number of paths where it is not one)
TWO = ({"p": 2, "q": 2, "r": 2},          # irreps of equal dimension: a block put at another position has the right shape
       {"pp": "qp", "pq": "rp", "pr": "qr", "qp": "pr", "qq": "pq", "qr": "rp", "rp": "qp", "rq": "pr", "rr": "pq"}, {})
TWICE = (TWO[0], {**TWO[1], "pr": "q", "pq": "p", "rr": "p", "qr": "r"}, {"prq": 2, "pqp": 2, "rrp": 2, "qrr": 2})
MIXED = ({"p": 3, "q": 1, "r": 2}, {"pp": "qpr", "pq": "p", "pr": "rqp", "qp": "p", "qq": "q", "qr": "r", "rp": "prq", "rq": "r", "rr": "pq"}, {"ppq": 2, "ppr": 2})


def reps(c, parts, tag):
    irs = [c.mulirrep(c.ir(l), m) for m, l in parts]
    Q = None
    if tag.endswith("Q"):
        Q = c.mat("Q" + tag, sum(m * c.model.dims[l] for m, l in parts), cplx=False)
    return c.reduced(irs, Q, A="A", L=2, cplx=False, name=tag)


def operand(c, spec, tag):
    """spec: "p" an irrep, ("p", 2) with a multiplicity, [(m, label), ...] reduced, "Q" last: with a change of basis"""
    if isinstance(spec, str):
        return c.ir(spec)
    if isinstance(spec, tuple):
        return c.mulirrep(c.ir(spec[0]), spec[1])
    qs = spec[-1] == "Q"
    return reps(c, [x for x in spec if x != "Q"], tag + ("Q" if qs else ""))


def content(spec):
    if isinstance(spec, str):
        return [(1, spec)]
    if isinstance(spec, tuple):
        return [(spec[1], spec[0])]
    return [x for x in spec if x != "Q"]


PQ, QP = [(1, "p"), (1, "q")], [(1, "q"), (1, "p")]
LISTS = [["p"], [QP], [QP + [(1, "q")]], [[(2, "r"), (1, "p"), "Q"]], [PQ, QP], [QP + [(1, "q")], [(2, "p")]], [[(1, "r"), (1, "p"), "Q"], QP], [("r", 2), "p"],
         ["p", "q", "p"], ["p", "p", "p"], [QP, "p", "r"], [("q", 2), "r", [(1, "q"), (1, "p"), "Q"]],
         [[(1, "p"), (0, "r"), (1, "q")]], [[(0, "r"), (1, "p"), (1, "q")], [(2, "q"), (0, "p"), (1, "r"), "Q"]]]
EVERY = [["p", "p"], ["r", "r"], [("q", 3), "p", "r"]]      # for every ring: twice the same irrep; a multiplicity beyond two
FORMULAS = [("ij=ji", {"i": QP}), ("ij=-ji", {"i": QP + [(1, "q")]}), ("ij=ji", {"i": [(1, "r"), (1, "p"), "Q"]}), ("ijk=-jik", {"i": "p", "k": QP}),
            ("ijk=ikj", {"i": QP, "j": "p"}), ("ijk=jki", {"i": "p"}), ("ijk=kji", {"i": "q", "j": "p"}), ("ijk=jik=ikj", {"i": QP}), ("ijkl=jikl=ijlk", {"i": "p", "k": "q"}),
            ("ij=ji", {"i": [(1, "p"), (0, "r"), (1, "q")]}), ("ijk=jik", {"i": "p", "k": [(0, "q"), (1, "r"), (0, "p"), (2, "q")]})]


def task_list(specs, ring, what):
    def args(c):
        l = PyList([operand(c, s, x) for s, x in zip(specs, "abef")])
        own_all(l, ("arg", "irreps_list"))
        return [l], {}
    return ("reduced_tensor_product_basis", args, specs, ring, f"reduced_tensor_product_basis({show(specs)}){what}")


def show(specs):
    def one(s):
        if isinstance(s, str):
            return s
        if isinstance(s, tuple):
            return f"{s[1]}{s[0]}"
        return "+".join(x if x == "Q" else f"{x[0]}{x[1]}" for x in s)
    return ", ".join(one(s) for s in specs)


def task_formula(formula, irreps, ring, what):
    f0 = formula.split("=")[0]
    full = dict(irreps)
    for f in formula.split("=")[1:]:
        f = f.strip("-")
        for _ in f0:
            for a, b in zip(f0, f):
                if a in full or b in full:
                    s = full.get(a, full.get(b))
                    full[a] = full[b] = s
    specs = [full[i] for i in f0]
    tags = {}
    for i in f0:
        tags.setdefault(id(full[i]), i)

    def args(c):
        return [formula], {i: operand(c, s, tags[id(s)]) for i, s in irreps.items()}
    return ("reduced_tensor_product_basis", args, specs, ring, f"reduced_tensor_product_basis({formula!r}, {', '.join(f'{k}={show([v])}' for k, v in irreps.items())}){what}", [tags[id(s)] for s in specs])


def task_symm(spec, n, ring, what):
    def args(c):
        return [operand(c, spec, "a"), n], {}
    return ("reduced_symmetric_tensor_product_basis", args, [spec] * n, ring, f"reduced_symmetric_tensor_product_basis({show([spec])}, {n}){what}", ["a"] * n)


def c21(tier):
    ts = []
    deep = tier == "thorough"
    for ring, what in ((TWO, ""), (TWICE, ", some products with two paths"), (MIXED, ", irreps of different dimensions")):
        few = not deep and ring is not TWO
        for s in EVERY + (LISTS[2:9:2] if few else LISTS):
            ts.append(task_list(s, ring, what))
        for f, irs in FORMULAS[:5:2] if few else FORMULAS:
            ts.append(task_formula(f, irs, ring, what))
        for spec, n in ((QP, 2),) if few else ((QP, 1), (QP, 2), ("p", 3)):
            ts.append(task_symm(spec, n, ring, what))
    out = []
    for t in ts:
        sym = "=" in t[4] or "symm" in t[4]
        for pattern in ((1, 2, 0), (2, 1)) + (((1,), (2, 0, 1, 1), (3, 2)) if deep else ()) if sym else ((1,),):
            name = t[4] + (f", {pattern} common vectors" if sym else "")
            out.append(_named(name, lambda prog, rep, tier, t=t, pattern=pattern, name=name: run(prog, rep, t, pattern, name)))
    return out


def common(pattern):
    """basis_intersection: an opaque mixing matrix with a given number of rows"""
    state = {"n": 0, "none": False}

    def f(I, fn, args, kw):
        b = SM.bound(I, fn, args, kw)
        if not isinstance(b.get("basis1"), ArrVal):
            return NotImplemented
        ns = [b["basis1"].node] + ([b["basis2"].node] if isinstance(b.get("basis2"), ArrVal) else [])
        rows = ns[0].shape[0].as_int()
        if rows is None:
            return NotImplemented
        k = min(pattern[state["n"] % len(pattern)], rows)
        state["n"] += 1
        state["none"] |= k == 0
        other = ns[1].shape[0] if len(ns) > 1 else P(1)
        return (ArrVal(T.ufn("common.1", (ns[0],), (k, rows))), ArrVal(T.ufn("common.2", (ns[0],), (k, other))))
    return f, state


def paths(prog, t, pattern):
    """the paths of a case, the model and the state of the stand-in for basis_intersection"""
    fname, args, specs, (dims, table, ways) = t[:4]
    model = Fusion(dims, table, ways)
    stub.install(prog, model)
    inter, state = common(pattern)
    prog.summaries = {**SM.NUM, SM.U + "basis_intersection": inter}

    def fn(I):
        state.update(n=0, none=False)
        c = Ctx(I)
        c.model, c.part = model, {}
        c.ir = lambda k: c.call(c.cls("lnsa_stub", "SymIrrep"), k)
        a, kw = args(c)
        r = c.call(c.fn("reduced_tensor_product", fname), *a, **kw)
        R = c.attr(r, "rep")
        irs = I.iterate(c.attr(R, "irreps")) if hasattr(I, "iterate") else c.attr(R, "irreps")
        out = []
        for m in seq(irs):
            out.append((c.attr(m, "mul"), c.attr(c.attr(m, "rep"), "label")))
        return {"irreps": out, "Q": c.attr(R, "Q"), "array": c.attr(r, "array"), "list": seq(c.attr(r, "list"))}
    try:
        return explore(prog, fn, max_paths=8, budget=6000000), model, state
    finally:
        prog.summaries = {}


def run(prog, rep, t, pattern, name):
    fname, args, specs, (dims, _, _) = t[:4]
    tags = t[5] if len(t) > 5 else list("abef")[:len(specs)]
    info = {"scenario": name, "partition": {"dims": str(dims)}, "paths": 0, "proved": 0, "undecided": 0}
    rep.scen.append(info)
    try:
        ps, model, state = paths(prog, t, pattern)
    except Stuck as e:
        rep.undecided.append(f"{name}: {e}")
        return
    for p in ps:
        rep.paths += 1
        info["paths"] += 1
        rep.functions |= p.stats["functions"]
        rep.sites |= p.stats["sites"]
        if p.kind == "cut" or not feasible(p):
            continue
        if p.kind == "raise" and p.exc.name in ("AssertionError", "ValueError", "ShapeError") and not p.facts and not state["none"]:
            # every scenario is a valid input (an empty result is refused): the block and the announced irrep or length cannot be brought together
            rep.obls += 1
            rep.violate(WHERE + fname, RULE21, f"{name}: {p.exc.name}: {p.exc.msg}", name)
            continue
        if p.kind != "return":
            info["undecided"] += 1
            rep.undecided.append(f"{name}: {p.kind} {p.exc}")
            continue
        try:
            judge(rep, info, name, fname, p.value, specs, tags, model, len(t) == 5)
        except (T.Undefined, T.Singular) as e:
            info["undecided"] += 1
            rep.undecided.append(f"{name}: {e}")


def seq(v):
    if isinstance(v, PyList):
        return list(v.items)
    if isinstance(v, (tuple, list)):
        return list(v)
    raise Stuck("not a list of known length")


def judge(rep, info, name, fname, r, specs, tags, model, whole):
    where = WHERE + fname
    irs, blocks, arr = r["irreps"], r["list"], r["array"]
    if r["Q"] is not None or not isinstance(arr, ArrVal) or not all(isinstance(b, ArrVal) for b in blocks):
        info["undecided"] += 1
        rep.undecided.append(f"{name}: result of unknown content")
        return

    def ob(ok, what):
        rep.obls += 1
        if ok:
            info["proved"] += 1
        else:
            rep.violate(where, RULE21, f"{name}: {what}", name)
        return ok
    if not ob(len(irs) == len(blocks), f"{len(irs)} irreps are announced, the basis has {len(blocks)} blocks"):
        return
    for i, ((m, k), b) in enumerate(zip(irs, blocks)):
        sh = [s.as_int() for s in b.node.shape]
        if not ob(sh[-2:] == [int_of(m), model.dims[k]], f"block {i} for {int_of(m)}x{k} has shape {sh}"):
            return
    pts = [T.Point(s, {}, leaf_fn=None) for s in (5, 6)]
    n = len(specs)
    for pt in pts:
        a = pt.val(arr.node, {})
        cols, cursor = [], 0
        for (m, k), b in zip(irs, blocks):
            w = int_of(m) * model.dims[k]
            cols.append(a.map(lambda z: z[..., cursor:cursor + w]))
            cursor += w
        if not ob(a.shape[-1] == cursor and all(np.array_equal(x.re.reshape(-1), np.broadcast_to(v.re.reshape(v.shape[:-2] + (-1,)), x.shape).reshape(-1))
                                                for x, v in zip(cols, [pt.val(b.node, {}) for b in blocks])), "the columns of the array are not the blocks in the listed order"):
            return
        dims = [sum(m * model.dims[k] for m, k in content(s)) for s in specs]
        if not ob(tuple(a.shape[:-1]) == tuple(dims), f"the array has shape {a.shape} for indices of dimensions {dims}"):
            return
        if whole:       # no symmetry, no filter: every coupling of the indices is there
            size = int(np.prod(dims))
            if not ob(cursor == size and rank(a.re.reshape(size, cursor)) == size, f"{cursor} vectors of rank {rank(a.re.reshape(size, cursor))} for a space of dimension {size}: some couplings are missing"):
                return
        start = [initial(pt, s, t, model) for s, t in zip(specs, tags)]
        best = None
        for tree in trees(tuple(range(n))):
            want = {}
            for k, v, axes in couplings(pt, tree, start, model):
                v = np.moveaxis(v, list(range(n)), axes) if list(axes) != sorted(axes) else v
                want.setdefault(k, []).append(v.reshape(-1))
            bad = []
            for i, ((m, k), x) in enumerate(zip(irs, cols)):
                x = x.re.reshape(tuple(dims) + (int_of(m), model.dims[k]))
                for u in range(int_of(m)):
                    if not x[..., u, :].any() or any(x.size > 1 and np.array_equal(x[..., u, :], x[..., z, :]) for z in range(u)):
                        ob(False, f"vector {u} of block {i}, announced as {irs[i][0]}x{k}, is zero or equal to another one of the block")
                        return
                    if not in_span(x[..., u, :].reshape(-1), want.get(k, [])):
                        bad.append((i, u, k))
            if best is None or len(bad) < len(best):
                best = bad
            if not best:
                break
        if best:
            i, u, k = best[0]
            ob(False, f"vector {u} of block {i}, announced as {irs[i][0]}x{k}, is no combination of couplings of the indices to {k} ({len(best)} vectors)")
            return
        ob(True, "")


def int_of(m):
    return m if isinstance(m, int) else P(m).as_int() if not isinstance(m, Poly) else m.as_int()


def initial(pt, spec, tag, model):
    """[(label, vectors (d, dim))]"""
    parts = content(spec)
    d = sum(m * model.dims[k] for m, k in parts)
    M = np.eye(d, dtype=np.int64)
    if isinstance(spec, list) and spec[-1] == "Q":
        q = pt.val(T.leaf("Q", "Q" + tag + "Q", (d, d), frozenset()), {})
        M = T.minv(q.re).T
    out, cur = [], 0
    for m, k in parts:
        for _ in range(m):
            out.append((k, M[:, cur:cur + model.dims[k]]))
            cur += model.dims[k]
    return out


def trees(s):
    """ordered binary trees over the indices"""
    if len(s) == 1:
        yield s[0]
        return
    for r in range(1, len(s)):
        for a in itertools.combinations(s, r):
            b = tuple(x for x in s if x not in a)
            for x in trees(a):
                for y in trees(b):
                    yield (x, y)


def couplings(pt, tree, start, model):
    """[(label, array (indices of the tree in order..., dim), indices)]"""
    if isinstance(tree, int):
        return [(k, v, (tree,)) for k, v in start[tree]]
    out = []
    for k1, v1, a1 in couplings(pt, tree[0], start, model):
        for k2, v2, a2 in couplings(pt, tree[1], start, model):
            for k3 in model.product(k1, k2):
                sh = (model.paths(k1, k2, k3), model.dim(k1), model.dim(k2), model.dim(k3))
                cg = pt.val(T.leaf("symcg", (k1, k2, k3), sh, frozenset()), {}).re
                m1, m2 = v1.reshape(-1, v1.shape[-1]), v2.reshape(-1, v2.shape[-1])
                for w in range(cg.shape[0]):
                    x = np.tensordot(m1, cg[w], (1, 0)) % PRIME            # (A, j, k)
                    x = np.tensordot(x, m2, (1, 1)) % PRIME                # (A, k, B)
                    x = np.moveaxis(x, 1, 2)
                    out.append((k3, x.reshape(v1.shape[:-1] + v2.shape[:-1] + (x.shape[-1],)), a1 + a2))
    return out


def rank(M):
    """over GF(p)"""
    M = np.array(M, dtype=np.int64) % PRIME
    row = 0
    for c in range(M.shape[1]):
        nz = np.nonzero(M[row:, c])[0]
        if not len(nz):
            continue
        p = row + nz[0]
        M[[row, p]] = M[[p, row]]
        M[row] = M[row] * pow(int(M[row, c]), PRIME - 2, PRIME) % PRIME
        below = np.nonzero(M[row + 1:, c])[0] + row + 1
        M[below] = (M[below] - M[below, c][:, None] * M[row][None, :]) % PRIME
        row += 1
        if row == M.shape[0]:
            break
    return row


def in_span(x, vs):
    """is x a combination of vs over GF(p)"""
    if not np.any(x % PRIME):
        return True
    if not vs:
        return False
    M = np.array(vs, dtype=np.int64) % PRIME
    x = np.array(x, dtype=np.int64) % PRIME
    row = 0
    for c in range(M.shape[1]):
        nz = np.nonzero(M[row:, c])[0]
        if not len(nz):
            continue
        p = row + nz[0]
        if p != row:
            M[[row, p]] = M[[p, row]]
        M[row] = M[row] * pow(int(M[row, c]), PRIME - 2, PRIME) % PRIME
        below = np.nonzero(M[row + 1:, c])[0] + row + 1
        if len(below):
            M[below] = (M[below] - M[below, c][:, None] * M[row][None, :]) % PRIME
        if x[c]:
            x = (x - x[c] * M[row]) % PRIME
        row += 1
        if row == M.shape[0]:
            break
    return not np.any(x)
