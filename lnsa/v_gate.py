"""C17: verdicts and reductions depend on every generator; C20: what is inferred numerically is verified before it is returned; the
verdict of is_trivial (C23).

The values of the leaves of the domain are chosen so that the input breaks the property in one place only (one generator, one entry of
the algebra); the numerical solvers are arbitrary functions.  A path which returns although all its conditions hold there is not gated."""
import itertools
import random

import numpy as np

from . import poly
from . import tens as T
from . import summaries as SM
from .decide import Obl, Scenario, make_points, adapt, ptext, ftext, definite_raise
from .poly import P, N, Poly, sym
from .stub import mm
from .tens import C, PRIME, c_inv, hrand
from .values import *
from .v_effects import count, subs, walk
from .v_struct import CL, post
from .v_shape import is_rep
from .v_values import form, own_X, conjQ
from .v_work import SRC

MAYBE = "maybe"         # can hold, whatever the values
COARSE = 1e-2
NORMS = ("norm", "max", "amax", "sum", "absolute", "abs", "trace", "det")


# ---------------------------------------------------------------- conditions at a point
def small(q):
    q = N(q) if not isinstance(q, (int, float)) else N(P(q))
    c = q.const_value() if hasattr(q, "const_value") else None
    if c is None and not q.t:
        return 0.0
    if c is None and len(q.t) == 1 and () in q.t:
        v = q.t[()]
        c = v[0] if not v[1] else None
    return None if c is None else float(c)


def norm_of(p):
    """the array whose norm (maximal modulus, ...) the polynomial is"""
    p = N(p)
    if len(p.t) != 1:
        return None
    (m, c), = p.t.items()
    if len(m) != 1 or m[0][1] != 1 or c[1] or c[0] <= 0:
        return None
    a = m[0][0]
    if poly.akind(a) == "abs":
        q = N(a[1])
        n = norm_of(q)
        if n is None and len(q.t) == 1 and len(m2 := next(iter(q.t))) == 1 and m2[0][1] == 1 and poly.akind(m2[0][0]) == "elem" and not m2[0][0][1].shape:
            n = m2[0][0][1]
        return n
    if poly.akind(a) != "elem":
        return None
    n = a[1]
    while n.op == "ufn" and str(n.args[0]).split(".")[-1] in NORMS[:6] and isinstance(n.args[1][0], T.Arr):
        n = n.args[1][0]
        if n.op == "emap" and n.args[0] in ("abs", "absolute"):
            n = n.args[1][0] if isinstance(n.args[1], (tuple, list)) else n.args[1]
    return n if n is not a[1] else None


def cond_at(c, pt, ixs):
    """True, False, MAYBE, None (unknown)"""
    if isinstance(c, (bool, int)) and not isinstance(c, Cond):
        return bool(c)
    if not isinstance(c, Cond):
        return None
    k = c.kind
    if k in ("and", "or"):
        rs = [cond_at(x, pt, ixs) for x in c.args]
        stop = k == "or"
        if stop in rs:
            return stop
        if None in rs:
            return None
        return MAYBE if MAYBE in rs else not stop
    if k == "not":
        r = cond_at(c.args[0], pt, ixs)
        return r if r in (None, MAYBE) else not r
    if k == "dtype":
        return MAYBE
    try:
        if k in ("allclose", "alleq", "loose"):
            x, y = (pt.val(a, ixs) for a in c.args)
            try:
                eq = not ((x.re != y.re) | (x.imz() != y.imz())).any()
            except ValueError:
                eq = False
            if not eq:
                x, y = c.args
                for u, w in ((x, y), (y, x)):
                    if u.op == "ufn" and w.op == "const" and w.args[0] == poly.ZERO and str(u.args[0]) in NORMS and isinstance(u.args[1][0], T.Arr):
                        v = pt.val(u.args[1][0], ixs)
                        return (MAYBE if k == "loose" else False) if v.re.any() or v.imz().any() else True
                fs = {str(n.args[0]).split(".")[0] for n in walk([x, y]) if n.op == "ufn"} - set(SOLVERS) - {"pinv"}
                if fs:          # different arguments need not give different values
                    return MAYBE if fs <= set(NORMS) else None
            return True if eq else (MAYBE if k == "loose" else False)
        if k in ("forall", "exists") and len(c.args) == 3:
            ix, n, inner = c.args
            inner = inner if isinstance(inner, tuple) else (inner,)
            rs = [cond_at(x, pt, {**ixs, ix: j}) for j in range(pt.int(P(n), ixs)) for x in inner]
            stop = k == "exists"
            return stop if stop in rs else None if None in rs else MAYBE if MAYBE in rs else not stop
        if k == "cmp":
            op, p, q = c.args
            p, q = N(P(p)), N(P(q))
            for x, y, o in ((p, q, op), (q, p, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op))):
                z, t = norm_of(x), small(y)
                if z is not None and t is not None and t >= 0:
                    v = pt.val(z, ixs)
                    zero = not (v.re.any() or v.imz().any())
                    if t == 0 and o in ("<", ">="):
                        return o == ">="
                    if zero:
                        return (0 > t) if o == ">" else (0 >= t) if o == ">=" else (0 < t) if o == "<" else (0 <= t) if o == "<=" else (0 == t) if o == "==" else (0 != t)
                    if t > COARSE:
                        return MAYBE
                    return o in (">", ">=", "!=")
            if any(poly.akind(a) in ("elem", "unk", "ufn") for r in (p, q) for a in poly.walk_atoms(r)):
                if op in ("==", "!="):
                    eq = pt.scalar(p, ixs) == pt.scalar(q, ixs)
                    return eq == (op == "==")
                return None
            x, y = pt.num(p, ixs), pt.num(q, ixs)
            return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
    except (T.Undefined, T.Singular, T.Stuck):
        return None
    return None


def free_ix(c, out):
    if isinstance(c, Cond):
        for a in c.args:
            free_ix(a, out)
        if c.kind in ("forall", "exists"):
            out.discard(c.args[0])
    elif isinstance(c, T.Arr):
        out |= set(c.fv)
    elif isinstance(c, Poly):
        fv = set()
        T._collect(c, fv, set())
        out |= fv
    elif isinstance(c, (tuple, list)) and not (len(c) == 2 and c[0] == "ix"):
        for x in c:
            free_ix(x, out)
    return out


def over(c, pt):
    """the values of the condition over its free indices; None: unknown"""
    free = sorted(free_ix(c, set()))
    rng = []
    for a in free:
        if a not in IXN or IXN[a] is INF:
            return None
        try:
            rng.append(range(pt.int(P(IXN[a]), {})))
        except (T.Undefined, T.Stuck):
            return None
    return [cond_at(c, pt, dict(zip(free, js))) for js in itertools.product(*rng)]


def fact_at(c, v, pt):
    """can the fact hold at the point?  True, False, None"""
    rs = over(c, pt)
    if rs is None:
        return None
    if not v:       # past a loop the condition had this value in every iteration
        rs = [r if r in (None, MAYBE) else not r for r in rs]
    return False if False in rs else None if None in rs else True


def path_at(p, pt):
    rs = [fact_at(c, v, pt) for c, v, _ in p.facts if isinstance(c, Cond)]
    return False if False in rs else None if None in rs else True


def verdict_at(v, pt):
    if isinstance(v, Cond):
        rs = over(v, pt)
        return None if rs is None or len(rs) != 1 or rs[0] is MAYBE else rs[0]
    if isinstance(v, bool):
        return v
    if isinstance(v, ArrVal) and not v.node.shape:
        try:
            x = pt.val(v.node, {})
            return bool(x.re) if int(x.re) in (0, 1) and not x.imz().any() else None
        except (T.Undefined, T.Singular, T.Stuck):
            return None
    return None


# ---------------------------------------------------------------- matrices over the field
def rnd(parts, shape, cplx=True):
    r = np.random.default_rng(hrand(parts) % (2 ** 63))
    return C(r.integers(0, PRIME, size=shape, dtype=np.int64), r.integers(0, PRIME, size=shape, dtype=np.int64) if cplx else None)


def mk(m, im=None):
    return C(np.array(m, dtype=np.int64) % PRIME, None if im is None else np.array(im, dtype=np.int64) % PRIME)


def eye(d):
    return mk(np.eye(d, dtype=np.int64))


def dag(x):
    return C(x.re.T.copy(), (-x.imz().T) % PRIME)


def add(x, y, s=1):
    return T.c_norm((x.re + s * y.re) % PRIME, (x.imz() + s * y.imz()) % PRIME)


def stack(xs, shape):
    if not xs:
        return C(np.zeros(shape, dtype=np.int64))
    return C(np.stack([x.re for x in xs]), np.stack([x.imz() for x in xs]))


def rows(v):
    return [C(v.re[i], v.imz()[i]) for i in range(v.shape[0])]


def antiherm(d, k):
    b = rnd(["ah", d, k], (d, d))
    return add(b, dag(b), -1)


def unitary(d, k):
    s = antiherm(d, ("u", k))
    return mm(add(eye(d), s), c_inv(add(eye(d), s, -1)))


SOLVERS = ("infer_change_of_basis", "nullspace", "sqrtm", "eigh", "eig", "svd", "qr", "expm", "logm", "gram_schmidt", "solve", "lstsq")


def free_solver(good=None):
    """solvers return arrays unrelated to their arguments"""
    def fn(pt, a, sh, ixs):
        nm = str(a.args[0])
        if nm.split(".")[0] in SOLVERS:
            return rnd([pt.seed, "free", nm, a.id], sh)
        if nm.split(".")[0] == "pinv":
            x = pt.val(a.args[1][0], ixs)
            if len(x.shape) != 2:
                return None
            if x.shape[0] <= x.shape[1]:
                return mm(dag2(x), c_inv(mm(x, dag2(x)))) if x.shape[0] else C(np.zeros((x.shape[1], 0), dtype=np.int64))
            return mm(c_inv(mm(dag2(x), x)), dag2(x))
        return None
    return fn


def dag2(x):
    return C(np.ascontiguousarray(x.re.T), np.ascontiguousarray((-x.imz().T) % PRIME))


# ---------------------------------------------------------------- points
def points(sc, p, part, model, leaves, n=1, counts=1, solver=free_solver()):
    """points of the path's sizes with the given leaf values"""
    out = []
    for pt in make_points(model, {**sc.sizes, **part.get("sizes", {})}, n):
        pt.env.update({k: counts for k in SM.COUNTS if k not in pt.env})
        adapt(pt, p.facts, p.know.lower)
        if model:
            model.sizes(pt)
        base = pt.leaf_fn
        pt.leaf_fn = lambda q, name, key, shape, node, base=base: leaves[(name, key)] if (name, key) in leaves else (base(q, name, key, shape, node) if base else None)
        pt.ufn_fn = solver
        out.append(pt)
    return out


def leafname(node):
    return node.args[0], node.args[1]


class Case:
    """a choice of leaf values; bad: what is wrong with them (None: nothing); wrong(value): is the returned array really wrong there?"""

    def __init__(self, leaves, bad=None, counts=1, wrong=None, solver=None):
        self.leaves, self.bad, self.counts, self.wrong, self.solver = leaves, bad, counts, wrong, solver or free_solver()


def gate(rule, cases, accepted=lambda p: True, what="returns a result"):
    """no accepting path has all its conditions hold at a bad point"""
    def on_path(rep, sc, p, part):
        if p.kind != "return" or not accepted(p):
            return
        model = p.interp.prog.model
        for i in range(60):
            try:
                case = cases(sc, p, part, i)
                if case is None:
                    break
                count(rep, "rule_obligations")
                pt = points(sc, p, part, model, case.leaves, counts=case.counts, solver=case.solver)[0]
                got = path_at(p, pt)
                r = p.interp.result
                if got is not False and isinstance(r, Cond):        # the verdict itself
                    v = verdict_at(r, pt)
                    got = False if v is False else None if v is None else got
                if got and case.bad is not None and case.wrong is not None and not case.wrong(lambda node: pt.val(node, {})):
                    got = False
            except (T.Undefined, T.Singular, T.Stuck, ValueError) as e:
                rep.undecided.append(f"{sc.name} {ptext(part)}: case {i}: {type(e).__name__} {e}")
                continue
            if got is None:
                rep.undecided.append(f"{sc.name} {ptext(part)}: {case.bad or 'valid input'}: the conditions of the path are not decided" + ftext(p))
                continue
            if case.bad is not None and got:
                rep.violate(sc.anchor, rule, f"{sc.name} {ptext(part)}: {what} although {case.bad}" + ftext(p), sc.name)
                return
            if case.bad is None and got:
                count(rep, "valid_inputs_accepted")
            count(rep, "rule_obligations_discharged")
    return on_path


# ---------------------------------------------------------------- C20
RULE20 = ("no path of the summary returns at an input which breaks the relation in a single generator (or entry): the values of the numerical "
          "solvers are arbitrary, the generators are chosen so that the returned array satisfies the relation for all generators but one, and "
          "one of the conditions on the path must then fail")


def gens(L, n):
    return [("X", i) for i in range(L)] + [("H", i) for i in range(n)]


def value(node, p, sc, part, model, leaves, counts=1):
    pt = points(sc, p, part, model, leaves, counts=counts)[0]
    return pt.val(node, {})


def kind(g):
    return f"{'continuous' if g[0] == 'X' else 'discrete'} generator number {g[1]}"


def differ(x, y):
    return bool(((x.re - y.re) % PRIME).any() or ((x.imz() - y.imz()) % PRIME).any())


def pattern(k, d):
    """random; with vanishing row and column sums; traceless and antisymmetric; traceless and diagonal; symmetric off the diagonal; imaginary"""
    m = np.zeros((d, d), dtype=np.int64)
    if k == 0 or d == 1:
        return rnd(["pattern", d], (d, d))
    if k == 5:
        return mk(m, rnd(["pattern", k, d], (d, d)).re)
    i, j = 0, d - 1
    m[i, i], m[j, j], m[i, j], m[j, i] = {1: (1, 1, -1, -1), 2: (0, 0, 1, -1), 3: (1, -1, 0, 0), 4: (0, 0, 1, 1)}[k]
    return mk(m)


def stackless_zero(Q):
    return mk(np.zeros(Q.shape, dtype=np.int64))


def icb_cases(first):
    """rep1 or rep2 is a generic representation whose generators are chosen; the other is any"""
    def cases(sc, p, part, i):
        I = p.interp
        a, b = I.lnsa_reps
        q = p.interp.result
        if not isinstance(q, ArrVal):
            return None
        L, n = part["L"], part["n"]
        gs = gens(L, n)
        pairs = [(("X", 0), ("X", 1))] * (L > 1) + [(("H", 0), ("H", 1))] * (n > 1) + [(("X", 0), ("H", 0))] * (L > 0 and n > 0)
        last = 7 * len(gs)
        if i > last + 2 + len(pairs):
            return None
        second, summed = i == last + 1, i == last + 2
        pair = pairs[i - last - 3] if i > last + 2 else None       # the errors of two generators cancel
        bad = None if i == 0 or i > last else gs[(i - 1) % len(gs)]
        counts = 2 if second or summed else 1
        model = p.interp.prog.model
        key = "a" if first else "b"
        Qs = rows(value(q.node, p, sc, part, model, {}, counts))
        if not Qs or Qs[0].shape[0] != Qs[0].shape[1]:
            return None
        Q = add(Qs[0], Qs[1]) if summed and len(Qs) > 1 else Qs[0]
        Qi = c_inv(Q)
        out = {}
        for nm in "XH":
            Y = rows(value(I.lnsa_own[1 if first else 0][nm], p, sc, part, model, {}, counts))
            Z = [mm(mm(Qi, y), Q) if first else mm(mm(Q, y), Qi) for y in Y]        # Q rho1 = rho2 Q
            if bad is not None and bad[0] == nm and i > 6 * len(gs):
                Z[bad[1]] = add(stackless_zero(Q), Z[bad[1]], -1)      # the two sides are opposite
            elif bad is not None and bad[0] == nm:
                # by any matrix, or so that the difference of the two sides has vanishing sums, trace, ...
                D = pattern((i - 1) // len(gs), Q.shape[0])
                z = mm(Qi, D) if first else mm(D, Qi)
                Z[bad[1]] = add(Z[bad[1]], z)
            for k, g in enumerate(pair or ()):
                if g[0] == nm:
                    D = rnd(["opposite", Q.shape[0]], Q.shape)
                    Z[g[1]] = add(Z[g[1]], mm(Qi, D) if first else mm(D, Qi), -1 if k else 1)
            out[(nm, key)] = stack(Z, (len(Z),) + Q.shape)


        def wrong(val):
            return any(differ(mm(y2, Q), mm(Q, y1)) for nm in "XH" for y1, y2 in zip(rows(val(I.lnsa_own[0][nm])), rows(val(I.lnsa_own[1][nm]))) for Q in rows(val(q.node)))
        if second:
            return Case(out, "the second array returned is no intertwiner", counts, wrong)
        if summed:
            return Case(out, "only the sum of the two arrays returned is an intertwiner", counts, wrong)
        if pair:
            return Case(out, f"it does not intertwine the {kind(pair[0])} nor the {kind(pair[1])}, with opposite errors", counts, wrong)
        return Case(out, None if bad is None else f"it does not intertwine the {kind(bad)}", counts, wrong)
    return cases


def c20(tier):
    out = []
    dims = {"a": 2, "b": 2, "c": 1, "e": 1}
    parts = [{"L": 2, "n": 2, "dims": dims}, {"L": 0, "n": 2, "dims": dims}, {"L": 2, "n": 0, "dims": dims}, {"L": 1, "n": 1, "dims": dims}]
    if tier == "thorough":
        parts += [{"L": 3, "n": 3, "dims": {**dims, "a": 3, "b": 3}}, {"L": 3, "n": 1, "dims": dims}]
    pairs = [("G", "G", True), ("G", "G", False)] + [("G", k, True) for k in ("T", "M1", "R", "RQ", "S", "U")] + [(k, "G", False) for k in ("T", "M1", "R", "RQ", "S", "U")]
    for ka, kb, first in pairs:
        def b(c, ka=ka, kb=kb):
            x, y = form(c, ka, "a"), form(c, kb, "b")
            c.I.lnsa_reps = (x, y)
            c.I.lnsa_own = [{w: own_X(c, r, w) for w in "XH"} for r in (x, y)]
            return c.call(c.fn("infer_change_of_basis", "infer_change_of_basis"), x, y)
        pp = []
        for part in parts:
            d = dict(part["dims"])
            o = kb if first else ka
            if o in ("R", "RQ", "U", "S", "SQ"):
                tot = {"R": 2 * d["b" if first else "a"] + 1, "RQ": 2 * d["b" if first else "a"] + 1, "U": 2 * d["b" if first else "a"], "S": d["b" if first else "a"] + 1}[o]
                d["a" if first else "b"] = tot
            pp.append({**part, "dims": d})
        sc = Scenario(f"infer_change_of_basis({ka}, {kb}), generators of the {'first' if first else 'second'} chosen", post(b), SRC + "infer_change_of_basis.py in infer_change_of_basis",
                      parts=pp, on_path=gate(RULE20, icb_cases(first), what="returns the array found"), raise_ok=lambda p: True, seconds=30, summaries=CL())
        out.append(sc)

    # an algebra inferred from generators
    def add_sc(name, anchor, build, cs, parts, accepted, what):
        sc = Scenario(name, post(build), SRC + anchor, parts=parts, on_path=gate(RULE20, cs, accepted, what), raise_ok=lambda p: True, seconds=40, summaries=CL())
        out.append(sc)

    def X3(c, L=3, d=3):
        return ArrVal(T.leaf("X", "a", (P(L), P(d), P(d)), frozenset(["X:a"])))

    def infer(c):
        return c.call(c.fn("util", "infer_algebra_from_generators"), X3(c))

    def fromgen(c):
        return c.call(c.I.getattr(c.cls("rep", "GenericRep"), "from_generators"), X3(c))

    def fromgenh(c):
        return c.call(c.I.getattr(c.cls("rep", "GenericRep"), "from_generators"), X3(c), ArrVal(T.leaf("H", "a", (P(2), P(3), P(3)), frozenset(["H:a"]))))
    for name, anchor, b in (("infer_algebra_from_generators", "util.py in infer_algebra_from_generators", infer), ("GenericRep.from_generators", "rep.py in GenericRep.from_generators", fromgen),
                            ("GenericRep.from_generators with H", "rep.py in GenericRep.from_generators", fromgenh)):
        add_sc(name, anchor, b, algebra_cases, [{}], lambda p: p.interp.result is not None, "returns an algebra")

    # a representation found to be real
    for k in ("G",):
        def b(c, k=k):
            return c.call(c.fn("real", "make_explicitly_real"), form(c, k, "a"))
        add_sc(f"make_explicitly_real({k})", "real.py in make_explicitly_real", b, real_cases, [dict(q) for q in parts], lambda p: is_rep(p.interp.result), "returns the representation")

    # the consistency checks
    def chk(c):
        return c.meth(form(c, "G", "a"), "check_algebra_vs_generators")

    def chku(assert_):
        def b(c):
            a = form(c, "G", "a")
            return c.call(c.fn("util", "check_algebra_vs_generators"), c.attr(a, "A"), c.attr(a, "X"), **({"assert_": True} if assert_ else {}))
        return b
    p3 = [{"L": 3, "n": 1, "dims": {"a": 2}}]
    yes = lambda p: p.interp.result is not False        # noqa: E731
    add_sc("rep.check_algebra_vs_generators(G)", "rep.py in Rep.check_algebra_vs_generators", chk, relation_cases, p3, yes, "accepts the representation")
    add_sc("util.check_algebra_vs_generators", "util.py in check_algebra_vs_generators", chku(False), relation_cases, p3, yes, "accepts the generators")
    add_sc("util.check_algebra_vs_generators, asserting", "util.py in check_algebra_vs_generators", chku(True), relation_cases, p3, yes, "accepts the generators")

    def trip(c):
        return c.call(c.fn("rep", "check_representation_triplet"), c.ir("a"), c.ir("b"), c.ir("(a*b).0" if False else c.model.product("a", "b")[0]))
    add_sc("check_representation_triplet(T,T,T)", "rep.py in check_representation_triplet", trip, triplet_cases,
           [{"L": 2, "n": 2, "dims": {"a": 2, "b": 2}}, {"L": 4, "n": 4, "dims": {"a": 1, "b": 2}}, {"L": 0, "n": 2, "dims": {"a": 2, "b": 2}}, {"L": 2, "n": 0, "dims": {"a": 2, "b": 2}}, {"L": 1, "n": 1, "dims": {"a": 1, "b": 2}}], yes, "accepts the three representations")
    def trip0(c):
        return c.call(c.fn("rep", "check_representation_triplet"), c.ir("a"), c.ir("b"), c.ir("f"))
    add_sc("check_representation_triplet(T,T,T) without coupling", "rep.py in check_representation_triplet", trip0, uncoupled_cases, [{"L": 2, "n": 1, "dims": {"a": 2, "b": 2, "f": 2}}], yes,
           "accepts the three representations")
    return out


def uncoupled_cases(sc, p, part, i):
    L, n = part["L"], part["n"]
    lv = {("A", "A"): mk(np.zeros((L, L, L), dtype=np.int64))}
    if i > 3:
        return None
    if i:
        lv[("symX", "abf"[i - 1])] = rnd(["uncoupled", i], (L, 2, 2))
    return Case(lv, f"the generators of representation number {i} do not satisfy the brackets of the algebra" if i else None)


def algebra_cases(sc, p, part, i):
    """three generators closed under brackets but for one pair"""
    if i > 3:
        return None
    g = rnd(["g", i], (3, 3))
    gi = c_inv(g)

    def E(*t):
        m = np.zeros((3, 3), dtype=np.int64)
        for r, c, v in t:
            m[r, c] = v
        return mk(m)
    # [x0, x1] leaves the span, x2 commutes with both
    xs = [E((0, 0, 1), (1, 1, PRIME - 1)), E((0, 1, 1), (1, 0, 1)), E((2, 2, 1))]
    if i == 0:
        xs = [E((0, 0, 1), (1, 1, PRIME - 1)), E((0, 1, 1)), E((2, 2, 1))]
        perm = (0, 1, 2)
    else:
        perm = {1: (0, 1, 2), 2: (0, 2, 1), 3: (2, 0, 1)}[i]
    ys = [mm(mm(g, xs[perm.index(j)]), gi) for j in range(3)]
    pair = sorted((perm[0], perm[1]))

    def wrong(val):
        r = p.interp.result
        A = val(r.node if isinstance(r, ArrVal) else r.attrs["_A"].node)
        return any(differ(add(mm(x, y), mm(y, x), -1), T.Point._einsum("k,kab->ab", [C(A.re[j, k], A.imz()[j, k]), stack(ys, (3, 3, 3))])) for j, x in enumerate(ys) for k, y in enumerate(ys))
    return Case({("X", "a"): stack(ys, (3, 3, 3))}, None if i == 0 else f"the bracket of the generators {pair[0]} and {pair[1]} is no combination of the generators", wrong=None if i == 0 else wrong)


def real_cases(sc, p, part, i):
    """real generators, a solver which finds the identity as intertwiner with the conjugate, a root of it which is any matrix: the generators
    which are multiples of the identity stay real"""
    L, n, d = part["L"], part["n"], part["dims"]["a"]
    todo = [{g: 1} for g in gens(L, n)]
    todo += [{(w, j): 1, (w, k): -1} for w, m in (("X", L), ("H", n)) for j in range(m) for k in range(j)]     # errors which cancel in a sum
    if i > len(todo):
        return None
    bad = {} if i == 0 else todo[i - 1]
    out = {}
    for w, m in (("X", L), ("H", n)):
        out[(w, "a")] = stack([add(mk((3 + 2 * j) * np.eye(d, dtype=np.int64)), rnd(["real", w], (d, d), cplx=False), bad.get((w, j), 0)) for j in range(m)], (m, d, d))
    base = free_solver()

    def solver(pt, a, sh, ixs):
        nm = str(a.args[0])
        if nm in ("infer_change_of_basis", "nullspace") and np.prod(sh) == sh[0] * d * d:
            return C(np.stack([np.eye(d, dtype=np.int64) * (k + 1) for k in range(sh[0])]).reshape(sh) if sh[0] else np.zeros(sh, dtype=np.int64))
        return base(pt, a, sh, ixs)

    def wrong(val):
        return any(val(rep_gens(p.interp.result, w)).imz().any() for w in "XH")
    text = None if not bad else f"the {' and the '.join(map(kind, bad))} {'is' if len(bad) == 1 else 'are'} not real in the new basis"
    return Case(out, text, wrong=wrong if bad else None, solver=solver)


def rep_gens(r, nm):
    if r.cls.name == "GenericRep":
        return r.attrs["_" + nm].node
    raise T.Undefined("generators of " + r.cls.name)


def relation_cases(sc, p, part, i):
    """a representation of sl(2) and one wrong entry of the algebra"""
    L = 3
    e, f, h = mk([[0, 1], [0, 0]]), mk([[0, 0], [1, 0]]), mk([[1, 0], [0, -1]])
    A = np.zeros((3, 3, 3), dtype=np.int64)
    A[0, 1, 2], A[1, 0, 2] = 1, -1
    A[2, 0, 0], A[0, 2, 0] = 2, -2
    A[2, 1, 1], A[1, 2, 1] = -2, 2
    g = rnd(["sl2"], (2, 2))
    X = stack([mm(mm(g, x), c_inv(g)) for x in (e, f, h)], (3, 2, 2))
    lv = {("A", "A"): mk(A), ("X", "a"): X}
    if i == 0:
        return Case(lv)
    if i <= 9:
        j, k = divmod(i - 1, 3)
        A[j, k, (j + k) % 3] += 1
        return Case({("A", "A"): mk(A), ("X", "a"): X}, f"the bracket of the generators {j} and {k} is not the one of the algebra")
    if i <= 12:
        Y = C(X.re.copy(), X.imz().copy())
        Y.re[i - 10] = rnd(["x", i], (2, 2)).re
        return Case({("A", "A"): mk(A), ("X", "a"): Y}, f"the continuous generator {i - 10} does not satisfy the brackets of the algebra")
    if i <= 15:     # errors which cancel in a sum over one of the indices
        (j, k), (j2, k2) = (((0, 1), (2, 1)), ((0, 1), (0, 2)), ((0, 2), (2, 0)))[i - 13]
        A[j, k, 1] += 1
        A[j2, k2, 1] -= 1
        return Case({("A", "A"): mk(A), ("X", "a"): X}, f"the brackets of the generators {j} and {k} and of {j2} and {k2} are not those of the algebra, with opposite errors")
    return None


def triplet_cases(sc, p, part, i):
    """the arbitrary irreps of the model satisfy their contract (with an Abelian algebra); one generator of one of them is changed"""
    model = p.interp.prog.model
    L, n = part["L"], part["n"]
    labels = ["a", "b", model.product("a", "b")[0]]
    A = mk(np.zeros((L, L, L), dtype=np.int64))
    lv = {("A", "A"): A}
    if i == 0:
        return Case(lv)
    todo = [(k, g) for k in range(3) for g in gens(L, n)]
    if i <= len(todo):
        k, g = todo[i - 1]
        nm = "sym" + g[0]
        v = value(T.leaf(nm, labels[k], (P(L if g[0] == "X" else n), N(model.dim(labels[k])), N(model.dim(labels[k]))), frozenset([f"{g[0]}:{labels[k]}"])), p, sc, part, model, {})
        w = C(v.re.copy(), v.imz().copy())
        d = w.re.shape[1]
        if g[0] == "X":     # still commutes with the others
            w.re[g[1]] = (w.re[g[1]] + 5 * np.eye(d, dtype=np.int64)) % PRIME
        else:
            w.re[g[1]], w.im[g[1]] = w.re[g[1]] * 3 % PRIME, w.im[g[1]] * 3 % PRIME
        return Case({**lv, (nm, labels[k]): w}, f"the coefficients do not intertwine the {kind(g)} when the one of representation number {k + 1} is changed")
    if i == len(todo) + 1 and L > 1:
        B = A.re.copy()
        B[0, 1, 0] = 1
        return Case({("A", "A"): mk(B)}, "the generators do not satisfy the brackets of the algebra")
    return None


# ---------------------------------------------------------------- C17
RULE17 = ("non-interference: the value computed (with the conditions of its path and the arrays behind every number found numerically) changes "
          "when a single entry of a single generator, continuous or discrete, changes; is_unitary and is_trivial have the truth value of "
          "their definition at inputs which break it in one generator only")


def carriers(x, out, seen):
    """the arrays a result or condition is a function of"""
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, T.Arr):
        out[x.id] = x
        for s in x.shape:
            carriers(s, out, seen)
    elif isinstance(x, ArrVal):
        carriers(x.node, out, seen)
    elif isinstance(x, Poly):
        for a in poly.walk_atoms(x):
            if poly.akind(a) == "sym" and a in SM.COUNTS:
                for n in SM.COUNTS[a][1]:
                    carriers(n, out, seen)
            elif poly.akind(a) != "sym":
                for y in a[1:]:
                    carriers(y, out, seen)
    elif isinstance(x, Sym):
        carriers(x.p, out, seen)
    elif isinstance(x, Cond):
        for y in x.args:
            carriers(y, out, seen)
    elif isinstance(x, Obj):
        for y in x.attrs.values():
            carriers(y, out, seen)
    elif isinstance(x, (PyList, tuple, list)):
        for y in (x.items if isinstance(x, PyList) else x):
            carriers(y, out, seen)
    elif isinstance(x, Seg):
        for y in x.items:
            carriers(y, out, seen)
    elif isinstance(x, T.Fam):
        carriers(x.arr, out, seen)


def digests(pt, nodes):
    out = []
    for n in nodes:
        if n.fv:
            continue
        try:
            v = pt.val(n, {})
            out.append((v.re.tobytes(), v.imz().tobytes()))
        except (T.Undefined, T.Singular, T.Stuck, ValueError) as e:
            out.append(None)
    return out


def interferes(leaves_of, exempt=lambda p, part: False, what="the result", parts_of=None):
    """every entry of every generator in leaves_of(p) has an influence on the path's result and conditions (on each part of the result)"""
    def on_path(rep, sc, p, part):
        if p.kind != "return" or exempt(p, part):
            return
        for root, name in (parts_of(p) if parts_of else [(None, what)]):
            if not check(rep, sc, p, part, root, name):
                return

    def check(rep, sc, p, part, root, what):
        model = p.interp.prog.model
        nodes = {}
        seen = set()
        carriers(p.interp.result if root is None else root, nodes, seen)
        for c, v, _ in p.facts if root is None else ():
            if not verifies(c, v):
                carriers(c, nodes, seen)
        nodes = [n for n in nodes.values() if n.op != "leaf"] + [n for n in nodes.values() if n.op == "leaf"]
        base = points(sc, p, part, model, {}, solver=None)[0]
        d0 = digests(base, nodes)
        typed = set()
        for c, v, _ in p.facts:
            dtypes_in(c, typed)
        for node, text in leaves_of(p):
            if any(t in typed for t in node.cplx):
                continue        # the path depends on its element type
            try:
                v = base.val(node, {})
            except (T.Undefined, T.Singular, T.Stuck, ValueError) as e:
                rep.undecided.append(f"{sc.name} {ptext(part)}: {text}: {e}")
                continue
            for idx, im in itertools.product(np.ndindex(*v.shape), (False, True)):
                if sc.few and any(x > 1 for x in idx[1:]):
                    continue
                count(rep, "rule_obligations")
                w = C(v.re.copy(), v.imz().copy())
                (w.im if im else w.re)[idx] += 12345
                w = C(w.re % PRIME, w.im % PRIME)
                d1 = digests(points(sc, p, part, model, {leafname(node): w}, solver=None)[0], nodes)
                if any(x is not None and y is not None and x != y for x, y in zip(d0, d1)):
                    count(rep, "rule_obligations_discharged")
                    continue
                if any(x is None for x in d0 + d1) or any(n.fv for n in nodes) or unknown(p):
                    rep.undecided.append(f"{sc.name} {ptext(part)}: {text} {idx[0]}: no influence found, but not everything is known" + ftext(p))
                    return False
                rep.violate(sc.anchor, RULE17, f"{sc.name} {ptext(part)}: {what} does not depend on the {'imaginary part of ' if im else ''}entry {idx[1:]} of the {text} number {idx[0]}" + ftext(p), sc.name)
                return False
        return True
    return on_path


def dtypes_in(c, out):
    if isinstance(c, Cond):
        if c.kind == "dtype" and c.args and c.args[0] == "complex":
            out |= set(c.args[1])
        for x in c.args:
            dtypes_in(x, out)


def verifies(c, v):
    """the condition checks the result of a solver"""
    return isinstance(c, Cond) and c.kind in ("allclose", "alleq", "loose") and bool(v) and any(
        n.op == "ufn" and str(n.args[0]).split(".")[0] in SOLVERS for n in walk(list(c.args)))


def unknown(p):
    """something in the result or the conditions is not known to be a function of known arrays"""
    stack_, seen = [p.interp.result] + [c for c, v, _ in p.facts], set()
    while stack_:
        x = stack_.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, (Unknown, UArr)):
            return True
        if isinstance(x, Cond):
            if x.kind in ("truth", "unknown"):
                return True
            stack_ += list(x.args)
        elif isinstance(x, Obj):
            stack_ += list(x.attrs.values())
        elif isinstance(x, (PyList, tuple, list)):
            stack_ += list(x.items if isinstance(x, PyList) else x)
        elif isinstance(x, Seg):
            stack_ += x.items
        elif isinstance(x, ArrVal) and T.mentions_havoc(x.node):
            return True
    return False


def own_leaves(reps):
    """the generator leaves of representations, by definition of the forms"""
    out = []
    for r, t in reps:
        out += _own(r, t)
    return out


def _own(r, t):
    nm = r.cls.name
    if nm == "GenericRep":
        return [(r.attrs["_X"].node, f"continuous generator of {t}"), (r.attrs["_H"].node, f"discrete generator of {t}")]
    if nm == "MulIrrep":
        return _own(r.attrs["rep"], t)
    if nm == "ReducedRep":
        ir = r.attrs["irreps"]
        return [y for x in (ir.items if isinstance(ir, PyList) else ir) for y in _own(x, t)]
    return []


class Few(Scenario):
    few = False


def may_be(p, v):
    """the verdict of the path can be v"""
    r = p.interp.result
    return not isinstance(r, bool) or r is v


def c17(tier):
    out = []
    dims = {"a": 2, "b": 2, "f": 2, "c": 1, "e": 1}
    parts = [{"L": 2, "n": 2, "dims": dims}, {"L": 0, "n": 2, "dims": dims}, {"L": 2, "n": 0, "dims": dims}, {"L": 1, "n": 1, "dims": dims}]
    if tier == "thorough":
        parts += [{"L": 3, "n": 2, "dims": {**dims, "a": 3}}, {"L": 2, "n": 3, "dims": {**dims, "b": 3}}]

    def sc(name, build, anchor, on_path, **kw):
        s = Few(name, post(build), SRC + anchor, parts=[dict(x) for x in parts], on_path=on_path, raise_ok=lambda p: True, seconds=60, summaries=CL(), **kw)
        out.append(s)
        return s

    def ins(c, *rs):
        c.I.lnsa_reps = [(r, t) for r, t in rs]
        return [r for r, _ in rs]

    def leaves_of(p):
        return own_leaves(p.interp.lnsa_reps)

    def un(mod, name):
        def b(c):
            a, = ins(c, (form(c, "G", "a"), "the representation"))
            return c.call(c.fn(mod, name), a)
        return b
    sc("is_irreducible(G)", un("is_irreducible", "is_irreducible"), "is_irreducible.py in is_irreducible", both(interferes(leaves_of, lambda p, part: not may_be(p, False), "the verdict"), counted(lambda n: n == 1, (1, 2, 3))))
    sc("is_real(G)", un("real", "is_real"), "real.py in is_real", both(interferes(leaves_of, lambda p, part: not may_be(p, True), "the verdict"), counted(lambda n: n > 0, (0, 1, 2))))
    sc("make_explicitly_real(G)", un("real", "make_explicitly_real"), "real.py in make_explicitly_real", interferes(leaves_of))
    sc("reduce(G)", un("reduce", "reduce"), "reduce.py in reduce", both(interferes(leaves_of), interferes(leaves_of, parts_of=summands)), max_paths=40)
    for ka, kb in (("G", "G"), ("M2", "G"), ("G", "RQ"), ("T", "G")):
        def b(c, ka=ka, kb=kb):
            x, y = ins(c, (form(c, ka, "a"), "the first representation"), (form(c, kb, "b"), "the second representation"))
            return c.call(c.fn("infer_change_of_basis", "infer_change_of_basis"), x, y)
        sc(f"infer_change_of_basis({ka},{kb})", b, "infer_change_of_basis.py in infer_change_of_basis", interferes(leaves_of, empty))
    for ks in (("GGG",) if tier == "quick" else ("GGG", "TGG", "GTG", "GGT")):
        def b(c, ks=ks):
            x = ins(c, *[(form(c, k, l), f"the {t} representation") for k, l, t in zip(ks, "abf", ("first", "second", "third"))])
            return c.call(c.fn("clebsch_gordan", "clebsch_gordan"), *x)
        sc(f"clebsch_gordan({','.join(ks)})", b, "clebsch_gordan.py in clebsch_gordan", interferes(leaves_of, empty)).few = True
    # down to the linear system
    for name, k2 in (("is_irreducible", 1), ("infer_change_of_basis", 2), ("is_real", 1)):
        def b(c, name=name, k2=k2):
            x = ins(c, *[(form(c, "G", l), f"the {t} representation") for l, t in zip("ab"[:k2], ("first", "second"))])
            return c.call(c.fn("real" if name == "is_real" else name, name), *x)
        s = sc(f"{name}, with the linear system it solves", b, ("real" if name == "is_real" else name) + f".py in {name}", interferes(
            leaves_of, {"is_real": lambda p, part: not may_be(p, True), "is_irreducible": lambda p, part: not may_be(p, False)}.get(name, empty)))
        s.summaries = {k: v for k, v in CL().items() if not k.endswith("util.infer_change_of_basis")}
        s.few = True
    # unitarity, by its definition
    for k in ("G", "M1", "g2", "RG"):
        def b(c, k=k):
            a = c.reduced([c.mulirrep(c.generic("a", L=c.part["L"], n=c.part["n"], d=2), 2)], None, L=c.part["L"], name="a") if k == "RG" else c.mulirrep(c.generic("a", L=c.part["L"], n=c.part["n"], d=2), 1) if k == "M1" else form(c, k, "a")
            return c.call(c.fn("properties", "is_unitary"), a)
        sc(f"is_unitary({k})", b, "properties.py in is_unitary", verdict(RULE17, unitary_cases))
    return out + is_trivial(RULE17) + [s for s in c20(tier) if "triplet" in s.name]


def summands(p):
    """the generators of the irreps a representation was reduced to, when found numerically"""
    r = p.interp.result
    ir = r.attrs.get("irreps") if isinstance(r, Obj) else None
    out = []
    for k, m in enumerate((ir.items if isinstance(ir, PyList) else ir) or []):
        g = m.attrs.get("rep") if isinstance(m, Obj) else None
        if isinstance(g, Obj) and g.cls.name == "GenericRep":
            ns = [g.attrs["_X"], g.attrs["_H"]]
            if any(n.op == "ufn" and n.args[0].split(".")[0] in ("irrep",) + SOLVERS for n in walk([x.node for x in ns if isinstance(x, ArrVal)])):
                out.append((tuple(ns), f"irrep number {k} of the result"))
    return out


def empty(p, part):
    r = p.interp.result
    return isinstance(r, ArrVal) and r.node.shape and poly.cmp("==", N(r.node.shape[0]), 0) is True


def both(*fs):
    def on_path(rep, sc, p, part):
        for f in fs:
            f(rep, sc, p, part)
    return on_path


def counted(truth, values):
    """the verdict as a function of the number of intertwiners found, when it is one"""
    def on_path(rep, sc, p, part):
        if p.kind != "return":
            return
        r = p.interp.result
        nodes = [r] + [c for c, v, _ in p.facts]
        cs = set()
        for x in nodes:
            counts_in(x, cs)
        if len(cs) != 1 or next(iter(cs)) not in SM.SOLUTIONS:
            return
        a = next(iter(cs))
        model = p.interp.prog.model
        for n in values:
            pt = points(sc, p, part, model, {}, solver=None)[0]
            pt.env[a] = n
            k = N(Poly.atom(a))
            if k.t != Poly.atom(a).t and poly.cmp("==", k, n) is not True:
                continue        # the path knows the number
            if any(fact_at(c, v, pt) is False for c, v, _ in p.facts if isinstance(c, Cond) and c.kind in ("cmp", "and", "or", "not")):
                continue
            count(rep, "rule_obligations")
            v = verdict_at(r, pt)
            if v is None:
                rep.undecided.append(f"{sc.name} {ptext(part)}: verdict for {n} intertwiners")
            elif v != truth(n):
                rep.violate(sc.anchor, RULE17, f"{sc.name} {ptext(part)}: the verdict is {v} when {n} independent intertwiners exist" + ftext(p), sc.name)
                return
            else:
                count(rep, "rule_obligations_discharged")
        one, two = SM.SOLUTIONS[a]
        if "is_real" in sc.name:
            x, y = (digests(points(sc, p, part, model, {}, solver=None)[0], [n]) for n in (one, two))
            if x == y and x[0] is not None:
                rep.violate(sc.anchor, RULE17, f"{sc.name} {ptext(part)}: the representation is compared with itself, not with its conjugate" + ftext(p), sc.name)
    return on_path


def counts_in(x, out):
    if isinstance(x, Cond):
        for y in x.args:
            counts_in(y, out)
    elif isinstance(x, Poly):
        out |= {a for a in poly.walk_atoms(x) if a in SM.COUNTS}
    elif isinstance(x, Sym):
        counts_in(x.p, out)


# neither antihermitian nor unitary, but traceless or of determinant one
SPECIAL = {"X": ([[1, 0], [0, -1]], [[0, 1], [0, 0]]), "H": ([[1, 1], [0, 1]], [[2, 0], [0, (PRIME + 1) // 2]])}


def unitary_cases(part, i):
    """(leaves, truth, text)"""
    L, n, d = part["L"], part["n"], 2
    gs = gens(L, n)
    if i > 4 * len(gs):
        return None
    X = [antiherm(d, j) for j in range(L)]
    H = [unitary(d, j) for j in range(n)]
    text = None
    if i:
        w, j = gs[(i - 1) % len(gs)]
        t = X if w == "X" else H
        far = (i - 1) // len(gs)
        t[j] = rnd(["nonunitary", i], (d, d)) if far == 0 else mk(SPECIAL[w][far - 2]) if far > 1 else C(t[j].re * 1, (t[j].imz() + (np.arange(4).reshape(2, 2) == 1)) % PRIME)
        text = f"the {kind((w, j))} is not {'antihermitian' if w == 'X' else 'unitary'}"
    return {("X", "a"): stack(X, (L, d, d)), ("H", "a"): stack(H, (n, d, d))}, not i, text or "all generators are unitary"


def verdict(rule, cases):
    """the verdict of the path which applies to the input is the expected one"""
    def on_path(rep, sc, p, part):
        if p.kind != "return":
            return
        model = p.interp.prog.model
        for i in range(40):
            t = cases(part, i)
            if t is None:
                break
            leaves, truth, text = t
            count(rep, "rule_obligations")
            try:
                pt = points(sc, p, part, model, leaves, solver=None)[0]
                here = path_at(p, pt)
                v = None if here is None else verdict_at(p.interp.result, pt) if here else truth
            except (T.Undefined, T.Singular, T.Stuck, ValueError) as e:
                here = v = None
            if v is None:
                rep.undecided.append(f"{sc.name} {ptext(part)}: {text}: verdict not decided" + ftext(p))
                count(rep, "verdicts_undecided")
            elif v != truth:
                rep.violate(sc.anchor, rule, f"{sc.name} {ptext(part)}: the verdict is {v} although {text}" + ftext(p), sc.name)
                return
            else:
                count(rep, "rule_obligations_discharged")
    return on_path


# ---------------------------------------------------------------- is_trivial (C23)
def trivial_cases(mult, dim):
    def cases(part, i):
        L, n = part["L"], part["n"]
        gs = gens(L, n)
        if i > 2 * len(gs):
            return None
        one = mk(np.eye(dim, dtype=np.int64))
        X = [mk(np.zeros((dim, dim), dtype=np.int64)) for _ in range(L)]
        H = [one for _ in range(n)]
        text = None
        if i:
            w, j = gs[(i - 1) % len(gs)]
            (X if w == "X" else H)[j] = mk(np.eye(dim, dtype=np.int64) * ((3 if w == "X" else -1) if i <= len(gs) else 0 if w == "H" else 0), np.eye(dim, dtype=np.int64) * (1 if i > len(gs) else 0))
            text = f"the {kind((w, j))} does not act trivially"
        truth = not i and dim * mult == 1
        return ({("X", "a"): stack(X, (L, dim, dim)), ("H", "a"): stack(H, (n, dim, dim)), ("symX", "a"): stack(X, (L, dim, dim)), ("symH", "a"): stack(H, (n, dim, dim))},
                truth, text or ("all generators act trivially in one dimension" if truth else f"the dimension is {dim * mult}"))
    return cases


def is_trivial(rule):
    out = []
    for k, mult in (("G", 1), ("T", 1), ("M1", 1), ("g1", 1), ("M2", 2), ("g2", 2), ("U", 2), ("M0", 0), ("g0", 0)):
        for d in (0, 1, 2) if k == "G" else (1, 2):
            def b(c, k=k):
                return c.meth(form(c, k, "a"), "is_trivial")
            parts = [{"L": L, "n": n, "dims": {"a": d}} for L, n in ((2, 2), (0, 2), (2, 0), (1, 1), (0, 0))]
            out.append(Few(f"is_trivial({k}) in dimension {d * mult}", post(b), SRC + "rep.py in Rep.is_trivial", parts=parts, on_path=verdict(rule, trivial_cases(mult, d)),
                           raise_ok=lambda p: not definite_raise(p), summaries=CL()))
    return out


# ---------------------------------------------------------------- C01
RULE01 = "no path of a product of reduced representations returns wrong generators at a change of basis which resembles the identity in part only"


def resembling(d):
    """changes of basis which agree with the identity (or with a real matrix) in some respect only"""
    def one(*es, im=()):
        m, k = np.eye(d, dtype=np.int64), np.zeros((d, d), dtype=np.int64)
        for i, j, v in es:
            m[i, j] += v
        for i, j, v in im:
            k[i, j] += v
        return mk(m, k)
    yield "is the identity", one()
    i, j = 0, d - 1
    yield "is the identity on and below the diagonal only", one((i, j, 5))
    yield "is the identity on and above the diagonal only", one((j, i, 5))
    yield "is the identity up to a sign", one((j, j, -2))
    yield "is the identity but for one number on the diagonal", one((j, j, 1))
    yield "is the identity but for the first number", one((0, 0, 6))
    yield "is a permutation", mk(np.roll(np.eye(d, dtype=np.int64), 1, 0))
    yield "differs from the identity by entries of sum zero", one((i, j, 5), (j, i, -5))
    yield "has row sums one", one((i, i, -5), (i, j, 5))
    yield "has column sums one", one((i, i, -5), (j, i, 5))
    yield "has the real part of the identity", one(im=[(i, j, 5)])
    yield "has the real part of the identity and imaginary parts of sum zero", one(im=[(i, j, 5), (j, i, -5)])
    yield "has a complex number on the diagonal", one(im=[(j, j, 3)])
    yield "is a multiple of the identity", mk(3 * np.eye(d, dtype=np.int64))


def c_times(x, y):
    return (x.re * y.re - x.imz() * y.imz()) % PRIME, (x.re * y.imz() + x.imz() * y.re) % PRIME


def near_cases(sc, p, part, i):
    I = p.interp
    model = I.prog.model
    reps, expected = I.lnsa_reps, I.lnsa_expected
    qs = [(k, r.attrs["Q"]) for k, r in zip("ab", reps) if r.cls.name == "ReducedRep" and r.attrs["Q"] is not None]
    todo = []
    for n, (k, q) in enumerate(qs):
        d = N(q.node.shape[0]).as_int()
        if d is None:
            return None
        todo += [(n, text, m) for text, m in resembling(d)]
    if i > len(todo):
        return None
    if i == 0:
        return Case({})
    n, text, m = todo[i - 1]
    lv = {}
    for t, (k, q) in enumerate(qs):
        lv[leafname(q.node)] = m if t == n else eye(m.re.shape[0]) if N(q.node.shape[0]).as_int() == m.re.shape[0] else eye(N(q.node.shape[0]).as_int())
    one = C(np.ones((1, 1, 1, 1), dtype=np.int64))
    for w, m in (("X", part["L"]), ("H", part["n"])):
        g = {k: rnd(["near", w, k], (m, 1, 1)) for k in "abce"}
        lv.update({("sym" + w, k): v for k, v in g.items()})
        for x in "ac":
            for y in "be":
                for z in model.product(x, y):       # irreps of dimension one
                    lv[("symcg", (x, y, z))] = one
                    lv[("sym" + w, z)] = add(g[x], g[y]) if w == "X" else C(*c_times(g[x], g[y]))

    def wrong(val):
        return any(differ(val(I.lnsa_found[w]), val(expected[w])) for w in "XH")
    return Case(lv, f"it has other generators than those of the product when the change of basis of the {('first', 'second')['ab'.index(qs[n][0])]} {text}", wrong=wrong)


def near_identity(tier="quick"):
    from .v_values import tp_expected, tph_expected
    out = []
    for ka, kb in (("RQ", "U"), ("RQ", "UQ"), ("UQ", "UQ"), ("RQ", "T"), ("T", "RQ"), ("SQ", "M2"), ("UQ", "RQ")):
        def b(c, ka=ka, kb=kb):
            x, y = form(c, ka, "a"), form(c, kb, "b")
            own = [{w: own_X(c, r, w) for w in "XH"} for r in (x, y)]
            d = [N(o["X"].shape[1]) for o in own]
            r = c.call(c.fn("tensor_product", "tensor_product"), x, y)
            c.I.lnsa_reps = (x, y)
            c.I.lnsa_expected = {"X": tp_expected(own[0]["X"], own[1]["X"], *d), "H": tph_expected(own[0]["H"], own[1]["H"], *d)}
            c.I.lnsa_found = {w: c.attr(r, w).node for w in "XH"}
            return r
        out.append(Scenario(f"tensor_product {ka} x {kb} near the identity", post(b), SRC + "tensor_product.py in tensor_product", parts=[{"L": 2, "n": 1, "dims": {"a": 1, "b": 1, "c": 1, "e": 1}}],
                            on_path=gate(RULE01, near_cases), raise_ok=lambda p: not definite_raise(p), seconds=30))
    return out


def change_cases(leaf, what):
    def cases(sc, p, part, i):
        I = p.interp
        if i == 0:
            return Case({})
        todo = list(resembling(N(leaf(I).shape[0]).as_int()))
        if i > len(todo):
            return None
        text, m = todo[i - 1]

        def wrong(val):
            return any(differ(val(found), val(expected)) for found, expected in I.lnsa_pairs)
        return Case({leafname(leaf(I)): m}, f"it has other generators (or another algebra) than the definition says when the change of {what} {text}", wrong=wrong)
    return cases


def near_change(rule):
    """change_basis and change_algebra by matrices which resemble the identity in part only"""
    from .v_values import leafA
    out = []
    for k in ("G", "T", "M2", "R", "RQ", "g2"):
        for f in ("change_basis", "change_algebra"):
            def b(c, k=k, f=f):
                a = form(c, k, "a")
                x, h = own_X(c, a), own_X(c, a, "H")
                Q = c.mat("P", N(x.shape[1]) if f == "change_basis" else N(c.part["L"]))
                r = c.call(c.fn(f, f), a, Q)
                q = Q.node
                c.I.lnsa_leaf = q
                if f == "change_basis":
                    want = conjQ(x, q), conjQ(h, q), leafA(c)
                else:
                    want = T.einsum("ia,auv->iuv", [q, x]), h, T.einsum("ia,jb,abc,ck->ijk", [q, q, leafA(c), T.inverse(q)])
                c.I.lnsa_pairs = [(v.node if isinstance(v, ArrVal) else v, w) for v, w in zip((c.X(r), c.H(r), c.A(r)), want)]
                return r
            out.append(Scenario(f"{f} of {k} near the identity", post(b), f"{SRC}{f}.py in {f}", parts=[{"L": 2, "n": 1, "dims": {"a": 2, "b": 1, "c": 1, "e": 1}}],
                                on_path=gate(rule, change_cases(lambda I: I.lnsa_leaf, "basis" if f == "change_basis" else "algebra")), raise_ok=lambda p: not definite_raise(p), seconds=30))
    return out


def near_exp(rule):
    """exp_map where a discrete generator resembles the identity in part only, or the parameters of the algebra do"""
    from .builtins_model import to_node
    from .v_values import em_expected
    out = []
    for ks in ((3, 2), (-3, 5), (4, -2)):
        for jax in (False, True):
            def b(c, ks=ks, jax=jax):
                a = form(c, "G", "a")
                cp = T.leaf("params", "c", (P(2),))
                ps = PyList(list(ks))
                r = c.call(c.fn("jax_utils", "exp_map"), a, ArrVal(cp), ps) if jax else c.meth(a, "exp_map", ArrVal(cp), ps)
                c.I.lnsa_pair = to_node(c.I, r), em_expected(c, a, 2, [P(k) for k in ks], cp)
                return r

            def cases(sc, p, part, i):
                if i == 0:
                    return Case({})
                todo = [(j, t, m) for j in range(2) for t, m in resembling(2)]
                lv, n = {}, len(todo)
                if i <= n:
                    j, text, m = todo[i - 1]
                    hs = [rnd(["near exp", k], (2, 2)) for k in range(2)]
                    hs[j] = m
                    lv = {("H", "a"): stack(hs, (2, 2, 2))}
                    text = f"the {kind(('H', j))} {text}"
                elif i <= n + 3:
                    lv = {("params", "c"): mk([[5, 0], [0, 5], [5, -5]][i - n - 1])}
                    text = ("the second parameter is zero", "the first parameter is zero", "the parameters have sum zero")[i - n - 1]
                else:
                    return None
                found, want = p.interp.lnsa_pair
                return Case(lv, f"it is another matrix than the product of the powers and the exponential when {text}", wrong=lambda val: differ(val(found), val(want)))
            name = ("jax exp_map" if jax else "Rep.exp_map of G") + f" with discrete parameters {ks} near the identity"
            out.append(Scenario(name, post(b), SRC + ("jax_utils.py in exp_map" if jax else "rep.py in Rep.exp_map"), parts=[{"L": 2, "n": 2, "dims": {"a": 2}}], on_path=gate(rule, cases),
                                raise_ok=lambda p: not definite_raise(p), seconds=30))
    return out
