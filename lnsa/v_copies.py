"""C25: every multiplicity copy is computed, for every state.

The coefficients of SU(n) are propagated from the highest weight by a worklist, once per independent coupling.  The number of couplings comes from a null space, which is
numerical: here nullspace() returns any `mu` rows (an opaque array), so the loop over copies is analysed with mu = 1, 2, 3 on small labels, and the array
summarised from the source is inspected state by state."""
from . import poly
from . import summaries as SM
from . import stub
from . import tens as T
from .decide import feasible
from .interp import explore
from .seeds import Ctx
from .tens import Reg
from .v_family import note, _named
from .v_work import SRC
from .values import *

RULE25 = ("with any number of couplings found by nullspace, the slice of the coefficients for each coupling and each state of the third representation is "
          "non-zero and is a function of the highest-weight vector of that coupling")
WHERE = f"{SRC}irreps/sun.py in clebsch_gordan_matrix"
TRIPLES = {"quick": [("SU2_", (1, 0), (1, 0), (2, 0), (1, 2, 3)), ("SU2_", (1, 0), (2, 0), (3, 0), (2,)), ("SU2_", (2, 0), (1, 0), (1, 0), (2,))],
           "thorough": [("SU2_", (2, 0), (2, 0), (2, 0), (2, 3)), ("SU2_", (1, 0), (3, 0), (4, 0), (2,)), ("SU3", (1, 0, 0), (1, 0, 0), (2, 0, 0), (1, 2)),
                        ("SU3", (1, 0, 0), (1, 1, 0), (2, 1, 0), (2,)), ("SU3", (1, 0, 0), (1, 0, 0), (1, 1, 0), (3,))]}


def solver(mu):
    def f(I, fn, args, kw):
        node = args[0].node if isinstance(args[0], ArrVal) else None
        if node is None:
            raise Stuck("null space of an array of unknown content")
        return ArrVal(T.leaf("in", "couplings", (mu, node.shape[1])))
    return f


def slices(node):
    """the node for each (coupling, state)"""
    dims = [d.as_int() for d in node.shape]
    if len(dims) != 4 or None in dims:
        return None
    return dims, {(a, m): T.getitem(node, [Reg("int", a), Reg("full"), Reg("full"), Reg("int", m)]) for a in range(dims[0]) for m in range(dims[3])}


def points(mu, cols):
    """values of the couplings: generic rows, and for each coupling the same with its row replaced"""
    import random
    import numpy as np
    out = []
    for seed in (1, 2):
        r = random.Random(seed + 40)
        base = np.array([[r.randrange(1, T.PRIME) for _ in range(cols)] for _ in range(mu)], dtype=np.int64).reshape(mu, cols)
        vs = [base]
        for a in range(mu):
            w = base.copy()
            w[a] = [r.randrange(1, T.PRIME) for _ in range(cols)]
            vs.append(w)
        out.append([T.Point(seed, {}, leaf_fn=lambda pt, name, label, shape, node, v=v: T.C(v) if (name, label) == ("in", "couplings") and shape == v.shape else None)
                    for v in vs])
    return out


def c25_triple(prog, rep, cls, a, b, d, mu):
    name = f"{cls}{a} x {cls}{b} -> {cls}{d}, {mu} couplings"
    prog.summaries = {**SM.NUM, SM.U + "nullspace": solver(mu)}
    model = stub.Model()
    stub.install(prog, model)
    info = {"scenario": name, "partition": {}, "paths": 0, "proved": 0, "undecided": 0}
    rep.scen.append(info)

    def fn(I):
        c = Ctx(I)
        c.model = model
        k = c.cls("irreps.sun", cls)
        return c.call(c.fn("clebsch_gordan", "clebsch_gordan"), c.call(k, a), c.call(k, b), c.call(k, d))
    try:
        ps = explore(prog, fn, max_paths=8, budget=12000000)
    except Stuck as e:
        rep.undecided.append(f"{name}: {e}")
        return
    finally:
        prog.summaries = {}
    for p in ps:
        rep.paths += 1
        info["paths"] += 1
        rep.functions |= p.stats["functions"]
        rep.sites |= p.stats["sites"]
        if p.kind == "cut" or not feasible(p):
            continue
        if p.kind != "return" or not isinstance(p.value, ArrVal):
            info["undecided"] += 1
            rep.undecided.append(f"{name}: {p.kind} {p.exc}")
            continue
        r = judge(rep, name, p, mu)
        info["proved"] += r


def where(p):
    """the construct that writes the coefficients: the function of the loop over the couplings"""
    return WHERE


def judge(rep, name, p, mu):
    """number of discharged obligations"""
    node = p.value.node
    try:
        dims, sl = slices(node)
    except (TypeError, T.ShapeError):
        rep.undecided.append(f"{name}: coefficients of shape {node.shape}")
        return 0
    ns = [x for x in nodes_of(node) if x.op == "leaf" and x.args[:2] == ("in", "couplings")]
    if dims[0] < mu and node.op != "leaf" and len(ns) <= 1:
        rep.obls += 1
        rep.violate(where(p), RULE25, f"{name}: nullspace finds {mu} couplings, the coefficients have {dims[0]}", name)
        return 0
    if dims[0] != mu or len(ns) != 1:
        rep.undecided.append(f"{name}: {dims[0]} slices for {mu} couplings")
        return 0
    cols = ns[0].shape[1].as_int()
    pts = points(mu, cols)
    done = 0
    bad = {}
    try:
        full = [[pt.val(node, {}) for pt in row] for row in pts]
    except (T.Undefined, T.Singular) as e:
        rep.undecided.append(f"{name}: {e}")
        rep.obls += len(sl)
        return 0
    for al in range(mu):
        for m in range(dims[3]):
            rep.obls += 1

            def cut(v):
                return (v.re[al, :, :, m], v.imz()[al, :, :, m])
            zero = all(not x.any() for row in full for x in cut(row[0]))
            same = all((x == y).all() for row in full for x, y in zip(cut(row[0]), cut(row[1 + al])))
            if zero:
                bad.setdefault("left at zero", []).append((al, m))
            elif same:
                bad.setdefault("not a function of the highest-weight vector of its coupling", []).append((al, m))
            else:
                done += 1
    for what, lst in bad.items():
        rep.violate(where(p), RULE25, f"{name}: the coefficients of coupling {lst[0][0]} for state {lst[0][1]} of {dims[3]} are {what} ({len(lst)} of {len(sl)} slices)", name)
    return done


def nodes_of(root):
    seen, todo, out = set(), [root], []
    while todo:
        x = todo.pop()
        if isinstance(x, T.Arr):
            if x.id in seen:
                continue
            seen.add(x.id)
            out.append(x)
            todo += list(x.args)
        elif isinstance(x, T.Fam):
            todo.append(x.arr)
        elif isinstance(x, poly.Poly):
            todo += [y for at in poly.walk_atoms(x) for y in at[1:]]
        elif isinstance(x, (tuple, list)):
            todo += list(x)
    return out


def c25(tier):
    ts = TRIPLES["quick"] + (TRIPLES["thorough"] if tier == "thorough" else [TRIPLES["thorough"][2][:4] + ((2,),)])
    return [_named(f"{k}: {a} x {b} -> {d}, {mu} couplings", lambda prog, rep, tier, k=k, a=a, b=b, d=d, mu=mu: c25_triple(prog, rep, k, a, b, d, mu))
            for k, a, b, d, mus in ts for mu in mus]
