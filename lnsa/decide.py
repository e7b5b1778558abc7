"""Running scenarios and deciding their obligations."""
import random
import signal
import time
import traceback

from . import poly
from . import stub
from . import tens as T
from .poly import Poly, P, N
from .seeds import Ctx
from .values import *
from .interp import Program, explore


SEED = 1


class Obl:
    """got must equal expected (arrays), or ok must hold (a decided fact)"""

    def __init__(self, label, got=None, exp=None, ok=None, detail="", where=None):
        self.label, self.got, self.exp, self.ok, self.detail, self.where = label, got, exp, ok, detail, where


class Scenario:
    few = False
    same_group = False

    def __init__(self, name, build, anchor, parts=None, raise_ok=None, max_paths=64, budget=150000, fallback=None, sizes=None, npoints=3,
                 rule="", on_path=None, seconds=60, summaries=None, prefix=False):
        self.name, self.build, self.anchor = name, build, anchor
        self.parts = parts or [{}]
        self.fallback = fallback or []
        self.raise_ok = raise_ok
        self.max_paths, self.budget = max_paths, budget
        self.sizes = sizes or {}
        self.npoints = npoints
        self.rule = rule
        self.on_path = on_path
        self.seconds = seconds
        self.summaries = summaries or {}
        self.prefix = prefix


def make_points(model, sizes, n, extra=()):
    """model points: values for sizes and leaves which satisfy the contract of the inputs"""
    out = []
    for s in range(n):
        r = random.Random(1000 + s + 77 * SEED)
        pt = T.Point(s + 1 + 100 * SEED, {}, leaf_fn=model.leaf if model else None)
        for k, v in sizes.items():
            pt.env[("sym", k)] = r.choice(v) if isinstance(v, (list, tuple)) else v
        pt.rng = r
        for k in ("L", "n", "L2", "n2"):
            pt.env.setdefault(("sym", k), r.choice([1, 2, 3]))
        if model:
            for k, st in list(model.struct.items()):
                pass
            for b in "abcdefghz":
                pt.env.setdefault(("sym", "d" + b), r.choice([2, 3]))
            model.sizes(pt)
        pt.default_size = r.choice([2, 3])
        out.append(pt)
    return out


def adapt(pt, facts, low=None):
    """choose sizes which agree with the equalities and inequalities assumed on the path"""
    conds = [(c, v) for c, v, _ in facts if isinstance(c, Cond) and c.kind in SIZE_KINDS and size_only(c)]
    if conds:
        solve(pt, conds, getattr(pt, "rng", None) or random.Random(3), low or {})


def solve(pt, conds, r, low, tries=80):
    """local search: change a size of a condition which does not hold"""
    pool = {}

    def values(a):
        if a not in pool:
            lo = low.get(a, 0)
            ints = set()
            for c, _ in conds:
                if a in set(cond_syms(c)):
                    ints_of(c, ints)
            vs = {lo + k for k in range(6)} | {x for x in range(-3, 4) if x >= lo} | {x + d for k in ints for x in (k, -k) for d in (-1, 0, 1) if lo <= x + d <= 200}
            pool[a] = sorted(vs)
        return pool[a]
    syms = {}
    for i, (c, _) in enumerate(conds):
        syms[i] = list(dict.fromkeys(cond_syms(c)))
    for _ in range(tries):
        bad = [i for i, (c, v) in enumerate(conds) if holds(c, v, pt) is False and syms[i]]
        if not bad:
            return True
        i = bad[0]
        a = r.choice(syms[i])
        old = pt.env.get(a)
        best, hit = [], []
        for x in values(a):
            pt.env[a] = x
            if holds(conds[i][0], conds[i][1], pt) is not False:
                hit.append(x)
                if all(holds(c, v, pt) is not False for c, v in conds):
                    best.append(x)
        if best or hit:
            pt.env[a] = r.choice(best or hit)
        else:
            pt.env[a] = r.choice(values(a)) if r.random() < 0.5 or old is None else old
    return all(holds(c, v, pt) is not False for c, v in conds)


def ints_of(c, out):
    from .table import ints_in
    ints_in(c, out)


def holds(c, val, pt):
    """does the path condition hold at the point? None: unknown"""
    if isinstance(c, Cond) and c.kind == "loose":
        if v_true(val):
            return True         # arrays within the coarse tolerance need not be equal
        c = Cond("allclose", c.args)
    try:
        r = _holds(c, pt)
    except (T.Undefined, T.Singular, T.Stuck):
        return None
    return None if r is None else r == bool(val)


def v_true(v):
    return bool(v)


def _holds(c, pt):
    if isinstance(c, bool):
        return c
    k = c.kind
    if k == "cmp":
        op, p, q = c.args
        x, y = pt.num(P(p) if not isinstance(p, Poly) else p, {}), pt.num(P(q) if not isinstance(q, Poly) else q, {})
        return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
    if k in ("and", "or"):
        rs = [_holds(x, pt) for x in c.args]
        if k == "and":
            return False if False in rs else (None if None in rs else True)
        return True if True in rs else (None if None in rs else False)
    if k == "not":
        r = _holds(c.args[0], pt)
        return None if r is None else not r
    if k in ("allclose", "alleq"):
        a, b = c.args
        x, y = pt.val(a, {}), pt.val(b, {})
        try:
            d = (x.re != y.re) | (x.imz() != y.imz())
        except ValueError:
            return False
        return not d.any()
    if k == "dtype" and c.args and c.args[0] == "complex":
        return True
    return None


def feasible(p, tries=60):
    """do the path's conditions on sizes have a common solution?  False: none found"""
    conds = [(c, v) for c, v, _ in p.facts if isinstance(c, Cond) and size_only(c)]
    syms = []
    for c, _ in conds:
        for a in cond_syms(c):
            if a not in syms:
                syms.append(a)
    if not syms:
        return True
    r = random.Random(5)
    low = {a: p.know.lower.get(a, 0) for a in syms}
    for i in range(6):
        pt = T.Point(1, {}, leaf_fn=None)
        pt.default_size = 2
        for a in syms:
            pt.env[a] = low[a] + r.choice((0, 1, 2, 3, 5)) if low[a] > -3 else r.choice((-1, 0, 1, 2))
        if solve(pt, conds, r, low):
            return True
    return False


def cond_syms(c):
    if isinstance(c, bool):
        return
    if c.kind == "cmp":
        for q in c.args[1:]:
            for a in poly.walk_atoms(P(q)):
                if poly.akind(a) == "sym":
                    yield a
    elif c.kind in ("and", "or", "not"):
        for x in c.args:
            yield from cond_syms(x)


def real_facts(facts):
    out = set()
    for c, v, _ in facts:
        if c.kind in ("allclose", "alleq") and v:
            for x, y in (c.args, c.args[::-1]):
                if x.op == "imag" and y.op == "const" and y.args[0] == poly.ZERO:
                    out.add(x.args[0].id)
    return out


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []
        self.proved = []
        self.undecided = []
        self.functions = set()
        self.sites = set()
        self.paths = 0
        self.obls = 0
        self.scen = []
        self.extra = {}
        self.t0 = time.time()

    def violate(self, where, rule, detail, scenario=""):
        key = (where, rule, detail)
        if all((v["where"], v["rule"], v["detail"]) != key for v in self.violations):
            self.violations.append({"where": where, "rule": rule, "detail": detail, "scenario": scenario})


def wtext(w):
    if isinstance(w, str):
        return w
    return f"{w[0]}:{w[1]} in {w[2]}"


SIZE_KINDS = ("cmp", "and", "or", "not")


def size_only(c):
    if isinstance(c, bool):
        return True
    if c.kind == "cmp":
        return all(size_atom(a) for q in c.args[1:] for a in poly.walk_atoms(P(q)))
    if c.kind in ("and", "or", "not"):
        return all(size_only(x) for x in c.args)
    return False


def unknown_choice(c):
    """the condition is about a value the analysis knows nothing about"""
    if isinstance(c, bool):
        return False
    if c.kind in ("and", "or", "not"):
        return any(unknown_choice(x) for x in c.args)
    return c.kind == "truth"


def size_atom(a):
    """not an element of an array, nor a number of solutions found numerically"""
    k = poly.akind(a)
    return k not in ("elem", "unk") and not (k == "sym" and "<" in str(a[1]))


DEFINITE = ("ValueError", "TypeError", "IndexError", "AttributeError", "KeyError", "NameError", "UnboundLocalError", "NotImplementedError",
            "AssertionError", "ZeroDivisionError", "AmbiguousDispatch", "LinAlgError", "StopIteration", "ImportError", "RecursionError")


def definite_raise(p, pts=None):
    """the exception happens on real inputs: every assumption of the path is about sizes only (and satisfiable)"""
    if p.exc.name not in DEFINITE:
        return False
    ok = all(size_only(c) or c.kind in ("allclose", "alleq") and not v and not nonsize_assert(p) or dtype_only(c, v) for c, v, _ in p.facts)
    return ok and dtypes_possible(p.facts)


def dtype_only(c, v):
    """a condition on the element type of an input: both outcomes occur; membership in a list of types is expected to hold"""
    if isinstance(c, bool):
        return True
    if c.kind == "or":
        return bool(v) and all(isinstance(x, bool) or x.kind == "dtype" for x in c.args)
    return c.kind == "dtype" and bool(c.args) and c.args[0] == "complex"


def dtypes_possible(facts):
    """an array is complex when one of the inputs it is made of is"""
    real = set()
    for c, v, _ in facts:
        if isinstance(c, Cond) and c.kind == "dtype" and c.args and c.args[0] == "complex" and not v:
            real |= set(c.args[1])
    return all(not (isinstance(c, Cond) and c.kind == "dtype" and c.args and c.args[0] == "complex" and v and not set(c.args[1]) - real) for c, v, _ in facts)


def nonsize_assert(p):
    return p.exc.name == "AssertionError"


def alarm(*a):
    raise TimeUp("time limit of the scenario")


def timed(seconds, f):
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_scenario(prog, rep, sc, verbose=False):
    prog.summaries = sc.summaries
    try:
        _run_scenario(prog, rep, sc, verbose)
    finally:
        prog.summaries = {}


def _run_scenario(prog, rep, sc, verbose=False):
    todo = [dict(x) for x in sc.parts]
    done_fallback = False
    while todo:
        part = todo.pop(0)
        model = stub.Model(part.get("dims"), part.get("L", "L"), part.get("n", "n"), cplx=part.get("cplx", True), L3=part.get("L3"), n3=part.get("n3"))
        stub.install(prog, model)
        info = {"scenario": sc.name, "partition": {k: str(v) for k, v in part.items()}, "paths": 0, "proved": 0, "undecided": 0}
        rep.scen.append(info)
        t = time.time()

        def fn(I):
            c = Ctx(I)
            c.model = model
            c.part = part

            def ir(k):
                return c.call(c.cls("lnsa_stub", "SymIrrep2" if "z" in k else "SymIrrep"), k)
            c.ir = ir
            return sc.build(c)
        try:
            paths = timed(sc.seconds, lambda: explore(prog, fn, max_paths=sc.max_paths, budget=sc.budget))
        except (TimeUp, MemoryError) as e:
            paths = []
            info["undecided"] += 1
            rep.undecided.append(f"{sc.name} {ptext(part)}: {type(e).__name__}: {e}")
        stuck = False
        for p in paths:
            rep.paths += 1
            info["paths"] += 1
            rep.functions |= p.stats["functions"]
            rep.sites |= p.stats["sites"]
            poly.set_know(p.know)
            try:
                if p.kind == "stuck":
                    stuck = True
                    if sc.prefix and feasible(p):
                        sc.on_path(rep, sc, p, part)        # what happened before
                    info["undecided"] += 1
                    rep.undecided.append(f"{sc.name} {ptext(part)}: {p.exc} at {wtext(getattr(p.exc, 'where', None) or p.interp.where())}")
                    continue
                if p.kind == "cut":
                    continue
                if not feasible(p):
                    info["undecided"] += 1
                    rep.undecided.append(f"{sc.name} {ptext(part)}: no sizes found which satisfy the path" + ftext(p))
                    continue
                if sc.on_path is not None:
                    sc.on_path(rep, sc, p, part)
                if p.kind == "raise":
                    rep.obls += 1
                    if sc.raise_ok is not None and sc.raise_ok(p):
                        info["proved"] += 1
                    elif definite_raise(p):
                        rep.violate(wtext(p.exc.where) if p.exc.where else sc.anchor, "no exception on a supported input",
                                    f"{sc.name} {ptext(part)}: {p.exc.name}: {p.exc.msg}" + ftext(p), sc.name)
                    else:
                        info["undecided"] += 1
                        rep.undecided.append(f"{sc.name} {ptext(part)}: may raise {p.exc.name}: {p.exc.msg} {ftext(p)}")
                    continue
                for o in p.value or []:
                    decide_obl(rep, sc, p, part, model, o, info)
            finally:
                poly.set_know(poly.Know())
        info["wall_s"] = round(time.time() - t, 2)
        if stuck and sc.fallback and not done_fallback:
            done_fallback = True
            todo += [dict(x) for x in sc.fallback]


def ptext(part):
    return "(" + ", ".join(f"{k}={v}" for k, v in part.items()) + ")" if part else ""


def ftext(p):
    fs = [f"{c}={v}" for c, v, _ in p.facts][:6]
    return (" when " + ", ".join(fs))[:400] if fs else ""


def decide_obl(rep, sc, p, part, model, o, info):
    rep.obls += 1
    where = o.where or sc.anchor
    if o.ok is not None or o.got is None:
        if o.ok is True:
            info["proved"] += 1
        elif o.ok is False and any(unknown_choice(c) for c, v, _ in p.facts):
            info["undecided"] += 1
            rep.undecided.append(f"{sc.name} {ptext(part)}: {o.label}: {o.detail} on a path which may be infeasible" + ftext(p))
        elif o.ok is False:
            rep.violate(wtext(where), sc.rule or o.label, f"{sc.name} {ptext(part)}: {o.label}: {o.detail}" + ftext(p), sc.name)
        else:
            info["undecided"] += 1
            rep.undecided.append(f"{sc.name} {ptext(part)}: {o.label}: {o.detail}")
        return
    got, exp = o.got, o.exp
    if len(got.shape) != len(exp.shape):
        if all(size_only(c) for c, v, _ in p.facts):
            rep.violate(wtext(where), sc.rule, f"{sc.name} {ptext(part)}: {o.label} has {len(got.shape)} axes instead of {len(exp.shape)}", sc.name)
        return
    verdicts = []
    rf = real_facts(p.facts)
    for pt in make_points(model, {**sc.sizes, **part.get("sizes", {})}, sc.npoints):
        pt.real_facts = rf
        adapt(pt, p.facts, p.know.lower)
        if model:
            model.sizes(pt)
        r, detail = T.compare(got, exp, [pt])
        if r is None:
            verdicts.append((None, detail))
            continue
        if r is True:
            verdicts.append((True, ""))
            continue
        # a mismatch counts only at a point which satisfies the assumptions of the path
        sat = [holds(c, v, pt) for c, v, _ in p.facts if not assumed(c, v, rf, p)]
        if all(x is True for x in sat):
            verdicts.append((False, detail))
        else:
            verdicts.append((None, "differs where the path condition is not satisfied"))
    if any(v is False for v, _ in verdicts):
        d = next(d for v, d in verdicts if v is False)
        rep.violate(wtext(where), sc.rule, f"{sc.name} {ptext(part)}: {o.label}: {d}" + ftext(p), sc.name)
    elif any(v is True for v, _ in verdicts) and all(v is not None or "satisf" not in d for v, d in verdicts):
        info["proved"] += 1
    else:
        info["undecided"] += 1
        rep.undecided.append(f"{sc.name} {ptext(part)}: {o.label}: {verdicts[0][1]}" + ftext(p))


def assumed(c, v, rf, p):
    """facts which the comparison already takes into account"""
    if c.kind in ("allclose", "alleq") and v:
        for x, y in (c.args, c.args[::-1]):
            if x.op == "imag" and x.args[0].id in rf:
                return True
            if id(c) in getattr(p, "used_facts", ()) or (y.op == "eye" and getattr(p.interp, "q_none", None) is not None
                                                         and x.id in p.interp.q_none):
                return True
    return False


def fill_q(c, r):
    """Q=None stands for a change of basis found equal to the identity: put back the matrix the fact is about"""
    I = c.I
    if isinstance(r, Obj) and r.cls.name == "ReducedRep" and r.attrs.get("Q", 0) is None:
        for cond, v, _ in I.facts:
            if isinstance(cond, Cond) and cond.kind in ("allclose", "alleq") and v:
                x, y = cond.args
                if y.op != "eye" and x.op == "eye":
                    x, y = y, x
                if y.op == "eye":
                    r.attrs["Q"] = ArrVal(x)
                    if not hasattr(I, "q_none"):
                        I.q_none = set()
                    I.q_none.add(x.id)
    return r
