"""C08, C10: what the operations write to; C09: where values come from; C18: what is narrowed to real numbers."""
from . import v_work as W
from .decide import wtext
from .values import *

OK_RAISE = {"raise_ok": lambda p: True}


def over(on_path, tier, keep=None, **kw):
    return [W.scenario(w, None, on_path=on_path, **{**OK_RAISE, **kw}) for w in W.work() if keep is None or keep(w)]


def count(rep, k, n=1):
    rep.extra[k] = rep.extra.get(k, 0) + n


# ---------------------------------------------------------------- C08
RULE08 = ("every store, in-place operation, list, set or attribute update of the analysed functions is resolved to the object it changes "
          "(views resolve to their base); the object must not be an argument, a part of an argument, or an array handed out by an irrep")


def c08_path(rep, sc, p, part):
    for kind, where, d in p.events:
        if kind == "mutate":
            count(rep, "writes_resolved")
            o = d["owner"]
            if o[0] in ("arg", "irrep", "cache"):
                what = {"arg": "the argument", "irrep": "an array owned by the irrep", "cache": "an array which later calls return, kept by"}[o[0]]
                rep.violate(wtext(where), "arguments are not modified", f"{sc.name}: writes to {what} {o[1]} ({d['what']})", sc.name)


def c08(tier):
    return over(c08_path, tier, prefix=True)


# ---------------------------------------------------------------- C10
RULE10 = ("no analysed function writes to an object owned by a cache, a module, a class or a default argument, changes process-wide settings outside a "
          "context manager, or hands out a mutable object that a cache keeps")


def cache_owned(v, seen=None, depth=0):
    seen = set() if seen is None else seen
    if depth > 6 or id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, (ArrVal, UArr)):
        o = v.root.owner
        if o is not None and o[0] in ("cache", "global", "class", "default"):
            yield o, "array"
    elif isinstance(v, (PyList, PyDict, PySet)):
        if v.owner is not None and v.owner[0] in ("cache", "global", "class", "default") and not getattr(v, "frozen", False):
            yield v.owner, type(v).__name__[2:].lower()
        for x in v.items:
            yield from cache_owned(x, seen, depth + 1)
    elif isinstance(v, (tuple, list)):
        for x in v:
            yield from cache_owned(x, seen, depth + 1)
    elif isinstance(v, (TupleSeg, Seg)):
        for x in v.items:
            yield from cache_owned(x, seen, depth + 1)
    elif isinstance(v, Obj):
        for x in v.attrs.values():
            yield from cache_owned(x, seen, depth + 1)


def c10_path(rep, sc, p, part):
    for kind, where, d in p.events:
        if kind == "mutate":
            o = d["owner"]
            if o[0] in ("cache", "global", "class", "default", "closure"):
                text = {"cache": "a value kept by the cache of", "closure": "a variable kept between calls by the function returned by", "global": "module-level", "class": "class-level", "default": "a default argument,"}[o[0]]
                rep.violate(wtext(where), "no hidden state", f"{sc.name}: writes to {text} {o[1]} ({d['what']})", sc.name)
        elif kind in ("setstate", "setext"):
            rep.violate(wtext(where), "no hidden state", f"{sc.name}: changes process-wide state through {d['path']}", sc.name)
    if p.kind == "return":
        count(rep, "results_examined")
        for o, what in cache_owned(getattr(p.interp, "result", None) or []):
            if o[0] in ("cache", "global", "class", "default"):
                rep.violate(f"{sc.anchor}", "cached values are not handed out",
                            f"{sc.name}: the result contains a mutable {what} kept by {o[0]} {o[1]}", sc.name)


def c10(tier):
    return over(c10_path, tier, prefix=True)


# ---------------------------------------------------------------- C18
RULE18 = ("whenever the real part of a possibly complex, input-dependent array is taken, or such an array is stored into or converted to a real "
          "one, the path has established that its imaginary part vanishes, or the imaginary part is used as well")


def lin_ids(n):
    """the value and what it is a view of"""
    out = {n.id}
    while n.op in ("reshape", "index", "transpose", "broadcast") and n.args and hasattr(n.args[0], "id"):
        n = n.args[0]
        out.add(n.id)
    return out


def imag_facts(p):
    out = set()
    for c, v, _ in p.facts:
        for x in zero_imag(c, v):
            out |= {x}
    return out


def zero_imag(c, v):
    if isinstance(c, Cond):
        if c.kind in ("allclose", "alleq") and v:
            for x, y in (c.args, c.args[::-1]):
                if x.op == "imag" and is_zero(y):
                    yield x.args[0].id
                if x.op == "real":
                    if y.id == x.args[0].id:
                        yield y.id
                if x.op == "conj" and x.args[0].id == y.id:
                    yield y.id
        elif c.kind == "and" and v or c.kind == "or" and not v:
            for x in c.args:
                yield from zero_imag(x, v)
        elif c.kind == "not":
            yield from zero_imag(c.args[0], not v)


def is_zero(n):
    from . import poly
    return n.op == "const" and n.args and n.args[0] == poly.ZERO


def describe(p):
    return [(c.kind, v) for c, v, _ in p.facts if isinstance(c, Cond)]


def subs(o, out=None):
    """the arrays directly below"""
    out = [] if out is None else out
    from . import poly
    from .tens import Arr, Fam
    if isinstance(o, Arr):
        out.append(o)
    elif isinstance(o, Fam):
        subs(o.arr, out)
    elif isinstance(o, poly.Poly):
        for m in o.t:
            for a, _ in m:
                subs(a, out)
    elif isinstance(o, (tuple, list, frozenset)):
        for x in o:
            subs(x, out)
    elif isinstance(o, Cond):
        subs(o.args, out)
    elif isinstance(o, (ArrVal,)):
        out.append(o.node)
    elif isinstance(o, Sym):
        subs(o.p, out)
    return out


def walk(roots):
    seen, todo = set(), list(roots)
    while todo:
        n = todo.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        yield n
        todo += subs(n.args)


KNOWN_FN = ("rounded", "infer_change_of_basis", "nullspace", "gram_schmidt", "take")


def exposed(n, zero, inputs, seen=None):
    """an input array with possibly non-zero imaginary part reaches n through operations that keep imaginary parts"""
    todo, seen = [n], set()
    while todo:
        n = todo.pop()
        if n.id in seen or n.id in zero or not n.cplx:
            continue
        seen.add(n.id)
        if n.op in ("real", "imag"):
            continue
        if n.op == "leaf":
            if n.args[0] not in ("in", "X", "H", "A", "Q", "symX", "symH", "symcg"):
                continue
            return str(n.args[0]) + (f"[{n.args[1]}]" if n.args[1] is not None else "")
        if n.op == "ufn" and n.args[0] not in KNOWN_FN:
            continue
        if n.op in ("emap", "elementwise") and n.args[0] in ("abs", "absolute"):
            continue
        todo += subs(n.args)
    return None


INPUTS = ("in", "X", "H", "A", "Q")
SYMBOLIC = ("symX", "symH", "symcg")      # inputs of a symbolic number of dimensions


def complexes(sh):
    """imaginary parts: with cancelling rows and columns; in a single entry; antisymmetric; of alternating signs between the matrices; any"""
    import numpy as np
    from .tens import PRIME
    sh = tuple(sh)
    d = sh[-2:] if len(sh) > 1 else sh

    def full(m):
        return np.broadcast_to(m, sh).astype(np.int64).copy()
    if not all(sh):
        return []
    out = []
    for idx in ((-1,) * len(sh), (0,) * len(sh)):
        one = np.zeros(sh, dtype=np.int64)
        one[idx] = 1
        out.append(one)
    pm = [np.array([1, -1] + [0] * (x - 2))[:x] for x in d]
    if all(x > 1 for x in d):
        out.append(full(np.multiply.outer(*pm) if len(d) == 2 else pm[0]))
        if len(d) == 2:
            a = np.zeros(d, dtype=np.int64)
            a[0, 1], a[1, 0] = 1, -1
            out.append(full(a))
            out.append(full(np.multiply.outer(pm[0], np.ones(d[1], dtype=np.int64))))
            out.append(full(np.multiply.outer(np.ones(d[0], dtype=np.int64), pm[1])))
    if len(sh) == 3 and sh[0] > 1:
        sign = np.array([1, -1] + [0] * (sh[0] - 2))
        out.append(sign[:, None, None] * full(np.arange(1, d[0] * d[1] + 1).reshape(d)))
    out.append(full(np.arange(1, d[0] + 1) if len(d) == 1 else np.arange(1, d[0] * d[1] + 1).reshape(d)) % PRIME)
    return out


def tests(p, n):
    """the leaves of n with the conditions of the path which look at them"""
    out = []
    for leaf in [x for x in walk([n]) if x.op == "leaf" and x.args[0] in INPUTS + SYMBOLIC and x.cplx and not x.fv]:
        cs = [(c, v) for c, v, _ in p.facts if isinstance(c, Cond) and c.kind != "dtype" and any(y.id == leaf.id for y in walk(subs(c.args)))]
        if cs:
            out.append((leaf, cs))
    return out


def ungated(p, sc, part, n, tested):
    """text of an input at which all the conditions of the path on it hold although the imaginary part of n does not vanish;
    and whether each such input tried is turned away by a condition which real inputs meet"""
    from . import v_gate as G
    from . import tens as T
    model = p.interp.prog.model
    refused = bool(tested)
    for leaf, cs in tested:
        i, tried, met = -1, 0, []
        while True:
            try:
                pt = G.points(sc, p, part, model, {})[0]
                base = pt.leaf_fn

                def values(q, name, key, shape, node, base=base):
                    if name not in INPUTS + SYMBOLIC:
                        return base(q, name, key, shape, node) if base else None
                    r = G.rnd([q.seed, name, str(key), "real"], tuple(shape), cplx=False)
                    if (name, key) != leaf.args[:2] or i < 0:
                        return r
                    ims = complexes(shape)
                    return T.C(r.re, ims[i] % T.PRIME) if i < len(ims) else r
                pt.leaf_fn = values
                v = pt.val(leaf, {})
                if i >= len(complexes(v.shape)):
                    break
                if i < 0:
                    met = [strictly(G, c, w, pt) is True for c, w in cs]
                elif n.fv or pt.val(n, {}).imz().any():
                    rs = [strictly(G, c, w, pt) for c, w in cs]
                    if all(r is True for r in rs):
                        return f"the imaginary part of {leaf.args[0]}[{leaf.args[1]}] may be {complexes(v.shape)[i].tolist()}", False
                    tried += 1
                    refused &= any(r is False and m for r, m in zip(rs, met))
            except (T.Undefined, T.Singular, T.Stuck, ValueError, IndexError):
                refused = False
                break
            i += 1
        refused &= tried > 0
    return None, refused


def strictly(G, c, v, pt):
    rs = G.over(c, pt)
    if rs is None or G.MAYBE in rs or None in rs:
        return None
    return all(r == bool(v) for r in rs)


def vanishing(p):
    """arrays whose imaginary part the conditions of the path found to vanish; arrays whose imaginary part was found not to"""
    good, bad, loose, strict = set(), set(), set(), set()
    for c, v, _ in p.facts:
        if not isinstance(c, Cond) or c.kind == "loose":
            continue
        z = set(zero_imag(c, v))
        if z:
            good |= z
            strict |= z
        elif set(zero_imag(c, not v)):
            bad |= set(zero_imag(c, not v))
        elif c.kind not in ("and", "or"):
            for n in walk(subs(c.args)):
                if n.op == "imag":
                    good.add(n.args[0].id)      # some other test of the imaginary part
                    loose.add(n.args[0].id)
    good -= bad
    # conjugation invariance of a view, a copy or a real multiple follows
    return good, good - (loose - strict)


def result_nodes(v, out=None, depth=0):
    out = [] if out is None else out
    if depth > 8:
        return out
    if isinstance(v, ArrVal):
        out.append(v.node)
    elif isinstance(v, Sym):
        subs(v.p, out)
    elif isinstance(v, (tuple, list)):
        for x in v:
            result_nodes(x, out, depth + 1)
    elif isinstance(v, (PyList, PySet, TupleSeg, Seg)):
        for x in v.items:
            result_nodes(x, out, depth + 1)
    elif isinstance(v, PyDict):
        for k, x in v.items:
            result_nodes(x, out, depth + 1)
    elif isinstance(v, Obj):
        for x in v.attrs.values():
            result_nodes(x, out, depth + 1)
    return out


def c18_path(rep, sc, p, part):
    if p.kind != "return":
        return
    drops = [(w, d) for k, w, d in p.events if k == "drop_imag"]
    if not drops:
        return
    zero, strict = vanishing(p)
    kept = reals = None
    for where, d in drops:
        count(rep, "narrowings_examined")
        n = d["node"]
        n = n.node if isinstance(n, ArrVal) else n
        if not hasattr(n, "op"):
            rep.undecided.append(f"{sc.name}: value of unknown structure narrowed at {wtext(where)}")
            continue
        leaf = exposed(n, zero, None)
        why = "although it was not found to vanish"
        tested = n.id not in strict and exposed(n, strict, None) is not None and tests(p, n)
        # by a test which is not simply that of every entry: there must be no input which passes it
        how, refused = ungated(p, sc, part, n, tested) if tested else (None, False)
        if how:
            leaf = exposed(n, strict, None)
            why = f"although the test made of it accepts others: {how}"
        elif leaf is None or refused:
            count(rep, "narrowings_justified")
            continue
        if kept is None:
            kept = {x[1] for x in deps_of(p.interp.result) if isinstance(x, tuple) and x[0] == "imag part"}
        if n.id in kept:
            count(rep, "narrowings_justified")
            continue
        if d["how"] == "real part":
            if reals is None:
                reals = {y.id for x in walk(result_nodes(p.interp.result)) if x.op == "real" for y in walk(x.args[:1])}
            if n.id not in reals:
                count(rep, "real_parts_not_in_the_result")     # compared, say
                continue
        rep.violate(wtext(where), "imaginary parts are not dropped silently",
                    f"{sc.name}: {d['how']}: the imaginary part of {leaf} is lost {why}", sc.name)


def c18(tier):
    return over(c18_path, tier)
