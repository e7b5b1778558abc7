"""C22: every family implements its interface or refuses loudly; nothing returns an exception object, None or an unrelated value."""
import ast
import itertools

from . import poly
from . import table as TB
from . import summaries as SM
from . import v_work as W
from .decide import Scenario, ptext, ftext, wtext, size_only
from .interp import EXC_BASES
from .poly import P, N
from .values import *
from .v_effects import count
from .v_family import FAMS, _named, lab, note
from .v_struct import names_of, CL
from .v_values import merge, D23
from .v_work import SRC

RULE22 = ("every exported family defines (itself or through its bases below Rep) each part of the interface, every path of every operation that "
          "returns gives a value of the kind the interface announces, and no function of the package returns an exception class or object")


def is_exception(v):
    if isinstance(v, Ext):
        return v.path.startswith("builtins.") and (v.path[9:] in EXC_BASES or v.path == "builtins.Exception")
    if isinstance(v, ExtObj):
        return v.kind == "exc"
    if isinstance(v, ClassVal):
        return any(isinstance(b, Ext) and is_exception(b) for k in [v] for b in all_bases(k))
    if isinstance(v, Obj):
        return any(isinstance(b, Ext) and is_exception(b) for b in all_bases(v.cls))
    return False


def all_bases(k):
    out, todo = [], [k]
    while todo:
        c = todo.pop()
        for b in getattr(c, "bases", ()):
            out.append(b)
            todo.append(b)
    return out


def is_rep(v):
    return isinstance(v, Obj) and "Rep" in names_of(v.cls)


def number(v):
    return isinstance(v, (int, float, Sym)) and not isinstance(v, complex)


# kind -> (acceptable, certainly wrong)
def kind_wrong(kind, v):
    """text when the value is certainly not of the kind"""
    if is_exception(v):
        return "an exception object"
    if kind == "any" or isinstance(v, (Unknown, UArr)):
        return None
    if v is None:
        return None if kind == "none" else "None"
    if isinstance(v, Ext) and v.path == "builtins.NotImplemented":
        return None if kind in ("bool", "list") else "NotImplemented"
    if isinstance(v, (ClassVal, FuncVal, Ext)):
        return "a class or function"
    if kind == "array":
        return None if isinstance(v, ArrVal) else f"no array but {tname(v)}"
    if kind == "bool":
        return f"no truth value but {tname(v)}" if isinstance(v, (Obj, PyList, PyDict, tuple, str, StrV)) else None
    if kind == "int":
        return f"no number but {tname(v)}" if isinstance(v, (Obj, PyList, PyDict, tuple, str, StrV)) else None
    if kind == "rep":
        return None if is_rep(v) else f"no representation but {tname(v)}"
    if kind == "irrep":
        return None if isinstance(v, Obj) and "TabulatedIrrep" in names_of(v.cls) else f"no irrep but {tname(v)}"
    if kind == "list":
        if isinstance(v, (Obj, ArrVal, int, float, str, StrV, Sym)):
            return f"no list of irreps but {tname(v)}"
        for y in flat(v.items if isinstance(v, PyList) else v if isinstance(v, tuple) else []):
            w = kind_wrong("irrep", y)
            if w:
                return "a list with a member which is " + w
        return None
    if kind == "str":
        return None if isinstance(v, (str, StrV)) else f"no string but {tname(v)}"
    return None


def flat(items):
    for x in items:
        if isinstance(x, Seg):
            yield from flat(x.items)
        else:
            yield x


def tname(v):
    return v.cls.name if isinstance(v, Obj) else type(v).__name__.replace("ArrVal", "an array").replace("PyList", "a list")


def c22_path(kinds, family=False):
    def on_path(rep, sc, p, part):
        if p.kind != "return":
            return
        for (what, kind), v in zip(kinds, p.interp.result):
            count(rep, "rule_obligations")
            w = kind_wrong(kind, v)
            if w and not all(size_only(c) or c.kind in ("allclose", "alleq", "dtype") for c, _, _ in p.facts if not isinstance(c, bool)):
                rep.undecided.append(f"{sc.name} {ptext(part)}: {what} gives {w} on a path which may be infeasible" + ftext(p))
                continue
            if w:
                rep.violate(sc.anchor, RULE22, f"{sc.name} {ptext(part)}: {what} gives {w}" + ftext(p), sc.name)
                return
            count(rep, "rule_obligations_discharged")
    return on_path


KIND = {"create_trivial": "rep", "change_basis": "rep", "change_algebra": "rep", "from_rep": "rep", "conjugate": "rep", "reduce": "rep", "make_explicitly_real": "rep",
        "tensor_product": "rep", "direct_sum": "rep", "group_product": "rep", "infer_change_of_basis": "array", "clebsch_gordan": "array", "exp_map": "array",
        "is_trivial": "bool", "is_unitary": "bool", "is_irreducible": "bool", "is_real": "bool", "__repr__": "str", "tensor_power": "rep", "from_irreps": "rep",
        "mul": "list", "algebra": "array", "continuous_generators": "array", "discrete_generators": "array", "dim": "int", "lt": "bool", "cg": "array"}
PROVIDES = {"from_string": None, "dim": "int", "__lt__": "bool", "iterator": None, "__mul__": "list", "clebsch_gordan": "array", "continuous_generators": "array",
            "discrete_generators": "array", "algebra": "array"}
OPTIONAL = {("SU2Real", "from_string")}


def c22(tier):
    out = [_named("interfaces of the exported families", interfaces), _named("returned exceptions", returned), _named("missing returns", fallthrough)]
    for f in FAMS:
        for meth in () if f.mod == "irreps.sun" else ("clebsch_gordan", "__mul__", "dim", "continuous_generators", "discrete_generators", "algebra"):
            out.append(_named(f"{f.cls}.{meth} at labels", tabled(f, meth)))
    for w in W.work():
        ks = [KIND[t] for t in sorted(w.tags) if t in KIND]
        if "family" in w.tags and "is_scalar" in w.name:
            ks = ["bool"]
        kind = ks[0] if ks else None
        if w.name.startswith("attributes("):
            kinds = [("A", "array"), ("X", "array"), ("H", "array"), ("dim", "int"), ("lie_dim", "int")]
        elif kind is None:
            kinds = [("the result", "any")] * 6
        else:
            kinds = [("the result", kind)] * 3
        if "finite" in w.tags:
            kinds = [("A", "array"), ("X", "array"), ("H", "array"), ("dim", "int"), ("lie_dim", "int"), ("create_trivial", "rep")] if "Sn" in w.name else [("X", "array"), ("H", "array")]
        if "rtp" in w.tags or "util" in w.tags or "perm" in w.tags or "from_generators" in w.name:
            kinds = [("the result", "any")]
        out.append(W.scenario(w, None, on_path=c22_path(kinds), raise_ok=lambda p: True))
    # product irreps: everything but the operations on the class
    for name, kind in (("dim", "int"), ("algebra", "array"), ("continuous_generators", "array"), ("discrete_generators", "array"), ("create_trivial", "irrep"), ("__lt__", "bool"), ("__mul__", "list")):
        def b(c, name=name):
            a = W.frm(c, "P", "a")
            if name == "dim":
                return [c.attr(a, "dim")]
            if name in ("__lt__", "__mul__"):
                return [c.call(c.fn("lnsa_work", "lt" if name == "__lt__" else "mul"), a, W.frm(c, "P", "b"))]
            return [c.meth(a, name)]
        out.append(W.scenario(W.W(f"TabulatedIrrepProduct.{name}", f"{SRC}group_product.py in TabulatedIrrepProduct.{name}", b), None, on_path=c22_path([(name, kind)]), raise_ok=lambda p: True))
    for f in FAMS:
        def it(c, f=f):
            items = c.I.iterate(c.call(c.I.getattr(c.cls(f.mod, f.cls), "iterator")))
            return [PyList([], frozenset()) if items is None else PyList(list(items))]
        out.append(W.scenario(W.W(f"{f.cls}.iterator", f.path + ".iterator", it), None, on_path=c22_path([("the enumeration", "list")]), raise_ok=lambda p: True))

        def fs(c, f=f):
            return [c.call(c.I.getattr(c.cls(f.mod, f.cls), "from_string"), StrV("in", ("s",)))]
        out.append(W.scenario(W.W(f"{f.cls}.from_string", f.path + ".from_string", fs), None, on_path=c22_path([("the result", "irrep")]), raise_ok=lambda p: True))
    return out


def tabled(fam, meth):
    """the operation at concrete labels: the path which applies there returns a value of the announced kind"""
    def run(prog, rep, tier):
        def build(c):
            K = c.cls(fam.mod, fam.cls)
            if meth == "clebsch_gordan":
                return c.call(c.I.getattr(K, meth), *[fam.build(c, t, 0) for t in "abc"])
            xs = [fam.build(c, t, 0) for t in ("ab" if meth in ("__mul__", "__lt__") else "a")]
            if len(xs) > 1:
                return c.call(c.fn("lnsa_work", "lt" if meth == "__lt__" else "mul"), *xs)
            return c.attr(xs[0], "dim") if meth == "dim" else c.meth(xs[0], meth)
        t = TB.table(prog, rep, f"{fam.cls}.{meth} at labels", build, summaries=dict(SM.client()))
        kind = PROVIDES[meth]
        n = ok = 0
        tags = "abc" if meth == "clebsch_gordan" else "ab" if meth in ("__mul__", "__lt__") else "a"
        for r in t.rows:
            n += 1
            w = kind_wrong(kind, r.value) if r.kind == "return" else None
            if not w:
                ok += 1
                continue
            for ls in itertools.product(list(fam.labels(tables=[t])), repeat=len(tags)):
                env = {}
                for x, l in zip(tags, ls):
                    env.update(fam.env(l, x))
                if t.at(env) is r:
                    rep.violate(f"{fam.path}.{meth}", RULE22, f"{fam.cls}.{meth} for labels {', '.join(map(lab, ls))} gives {w}", t.name)
                    break
            else:
                rep.undecided.append(f"{fam.cls}.{meth}: {w} on a path which may be infeasible")
        note(rep, n, ok)
    return run


def interfaces(prog, rep, tier):
    """every exported family defines every part"""
    m = prog.mods.get("lie_nn.irreps.__init__") or prog.mods.get("lie_nn.irreps")
    exported = sorted(m.bindings) if m else []
    if not exported:
        rep.undecided.append("the exported families were not found")
    from .interp import Interp
    I = Interp(prog, [], 100000)
    n = ok = 0
    for nm in exported:
        k = I.global_value(m.name, nm)
        if not isinstance(k, ClassVal) or "TabulatedIrrep" not in names_of(k):
            continue
        rep.functions.add(nm)
        for meth in PROVIDES:
            if (nm, meth) in OPTIONAL:
                continue
            n += 1
            v, owner = k.lookup(meth)
            if v is None or owner is None or owner.name in ("Rep", "TabulatedIrrep"):
                rep.violate(f"{k.module.rel}:{k.node.lineno} in {nm}", RULE22, f"{nm} does not define {meth}", "interfaces")
            elif v is None or isinstance(v, (int, float, str, tuple, PyList, PyDict, ArrVal)):
                rep.violate(f"{k.module.rel}:{k.node.lineno} in {nm}", RULE22, f"{meth} of {nm} is no method", "interfaces")
            else:
                ok += 1
    note(rep, n, ok)


def defs(m):
    return {s.name: s for s in m.tree.body if isinstance(s, (ast.ClassDef, ast.FunctionDef))}


def functions(prog):
    for m in prog.mods.values():
        if m.name.startswith("lnsa_"):
            continue
        for node in ast.walk(m.tree):
            if isinstance(node, ast.ClassDef):
                for s in node.body:
                    if isinstance(s, ast.FunctionDef):
                        s.lnsa_cls = node
        for node in ast.walk(m.tree):
            if isinstance(node, ast.FunctionDef):
                yield m, node, (node.lnsa_cls.name + "." if hasattr(node, "lnsa_cls") else "") + node.name


def own(node, kind):
    """statements of this function, not of nested ones"""
    out, todo = [], list(node.body)
    while todo:
        s = todo.pop()
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(s, kind):
            out.append(s)
        todo += list(ast.iter_child_nodes(s))
    return out


def exc_name(e, m, local):
    if isinstance(e, ast.Call):
        e = e.func
    if isinstance(e, ast.Name):
        if e.id in local:
            return local[e.id]
        import builtins
        v = getattr(builtins, e.id, None)
        if isinstance(v, type) and issubclass(v, BaseException) and e.id not in defs(m):
            return e.id
        c = defs(m).get(e.id)
        if isinstance(c, ast.ClassDef) and any(exc_name(b, m, {}) for b in c.bases):
            return e.id
    return None


def returned(prog, rep, tier):
    """no function returns an exception class or a new exception"""
    n = ok = 0
    for m, f, qual in functions(prog):
        local = {}
        for s in own(f, ast.Assign):
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                x = s.targets[0].id
                e = exc_name(s.value, m, {})
                local[x] = e if e and local.get(x, e) else None
        local = {k: v for k, v in local.items() if v}
        for s in own(f, ast.Return):
            n += 1
            vals = [s.value]
            if isinstance(s.value, ast.IfExp):
                vals = [s.value.body, s.value.orelse]
            bad = [exc_name(v, m, local) for v in vals if v is not None and exc_name(v, m, local)]
            if bad:
                rep.violate(f"{m.rel}:{s.lineno} in {qual}", RULE22, f"{qual} returns {bad[0]} instead of raising it", "returned exceptions")
            else:
                ok += 1
    note(rep, n, ok)


def ends(body):
    """control reaches the end of the block: True, False, None (possibly)"""
    out = True
    for s in body:
        r = passes(s)
        if r is False:
            return False
        if r is None:
            out = None
    if out is None and passes(body[-1]) is True and not isinstance(body[-1], (ast.If, ast.Match, ast.For, ast.While, ast.Try, ast.With)):
        return True         # ... after a plain statement, which nobody writes to be unreachable
    return out


def passes(s):
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return False
    if isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant) and not s.test.value:
        return False
    if isinstance(s, ast.If):
        if isinstance(s.test, ast.Constant):
            b = s.body if s.test.value else s.orelse
            return ends(b) if b else True
        x, y = ends(s.body), ends(s.orelse) if s.orelse else None
        return False if x is False and y is False else True if x is True and y is True else None
    if isinstance(s, ast.While):
        if isinstance(s.test, ast.Constant) and s.test.value and not any(isinstance(x, ast.Break) for x in ast.walk(s)):
            return False
        return None
    if isinstance(s, ast.For):
        return None
    if isinstance(s, ast.With):
        return ends(s.body)
    if isinstance(s, ast.Try):
        if s.finalbody and ends(s.finalbody) is False:
            return False
        rs = [ends(s.body + s.orelse)] + [ends(h.body) for h in s.handlers]
        return False if all(r is False for r in rs) else None
    if isinstance(s, ast.Match):
        rs = [ends(c.body) for c in s.cases]
        full = any(isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None for c in s.cases)
        return False if full and all(r is False for r in rs) else None
    return True


def fallthrough(prog, rep, tier):
    """a method of a representation which returns a value on some path does so on every path"""
    n = ok = 0
    reps = rep_classes(prog)
    for m, f, qual in functions(prog):
        if not hasattr(f, "lnsa_cls") or f.lnsa_cls.name not in reps:
            continue
        if f.name.startswith("__") and f.name not in PROVIDES or f.name.startswith("check_"):
            continue
        if own(f, (ast.Yield, ast.YieldFrom)):
            continue
        rets = [s for s in own(f, ast.Return)]
        n += 1
        valued = [s for s in rets if s.value is not None and not (isinstance(s.value, ast.Constant) and s.value.value is None)]
        bare = [s for s in rets if s.value is None]
        if f.name in PROVIDES or valued:
            if ends(f.body) is True or bare:
                w = (bare[0].lineno if bare else f.lineno)
                rep.violate(f"{m.rel}:{w} in {qual}", RULE22, f"{qual} may end without returning a value (None takes the place of the result)", "missing returns")
                continue
        ok += 1
    note(rep, n, ok)


def rep_classes(prog):
    bases = {}
    for m in prog.mods.values():
        if m.name.startswith("lnsa_"):
            continue
        for node in ast.walk(m.tree):
            if isinstance(node, ast.ClassDef):
                bases[node.name] = {b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else "" for b in node.bases}
    out = {"Rep"}
    while True:
        new = {k for k, b in bases.items() if b & out} | out
        if new == out:
            return out - {"Rep"}
        out = new
