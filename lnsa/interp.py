"""Abstract interpreter for the Python subset used by lie_nn.

The analysed source is only parsed (module ast); statements are given an abstract meaning over the domains of tens.py
(value-numbered arrays), poly.py (symbolic integers) and values.py.  Undecided branches are explored one by one
(trace partitioning); loops over unknown ranges are summarised when the body has a closed form and widened otherwise.
"""
import ast
import os
import sys
from fractions import Fraction

from . import poly
from . import tens as T
from .poly import Poly, P, N, ZERO, ONE, cmp as pcmp, tsum, psum, subst, mentions, walk_atoms, akind
from .tens import Stuck, ShapeError, uid
from .values import *

sys.setrecursionlimit(20000)

EXC_BASES = {
    "AssertionError": "Exception", "ValueError": "Exception", "TypeError": "Exception", "KeyError": "LookupError",
    "IndexError": "LookupError", "LookupError": "Exception", "RuntimeError": "Exception", "NotImplementedError": "RuntimeError",
    "AttributeError": "Exception", "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception",
    "OverflowError": "ArithmeticError", "StopIteration": "Exception", "Exception": "BaseException", "NameError": "Exception",
    "UnboundLocalError": "NameError", "FrozenInstanceError": "AttributeError", "LinAlgError": "ValueError", "OSError": "Exception",
    "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "RecursionError": "RuntimeError", "BaseException": None,
    "AmbiguousDispatch": "Exception", "UnicodeDecodeError": "ValueError", "FloatingPointError": "ArithmeticError",
}


def exc_is(name, base):
    while name is not None:
        if name == base:
            return True
        name = EXC_BASES.get(name, "Exception" if name not in ("Exception", "BaseException") else EXC_BASES.get(name))
    return False


BUILTINS = """abs all any bool bytes callable chr complex dict divmod enumerate filter float format frozenset getattr hasattr hash id
int isinstance issubclass iter len list map max min next object ord pow print range repr reversed round set setattr slice sorted
staticmethod classmethod property str sum super tuple type vars zip bytearray delattr globals locals open input""".split()


class Program:
    def __init__(self, root, package="lie_nn"):
        self.root = root
        self.mods = {}
        self.errors = []
        self.globals = {}
        self.busy = set()
        self.loading = 0        # module-level code being evaluated
        self.summaries = {}     # qualified name -> summary used instead of the body
        base = os.path.join(root, package)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py") or f.endswith("_test.py") or f.startswith("test_") or f == "conftest.py":
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                self.add(name, src, rel, pkg=f == "__init__.py")

    def add(self, name, src, rel, pkg=False):
        tree = ast.parse(src, filename=rel)
        m = Module(name, tree, rel, src, pkg)
        self.mods[name] = m
        return m

    def dispatch_defs(self, fname):
        out = []
        for m in self.mods.values():
            for d in m.bindings.get(fname, []):
                if isinstance(d, ast.FunctionDef) and is_dispatch(d):
                    out.append((m, d))
        return out


class Module:
    def __init__(self, name, tree, rel, src, pkg):
        self.name, self.tree, self.rel, self.src, self.pkg = name, tree, rel, src, pkg
        self.bindings = {}
        self.stars = []
        self._collect(tree.body)

    def _collect(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.bindings.setdefault(s.name, []).append(s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            self.bindings.setdefault(n.id, []).append(s)
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self.bindings.setdefault(s.target.id, []).append(s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.bindings.setdefault((a.asname or a.name.split(".")[0]), []).append((s, a))
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if a.name == "*":
                        self.stars.append(s)
                    else:
                        self.bindings.setdefault(a.asname or a.name, []).append((s, a))
            elif isinstance(s, ast.If):
                self._collect(s.body)
                self._collect(s.orelse)
            elif isinstance(s, ast.Try):
                self._collect(s.body)
                for h in s.handlers:
                    self._collect(h.body)
            elif isinstance(s, ast.With):
                self._collect(s.body)

    def absname(self, node):
        """absolute module name of an ImportFrom"""
        if not node.level:
            return node.module or ""
        parts = self.name.split(".")
        if not self.pkg:
            parts = parts[:-1]
        if node.level > 1:
            parts = parts[:-(node.level - 1)]
        return ".".join(parts + ([node.module] if node.module else []))


def is_dispatch(d):
    for x in d.decorator_list:
        f = x.func if isinstance(x, ast.Call) else x
        if isinstance(f, ast.Name) and f.id == "dispatch":
            return True
        if isinstance(f, ast.Attribute) and f.attr == "dispatch":
            return True
    return False


class Env:
    __slots__ = ("vars", "parent", "module", "fn", "globals_", "nonlocals", "is_class", "kept")

    def __init__(self, module, parent=None, fn=None):
        self.vars, self.parent, self.module, self.fn = {}, parent, module, fn
        self.globals_ = None
        self.nonlocals = None
        self.kept = None            # the finished call outlives the operation (import time, or a function handed to the caller)
        self.is_class = False       # names of a class body are not seen by the functions defined in it


_assigned_cache = {}


def assigned_names(stmts):
    """names bound by the statements (not inside nested functions)"""
    key = id(stmts[0]) if stmts else 0
    out = set()

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.comprehension):
                    walk(c.iter)
                    for i in c.ifs:
                        walk(i)
                else:
                    walk(c)
            return
        for c in ast.iter_child_nodes(n):
            walk(c)

    for s in stmts:
        walk(s)
    return out


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "add", "discard", "update", "setdefault",
            "popitem", "fill", "put", "resize", "itemset", "partition", "setflags", "difference_update", "intersection_update"}


def mutated_roots(stmts):
    """names of variables whose object may be changed by the statements"""
    out = set()

    def root(e):
        while isinstance(e, (ast.Subscript, ast.Attribute, ast.Starred)):
            e = e.value
        return e.id if isinstance(e, ast.Name) else None

    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(root(n))
            if isinstance(n, ast.AugAssign):
                out.add(root(n.target))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr in MUTATORS:
                    out.add(root(n.func.value))
                if n.func.attr == "at" and n.args:
                    out.add(root(n.args[0]))
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg == "out":
                        out.add(root(k.value))
                        if isinstance(k.value, ast.Tuple):
                            for e in k.value.elts:
                                out.add(root(e))
    out.discard(None)
    return out


def has_escape(stmts):
    """break, return or yield belonging to this loop"""
    found = [False]

    def walk(n, inner):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return
        if isinstance(n, ast.Return):
            found[0] = True
        if isinstance(n, ast.Break) and not inner:
            found[0] = True
        for c in ast.iter_child_nodes(n):
            walk(c, inner or isinstance(n, (ast.For, ast.While)))
    for s in stmts:
        walk(s, False)
    return found[0]


_gen_cache = {}


def is_generator(fn):
    r = _gen_cache.get(id(fn))
    if r is None:
        r = False
        stack = list(fn.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _gen_cache[id(fn)] = r
    return r


class Path:
    def __init__(self, kind, value, exc, I):
        self.kind, self.value, self.exc = kind, value, exc
        self.facts = I.facts
        self.events = I.events
        self.know = I.know
        self.stats = I.stats
        self.interp = I

    def __repr__(self):
        return f"Path({self.kind}, {self.value if self.kind == 'return' else self.exc}, facts={[(c, v) for c, v, _ in self.facts]})"


def explore(prog, fn, max_paths=48, budget=60000, base_know=None):
    """all paths of fn(I)"""
    out = []
    decisions = []
    while True:
        I = Interp(prog, decisions, budget)
        if base_know is not None:
            I.know = base_know.copy()
        poly.set_know(I.know)
        try:
            v = fn(I)
            out.append(Path("return", v, None, I))
        except PyRaise as e:
            out.append(Path("raise", None, e, I))
        except ShapeError as e:
            out.append(Path("raise", None, PyRaise("ValueError", str(e), getattr(e, "where", None) or I.where()), I))
        except PathCut:
            out.append(Path("cut", None, None, I))
        except TimeUp as e:
            out.append(Path("stuck", None, e, I))
            return out
        except (Stuck, LoopFork) as e:
            out.append(Path("stuck", None, e, I))
        except (RecursionError, MemoryError) as e:
            if __import__("os").environ.get("LNSA_MEM"):
                raise
            out.append(Path("stuck", None, Stuck(type(e).__name__), I))
        finally:
            poly.set_know(poly.Know())
        decisions = I.decisions[:I.dpos]
        while decisions and decisions[-1] is False:
            decisions.pop()
        if not decisions:
            break
        decisions[-1] = False
        if len(out) >= max_paths:
            out.append(Path("stuck", None, Stuck("too many paths"), I))
            break
    return out


class Interp:
    def __init__(self, prog, decisions, budget=60000):
        self.prog = prog
        self.decisions = list(decisions)
        self.dpos = 0
        self.facts = []
        self.events = []
        self.know = poly.Know()
        self.stats = {"functions": set(), "calls": 0, "asserts": 0, "sites": set()}
        self.stack = []          # (qual, module rel)
        self.line = 0
        self.budget = budget
        self.yields = []         # sinks
        self.first_mode = 0
        self.undo = None         # undo log while summarising
        self.mutlog = None
        self.readlog = None
        self.noforks = 0
        self.spec = 0            # trial run of a loop body: 1 follows the branches taken, 2 those not taken
        self.memo_cond = {}
        self.depth = 0
        self.fn_budget = {}

    # ------------------------------------------------------------ bookkeeping
    def where(self):
        q, rel = self.stack[-1] if self.stack else ("<module>", "?")
        return (rel, self.line, q)

    def event(self, kind, **data):
        if kind == "nondet":
            data["stack"] = tuple(self.stack)
        self.events.append((kind, self.where(), data))

    def set_list(self, s):
        """the elements of a set in the order of this run (None: not known)"""
        if s.unknown is not None:
            return None
        o = getattr(self.prog, "set_order", 0)
        xs = list(s.items)
        if len(xs) > 1:
            self.prog.set_used = True
        if o == 1:
            xs.reverse()
        elif o == 2:
            xs = xs[1::2] + xs[0::2]
        return xs

    def tick(self):
        self.budget -= 1
        if self.budget < 0:
            raise Stuck("analysis budget exhausted")

    def touch(self, obj):
        """an object is about to be changed"""
        root = obj.root if isinstance(obj, (ArrVal, UArr)) else obj
        if isinstance(root, Unknown):
            return
        if root.owner is not None:
            self.event("mutate", owner=root.owner, what=type(root).__name__)
        if self.undo is not None:
            self.undo.append((root, snapshot(root)))
            if root is not obj:
                self.undo.append((obj, snapshot(obj)))
        if self.mutlog is not None:
            self.mutlog.append(root)

    def note_read(self, obj):
        if self.readlog is not None:
            self.readlog.add(id(obj))

    # ------------------------------------------------------------ truth
    def decide_poly(self, op, a, b):
        return pcmp(op, a, b)

    def truth(self, v, neg=False):
        r = self.decide(v)
        if r is None:
            r = self.fork(v)
        return r

    def decide(self, v):
        """True/False/None"""
        if v is None:
            return False
        if isinstance(v, (bool, int, float, complex, str)):
            return bool(v)
        if isinstance(v, (tuple, range, bytes)):
            return len(v) > 0
        if isinstance(v, Sym):
            c = pcmp("==", v.p, 0)
            return None if c is None else not c
        if isinstance(v, (PyList, PySet, PyDict, TupleSeg)):
            if any(not isinstance(x, Seg) for x in v.items):
                return True
            if v.unknown is not None:
                return None
            if not v.items:
                return False
            n = self.length(v)
            c = pcmp("==", P(n.p if isinstance(n, Sym) else n), 0)
            return None if c is None else not c
        if isinstance(v, RangeVal):
            if v.n is INF:
                return True
            c = pcmp("==", v.n, 0)
            return None if c is None else not c
        if isinstance(v, Cond):
            return self.decide_cond(v)
        if isinstance(v, (Unknown, UArr, ExtObj, StrV)):
            if isinstance(v, ExtObj) and v.kind in ("match",):
                return self.decide_cond(Cond("match", v.data, ()))
            return None if not isinstance(v, ExtObj) else True
        if isinstance(v, ArrVal):
            if len(v.node.shape) == 0 or all(T.is_one(s) for s in v.node.shape):
                k = v.node
                if v.pred is not None:
                    return self.decide_cond(Cond("pred1", v.pred, v.node.deps))
                if k.op == "const":
                    return not k.args[0].is_zero()
                return None
            n = T.prod(v.node.shape)
            if pcmp("==", n, 1) is False and pcmp("==", n, 0) is False:
                raise PyRaise("ValueError", "truth value of an array is ambiguous", self.where())
            return None
        if isinstance(v, Obj):
            m, _ = v.cls.lookup("__bool__")
            if m is not None:
                return self.decide(self.call(Bound(m, v), [], {}))
            m, _ = v.cls.lookup("__len__")
            if m is not None:
                return self.decide(self.call(Bound(m, v), [], {}))
            return True
        return True

    def decide_cond(self, c):
        k, a = c.kind, c.args
        if k == "not":
            r = self.decide(a[0])
            return None if r is None else not r
        if k == "cmp":
            return pcmp(a[0], a[1], a[2])
        if k == "and":
            rs = [self.decide(x) for x in a]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if k == "or":
            rs = [self.decide(x) for x in a]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if k in ("allclose", "alleq"):
            r = self.same_arrays(a[0], a[1])
            if r is not None:
                return r
        for key, val in self.memo_cond.items():
            if key == self.cond_key(c):
                return val
        return None

    def cond_key(self, c):
        def key(x):
            if isinstance(x, T.Arr):
                return ("#", x.id)
            if isinstance(x, Cond):
                return (x.kind,) + tuple(key(y) for y in x.args)
            if isinstance(x, (tuple, list)):
                return tuple(key(y) for y in x)
            if isinstance(x, (Poly, str, int, float, complex, bool, type(None))):
                return x
            if isinstance(x, StrV):
                return ("str", x.op) + tuple(key(y) for y in x.args)
            if isinstance(x, Sym):
                return N(x.p)
            return ("id", id(x))
        return key(c)

    def same_arrays(self, a, b):
        """equality of two arrays for all values of the inputs: True, False (definitely different), None"""
        if a is b:
            return True
        if T.mentions_havoc(a) or T.mentions_havoc(b):
            return None
        try:
            r, _ = T.compare(a, b, [T.Point(11), T.Point(12)])
        except Exception:
            return None
        if r is True:
            return True
        if r is False and not a.deps and not b.deps and not has_ufn(a) and not has_ufn(b):
            return False
        return None

    def fork(self, v):
        if self.noforks:
            ex = LoopFork("branch")
            ex.cond = v
            raise ex
        if self.spec:
            self.assume(v, self.spec == 1)
            return self.spec == 1
        c = v
        if isinstance(v, ExtObj) and v.kind == "match":
            c = Cond("match", v.data, ())
        if not isinstance(c, Cond):
            c = Cond("truth", (v.p if isinstance(v, Sym) else (v.node if isinstance(v, ArrVal) else v),), deps_of(v))
        if self.dpos < len(self.decisions):
            r = self.decisions[self.dpos]
        else:
            r = True
            self.decisions.append(True)
        self.dpos += 1
        self.assume(c, r)
        return r

    def assume(self, c, val):
        """add a fact to the path"""
        if not isinstance(c, Cond):
            if isinstance(c, Sym):
                c = Cond("cmp", ("!=", N(c.p), ZERO))
            elif isinstance(c, ArrVal) and c.pred is not None:
                c = Cond("pred1", c.pred, c.node.deps)
            elif isinstance(c, ExtObj) and c.kind == "match":
                c = Cond("match", c.data)
            else:
                c = Cond("truth", (c.node if isinstance(c, ArrVal) else c,), deps_of(c))
        if c.kind == "not":
            return self.assume(c.args[0], not val)
        if c.kind == "and" and val:
            for x in c.args:
                if self.decide(x) is None:
                    self.assume(x, True)
            self.facts.append((c, val, self.where()))
            return
        if c.kind == "or" and not val:
            for x in c.args:
                if self.decide(x) is None:
                    self.assume(x, False)
            self.facts.append((c, val, self.where()))
            return
        self.facts.append((c, val, self.where()))
        self.memo_cond[self.cond_key(c)] = val
        if c.kind == "truth" and isinstance(c.args[0], Poly):
            c = Cond("cmp", ("!=", c.args[0], ZERO))
        if c.kind == "cmp":
            op, a, b = c.args
            if not val:
                op = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}[op]
            self.assume_poly(op, a, b)

    def assume_poly(self, op, a, b):
        d = N(a) - N(b)
        k = self.know
        if op == ">=" and poly.nonneg(-d) or op == "<=" and poly.nonneg(d):
            op = "=="           # the only possibility left
        if op == "==":
            # solve for an atom occurring linearly
            cands = []
            for m, c in d.t.items():
                if len(m) == 1 and m[0][1] == 1 and akind(m[0][0]) in ("sym", "unk", "elem") and not c[1]:
                    at = m[0][0]
                    rest = d - Poly({m: c})
                    if not mentions(rest, at):
                        cands.append((at, rest * P(-1 / c[0])))
            if cands:
                # prefer eliminating with integer results
                cands.sort(key=lambda x: (akind(x[0]) != "elem", repr(x[0])))
                at, r = cands[-1] if not cands[-1][1].as_const() else cands[0]
                lb = k.lower.get(at, 0)
                k.sub[at] = r
                if lb:
                    k.nonneg.append(r - lb)
                else:
                    k.nonneg.append(r)
        elif op == "!=":
            k.nonzero.append(d)
        elif op == ">=":
            k.nonneg.append(d)
        elif op == ">":
            k.nonneg.append(d - 1 if poly.is_intvalued(d) else d)
            k.nonzero.append(d)
        elif op == "<=":
            k.nonneg.append(-d)
        elif op == "<":
            k.nonneg.append(-d - 1 if poly.is_intvalued(d) else -d)
            k.nonzero.append(d)

    # ------------------------------------------------------------ globals
    def global_value(self, modname, name):
        key = (modname, name)
        if key in self.prog.globals:
            return self.prog.globals[key]
        m = self.prog.mods.get(modname)
        if m is None:
            return Ext(modname + "." + name)
        b = m.bindings.get(name)
        if not b:
            if modname + "." + name in self.prog.mods:
                return ModuleVal(modname + "." + name, self.prog)
            for s in m.stars:
                src = m.absname(s)
                if src in self.prog.mods and (name in self.prog.mods[src].bindings):
                    return self.global_value(src, name)
            return None
        if key in self.prog.busy:
            raise Stuck(f"circular definition of {name}")
        self.prog.busy.add(key)
        saved = (self.undo, self.mutlog, self.readlog, self.yields, self.first_mode, self.line, list(self.stack))
        self.undo = self.mutlog = self.readlog = None
        self.yields = []
        self.first_mode = 0
        self.stack.append((f"<module {modname}>", m.rel))
        self.prog.loading += 1
        try:
            v = self._global(m, name, b[-1])
        finally:
            self.prog.loading -= 1
            self.prog.busy.discard(key)
            self.undo, self.mutlog, self.readlog, self.yields, self.first_mode, self.line, self.stack = saved
        if isinstance(v, Mut):
            own_all(v, ("global", f"{modname}.{name}"))
        self.prog.globals[key] = v
        return v

    def _global(self, m, name, b):
        env = Env(m)
        if isinstance(b, tuple):
            return self.import_value(m, b[0], b[1])
        if isinstance(b, ast.FunctionDef):
            if is_dispatch(b):
                return Dispatcher(name, None)
            return self.make_function(b, env, name)
        if isinstance(b, ast.ClassDef):
            return self.make_class(b, env)
        if isinstance(b, ast.Assign):
            v = self.eval(b.value, env)
            for t in b.targets:
                self.assign(t, v, env)
            return env.vars[name]
        if isinstance(b, ast.AnnAssign):
            return self.eval(b.value, env)
        raise Stuck(f"global {name}")

    def import_value(self, m, s, a):
        if isinstance(s, ast.Import):
            if a.asname:
                return self.module_or_ext(a.name)
            return self.module_or_ext(a.name.split(".")[0])
        src = m.absname(s)
        if src == m.name and src + "." + a.name in self.prog.mods:
            return ModuleVal(src + "." + a.name, self.prog)
        if src in self.prog.mods:
            v = self.global_value(src, a.name)
            if v is None:
                if src + "." + a.name in self.prog.mods:
                    return ModuleVal(src + "." + a.name, self.prog)
                raise PyRaise("ImportError", f"cannot import {a.name} from {src}", self.where())
            return v
        return Ext((src + "." if src else "") + a.name)

    def module_or_ext(self, name):
        if name in self.prog.mods:
            return ModuleVal(name, self.prog)
        return Ext(name)

    def dispatcher_impls(self, d):
        if d.impls is None:
            impls = []
            for m, node in self.prog.dispatch_defs(d.name):
                env = Env(m)
                deco = [x for x in node.decorator_list if is_dispatch_deco(x)][0]
                types = []
                if isinstance(deco, ast.Call):
                    for t in deco.args:
                        types.append(self.eval(t, env))
                f = FuncVal(node, m, env, d.name, f"{m.name}.{d.name}", [self.eval(x, env) for x in node.args.defaults],
                            {a.arg: self.eval(x, env) for a, x in zip(node.args.kwonlyargs, node.args.kw_defaults) if x is not None})
                f.qual = f"{d.name}({', '.join(tname(t) for t in types)})"
                impls = [(ts, g) for ts, g in impls if not same_types(ts, types)]
                impls.append((tuple(types), f))
            d.impls = impls
        return d.impls

    def resolve_dispatch(self, d, args):
        impls = self.dispatcher_impls(d)
        cands = []
        for ts, f in impls:
            if len(ts) == len(args):
                rs = [self.type_match(a, t) for a, t in zip(args, ts)]
                if any(r is None for r in rs):
                    raise Stuck(f"dispatch of {d.name} on an unknown type")
                if all(rs):
                    cands.append((ts, f))
        if not cands:
            raise PyRaise("NotImplementedError", f"{d.name} has no implementation for {[self.type_name(a) for a in args]}", self.where())
        best = [c for c in cands if all(c is o or all(self.subtype(x, y) for x, y in zip(c[0], o[0])) for o in cands)]
        if len(best) != 1:
            mins = [c for c in cands if not any(o is not c and all(self.subtype(x, y) for x, y in zip(o[0], c[0])) for o in cands)]
            self.event("ambiguous", name=d.name, impls=[c[1].qual for c in mins])
            best = mins[:1] or cands[:1]
        return best[0][1]

    def type_match(self, v, t):
        from .builtins_model import isinstance_
        if isinstance(t, Ext) and t.path == "builtins.object":
            return True
        return self.decide(isinstance_(self, v, t))

    def subtype(self, a, b):
        if isinstance(b, Ext) and b.path == "builtins.object":
            return True
        if a is b:
            return True
        if isinstance(a, (tuple,)) or isinstance(b, tuple):
            aa = a if isinstance(a, tuple) else (a,)
            bb = b if isinstance(b, tuple) else (b,)
            return all(any(self.subtype(x, y) for y in bb) for x in aa)
        if isinstance(a, ClassVal) and isinstance(b, ClassVal):
            return b in a.mro()
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.path == b.path
        return False

    def type_name(self, v):
        if isinstance(v, Obj):
            return v.cls.name
        return type(v).__name__

    # ------------------------------------------------------------ functions and classes
    def make_function(self, node, env, name=None, cls=None, prefix=""):
        a = node.args
        qual = (prefix + "." if prefix else "") + node.name
        f = FuncVal(node, env.module, env, node.name, qual, [self.eval(x, env) for x in a.defaults],
                    {k.arg: self.eval(x, env) for k, x in zip(a.kwonlyargs, a.kw_defaults) if x is not None}, cls)
        for i, d in enumerate(f.defaults):
            if isinstance(d, Mut) and d.owner is None:
                d.owner = ("default", f"{qual}: default {i - len(f.defaults)}")
        for k, d in f.kwdefaults.items():
            if isinstance(d, Mut) and d.owner is None:
                d.owner = ("default", f"{qual}: default of {k}")
        return self.decorate(f, node.decorator_list, env)

    def decorate(self, f, decos, env):
        for d in reversed(decos):
            f = self.apply_deco(f, d, env)
        return f

    def apply_deco(self, f, d, env):
        call = isinstance(d, ast.Call)
        e = d.func if call else d
        if isinstance(e, ast.Attribute) and e.attr in ("setter", "deleter", "getter"):
            return f
        dv = self.eval(e, env)
        path = dv.path if isinstance(dv, Ext) else None
        if path in ("builtins.property", "functools.cached_property"):
            if path == "functools.cached_property" and isinstance(f, FuncVal):
                f.cached = True
            return Wrap("property", f)
        if path == "builtins.classmethod":
            return Wrap("classmethod", f)
        if path == "builtins.staticmethod":
            return Wrap("staticmethod", f)
        if path in ("functools.lru_cache", "functools.cache"):
            if isinstance(f, FuncVal):
                f.cached = True
            elif isinstance(f, Wrap) and isinstance(f.fn, FuncVal):
                f.fn.cached = True
            return f
        if path in ("jax.jit", "abc.abstractmethod", "functools.wraps", "typing.no_type_check", "numba.njit", "typing.overload",
                    "functools.singledispatch"):
            return f
        if path in ("multipledispatch.dispatch",):
            return f
        if isinstance(dv, (FuncVal, ClassVal)) and not call:
            return self.call(dv, [f], {})
        if isinstance(dv, (FuncVal,)) and call:
            dec = self.call(dv, [self.eval(x, env) for x in d.args], {k.arg: self.eval(k.value, env) for k in d.keywords})
            return self.call(dec, [f], {})
        if path == "contextlib.contextmanager":
            return f
        return Unknown(why=f"decorator {ast.unparse(d)}")

    def make_class(self, node, env):
        bases = [self.eval(b, env) for b in node.bases]
        if any(isinstance(b, Unknown) for b in bases):
            raise Stuck(f"class {node.name}: unknown base")
        c = ClassVal(node.name, bases, {}, [], env.module, node)
        cenv = Env(env.module, env)
        cenv.is_class = True
        dataclassed = None
        for d in node.decorator_list:
            e = d.func if isinstance(d, ast.Call) else d
            v = self.eval(e, env)
            if isinstance(v, Ext) and v.path == "dataclasses.dataclass":
                dataclassed = d
                c.dataclass = True
                c.dc_eq = True
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        val = k.value.value if isinstance(k.value, ast.Constant) else None
                        if k.arg == "frozen":
                            c.frozen = bool(val)
                        if k.arg == "eq":
                            c.dc_eq = bool(val)
                        if k.arg == "init":
                            c.dc_init = bool(val)
                        if k.arg == "order" and val:
                            c.meta["order"] = True
            elif isinstance(v, Ext) and v.path == "functools.total_ordering":
                c.meta["total_ordering"] = True
            elif isinstance(v, FuncVal):
                c.meta.setdefault("decorators", []).append(v)
        if any(isinstance(b, Ext) and b.path in ("typing.NamedTuple", "collections.namedtuple") for b in bases):
            c.namedtuple = True
        if any(b.frozen for b in c.mro()[1:]):
            c.frozen = c.frozen or (not c.dataclass)
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                f = self.make_function(s, cenv, cls=c, prefix=node.name)
                prev = cenv.vars.get(s.name)
                if any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in s.decorator_list) and isinstance(prev, Wrap):
                    prev.setter = f
                    continue
                set_owner_class(f, c)
                cenv.vars[s.name] = f
                c.ns[s.name] = f
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                ann = ast.unparse(s.annotation)
                if "ClassVar" not in ann:
                    c.annots.append((s.target.id, s.value))
                if s.value is not None:
                    v = self.eval(s.value, cenv)
                    if isinstance(v, Mut):
                        v.owner = ("class", f"{node.name}.{s.target.id}")
                    cenv.vars[s.target.id] = v
                    c.ns[s.target.id] = v
            elif isinstance(s, ast.Assign):
                v = self.eval(s.value, cenv)
                if isinstance(v, Mut) and v.owner is None:
                    v.owner = ("class", f"{node.name}.{ast.unparse(s.targets[0])}")
                for t in s.targets:
                    self.assign(t, v, cenv)
                    if isinstance(t, ast.Name):
                        c.ns[t.id] = v
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                pass
            elif isinstance(s, ast.Pass):
                pass
            else:
                self.exec(s, cenv)
                c.ns.update(cenv.vars)
        if c.dataclass and "__eq__" in c.ns:
            c.dc_eq = False
        return c

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs, node=None):
        self.tick()
        self.stats["calls"] += 1
        if isinstance(f, Bound):
            g = f.fn
            if isinstance(g, Wrap):
                return self.call_wrap(g, f.self, args, kwargs)
            return self.call(g, [f.self] + list(args), kwargs, node)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Dispatcher):
            if any(isinstance(a, Unknown) for a in args):
                return Unknown(deps_of(list(args)), f"{f.name} on an unknown value")
            impl = self.resolve_dispatch(f, args)
            return self.call_func(impl, args, kwargs)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, (Ext, Meth)):
            from .builtins_model import call_ext
            return call_ext(self, f, args, kwargs)
        if isinstance(f, Unknown):
            return Unknown(f.deps | deps_of(list(args)) | deps_of(list(kwargs.values())), "call of unknown")
        if isinstance(f, Obj):
            m, _ = f.cls.lookup("__call__")
            if m is not None:
                return self.call(Bound(m, f), args, kwargs)
            raise PyRaise("TypeError", f"{f.cls.name} object is not callable", self.where())
        if isinstance(f, ExtObj) and f.kind == "partial":
            g, a0, k0 = f.data
            return self.call(g, list(a0) + list(args), {**k0, **kwargs})
        if isinstance(f, ExtObj):
            from .builtins_model import call_extobj
            return call_extobj(self, f, args, kwargs)
        if isinstance(f, Wrap):
            return self.call(f.fn, args, kwargs)
        if isinstance(f, DT):
            from .builtins_model import call_ext
            return call_ext(self, Ext("numpy.complex128" if f.cplx else "numpy.float64"), args, kwargs)
        if f is None or isinstance(f, (bool, int, float, complex, str, tuple, PyList, PyDict, PySet, ArrVal, Sym)):
            raise PyRaise("TypeError", f"{type(f).__name__} object is not callable", self.where())
        return Unknown(deps_of(list(args)), "call")

    def call_wrap(self, w, self_, args, kwargs):
        if w.kind == "classmethod":
            c = self_.cls if isinstance(self_, Obj) else self_
            return self.call(w.fn, [c] + list(args), kwargs)
        if w.kind == "staticmethod":
            return self.call(w.fn, args, kwargs)
        return self.call(w.fn, [self_] + list(args), kwargs)

    def bind_args(self, f, args, kwargs, env):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = env.vars
        args = list(args)
        if any(isinstance(x, Seg) for x in args):
            raise Stuck("unpacked arguments of unknown number")
        if len(args) > len(names) and not a.vararg:
            raise PyRaise("TypeError", f"{f.qual}() takes {len(names)} arguments but {len(args)} were given", self.where())
        for n, v in zip(names, args):
            out[n] = v
        if a.vararg:
            out[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        kwnames = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in names or k in kwnames:
                if k in out:
                    raise PyRaise("TypeError", f"{f.qual}() got multiple values for {k}", self.where())
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise PyRaise("TypeError", f"{f.qual}() got an unexpected keyword argument {k}", self.where())
        if a.kwarg:
            out[a.kwarg.arg] = PyDict([[k, v] for k, v in extra.items()])
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in out:
                j = i - (len(names) - nd)
                if j >= 0:
                    out[n] = f.defaults[j]
                else:
                    raise PyRaise("TypeError", f"{f.qual}() missing argument {n}", self.where())
        for n in kwnames:
            if n not in out:
                if n in f.kwdefaults:
                    out[n] = f.kwdefaults[n]
                else:
                    raise PyRaise("TypeError", f"{f.qual}() missing keyword argument {n}", self.where())

    def call_func(self, f, args, kwargs):
        if self.prog.summaries:
            h = self.prog.summaries.get(f"{f.module.name}.{f.qual}")
            if h is not None:
                r = h(self, f, args, kwargs)
                if r is not NotImplemented:
                    self.stats["functions"].add(f"{f.module.rel}:{f.qual}")
                    return r
        node = f.node
        env = Env(f.module, f.env, f)
        if self.depth > 45:
            return Unknown(deps_of(list(args)), f"recursion in {f.qual}")
        self.bind_args(f, args, kwargs, env)
        self.stats["functions"].add(f"{f.module.rel}:{f.qual}")
        if isinstance(node, ast.Lambda):
            self.stack.append((f.qual, f.module.rel))
            line = self.line
            self.depth += 1
            try:
                return self.eval(node.body, env)
            finally:
                self.depth -= 1
                self.stack.pop()
                self.line = line
        if is_generator(node):
            def run(env=env, first=False):
                sink = PyList()
                self.yields.append(sink)
                self.stack.append((f.qual, f.module.rel))
                line = self.line
                self.depth += 1
                fm, self.first_mode = self.first_mode, (1 if first else 0)
                try:
                    self.exec_block(node.body, env)
                except Return:
                    pass
                finally:
                    self.first_mode = fm
                    self.depth -= 1
                    self.stack.pop()
                    self.line = line
                    self.yields.pop()
                if sink.unknown is not None:
                    return [("?", sink.unknown)]
                return sink.items

            def first():
                try:
                    env2 = Env(f.module, f.env, f)
                    self.bind_args(f, args, kwargs, env2)
                    run(env2, True)
                except FirstYield as e:
                    return e.value
                raise PyRaise("StopIteration", "", self.where())
            return GenVal(run, first)
        outer = self.prog.loading or not self.stack or self.stack[-1][1] == "<operators>"
        self.stack.append((f.qual, f.module.rel))
        line = self.line
        fm, self.first_mode = self.first_mode, 0
        self.depth += 1
        try:
            self.exec_block(node.body, env)
            r = None
        except Return as e:
            r = e.value
        except (Stuck, ShapeError) as e:
            if not hasattr(e, "where"):
                e.where = self.where()
            raise
        finally:
            self.depth -= 1
            self.first_mode = fm
            self.stack.pop()
            self.line = line
        if f.cached:
            own_all(r, ("cache", f.qual))
        if outer and isinstance(r, FuncVal) and r.env is env:
            env.kept = f.qual
            for v in env.vars.values():
                own_all(v, ("closure", f.qual))
        return r

    def instantiate(self, c, args, kwargs):
        self.tick()
        if c.namedtuple or any(b.namedtuple for b in c.mro()):
            o = Obj(c)
            cc = next(b for b in c.mro() if b.namedtuple)
            names = [n for n, _ in cc.annots]
            self.fill_fields(o, cc, names, args, kwargs, cc.annots)
            return o
        init, owner = c.lookup("__init__")
        o = Obj(c)
        # generated __init__ of the most derived dataclass wins over inherited ones
        for k in c.mro():
            if "__init__" in k.ns and not (k.dataclass and k.dc_init and False):
                if not (k.dataclass and k.dc_init) or "__init__" in k.ns:
                    self.stack.append((f"{c.name}.__init__", k.module.rel))
                    self.stack.pop()
                    self.call(Bound(k.ns["__init__"], o), args, kwargs)
                    return o
            if k.dataclass and k.dc_init:
                fields = self.dataclass_fields(c if k is c else k)
                self.fill_fields(o, k, [n for n, _ in fields], args, kwargs, fields)
                post, _ = c.lookup("__post_init__")
                if post is not None:
                    self.call(Bound(post, o), [], {})
                return o
        exc = [b for b in c.mro() for b in b.bases if isinstance(b, Ext)]
        if any(b.path.startswith("builtins.") and exc_is(b.path[9:], "BaseException") for b in exc):
            o.attrs["args"] = tuple(args)
            return o
        if args or kwargs:
            raise PyRaise("TypeError", f"{c.name}() takes no arguments", self.where())
        return o

    def dataclass_fields(self, c):
        out = []
        for k in reversed(c.mro()):
            if k.dataclass:
                for n, d in k.annots:
                    out = [x for x in out if x[0] != n] if any(x[0] == n for x in out) and False else out
                    if any(x[0] == n for x in out):
                        out = [(m, d if m == n else e) for m, e in out]
                    else:
                        out.append((n, d))
        return out

    def fill_fields(self, o, c, names, args, kwargs, fields):
        if len(args) > len(names):
            raise PyRaise("TypeError", f"{c.name}() takes {len(names)} arguments but {len(args)} were given", self.where())
        for n, v in zip(names, args):
            o.attrs[n] = v
        for k, v in kwargs.items():
            if k not in names:
                raise PyRaise("TypeError", f"{c.name}() got an unexpected keyword argument {k}", self.where())
            if k in o.attrs:
                raise PyRaise("TypeError", f"{c.name}() got multiple values for {k}", self.where())
            o.attrs[k] = v
        for n, d in fields:
            if n not in o.attrs:
                dv, _ = c.lookup(n)
                if d is None:
                    raise PyRaise("TypeError", f"{c.name}() missing argument {n}", self.where())
                if isinstance(dv, ExtObj) and dv.kind == "field":
                    fac = dv.data.get("default_factory")
                    o.attrs[n] = self.call(fac, [], {}) if fac is not None else dv.data.get("default")
                else:
                    o.attrs[n] = dv

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name):
        if isinstance(v, ModuleVal):
            r = self.global_value(v.name, name)
            if r is None:
                if name == "__name__":
                    return v.name
                raise PyRaise("AttributeError", f"module {v.name} has no attribute {name}", self.where())
            return r
        if isinstance(v, Ext):
            return self.ext_attr(v, name)
        if isinstance(v, Obj):
            return self.obj_attr(v, name)
        if isinstance(v, ClassVal):
            m, owner = v.lookup(name)
            if m is None:
                if name == "__name__":
                    return v.name
                if name == "__mro__":
                    return tuple(v.mro())
                if name == "__dataclass_fields__" and v.dataclass:
                    return PyDict([[n, None] for n, _ in self.dataclass_fields(v)])
                if any(isinstance(b, Ext) for c in v.mro() for b in c.bases):
                    return Unknown(why=f"{v.name}.{name}")
                raise PyRaise("AttributeError", f"class {v.name} has no attribute {name}", self.where())
            if isinstance(m, Wrap):
                if m.kind == "classmethod":
                    return Bound(m, v)
                if m.kind == "staticmethod":
                    return m.fn
                return m
            return m
        if isinstance(v, SuperVal):
            obj = v.obj
            mro = (obj.cls if isinstance(obj, Obj) else obj).mro()
            i = mro.index(v.cls) if v.cls in mro else -1
            for k in mro[i + 1:]:
                if name in k.ns:
                    m = k.ns[name]
                    if isinstance(m, Wrap):
                        if m.kind == "property":
                            return self.call(m.fn, [obj], {})
                        return Bound(m, obj if isinstance(obj, Obj) else obj)
                    return Bound(m, obj)
            if name in ("__init__", "__init_subclass__", "__post_init__", "__setattr__"):
                if name == "__post_init__":
                    raise PyRaise("AttributeError", "super object has no attribute __post_init__", self.where())
                return Ext("object.__init__") if name != "__setattr__" else Meth(obj, "__setattr__")
            if name == "__repr__":
                return Meth(obj, "__repr__")
            raise PyRaise("AttributeError", f"super object has no attribute {name}", self.where())
        if isinstance(v, Unknown):
            return Unknown(v.deps, f"{v.why}.{name}")
        from .builtins_model import value_attr
        return value_attr(self, v, name)

    def obj_attr(self, o, name):
        m, owner = o.cls.lookup(name)
        if isinstance(m, Wrap) and m.kind == "property":
            return self.call(m.fn, [o], {})
        if name in o.attrs:
            return o.attrs[name]
        if m is not None:
            if isinstance(m, Wrap):
                return Bound(m, o)
            if isinstance(m, (FuncVal, Dispatcher)):
                return Bound(m, o)
            if isinstance(m, ExtObj) and m.kind == "field":
                raise PyRaise("AttributeError", name, self.where())
            return m
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            return PyDict([[k, v] for k, v in o.attrs.items()])
        if name in ("__repr__", "__str__", "__hash__", "__eq__", "__setattr__", "__lt__", "__le__", "__gt__", "__ge__", "__ne__"):
            return Meth(o, name)
        if o.cls.namedtuple and name in ("_replace", "_asdict"):
            return Meth(o, name)
        ga, _ = o.cls.lookup("__getattr__")
        if ga is not None:
            return self.call(Bound(ga, o), [name], {})
        raise PyRaise("AttributeError", f"{o.cls.name} object has no attribute {name}", self.where())

    def ext_attr(self, v, name):
        if v.path == "numpy":
            if name == "inf":
                return float("inf")
            if name == "pi":
                return Sym(Poly.atom(("unk", "pi")), "float")
            if name == "newaxis":
                return None
            if name == "nan":
                return float("nan")
        if v.path == "math" and name == "inf":
            return float("inf")
        return Ext(v.path + "." + name)

    def setattr(self, o, name, val):
        if isinstance(o, Obj):
            m, _ = o.cls.lookup(name)
            if isinstance(m, Wrap) and m.kind == "property":
                if m.setter is not None:
                    return self.call(m.setter, [o, val], {})
                raise PyRaise("AttributeError", f"can't set attribute {name}", self.where())
            if o.cls.frozen and any(k.frozen and k.dataclass for k in o.cls.mro()):
                raise PyRaise("FrozenInstanceError", f"cannot assign to field {name}", self.where())
            if name in o.attrs or True:
                if o.owner is not None:
                    self.touch(o)
                elif self.undo is not None:
                    self.undo.append((o, snapshot(o)))
                    self.mutlog.append(o)
            o.attrs[name] = val
            return
        if isinstance(o, ClassVal):
            self.event("mutate", owner=("class", o.name), what=f"attribute {name}")
            o.ns[name] = val
            return
        if isinstance(o, ModuleVal):
            self.event("mutate", owner=("global", o.name), what=f"attribute {name}")
            return
        if isinstance(o, ArrVal) and name == "shape":
            self.touch(o)
            o.node = T.reshape(o.node, [self.to_poly(x) for x in self.seq(val)])
            return
        if isinstance(o, (ArrVal, UArr)):
            self.touch(o)
            return
        if isinstance(o, Ext):
            self.event("setext", path=o.path + "." + name)
            return
        if isinstance(o, FuncVal):
            self.event("mutate", owner=("global", o.qual), what=f"attribute {name}")
            return
        if isinstance(o, Unknown):
            return
        raise PyRaise("AttributeError", f"cannot set {name}", self.where())

    # ------------------------------------------------------------ names
    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars and not (e.is_class and e is not env):
                return e.vars[name]
            e = e.parent
        v = self.global_value(env.module.name, name)
        if v is not None:
            return v
        if name in BUILTINS or name in EXC_BASES:
            return Ext("builtins." + name)
        if name == "__name__":
            return env.module.name
        if name == "NotImplemented":
            return Ext("builtins.NotImplemented")
        if name == "Ellipsis":
            return Ellipsis
        fn = env.fn
        if fn is not None and not isinstance(fn.node, ast.Lambda) and name in assigned_names(fn.node.body):
            raise PyRaise("UnboundLocalError", name, self.where())
        raise PyRaise("NameError", name, self.where())

    def bind(self, name, val, env):
        e = env
        if e.globals_ and name in e.globals_:
            self.event("mutate", owner=("global", f"{env.module.name}.{name}"), what="rebinding")
            self.prog.globals[(env.module.name, name)] = val
            return
        if e.nonlocals and name in e.nonlocals:
            p = e.parent
            while p is not None:
                if name in p.vars:
                    if p.kept:
                        self.event("mutate", owner=("closure", p.kept), what=f"rebinding of {name}")
                    self.save_var(p, name)
                    p.vars[name] = val
                    return
                p = p.parent
        self.save_var(e, name)
        e.vars[name] = val

    def save_var(self, env, name):
        if self.undo is not None:
            self.undo.append((env, (name, env.vars.get(name, self))))

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for s in body:
            self.exec(s, env)

    def exec(self, s, env):
        self.tick()
        self.line = s.lineno
        t = type(s)
        if t is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return
            self.eval(s.value, env)
        elif t is ast.Assign:
            v = self.eval(s.value, env)
            for tg in s.targets:
                self.assign(tg, v, env)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.eval(s.value, env), env)
        elif t is ast.AugAssign:
            self.augassign(s, env)
        elif t is ast.Return:
            raise Return(None if s.value is None else self.eval(s.value, env))
        elif t is ast.If:
            if self.truth(self.eval(s.test, env)):
                self.exec_block(s.body, env)
            else:
                self.exec_block(s.orelse, env)
        elif t is ast.For:
            self.exec_for(s, env)
        elif t is ast.While:
            self.exec_while(s, env)
        elif t is ast.Assert:
            self.exec_assert(s, env)
        elif t is ast.Raise:
            self.exec_raise(s, env)
        elif t is ast.FunctionDef:
            self.bind(s.name, self.make_function(s, env, prefix=self.stack[-1][0] if self.stack else ""), env)
        elif t is ast.ClassDef:
            self.bind(s.name, self.make_class(s, env), env)
        elif t is ast.Import:
            for a in s.names:
                if a.asname:
                    self.bind(a.asname, self.module_or_ext(a.name), env)
                else:
                    self.bind(a.name.split(".")[0], self.module_or_ext(a.name.split(".")[0]), env)
        elif t is ast.ImportFrom:
            for a in s.names:
                self.bind(a.asname or a.name, self.import_value(env.module, s, a), env)
        elif t is ast.Pass:
            pass
        elif t is ast.Break:
            raise Break()
        elif t is ast.Continue:
            raise Continue()
        elif t is ast.With:
            self.exec_with(s, env)
        elif t is ast.Try:
            self.exec_try(s, env)
        elif t is ast.Delete:
            for tg in s.targets:
                self.delete(tg, env)
        elif t is ast.Global:
            env.globals_ = (env.globals_ or set()) | set(s.names)
        elif t is ast.Nonlocal:
            env.nonlocals = (env.nonlocals or set()) | set(s.names)
        elif t.__name__ == "Match":
            self.exec_match(s, env)
        else:
            raise Stuck(f"statement {t.__name__}")

    def exec_match(self, s, env):
        v = self.eval(s.subject, env)
        for c in s.cases:
            p = c.pattern
            if isinstance(p, ast.MatchValue):
                ok = self.truth(self.equal(v, self.eval(p.value, env)))
            elif isinstance(p, ast.MatchSingleton):
                ok = v is p.value
            elif isinstance(p, ast.MatchAs) and p.pattern is None:
                if p.name:
                    self.bind(p.name, v, env)
                ok = True
            else:
                raise Stuck("match pattern")
            if ok and (c.guard is None or self.truth(self.eval(c.guard, env))):
                self.exec_block(c.body, env)
                return

    def exec_assert(self, s, env):
        self.stats["asserts"] += 1
        t = s.test
        v = self.eval(t, env)
        d = self.decide(v)
        if d is True:
            self.events.append(("assert_true", self.where(), {"cond": v}))
            return
        if d is False:
            raise PyRaise("AssertionError", ast.unparse(t)[:200], self.where())
        if isinstance(v, Unknown):
            v = Cond("truth", (v,), v.deps)
        self.assume(v, True)

    def exec_raise(self, s, env):
        if s.exc is None:
            raise PyRaise("RuntimeError", "re-raise", self.where())
        v = self.eval(s.exc, env)
        if isinstance(v, Ext) and v.path.startswith("builtins."):
            raise PyRaise(v.path[9:], "", self.where())
        if isinstance(v, ExtObj) and v.kind == "exc":
            raise PyRaise(v.data[0], str(v.data[1])[:200], self.where())
        if isinstance(v, Obj):
            raise PyRaise(v.cls.name, "", self.where(), v)
        if isinstance(v, ClassVal):
            raise PyRaise(v.name, "", self.where())
        raise PyRaise("Exception", "", self.where())

    def exec_with(self, s, env):
        for it in s.items:
            v = self.eval(it.context_expr, env)
            r = v
            if isinstance(v, Obj):
                m, _ = v.cls.lookup("__enter__")
                r = self.call(Bound(m, v), [], {}) if m is not None else Unknown()
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, env)
        self.exec_block(s.body, env)
        for it in s.items:
            pass

    def exec_try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except ShapeError as e:
                raise PyRaise("ValueError", str(e), getattr(e, "where", None) or self.where())
        except PyRaise as e:
            for h in s.handlers:
                if self.handler_matches(h, e, env):
                    if h.name:
                        self.bind(h.name, ExtObj("exc", (e.name, e.msg)), env)
                    try:
                        self.exec_block(h.body, env)
                    except PyRaise as e2:
                        if e2.msg == "re-raise":
                            self.exec_block(s.finalbody, env)
                            raise e
                        self.exec_block(s.finalbody, env)
                        raise
                    break
            else:
                self.exec_block(s.finalbody, env)
                raise
        except (Return, Break, Continue):
            self.exec_block(s.finalbody, env)
            raise
        else:
            self.exec_block(s.orelse, env)
        self.exec_block(s.finalbody, env)

    def handler_matches(self, h, e, env):
        if h.type is None:
            return True
        v = self.eval(h.type, env)
        for t in (v if isinstance(v, tuple) else (v,)):
            if isinstance(t, Ext):
                n = t.path.split(".")[-1]
                if exc_is(e.name, n):
                    return True
            elif isinstance(t, ClassVal) and isinstance(e.value, Obj) and t in e.value.cls.mro():
                return True
        return False

    def delete(self, tg, env):
        if isinstance(tg, ast.Name):
            self.save_var(env, tg.id)
            env.vars.pop(tg.id, None)
        elif isinstance(tg, ast.Subscript):
            o = self.eval(tg.value, env)
            k = self.eval_index(tg.slice, env)
            if isinstance(o, PyList):
                self.touch(o)
                sl = self.py_slice(k) if isinstance(k, SliceVal) else None
                if sl is not None and (sl == slice(None) or not any(isinstance(x, Seg) for x in o.items)) and o.unknown is None:
                    self.note_read(o)
                    del o.items[sl]
                    return
                i = self.concrete_index(o, k) if not isinstance(k, SliceVal) else None
                if i is None:
                    o.unknown = deps_of(o)
                    o.items = []
                else:
                    self.note_read(o)
                    del o.items[i]
            elif isinstance(o, PyDict):
                self.touch(o)
                o.items = [kv for kv in o.items if self.decide(self.equal(kv[0], k)) is not True]
            elif isinstance(o, Unknown):
                pass
            else:
                raise Stuck("del")
        elif isinstance(tg, ast.Attribute):
            o = self.eval(tg.value, env)
            if isinstance(o, Obj):
                self.touch(o) if o.owner is not None else None
                o.attrs.pop(tg.attr, None)
        elif isinstance(tg, ast.Tuple):
            for x in tg.elts:
                self.delete(x, env)

    # ------------------------------------------------------------ assignment
    def assign(self, tg, v, env):
        if isinstance(tg, ast.Name):
            self.bind(tg.id, v, env)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            self.unpack(tg.elts, v, env)
        elif isinstance(tg, ast.Subscript):
            self.setitem(self.eval(tg.value, env), self.eval_index(tg.slice, env), v)
        elif isinstance(tg, ast.Attribute):
            self.setattr(self.eval(tg.value, env), tg.attr, v)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, env)
        else:
            raise Stuck("assignment target")

    def unpack(self, elts, v, env):
        if isinstance(v, (Unknown, UArr)):
            for e in elts:
                self.assign(e, Unknown(v.deps, "unpacked"), env)
            return
        items = self.iterate(v)
        if any(isinstance(x, Seg) for x in items) or items is None:
            d = deps_of(v)
            # a family of known concrete length
            items = self.expand_segs(items, len(elts)) if items is not None else None
            if items is None:
                for e in elts:
                    self.assign(e, Unknown(d, "unpacked"), env)
                return
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if len(items) < len(elts) - 1:
                raise PyRaise("ValueError", "not enough values to unpack", self.where())
            for e, x in zip(elts[:i], items):
                self.assign(e, x, env)
            self.assign(elts[i].value, PyList(items[i:len(items) - after]), env)
            for e, x in zip(elts[i + 1:], items[len(items) - after:]):
                self.assign(e, x, env)
            return
        if len(items) != len(elts):
            raise PyRaise("ValueError", f"cannot unpack {len(items)} values into {len(elts)}", self.where())
        for e, x in zip(elts, items):
            self.assign(e, x, env)

    def expand_segs(self, items, n):
        """a single family that must have exactly n entries"""
        if len(items) == 1 and isinstance(items[0], Seg) and len(items[0].items) == 1 and isinstance(items[0].items[0], StrV) and items[0].n is not INF:
            seg = items[0]
            self.assume(Cond("cmp", ("==", P(seg.n), P(n))), True)
            return [self.subst_ix(seg.items[0], seg.ix, k) for k in range(n)]
        if len(items) == 1 and isinstance(items[0], Seg) and len(items[0].items) == 1 and isinstance(items[0].items[0], ArrVal):
            seg = items[0]
            node = seg.items[0].node
            if node.op == "index":
                base, key = node.args
                if key and key[0][0] == "int" and key[0][1] == Poly.atom(seg.ix):
                    c = pcmp("==", seg.n, n)
                    if c is False:
                        raise PyRaise("ValueError", f"cannot unpack {seg.n} values into {n}", self.where())
                    self.assume_poly("==", seg.n, P(n))
                    return [ArrVal(T.getitem(base, [T.Reg("int", k)] + [reg_from_key(x) for x in key[1:]])) for k in range(n)]
        return None

    def augassign(self, s, env):
        op = type(s.op).__name__
        tg = s.target
        if isinstance(tg, ast.Name):
            old = self.lookup(tg.id, env)
            v = self.eval(s.value, env)
            r = self.inplace(op, old, v)
            self.bind(tg.id, r, env)
        elif isinstance(tg, ast.Subscript):
            o = self.eval(tg.value, env)
            k = self.eval_index(tg.slice, env)
            old = self.getitem(o, k)
            v = self.eval(s.value, env)
            if isinstance(old, ArrVal) and isinstance(o, ArrVal):
                r = self.binop(op, old, v)
            else:
                r = self.inplace(op, old, v)
            self.setitem(o, k, r)
        elif isinstance(tg, ast.Attribute):
            o = self.eval(tg.value, env)
            old = self.getattr(o, tg.attr)
            v = self.eval(s.value, env)
            r = self.inplace(op, old, v)
            self.setattr(o, tg.attr, r)

    def inplace(self, op, old, v):
        if isinstance(old, PyList) and op == "Add":
            self.touch(old)
            items = self.iterate(v)
            if items is None:
                old.unknown = (old.unknown or frozenset()) | deps_of(v)
            else:
                old.items = old.items + list(items)
            return old
        if isinstance(old, PyList) and op == "Mult" and isinstance(v, int):
            self.touch(old)
            old.items = old.items * v
            return old
        if isinstance(old, PySet) and not old.frozen and op in ("BitOr", "BitAnd", "Sub", "BitXor"):
            r = self.binop(op, old, v)
            self.touch(old)
            if isinstance(r, PySet):
                old.items, old.unknown = r.items, r.unknown
            else:
                old.items, old.unknown = [], deps_of(r)
            return old
        if isinstance(old, ArrVal) and len(old.node.shape) > 0 or isinstance(old, UArr):
            r = self.binop(op, old, v)
            self.store_whole(old, r)
            return old
        return self.binop(op, old, v)

    def store_whole(self, cell, r):
        """cell[...] = r, in place"""
        self.touch(cell)
        if isinstance(cell, UArr):
            cell.deps |= deps_of(r)
            return
        if isinstance(r, ArrVal):
            if not covers(cell.node.cplx, r.node.cplx):
                self.event("drop_imag", node=r.node, how="stored into a real array")
            if len(r.node.shape) > len(cell.node.shape):
                raise PyRaise("ValueError", "non-broadcastable output operand", self.where())
            new = r.node
            if tuple(new.shape) != tuple(cell.node.shape):
                new = T.broadcast_to(new, cell.node.shape)
            if not covers(cell.node.cplx, new.cplx):
                new = T.real(new)
            self.update_cell(cell, new)
        else:
            self.update_cell(cell, T.havoc(cell.node.shape, [cell.node] + [DepBox(deps_of(r))], cell.node.cplx))

    def update_cell(self, cell, new):
        """the content of the cell becomes new; views and bases follow"""
        cell.node = new
        b = cell
        while b.base is not None:
            parent = b.base
            if isinstance(parent, UArr):
                parent.deps |= new.deps
                return
            if b.regs is not None:
                parent.node = T.store(parent.node, b.regs, b.node)
            else:
                inv = view_inverse(b, parent)
                parent.node = inv if inv is not None else T.havoc(parent.node.shape, [parent.node, b.node], parent.node.cplx)
            b = parent

    # ------------------------------------------------------------ loops
    def exec_for(self, s, env):
        it = self.eval(s.iter, env)
        infinite = isinstance(it, RangeVal) and it.n is INF
        if isinstance(it, PySet):
            self.event("set_iter", set=it, node=s)
        if isinstance(it, (Unknown, UArr, PySet)) or (isinstance(it, (PyList, TupleSeg, PyDict)) and it.unknown is not None):
            if isinstance(it, PySet) and it.unknown is None:
                items = self.set_list(it)
            else:
                return self.widen_for(s, env, Unknown(deps_of(it), "element"))
        else:
            items = self.iterate(it)
        if items is None:
            return self.widen_for(s, env, Unknown(deps_of(it), "element"))
        broke = False
        if len(items) > 70:
            return self.widen_for(s, env, Unknown(deps_of(it), "element"))
        # the list may be extended while it is iterated over
        for x in items:
            try:
                if isinstance(x, Seg):
                    self.seg_loop(s, env, x)
                else:
                    self.assign(s.target, x, env)
                    self.exec_block(s.body, env)
            except Continue:
                continue
            except Break:
                broke = True
                break
        if not broke and s.orelse:
            self.exec_block(s.orelse, env)

    def seg_loop(self, s, env, seg):
        """for-loop over a family"""
        if self.first_mode:
            # only the first item counts
            if seg.n is INF or pcmp(">", seg.n, 0) is True:
                items = [self.subst_ix(x, seg.ix, 0) for x in seg.items]
                for x in items:
                    self.assign(s.target, x, env)
                    self.exec_block(s.body, env)
                return
        n = None if seg.n is INF else N(seg.n).as_int()
        if n is not None and n <= 12:
            for k in range(n):
                for x in seg.items:
                    x = self.subst_ix(x, seg.ix, k)
                    try:
                        if isinstance(x, Seg):
                            self.seg_loop(s, env, x)
                        else:
                            self.assign(s.target, x, env)
                            self.exec_block(s.body, env)
                    except Continue:
                        continue
            return

        def body():
            for x in seg.items:
                if isinstance(x, Seg):
                    self.seg_loop(s, env, x)
                else:
                    self.assign(s.target, x, env)
                    try:
                        self.exec_block(s.body, env)
                    except Continue:
                        pass
        if self.summarise(seg, body, env, s.body):
            return
        self.widen_for(s, env, None, seg)

    def summarise(self, seg, body, env, stmts):
        """closed form of the loop for ix = 0..n-1: body(); False when there is none.  A branch on a condition which does not change
        during the loop is taken before it."""
        for _ in range(4):
            self.branch = None
            r = self.summarise1(seg, body, env, stmts)
            c = self.branch
            self.branch = None
            if r or c is None or self.spec or not invariant(c):
                return r
            if self.decide(c) is None:
                self.fork(c)
            else:
                return r
        return False

    def summarise1(self, seg, body, env, stmts):
        names = [n for n in assigned_names(stmts) if n in env.vars]
        saved = (self.undo, self.mutlog, self.readlog, len(self.facts), len(self.events), dict(self.memo_cond), self.know,
                 self.noforks)
        start = stamp()

        def attempt(setup):
            self.undo, self.mutlog, self.readlog = [], [], set()
            self.noforks += 1
            self.know = self.know.copy()
            if seg.n is not INF:
                self.know.nonneg.append(P(seg.n) - 1 - Poly.atom(seg.ix))
            poly.set_know(self.know)
            setup()
            try:
                body()
                return True
            except (LoopFork, Break, Return, Stuck, FirstYield) as ex:
                self.branch = getattr(ex, "cond", None)
                return False

        def restore(rollback):
            if rollback:
                for o, snap in reversed(self.undo):
                    revert(o, snap, self)
            outer = saved[0]
            if outer is not None and not rollback:
                outer.extend(self.undo)
            log, reads = self.mutlog, self.readlog
            self.undo, self.mutlog, self.readlog = saved[0], saved[1], saved[2]
            if not rollback:
                if self.mutlog is not None:
                    self.mutlog.extend(log)
                if self.readlog is not None:
                    self.readlog |= reads
            self.know = saved[6]
            poly.set_know(self.know)
            self.noforks = saved[7]
            if rollback:
                del self.facts[saved[3]:]
                del self.events[saved[4]:]
                self.memo_cond = dict(saved[5])
            return log, reads

        init = {n: env.vars[n] for n in names}
        phis = {}

        def setup1():
            for n in names:
                v = init[n]
                if isinstance(v, (int, float, complex, Sym)) and not isinstance(v, bool):
                    ty = v.ty if isinstance(v, Sym) else ("int" if isinstance(v, int) else "float" if isinstance(v, float) else "complex")
                    phis[n] = ("phi", uid())
                    self.save_var(env, n)
                    env.vars[n] = Sym(Poly.atom(phis[n]), ty)

        try:
            ok = attempt(setup1)
        except PyRaise:
            log, reads = restore(True)
            raise
        if not ok:
            restore(True)
            return False
        finals = {n: env.vars.get(n) for n in names}
        mut = []
        for o in self.mutlog:
            if o.born < start and not any(o is x for x in mut):
                mut.append(o)
        reads1 = set(self.readlog)
        counters = {}
        bad = False
        arrphi = []
        for n in names:
            v = finals[n]
            if n in phis:
                if not isinstance(v, (int, float, complex, Sym)) or isinstance(v, bool):
                    bad = True
                    break
                d = P(v.p if isinstance(v, Sym) else v) - Poly.atom(phis[n])
                if any(mentions(d, ph) for ph in phis.values()):
                    bad = True
                    break
                counters[n] = (N(d), v.ty if isinstance(v, Sym) else "int")
            elif isinstance(init[n], ArrVal) and isinstance(v, ArrVal):
                if v is not init[n]:
                    arrphi.append(n)
            elif v is not init[n] and not same_simple(v, init[n]):
                bad = True
                break
        for o in mut:
            if isinstance(o, (PyDict, PySet, Obj, UArr)):
                bad = True
            if isinstance(o, PyList) and (id(o) in reads1 or o.unknown is not None):
                bad = True
        if seg.n is INF and (counters and any(not c[0].is_zero() for c in counters.values()) or arrphi or any(isinstance(o, ArrVal) for o in mut)):
            bad = True
        restore(True)
        if bad:
            return False

        # second pass with the closed forms of the counters
        fold_cells, fold_phis = [], []
        lens = {}

        def setup2():
            for n in names:
                if n in counters:
                    d, ty = counters[n]
                    iv = init[n]
                    self.save_var(env, n)
                    val = P(iv.p if isinstance(iv, Sym) else iv)
                    if not d.is_zero():
                        val = val + psum(seg.ix, Poly.atom(seg.ix), None, d)
                    env.vars[n] = lift(val, iv.ty if isinstance(iv, Sym) else ("int" if isinstance(iv, int) else "float"))
            for n in arrphi:
                ph = T.leaf("phi", uid(), init[n].node.shape, init[n].node.cplx | frozenset(["c"]))
                fold_phis.append((n, ph, init[n].node))
                self.save_var(env, n)
                env.vars[n] = ArrVal(ph)
            for o in mut:
                if isinstance(o, ArrVal):
                    ph = T.leaf("phi", uid(), o.node.shape, o.node.cplx)
                    fold_cells.append((o, ph, o.node))
                    self.undo.append((o, snapshot(o)))
                    o.node = ph
                elif isinstance(o, PyList):
                    lens[id(o)] = len(o.items)

        ok = attempt(setup2)
        if not ok:
            restore(True)
            return False
        states = [(ph, ini, env.vars[n].node) for n, ph, ini in fold_phis if isinstance(env.vars[n], ArrVal)]
        if len(states) != len(fold_phis):
            restore(True)
            return False
        states += [(ph, ini, o.node) for o, ph, ini in fold_cells]
        if any(tuple(b.shape) != tuple(i.shape) for _, i, b in states):
            restore(True)
            return False
        new_items = {}
        phikeys = {(ph.args[0], ph.args[1]) for ph, _, _ in states}
        for o in mut:
            if isinstance(o, PyList):
                added = o.items[lens[id(o)]:]
                if deps_of(added) & phikeys or any(not seg_ok(x) for x in added):
                    restore(True)
                    return False
                new_items[id(o)] = added
        fin = {n: env.vars[n] for n in names}
        keep = {k: v for k, v in env.vars.items()}
        restore(False)
        for i, (n, ph, ini) in enumerate(fold_phis):
            pass
        nodes = [T.fold(seg.ix, seg.n, [p for p, _, _ in states], [i for _, i, _ in states], [b for _, _, b in states], k)
                 for k in range(len(states))]
        k = 0
        for n, ph, ini in fold_phis:
            env.vars[n] = ArrVal(nodes[k])
            k += 1
        for o, ph, ini in fold_cells:
            o.node = nodes[k]
            k += 1
        for o in mut:
            if isinstance(o, PyList):
                o.items = o.items[:lens[id(o)]] + ([Seg(seg.ix, seg.n, new_items[id(o)])] if new_items[id(o)] else [])
        for n, (d, ty) in counters.items():
            iv = init[n]
            val = P(iv.p if isinstance(iv, Sym) else iv)
            if not d.is_zero():
                val = val + tsum(seg.ix, seg.n, None, d)
            env.vars[n] = lift(val, iv.ty if isinstance(iv, Sym) else ("int" if isinstance(iv, int) else "float"))
        # variables first bound inside the loop keep the value of the last iteration: unknown here
        for n in assigned_names(stmts):
            if n not in names and n in env.vars:
                env.vars[n] = self.blur(env.vars[n])
        return True

    def blur(self, v):
        """value of the same form with unknown content"""
        if isinstance(v, ArrVal):
            try:
                return ArrVal(T.havoc(v.node.shape, [v.node], v.node.cplx, v.node.kind))
            except Exception:
                return UArr(v.node.deps)
        if isinstance(v, Sym):
            return Sym(Poly.atom(("unk", uid(), v.p)), v.ty)
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return Unknown(why="loop")
        if isinstance(v, int):
            return Sym(Poly.atom(("unk", uid())), "int")
        if isinstance(v, float):
            return Sym(Poly.atom(("unk", uid())), "float")
        if isinstance(v, (ClassVal, FuncVal, Ext, ModuleVal, Dispatcher)):
            return v
        return Unknown(deps_of(v), "loop")

    def widen_state(self, env, stmts):
        """forget everything the statements may change"""
        for n in assigned_names(stmts):
            if n in env.vars:
                self.save_var(env, n)
                v = env.vars[n]
                env.vars[n] = self.blur(v) if not isinstance(v, (PyList, PyDict, PySet, Obj)) else Unknown(deps_of(v), "loop")
        for n in mutated_roots(stmts):
            e = env
            while e is not None and n not in e.vars:
                e = e.parent
            if e is None:
                continue
            o = e.vars[n]
            self.widen_obj(o)

    def growth(self, s, env, elem, seg):
        """lists which the loop only extends, by arrays of one shape: {id(list): (shape, complexity, initial number)}"""
        names = [n for n in set(mutated_roots(s.body)) | assigned_names(s.body) if n in env.vars and isinstance(env.vars[n], PyList)]
        lists = {id(env.vars[n]): env.vars[n] for n in names}
        lists = {k: o for k, o in lists.items() if o.unknown is None and all(isinstance(x, ArrVal) for x in flat_items(o.items))}
        if not lists or self.spec:
            return {}
        init = {k: list(o.items) for k, o in lists.items()}
        seen = {k: [x.node for x in flat_items(v)] for k, v in init.items()}
        bad = set()
        for mode in (1, 2):
            saved = (self.undo, self.mutlog, self.readlog, len(self.facts), len(self.events), dict(self.memo_cond), self.know,
                     self.yields, dict(env.vars), self.depth)
            self.undo, self.mutlog, self.readlog = [], [], set()
            self.know = self.know.copy()
            self.yields = [PyList() for _ in self.yields]
            poly.set_know(self.know)
            self.spec = mode
            try:
                for x in (seg.items if seg is not None else [elem]):
                    if isinstance(x, Seg):
                        raise Stuck("nested family")
                    self.assign(s.target, x, env)
                    try:
                        self.exec_block(s.body, env)
                    except Continue:
                        pass
            except (LoopFork, Break, Return, Stuck, FirstYield, PathCut, PyRaise):
                pass
            finally:
                self.spec = 0
                for k, o in lists.items():
                    if o.unknown is not None or o.items[:len(init[k])] != init[k] or any(not isinstance(x, ArrVal) for x in flat_items(o.items)):
                        bad.add(k)
                    else:
                        seen[k] += [x.node for x in flat_items(o.items)]
                for o, snap in reversed(self.undo):
                    revert(o, snap, self)
                env.vars.clear()
                env.vars.update(saved[8])
                for k, o in lists.items():
                    o.items, o.unknown = list(init[k]), None
                self.undo, self.mutlog, self.readlog = saved[:3]
                del self.facts[saved[3]:]
                del self.events[saved[4]:]
                self.memo_cond = saved[5]
                self.know = saved[6]
                poly.set_know(self.know)
                self.yields = saved[7]
                self.depth = saved[9]
        out = {}
        for k, o in lists.items():
            if k in bad or not seen[k]:
                continue
            sh = seen[k][0].shape
            if seg is not None and any(mentions(d, seg.ix) for d in sh):
                continue
            if all(len(n.shape) == len(sh) and all((N(x) - N(y)).is_zero() for x, y in zip(n.shape, sh)) for n in seen[k]):
                cx = frozenset().union(*[n.cplx for n in seen[k]])
                out[k] = (o, sh, cx, sum(1 for x in init[k] if isinstance(x, ArrVal)), frozenset().union(*[n.deps for n in seen[k]]))
        return out

    def grown(self, growth):
        """the lists after some number of iterations"""
        for o, sh, cx, n0, deps in growth.values():
            self.touch_quiet(o)
            n = ("sym", f"#{uid()}")
            self.know.lower[n] = n0
            ix = ("ix", uid())
            d = deps | deps_of(o)
            o.unknown = None
            o.items = [Seg(ix, Poly.atom(n), [ArrVal(T.havoc(sh, [DepBox(d)], cx))])]

    def widen_obj(self, o, extra=frozenset()):
        if isinstance(o, (PyList, PyDict, PySet)):
            self.touch_quiet(o)
            o.unknown = deps_of(o) | extra
            o.items = []
        elif isinstance(o, ArrVal):
            self.touch_quiet(o)
            self.update_cell(o, T.havoc(o.node.shape, [o.node], o.node.cplx, o.node.kind))
        elif isinstance(o, Obj):
            pass

    def touch_quiet(self, obj):
        root = obj.root if isinstance(obj, (ArrVal, UArr)) else obj
        if self.undo is not None:
            self.undo.append((root, snapshot(root)))
            if root is not obj:
                self.undo.append((obj, snapshot(obj)))
            self.mutlog.append(root)

    def widen_for(self, s, env, elem, seg=None):
        if self.noforks:
            raise LoopFork("widening")
        esc = has_escape(s.body)
        growth = self.growth(s, env, elem, seg)
        before = {n: env.vars[n] for n in mutated_roots(s.body) if n in env.vars}
        assigned = {n: env.vars[n] for n in assigned_names(s.body) if n in env.vars and isinstance(env.vars[n], (PyList,))}
        aug = {n.target.id for st in s.body for n in ast.walk(st) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
        for n, o in assigned.items():
            if n in aug:
                self.widen_obj(o)
        self.widen_state_keep(env, s.body, {n for n in assigned if n in aug})
        self.grown(growth)
        if esc:
            more = self.fork(Cond("loop", (uid(),)))
            if not more:
                if s.orelse:
                    self.exec_block(s.orelse, env)
                return
        d0 = frozenset()
        try:
            if seg is not None:
                for x in seg.items:
                    if isinstance(x, Seg):
                        self.widen_for(s, env, None, x)
                    else:
                        self.assign(s.target, x, env)
                        try:
                            self.exec_block(s.body, env)
                        except Continue:
                            pass
            else:
                self.assign(s.target, elem, env)
                try:
                    self.exec_block(s.body, env)
                except Continue:
                    pass
        except Break:
            return
        if esc:
            raise PathCut()
        # forget again what one more iteration may have changed
        for n, o in before.items():
            self.widen_obj(o)
        self.widen_state_keep(env, s.body, {n for n in assigned if n in aug})
        self.grown(growth)
        if self.yields and contains_yield(s.body):
            sink = self.yields[-1]
            sink.unknown = deps_of(sink)
        if s.orelse:
            self.exec_block(s.orelse, env)

    def widen_state_keep(self, env, stmts, keep):
        for n in assigned_names(stmts):
            if n in env.vars and n not in keep:
                self.save_var(env, n)
                v = env.vars[n]
                env.vars[n] = self.blur(v) if not isinstance(v, (PyList, PyDict, PySet, Obj)) else Unknown(deps_of(v), "loop")
        for n in mutated_roots(stmts):
            e = env
            while e is not None and n not in e.vars:
                e = e.parent
            if e is not None:
                self.widen_obj(e.vars[n])

    def exec_while(self, s, env):
        for k in range(40):
            c = self.eval(s.test, env)
            d = self.decide(c)
            if d is None:
                break
            if d is False:
                self.exec_block(s.orelse, env)
                return
            # decided condition: run the body once
            mark = len(self.facts)
            pos = self.dpos
            try:
                self.exec_block(s.body, env)
            except Break:
                return
            except Continue:
                pass
            if self.dpos > pos + 0 and k >= 2:
                break
        # widen
        if self.noforks:
            raise LoopFork("while")
        self.widen_state_keep(env, s.body, set())
        c = self.eval(s.test, env)
        if not self.truth(c):
            self.exec_block(s.orelse, env)
            return
        try:
            self.exec_block(s.body, env)
        except Break:
            return
        except Continue:
            pass
        raise PathCut()

    # ------------------------------------------------------------ sequences
    def iterate(self, v):
        """list of entries (plain values or Seg); None when unknown"""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, (PyList, PySet, TupleSeg)):
            self.note_read(v)
            return None if v.unknown is not None else list(v.items)
        if isinstance(v, PyDict):
            return None if v.unknown is not None else [k for k, _ in v.items]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, RangeVal):
            if v.n is not INF:
                n = N(v.n).as_int()
                if n is not None and n <= 64:
                    return [lift(v.lo + v.step * k) for k in range(max(n, 0))]
            ix = T.new_ix()
            return [Seg(ix, v.n, [lift(v.lo + v.step * Poly.atom(ix))])]
        if isinstance(v, ArrVal):
            if len(v.node.shape) == 0:
                raise PyRaise("TypeError", "iteration over a 0-d array", self.where())
            n = N(v.node.shape[0]).as_int()
            if n is not None and n <= 24:
                return [self.getitem(v, k) for k in range(n)]
            ix = T.new_ix()
            a = ArrVal(T.getitem(v.node, [T.Reg("int", Poly.atom(ix))]), base=v, regs=[T.Reg("int", Poly.atom(ix))])
            return [Seg(ix, v.node.shape[0], [self.scalarise(a)])]
        if isinstance(v, GenVal):
            if v.cache is None:
                v.cache = v.run()
            r = v.cache
            if len(r) == 1 and isinstance(r[0], tuple) and len(r[0]) == 2 and r[0][0] == "?":
                return None
            r = r[v.pos:]
            v.pos = len(v.cache)
            return list(r)
        if isinstance(v, StrV):
            ix = T.new_ix()
            return [Seg(ix, Poly.atom(("ufn", "strlen", v)), [StrV("index", (v, lift(Poly.atom(ix))))])]
        if isinstance(v, (Unknown, UArr)):
            return None
        if isinstance(v, Obj):
            if v.cls.namedtuple or any(b.namedtuple for b in v.cls.mro()):
                return list(v.attrs.values())
            m, _ = v.cls.lookup("__iter__")
            if m is not None:
                return self.iterate(self.call(Bound(m, v), [], {}))
            raise PyRaise("TypeError", f"{v.cls.name} object is not iterable", self.where())
        if isinstance(v, ExtObj) and v.kind == "iter":
            return self.iterate(v.data)
        if v is None or isinstance(v, (int, float, bool, complex, Sym)):
            raise PyRaise("TypeError", f"{type(v).__name__} object is not iterable", self.where())
        if isinstance(v, ExtObj):
            return None
        raise Stuck(f"iteration over {v!r}")

    def seq(self, v):
        """concrete list of values"""
        r = self.iterate(v)
        if r is None or any(isinstance(x, Seg) for x in r):
            raise Stuck("sequence of unknown length")
        return r

    def length(self, v):
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, (PyList, PySet, PyDict, TupleSeg)):
            self.note_read(v)
            if v.unknown is not None:
                return Sym(Poly.atom(("unk", uid())), "int")
            n = ZERO
            for x in v.items:
                if isinstance(x, Seg):
                    inner = self.length(TupleSeg(x.items))
                    inner = inner.p if isinstance(inner, Sym) else P(inner)
                    if x.n is INF:
                        raise Stuck("length of an infinite sequence")
                    n = n + tsum(x.ix, x.n, None, inner)
                else:
                    n = n + 1
            return lift(n)
        if isinstance(v, ArrVal):
            if not v.node.shape:
                raise PyRaise("TypeError", "len() of unsized object", self.where())
            return lift(v.node.shape[0])
        if isinstance(v, RangeVal):
            return lift(v.n)
        if isinstance(v, StrV):
            return Sym(Poly.atom(("ufn", "strlen", v)), "int")
        if isinstance(v, (Unknown, UArr)):
            return Sym(Poly.atom(("unk", uid())), "int")
        if isinstance(v, Obj):
            if v.cls.namedtuple:
                return len(v.attrs)
            m, _ = v.cls.lookup("__len__")
            if m is not None:
                return self.call(Bound(m, v), [], {})
        raise PyRaise("TypeError", f"object of type {self.type_name(v)} has no len()", self.where())

    def concrete_index(self, lst, k):
        if isinstance(k, bool) or not isinstance(k, int):
            return None
        return k

    def subst_ix(self, v, ix, k):
        """v with the index variable ix replaced by k"""
        m = {ix: P(k)}
        if isinstance(v, Sym):
            return lift(subst(v.p, m), v.ty)
        if isinstance(v, ArrVal):
            if ix not in v.node.fv:
                return v
            r = ArrVal(subst_arr(v.node, m), base=v.base, regs=None if v.regs is None else [sub_reg(x, m) for x in v.regs])
            return self.scalarise(r)
        if isinstance(v, tuple):
            return tuple(self.subst_ix(x, ix, k) for x in v)
        if isinstance(v, Seg):
            return Seg(v.ix, v.n if v.n is INF else subst(P(v.n), m), [self.subst_ix(x, ix, k) for x in v.items])
        if isinstance(v, StrV):
            return StrV(v.op, [self.subst_ix(x, ix, k) if isinstance(x, (StrV, Sym)) else x for x in v.args])
        if isinstance(v, Obj):
            o = Obj(v.cls, {a: self.subst_ix(x, ix, k) for a, x in v.attrs.items()})
            o.owner, o.tag = v.owner, v.tag
            return o
        if isinstance(v, PyList):
            return PyList([self.subst_ix(x, ix, k) for x in v.items], v.unknown)
        if isinstance(v, TupleSeg):
            return TupleSeg([self.subst_ix(x, ix, k) for x in v.items], v.unknown)
        return v

    # ------------------------------------------------------------ indexing
    def getitem(self, o, k):
        from .builtins_model import arr_getitem
        if isinstance(o, (tuple, str)):
            if isinstance(k, SliceVal):
                sl = self.py_slice(k)
                if sl is None:
                    return Unknown(deps_of(o), "slice")
                return o[sl]
            i = self.as_index(k)
            if i is None:
                if isinstance(o, tuple) and isinstance(k, (Sym, Unknown)):
                    # index not known: a value among several
                    return Unknown(deps_of(o) | deps_of(k), "element")
                if isinstance(k, (Sym, Unknown)):
                    return Unknown(deps_of(k), "character")
                raise PyRaise("TypeError", "indices must be integers", self.where())
            if not -len(o) <= i < len(o):
                raise PyRaise("IndexError", "index out of range", self.where())
            return o[i]
        if isinstance(o, (PyList, TupleSeg)):
            self.note_read(o)
            if o.unknown is not None:
                return Unknown(deps_of(o), "element")
            if isinstance(k, SliceVal):
                if any(isinstance(x, Seg) for x in o.items):
                    if k.lo is None and k.hi is None and (k.step in (None, 1)):
                        return PyList(o.items) if isinstance(o, PyList) else o
                    return Unknown(deps_of(o), "slice of a family")
                sl = self.py_slice(k)
                if sl is None:
                    return Unknown(deps_of(o), "slice")
                return PyList(o.items[sl]) if isinstance(o, PyList) else tuple(o.items[sl])
            return self.seq_index(o, k)
        if isinstance(o, PyDict):
            if o.unknown is None:
                und = False
                for kk, vv in o.items:
                    r = self.decide(self.equal(kk, k))
                    if r is True and not und:
                        return vv
                    if r is not False:
                        und = True
                if not und:
                    raise PyRaise("KeyError", repr(k)[:60], self.where())
                if isinstance(k, StrV) and all(isinstance(kk, str) for kk, _ in o.items):
                    self.assume(Cond("strin", (k, tuple(kk for kk, _ in o.items))), True)
                    vals = [vv for _, vv in o.items]
                    if all(isinstance(x, (int, float)) for x in vals):
                        return Sym(Poly.atom(("ufn", "dictget", k, tuple((a, b) for a, b in o.items))), "int")
            return Unknown(deps_of(o) | deps_of(k), "dictionary value")
        if isinstance(o, ArrVal):
            return arr_getitem(self, o, k)
        if isinstance(o, UArr):
            return UArr(o.deps | deps_of(k), base=o, cplx=o.cplx)
        if isinstance(o, Unknown):
            return Unknown(o.deps | deps_of(k), "element")
        if isinstance(o, RangeVal):
            p = self.to_poly(k)
            if pcmp(">=", p, 0) is not True and o.n is not INF:
                p = p + o.n
            return lift(o.lo + o.step * p)
        if isinstance(o, Obj):
            if o.cls.namedtuple or any(b.namedtuple for b in o.cls.mro()):
                return self.getitem(tuple(o.attrs.values()), k)
            m, _ = o.cls.lookup("__getitem__")
            if m is not None:
                return self.call(Bound(m, o), [k], {})
        if isinstance(o, StrV):
            return self.str_index(o, k)
        if isinstance(o, (Ext, ClassVal)):
            return o      # typing subscripts
        if isinstance(o, GenVal):
            raise PyRaise("TypeError", "generator is not subscriptable", self.where())
        if isinstance(o, ExtObj):
            from .builtins_model import ext_getitem
            return ext_getitem(self, o, k)
        raise PyRaise("TypeError", f"{self.type_name(o)} object is not subscriptable", self.where())

    def str_index(self, o, k):
        if isinstance(k, SliceVal):
            return StrV("slice", (o, k.lo, k.hi, k.step))
        return StrV("index", (o, k))

    def seq_index(self, o, k):
        i = self.as_index(k)
        items = o.items
        if i is None:
            if isinstance(k, (Sym,)) and len(items) == 1 and isinstance(items[0], Seg) and len(items[0].items) == 1 \
                    and not isinstance(items[0].items[0], Seg):
                return self.subst_ix(items[0].items[0], items[0].ix, k.p)
            if isinstance(k, (Sym, Unknown)):
                if isinstance(k, Sym) and items and not any(isinstance(x, Seg) for x in items) and len(items) == 1:
                    return items[0]
                return Unknown(deps_of(o) | deps_of(k), "element")
            raise PyRaise("TypeError", "list indices must be integers", self.where())
        if i >= 0:
            for x in items:
                if isinstance(x, Seg):
                    if x.n is INF or pcmp(">", x.n, i) is True:
                        if len(x.items) == 1 and not isinstance(x.items[0], Seg):
                            return self.subst_ix(x.items[0], x.ix, i)
                    return Unknown(deps_of(o), "element of a family")
                if i == 0:
                    return x
                i -= 1
            raise PyRaise("IndexError", "list index out of range", self.where())
        j = -i - 1
        for x in reversed(items):
            if isinstance(x, Seg):
                if x.n is not INF and pcmp(">", x.n, j) is True and len(x.items) == 1 and not isinstance(x.items[0], Seg):
                    return self.subst_ix(x.items[0], x.ix, N(x.n) - 1 - j)
                return Unknown(deps_of(o), "element of a family")
            if j == 0:
                return x
            j -= 1
        raise PyRaise("IndexError", "list index out of range", self.where())

    def as_index(self, k):
        if isinstance(k, bool):
            return int(k)
        if isinstance(k, int):
            return k
        if isinstance(k, Sym):
            v = N(k.p).as_int()
            return v
        if isinstance(k, ArrVal) and not k.node.shape:
            if k.node.op == "const":
                return k.node.args[0].as_int()
        return None

    def py_slice(self, k):
        out = []
        for x in (k.lo, k.hi, k.step):
            if x is None:
                out.append(None)
            else:
                i = self.as_index(x)
                if i is None:
                    return None
                out.append(i)
        if out[2] == 0:
            raise PyRaise("ValueError", "slice step cannot be zero", self.where())
        return slice(*out)

    def setitem(self, o, k, v):
        from .builtins_model import arr_setitem
        if isinstance(o, PyList):
            self.touch(o)
            self.note_read(o)
            i = self.as_index(k) if not isinstance(k, SliceVal) else None
            if o.unknown is not None:
                o.unknown |= deps_of(v)
                return
            if i is None or any(isinstance(x, Seg) for x in o.items):
                if isinstance(k, SliceVal) and not any(isinstance(x, Seg) for x in o.items):
                    sl = self.py_slice(k)
                    items = self.iterate(v)
                    if sl is not None and items is not None:
                        o.items[sl] = items
                        return
                o.unknown = deps_of(o) | deps_of(v)
                o.items = []
                return
            if not -len(o.items) <= i < len(o.items):
                raise PyRaise("IndexError", "assignment index out of range", self.where())
            o.items[i] = v
            return
        if isinstance(o, PyDict):
            self.touch(o)
            if o.unknown is not None:
                o.unknown |= deps_of(v)
                return
            for kv in o.items:
                r = self.decide(self.equal(kv[0], k))
                if r is True:
                    o.items = [[a, v] if a is kv[0] else [a, b] for a, b in o.items]
                    return
                if r is None:
                    o.unknown = deps_of(o) | deps_of(v) | deps_of(k)
                    o.items = []
                    return
            o.items = o.items + [[k, v]]
            return
        if isinstance(o, ArrVal):
            return arr_setitem(self, o, k, v)
        if isinstance(o, UArr):
            self.touch(o)
            o.deps |= deps_of(v)
            return
        if isinstance(o, Unknown):
            return
        if isinstance(o, Obj):
            m, _ = o.cls.lookup("__setitem__")
            if m is not None:
                return self.call(Bound(m, o), [k, v], {})
        raise PyRaise("TypeError", f"{self.type_name(o)} object does not support item assignment", self.where())

    def to_poly(self, v):
        if isinstance(v, Sym):
            return N(v.p)
        if isinstance(v, bool):
            return P(int(v))
        if isinstance(v, (int, float, complex)):
            if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
                raise Stuck("infinite number")
            return P(v)
        if isinstance(v, Poly):
            return v
        if isinstance(v, ArrVal) and not v.node.shape:
            if v.node.op == "const":
                return v.node.args[0]
            return Poly.atom(("elem", v.node, ()))
        if isinstance(v, Unknown):
            return Poly.atom(("unk", v.id, DepBox(v.deps)))
        if v is None:
            raise PyRaise("TypeError", "None used as a number", self.where())
        raise Stuck(f"number expected, got {v!r}")

    def scalarise(self, a):
        """0-d array element -> Sym"""
        if isinstance(a, ArrVal) and not a.node.shape:
            n = a.node
            if a.pred is not None:
                return a
            ty = "complex" if n.cplx else {"i": "int", "b": "bool"}.get(n.kind, "float")
            if n.op == "const":
                r = lift(n.args[0], ty if ty != "bool" else "int")
                return r
            if n.op == "index":
                base, key = n.args
                if base.op == "arange" and len(key) == 1 and key[0][0] == "int":
                    return lift(base.args[0] + base.args[1] * key[0][1], ty)
                if all(x[0] == "int" for x in key):
                    return Sym(Poly.atom(("elem", base, tuple(x[1] for x in key))), ty)
            return Sym(Poly.atom(("elem", n, ())), ty)
        return a

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b):
        from .builtins_model import binop
        return binop(self, op, a, b)

    def equal(self, a, b):
        from .builtins_model import equal
        return equal(self, a, b)

    def compare(self, op, a, b):
        from .builtins_model import compare
        return compare(self, op, a, b)

    # ------------------------------------------------------------ expressions
    def eval_index(self, e, env):
        if isinstance(e, ast.Slice):
            return SliceVal(*[None if x is None else self.eval(x, env) for x in (e.lower, e.upper, e.step)])
        if isinstance(e, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in e.elts)
        return self.eval(e, env)

    def eval(self, e, env):
        self.tick()
        if hasattr(e, "lineno"):
            self.line = e.lineno
        t = type(e)
        if t is ast.Constant:
            return e.value
        if t is ast.Name:
            return self.lookup(e.id, env)
        if t is ast.Attribute:
            return self.getattr(self.eval(e.value, env), e.attr)
        if t is ast.Call:
            return self.eval_call(e, env)
        if t is ast.BinOp:
            a = self.eval(e.left, env)
            b = self.eval(e.right, env)
            self.line = e.lineno
            return self.binop(type(e.op).__name__, a, b)
        if t is ast.UnaryOp:
            v = self.eval(e.operand, env)
            o = type(e.op).__name__
            if o == "Not":
                d = self.decide(v)
                if d is not None:
                    return not d
                return Cond("not", (self.as_cond(v),), deps_of(v))
            if o == "USub":
                if isinstance(v, (bool, int, float, complex)):
                    return -v
                return self.binop("Mult", -1, v)
            if o == "UAdd":
                return v
            if o == "Invert":
                if isinstance(v, (bool, int)):
                    return ~v
                if isinstance(v, ArrVal):
                    r = ArrVal(T.elementwise("not", [v.node], frozenset()), pred=("not", v.pred) if v.pred else None)
                    r.node = T.mk("emap", ("not", (v.node,)), v.node.shape, frozenset(), "b")
                    return r
                if isinstance(v, Cond):
                    return Cond("not", (v,), v.deps)
                return Unknown(deps_of(v))
        if t is ast.BoolOp:
            isand = isinstance(e.op, ast.And)
            pend = []
            for i, x in enumerate(e.values):
                v = self.eval(x, env)
                d = self.decide(v)
                if d is None:
                    if all(pure(y) for y in e.values[i + 1:]) and isinstance(v, (Cond, ArrVal, Sym, ExtObj)):
                        pend.append(v)
                        continue
                    d = self.fork(v)
                    if i == len(e.values) - 1 and not pend:
                        return d if isinstance(v, (Cond,)) else v
                if isand and d is False:
                    return False if pend else (v if not isinstance(v, Cond) else False)
                if not isand and d is True:
                    return True if pend else (v if not isinstance(v, Cond) else True)
                if i == len(e.values) - 1 and not pend:
                    return v if not isinstance(v, Cond) else d
            if len(pend) == 1 and isinstance(pend[0], Cond):
                return pend[0]
            return Cond("and" if isand else "or", [self.as_cond(x) for x in pend], deps_of(pend))
        if t is ast.Compare:
            return self.eval_compare(e, env)
        if t is ast.Subscript:
            o = self.eval(e.value, env)
            k = self.eval_index(e.slice, env)
            self.line = e.lineno
            return self.getitem(o, k)
        if t is ast.Tuple:
            return self.make_tuple(self.eval_elts(e.elts, env))
        if t is ast.List:
            r = self.eval_elts(e.elts, env)
            return PyList(r) if not isinstance(r, frozenset) else PyList([], r)
        if t is ast.Set:
            r = self.eval_elts(e.elts, env)
            return self.make_set(r)
        if t is ast.Dict:
            items = []
            for k, v in zip(e.keys, e.values):
                if k is None:
                    d = self.eval(v, env)
                    if isinstance(d, PyDict) and d.unknown is None:
                        items.extend([list(x) for x in d.items])
                    else:
                        return PyDict([], deps_of(d))
                else:
                    items.append([self.eval(k, env), self.eval(v, env)])
            return PyDict(items)
        if t is ast.IfExp:
            return self.eval(e.body, env) if self.truth(self.eval(e.test, env)) else self.eval(e.orelse, env)
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            return self.eval_comp(e, env)
        if t is ast.Lambda:
            a = e.args
            return FuncVal(e, env.module, env, "<lambda>", (self.stack[-1][0] + "." if self.stack else "") + "<lambda>",
                           [self.eval(x, env) for x in a.defaults],
                           {k.arg: self.eval(x, env) for k, x in zip(a.kwonlyargs, a.kw_defaults) if x is not None})
        if t is ast.JoinedStr:
            parts = []
            for v in e.values:
                if isinstance(v, ast.Constant):
                    parts.append(v.value)
                else:
                    try:
                        x = self.eval(v.value, env)
                    except (Stuck, LoopFork):
                        x = Unknown()
                    if isinstance(x, (str, int)) and v.format_spec is None:
                        parts.append(str(x))
                    elif isinstance(x, Obj):
                        from .builtins_model import call_ext
                        r = call_ext(self, Ext("builtins.repr"), [x], {})
                        parts.append(r if isinstance(r, str) else "?")
                    else:
                        parts.append("?")
            return "".join(parts)
        if t is ast.Starred:
            raise Stuck("starred expression")
        if t is ast.NamedExpr:
            v = self.eval(e.value, env)
            self.bind(e.target.id, v, env)
            return v
        if t is ast.Yield:
            return self.do_yield(None if e.value is None else self.eval(e.value, env))
        if t is ast.YieldFrom:
            v = self.eval(e.value, env)
            items = self.iterate(v)
            if items is None:
                self.yields[-1].unknown = deps_of(v)
                return None
            for x in items:
                self.do_yield(x)
            return None
        if t is ast.Slice:
            return self.eval_index(e, env)
        if t is ast.Await:
            raise Stuck("await")
        raise Stuck(f"expression {t.__name__}")

    def do_yield(self, v):
        if self.first_mode:
            if isinstance(v, Seg):
                if v.n is INF or pcmp(">", v.n, 0) is True:
                    v = self.subst_ix(v.items[0], v.ix, 0)
            raise FirstYield(v)
        sink = self.yields[-1]
        self.touch(sink)
        if sink.unknown is not None:
            sink.unknown |= deps_of(v)
        else:
            sink.items = sink.items + [v]

    def as_cond(self, v):
        if isinstance(v, Cond):
            return v
        if isinstance(v, Sym):
            return Cond("cmp", ("!=", N(v.p), ZERO), deps_of(v))
        if isinstance(v, ArrVal) and v.pred is not None:
            return Cond("pred1", v.pred, v.node.deps)
        if isinstance(v, ExtObj) and v.kind == "match":
            return Cond("match", v.data)
        if isinstance(v, bool):
            return Cond("const", (v,))
        return Cond("truth", (v.node if isinstance(v, ArrVal) else v,), deps_of(v))

    def make_tuple(self, r):
        if isinstance(r, frozenset):
            return TupleSeg([], r)
        if any(isinstance(x, Seg) for x in r):
            return TupleSeg(r)
        return tuple(r)

    def make_set(self, items, frozen=False):
        if isinstance(items, frozenset):
            return PySet([], frozen, items)
        out = []
        unknown = None
        for x in items:
            if isinstance(x, Seg):
                out.append(x)
                continue
            dup = False
            for y in out:
                if isinstance(y, Seg):
                    continue
                r = self.decide(self.equal(x, y))
                if r is True:
                    dup = True
                    break
                if r is None:
                    unknown = True
            if not dup:
                out.append(x)
        if unknown:
            # elements may coincide
            return PySet([], frozen, deps_of(items))
        return PySet(out, frozen)

    def eval_elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                if isinstance(v, PySet):
                    self.event("set_iter", set=v, node=x, ordered=True)
                items = self.iterate(v) if not isinstance(v, PySet) else self.set_list(v)
                if items is None:
                    return deps_of(out) | deps_of(v)
                out.extend(items)
            else:
                out.append(self.eval(x, env))
        return out

    def eval_call(self, e, env):
        f = e.func
        # super()
        if isinstance(f, ast.Name) and f.id == "super" and not e.args:
            fe = env
            while fe is not None and (fe.fn is None or fe.fn.cls is None):
                fe = fe.parent
            if fe is None:
                raise Stuck("super")
            a = fe.fn.node.args
            first = (a.posonlyargs + a.args)[0].arg
            return SuperVal(fe.fn.cls, fe.vars[first])
        fv = self.eval(f, env)
        args = []
        unknown = None
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                items = self.iterate(v)
                if items is None or any(isinstance(i, Seg) for i in items):
                    if items is not None and isinstance(fv, Ext) and fv.path == "builtins.zip":
                        args.extend(items)
                        continue
                    unknown = (unknown or frozenset()) | deps_of(v)
                else:
                    args.extend(items)
            else:
                args.append(self.eval(x, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, env)
                if isinstance(v, PyDict) and v.unknown is None and all(isinstance(a, str) for a, _ in v.items):
                    for a, b in v.items:
                        kwargs[a] = b
                else:
                    unknown = (unknown or frozenset()) | deps_of(v)
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        self.line = e.lineno
        self.stats["sites"].add((env.module.rel, e.lineno, e.col_offset))
        if unknown is not None:
            return Unknown(unknown | deps_of(args) | deps_of(list(kwargs.values())), "call with unknown arguments")
        return self.call(fv, args, kwargs, e)

    def eval_compare(self, e, env):
        left = self.eval(e.left, env)
        conds = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            self.line = e.lineno
            c = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return c
            d = self.decide(c)
            if d is False:
                return False
            if d is None:
                conds.append(self.as_cond(c))
            left = right
        if not conds:
            return True
        if len(conds) == 1:
            return conds[0]
        return Cond("and", conds, deps_of(conds))

    def eval_comp(self, e, env):
        cenv = Env(env.module, env, env.fn)
        sink = PyList()
        isset = isinstance(e, ast.SetComp)

        def run(gens, env2):
            if not gens:
                if isinstance(e, ast.DictComp):
                    v = (self.eval(e.key, env2), self.eval(e.value, env2))
                else:
                    v = self.eval(e.elt, env2)
                if self.undo is not None:
                    self.touch(sink)
                sink.items = sink.items + [v]
                return
            g = gens[0]
            it = self.eval(g.iter, env2)
            if isinstance(it, PySet) and not isset:
                self.event("set_iter", set=it, node=e, gen=isinstance(e, ast.GeneratorExp), comp=sink)
            if isinstance(it, PySet) and it.unknown is None:
                items = self.set_list(it)
            else:
                items = self.iterate(it)
            if items is None:
                raise CompUnknown(deps_of(it) | (SETORDER if isinstance(it, PySet) and not isset else frozenset()))
            if len(items) > 400:
                raise CompUnknown(deps_of(it))

            def one(x):
                if isinstance(x, Seg):
                    n = None if x.n is INF else N(x.n).as_int()
                    if n is not None and n <= 16:
                        for k in range(n):
                            for y in x.items:
                                one(self.subst_ix(y, x.ix, k))
                        return

                    def body():
                        for y in x.items:
                            one(y)
                    if not self.summarise(x, body, env2, []):
                        raise CompUnknown(deps_of(x))
                    return
                self.assign(g.target, x, env2)
                for c in g.ifs:
                    if not self.truth(self.eval(c, env2)):
                        return
                run(gens[1:], env2)
            for x in items:
                one(x)

        try:
            run(e.generators, cenv)
            unknown = None
        except CompUnknown as ex:
            unknown = ex.deps | deps_of(sink)
            # evaluate the element once for its effects and dependencies
            unknown = unknown | self.comp_effects(e, env)
        if isinstance(e, ast.ListComp):
            return PyList(sink.items) if unknown is None else PyList([], unknown)
        if isinstance(e, ast.SetComp):
            return self.make_set(sink.items if unknown is None else frozenset(unknown))
        if isinstance(e, ast.DictComp):
            if unknown is not None or any(isinstance(x, Seg) for x in sink.items):
                return PyDict([], unknown or deps_of(sink))
            d = PyDict()
            for k, v in sink.items:
                self.setitem(d, k, v)
            return d
        items = sink.items
        g = GenVal((lambda: [("?", unknown)]) if unknown is not None else (lambda: items))
        return g

    def comp_effects(self, e, env):
        d = frozenset()
        if self.noforks:
            raise LoopFork("comprehension")
        cenv = Env(env.module, env, env.fn)
        try:
            for g in e.generators:
                it = self.eval(g.iter, cenv)
                d |= deps_of(it)
                items = None if isinstance(it, PySet) else self.iterate(it)
                el = None
                if items:
                    el = items[0]
                    while isinstance(el, Seg):
                        el = el.items[0] if el.items else Unknown()
                self.assign(g.target, el if el is not None else Unknown(deps_of(it), "element"), cenv)
            for g in e.generators:
                for c in g.ifs:
                    d |= deps_of(self.eval(c, cenv))
            if isinstance(e, ast.DictComp):
                d |= deps_of(self.eval(e.key, cenv)) | deps_of(self.eval(e.value, cenv))
            else:
                d |= deps_of(self.eval(e.elt, cenv))
        except (PyRaise, ShapeError, Stuck):
            pass
        return d


def invariant(c):
    """a condition on sizes and labels only"""
    if not isinstance(c, Cond):
        return False
    if c.kind == "cmp":
        return all(poly.akind(a) not in ("ix", "phi", "unk", "elem", "bound") for q in c.args[1:] for a in poly.walk_atoms(P(q)))
    if c.kind in ("and", "or", "not"):
        return all(isinstance(x, bool) or invariant(x) for x in c.args)
    return False


class CompUnknown(Exception):
    def __init__(self, deps):
        self.deps = frozenset(deps)


class DepBox:
    """carries dependencies inside expression arguments"""
    __slots__ = ("fv", "deps", "id")

    def __init__(self, deps):
        self.fv, self.deps = frozenset(), frozenset(deps)

    def __hash__(self):
        return hash(self.deps)

    def __eq__(self, o):
        return isinstance(o, DepBox) and self.deps == o.deps

    def __repr__(self):
        return f"deps{sorted(self.deps, key=repr)}"


def _patch_collect():
    old = T._collect

    def collect(o, fv, deps):
        if isinstance(o, DepBox):
            deps |= o.deps
            return
        if isinstance(o, StrV):
            return
        if isinstance(o, Poly):
            for a in walk_atoms(o):
                if akind(a) == "unk":
                    for x in a[1:]:
                        if isinstance(x, DepBox):
                            deps |= x.deps
                        elif isinstance(x, (Poly, T.Arr, tuple)):
                            old(x, fv, deps)
        old(o, fv, deps)
    T._collect = collect


_patch_collect()


def has_ufn(a, seen=None):
    seen = set() if seen is None else seen
    if isinstance(a, T.Arr):
        if a.id in seen:
            return False
        seen.add(a.id)
        if a.op in ("ufn",):
            return True
        if a.op == "emap":
            return True
        return any(has_ufn(x, seen) for x in a.args)
    if isinstance(a, T.Fam):
        return has_ufn(a.arr, seen)
    if isinstance(a, (tuple, list)):
        return any(has_ufn(x, seen) for x in a)
    if isinstance(a, Poly):
        return any(akind(x) in ("unk", "ufn", "sym") for x in walk_atoms(a)) or any(
            z.denominator > 10 ** 5 for c in a.t.values() for z in c)      # rounded constants
    return False


def covers(container, val):
    return "c" in container or val <= container


def pure(e):
    """evaluating the expression early has no effect and cannot fail"""
    for n in ast.walk(e):
        if isinstance(n, (ast.Yield, ast.NamedExpr, ast.Await, ast.YieldFrom)):
            return False
        if isinstance(n, ast.Subscript):
            return False
    return True


def is_dispatch_deco(x):
    f = x.func if isinstance(x, ast.Call) else x
    return (isinstance(f, ast.Name) and f.id == "dispatch") or (isinstance(f, ast.Attribute) and f.attr == "dispatch")


def tname(t):
    if isinstance(t, ClassVal):
        return t.name
    if isinstance(t, Ext):
        return t.path.split(".")[-1]
    if isinstance(t, tuple):
        return "|".join(tname(x) for x in t)
    return repr(t)


def same_types(a, b):
    return len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b))


def set_owner_class(f, c):
    if isinstance(f, FuncVal):
        f.cls = c
    elif isinstance(f, Wrap):
        set_owner_class(f.fn, c)


def own_all(v, owner, depth=0):
    if depth > 6:
        return
    if isinstance(v, (ArrVal, UArr)):
        r = v.root
        if r.owner is None:
            r.owner = owner
    elif isinstance(v, (PyList, PySet)):
        if v.owner is None and not (isinstance(v, PySet) and v.frozen):
            v.owner = owner
        for x in v.items:
            own_all(x, owner, depth + 1)
    elif isinstance(v, PyDict):
        v.owner = v.owner or owner
        for k, x in v.items:
            own_all(x, owner, depth + 1)
    elif isinstance(v, (tuple, list)):
        for x in v:
            own_all(x, owner, depth + 1)
    elif isinstance(v, TupleSeg):
        for x in v.items:
            own_all(x, owner, depth + 1)
    elif isinstance(v, Seg):
        for x in v.items:
            own_all(x, owner, depth + 1)
    elif isinstance(v, Obj):
        if v.owner is None:
            v.owner = owner
        for x in v.attrs.values():
            own_all(x, owner, depth + 1)


def flat_items(items):
    for x in items:
        if isinstance(x, Seg):
            yield from flat_items(x.items)
        else:
            yield x


def snapshot(o):
    if isinstance(o, (PyList, PySet)):
        return (list(o.items), o.unknown)
    if isinstance(o, PyDict):
        return ([list(x) for x in o.items], o.unknown)
    if isinstance(o, ArrVal):
        return o.node
    if isinstance(o, UArr):
        return o.deps
    if isinstance(o, Obj):
        return dict(o.attrs)
    return None


def revert(o, snap, I):
    if isinstance(o, Env):
        name, v = snap
        if v is I:
            o.vars.pop(name, None)
        else:
            o.vars[name] = v
    elif isinstance(o, (PyList, PySet, PyDict)):
        o.items, o.unknown = snap
    elif isinstance(o, ArrVal):
        o.node = snap
    elif isinstance(o, UArr):
        o.deps = snap
    elif isinstance(o, Obj):
        o.attrs = snap


def same_simple(a, b):
    if isinstance(a, (int, float, complex, str, bool, type(None))) and type(a) is type(b):
        return a == b
    if isinstance(a, Sym) and isinstance(b, Sym):
        return N(a.p) == N(b.p)
    if isinstance(a, ArrVal) and isinstance(b, ArrVal):
        return a.node is b.node
    return False


def seg_ok(x):
    return not isinstance(x, (GenVal,))


def contains_yield(stmts):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
    return False


def reg_from_key(k):
    return T.Reg(k[0], k[1], k[2], k[3], k[4])


def sub_reg(r, m):
    return T.Reg(r.kind, None if r.lo is None else subst(r.lo, m), None if r.size is None else subst(r.size, m), r.step, r.arr)


_subst_cache = {}


def subst_arr(a, m):
    """array expression with atoms replaced"""
    key = (a.id, tuple(sorted(((repr(k), repr(v)) for k, v in m.items()))))
    r = _subst_cache.get(key)
    if r is not None:
        return r
    if not (a.fv & set(m)):
        return a

    def go(x):
        if isinstance(x, T.Arr):
            return subst_arr(x, m)
        if isinstance(x, T.Fam):
            return T.Fam(x.ix, go(x.n), go(x.arr))
        if isinstance(x, Poly):
            return subst_poly_arr(x, m)
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "ix":
                return x
            return tuple(go(y) for y in x)
        return x
    r = T.mk(a.op, go(a.args), [go(s) for s in a.shape], a.cplx, a.kind)
    if a.op in ("fold", "famstore"):
        r.fv = a.fv - set(m)
        r.deps = a.deps
    _subst_cache[key] = r
    return r


def subst_poly_arr(p, m):
    mm = dict(m)
    for at in walk_atoms(p):
        if akind(at) in ("elem", "ufn", "unk"):
            new = tuple(subst_arr(x, m) if isinstance(x, T.Arr) else
                        (tuple(subst_poly_arr(y, m) if isinstance(y, Poly) else y for y in x) if isinstance(x, tuple) else
                         (subst_poly_arr(x, m) if isinstance(x, Poly) else x)) for x in at)
            if new != at:
                mm[at] = Poly.atom(new)
    return subst(p, mm)


def view_inverse(b, parent):
    """content of the parent array after its view b changed (reshape and transpose views)"""
    return None
