"""C09: reproducibility.  Where do random numbers, clocks, the environment, object identities, unwritten memory and the order of
sets enter, and does it reach a result?"""
import ast

from . import poly
from . import tens as T
from . import summaries as SM
from . import stub
from . import v_work as W
from .decide import adapt, feasible, ftext, make_points, ptext, timed, wtext
from .interp import explore, own_all
from .seeds import Ctx
from .values import *
from .v_effects import count
from .v_struct import CL
from .v_work import SRC, W as Work

RULE09 = ("no function other than the documented random ones reads an entropy source (random numbers, clock, environment, hash or identity, unwritten "
          "memory), and results do not change when every set is iterated over in another order")
RANDOM_OK = ("rand", "decompose_rep_into_irreps")


def allowed_fn(q, rel):
    last = q.split(".")[-1]
    return last in RANDOM_OK or last == "reduce" and rel.endswith("/reduce.py")


# ---------------------------------------------------------------- paths
def opaque(roots):
    """a value the engine does not know takes part"""
    seen, todo = set(), list(roots)
    while todo:
        n = todo.pop()
        if isinstance(n, T.Arr):
            if n.id in seen:
                continue
            seen.add(n.id)
            if n.op == "leaf" and n.args[0] in ("random", "phi", "elementof"):
                return True
            if n.op == "ufn" and str(n.args[0]).startswith("?"):
                return True
            todo += list(n.args) + list(n.shape)
        elif isinstance(n, T.Fam):
            todo.append(n.arr)
        elif isinstance(n, poly.Poly):
            for a in poly.walk_atoms(n):
                if poly.akind(a) == "unk":
                    return True
                todo += [x for x in a if isinstance(x, (T.Arr, Cond))]
        elif isinstance(n, (tuple, list)):
            if n and n[0] == "unk":
                return True
            todo += list(n)
        elif isinstance(n, Cond):
            if n.kind in ("truth", "loop", "dtype", "member"):
                return True
            todo += list(n.args)
    return False


class No(Exception):
    pass


def finger(v, pt, depth=0):
    """content of a value at a point; raises No when it is not known"""
    if depth > 12:
        raise No
    if isinstance(v, bool) or v is None or isinstance(v, (str, int, float, complex)):
        return v
    if isinstance(v, (Sym, Poly)):
        p = v.p if isinstance(v, Sym) else v
        if opaque([p]):
            raise No
        try:
            return ("num", str(pt.scalar(p, {})))
        except Exception:
            raise No
    if isinstance(v, ArrVal):
        n = v.node
        if n.fv or opaque([n]):
            raise No
        try:
            x = pt.val(n, {})
        except Exception:
            raise No
        return ("arr", x.re.shape, x.re.tobytes(), x.imz().tobytes())
    if isinstance(v, StrV):
        return ("str", v.op, str(v.args))
    if isinstance(v, (tuple, list)):
        return ("seq",) + tuple(finger(x, pt, depth + 1) for x in v)
    if isinstance(v, (PyList, TupleSeg)):
        if v.unknown is not None or any(isinstance(x, Seg) for x in v.items):
            raise No
        return ("seq",) + tuple(finger(x, pt, depth + 1) for x in v.items)
    if isinstance(v, PySet):
        if v.unknown is not None or any(isinstance(x, Seg) for x in v.items):
            raise No
        return ("set",) + tuple(sorted({str(finger(x, pt, depth + 1)) for x in v.items}))
    if isinstance(v, PyDict):
        if v.unknown is not None:
            raise No
        return ("dict",) + tuple((finger(k, pt, depth + 1), finger(x, pt, depth + 1)) for k, x in v.items)
    if isinstance(v, Obj):
        return (v.cls.name,) + tuple((k, finger(x, pt, depth + 1)) for k, x in sorted(v.attrs.items()) if not k.startswith("_cache"))
    if isinstance(v, ClassVal):
        return v.name
    raise No


def cond_finger(c, v):
    return (str(c), v)


def outcome(p, pt):
    if p.kind == "raise":
        return ("raise", p.exc.name)
    return ("return", finger(p.interp.result, pt))


def leaves_of(v, out, seen, depth=0):
    if depth > 10 or id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, ArrVal):
        out.append(v)
    elif isinstance(v, (tuple, list)):
        for x in v:
            leaves_of(x, out, seen, depth + 1)
    elif isinstance(v, (PyList, PySet, TupleSeg, Seg)):
        for x in v.items:
            leaves_of(x, out, seen, depth + 1)
    elif isinstance(v, PyDict):
        for k, x in v.items:
            leaves_of(x, out, seen, depth + 1)
    elif isinstance(v, Obj):
        for x in v.attrs.values():
            leaves_of(x, out, seen, depth + 1)


def ordered_by_set(v, depth=0):
    """a list, tuple or dictionary whose order is the iteration order of a set of unknown content"""
    if depth > 8:
        return False
    if isinstance(v, (PyList, TupleSeg, PyDict)) and v.unknown is not None and SETORDER & frozenset(v.unknown):
        return True
    if isinstance(v, (tuple, list)):
        return any(ordered_by_set(x, depth + 1) for x in v)
    if isinstance(v, (PyList, TupleSeg, Seg)):
        return any(ordered_by_set(x, depth + 1) for x in v.items)
    if isinstance(v, Obj):
        return any(ordered_by_set(x, depth + 1) for x in v.attrs.values())
    return False


def set_site(p):
    """where sets are iterated over"""
    out = dict.fromkeys(wtext(w) for k, w, d in p.events if k == "set_iter")
    return "; ".join(out) or None


def empties(node):
    seen, todo, out = set(), [node], []
    while todo:
        n = todo.pop()
        if isinstance(n, T.Arr):
            if n.id in seen:
                continue
            seen.add(n.id)
            if n.op == "leaf" and n.args[0] == "empty":
                out.append(n)
            todo += list(n.args)
        elif isinstance(n, T.Fam):
            todo.append(n.arr)
        elif isinstance(n, (tuple, list)):
            todo += list(n)
        elif isinstance(n, poly.Poly):
            for a in poly.walk_atoms(n):
                todo += [x for x in a if isinstance(x, (T.Arr, Cond))]
        elif isinstance(n, Cond):
            todo += list(n.args)
    return out


def point_for(sc, p, part, model, seed=0):
    pt = make_points(model, {**sc.sizes, **part.get("sizes", {})}, 1)[0]
    pt.env.update({k: 1 for k in SM.COUNTS if k not in pt.env})
    adapt(pt, p.facts, p.know.lower)
    if model:
        model.sizes(pt)
    return pt


def refill(pt, how):
    """other contents of unwritten memory"""
    base = pt.leaf_fn

    def leaf(q, name, key, shape, node):
        if name == "empty":
            import numpy as np
            from .v_gate import mk
            return mk((np.arange(int(np.prod([int(s) for s in shape])), dtype=object) * 7 + how).reshape([int(s) for s in shape]))
        return base(q, name, key, shape, node) if base else None
    pt.leaf_fn = leaf
    return pt


def unwritten(rep, sc, p, part):
    if p.kind != "return":
        return
    arrs = []
    leaves_of(getattr(p.interp, "result", None), arrs, set())
    model = p.interp.prog.model
    for v in arrs:
        es = [e for e in empties(v.node) if not any(N(P(s)).as_int() == 0 for s in e.shape)]
        if not es:
            continue
        count(rep, "unwritten_buffers_followed")
        if v.node.fv or opaque([v.node]):
            rep.undecided.append(f"{sc.name}: whether the buffer of numpy.empty is filled completely is not known")
            continue
        try:
            xs = [refill(point_for(sc, p, part, model), how).val(v.node, {}) for how in (3, 11)]
        except Exception as e:
            rep.undecided.append(f"{sc.name}: whether the buffer of numpy.empty is filled completely is not known ({type(e).__name__})")
            continue
        if xs[0].re.shape == xs[1].re.shape and not ((xs[0].re != xs[1].re) | (xs[0].imz() != xs[1].imz())).any():
            count(rep, "unwritten_buffers_harmless")
            continue
        rep.violate(sc.anchor, "results do not contain unwritten memory", f"{sc.name} {ptext(part)}: part of the result is the unwritten content of numpy.empty" + ftext(p), sc.name)


def c09_path(rep, sc, p, part):
    for kind, where, d in p.events:
        if kind == "nondet":
            count(rep, "entropy_reads_seen")
            if any(allowed_fn(q, rel) for q, rel in d.get("stack", ())):
                continue
            if d["path"] == "id or hash":
                continue            # decided by the scan of the syntax tree
            rep.violate(wtext(where), "no hidden randomness", f"{sc.name}: {d['path']} is read, in " + " < ".join(q for q, _ in d.get("stack", ())[::-1]), sc.name)
    if p.kind == "return" and ordered_by_set(getattr(p.interp, "result", None)):
        rep.violate(set_site(p) or sc.anchor, "no result is ordered by the iteration order of a set", f"{sc.name}: the elements of the result come in the iteration order of a set" + ftext(p), sc.name)
    unwritten(rep, sc, p, part)


def compare_orders(rep, sc, p, part, alt):
    """alt: the paths under another order; p: a path under the normal order"""
    model = p.interp.prog.model
    facts = frozenset(cond_finger(c, v) for c, v, _ in p.facts)
    mates = [q for q in alt if frozenset(cond_finger(c, v) for c, v, _ in q.facts) == facts]
    if len(mates) != 1:
        return None
    q = mates[0]
    if q.kind == "stuck" or p.kind == "stuck":
        return None
    poly.set_know(p.know)
    try:
        x, y = outcome(p, point_for(sc, p, part, model)), outcome(q, point_for(sc, p, part, model))
    except No:
        return None
    except Exception:
        return None
    finally:
        poly.set_know(poly.Know())
    return x == y


def orders_task(w, **kw):
    """a task which explores the scenario under each order of sets"""
    def run(prog, rep, tier=None):
        sc = W.scenario(w, None, raise_ok=lambda p: True, **kw)
        prog.summaries = sc.summaries
        try:
            for part in sc.parts:
                model = stub.Model(part.get("dims"), part.get("L", "L"), part.get("n", "n"), cplx=part.get("cplx", True), L3=part.get("L3"), n3=part.get("n3"))
                stub.install(prog, model)
                info = {"scenario": sc.name + ", other set orders", "partition": {k: str(v) for k, v in part.items()}, "paths": 0, "proved": 0, "undecided": 0}
                rep.scen.append(info)

                def fn(I):
                    c = Ctx(I)
                    c.model, c.part = model, part

                    def ir(k):
                        return c.call(c.cls("lnsa_stub", "SymIrrep2" if "z" in k else "SymIrrep"), k)
                    c.ir = ir
                    return sc.build(c)
                runs = []
                prog.set_used = False
                for o in (0, 1, 2):
                    prog.set_order = o
                    try:
                        ps = timed(sc.seconds, lambda: explore(prog, fn, max_paths=sc.max_paths, budget=sc.budget))
                    except Exception as e:
                        rep.undecided.append(f"{sc.name}: {type(e).__name__} under set order {o}")
                        ps = None
                    finally:
                        prog.set_order = 0
                    runs.append(ps)
                    if o == 0 and (ps is None or not prog.set_used):
                        break
                ps = runs[0] or []
                for p in ps:
                    rep.paths += 1
                    info["paths"] += 1
                    rep.functions |= p.stats["functions"]
                    rep.sites |= p.stats["sites"]
                    if p.kind == "stuck":
                        info["undecided"] += 1
                        rep.undecided.append(f"{sc.name}: {p.exc}")
                        continue
                    if p.kind == "cut" or not feasible(p):
                        continue
                    c09_path(rep, sc, p, part)
                    for o, alt in enumerate(runs[1:], 1):
                        rep.obls += 1
                        r = compare_orders(rep, sc, p, part, alt) if alt is not None else None
                        if r is None:
                            info["undecided"] += 1
                            rep.undecided.append(f"{sc.name} {ptext(part)}: results under another set order are not known" + ftext(p))
                        elif r:
                            info["proved"] += 1
                        else:
                            rep.violate(set_site(p) or sc.anchor, "no result depends on the iteration order of a set",
                                        f"{sc.name} {ptext(part)}: the result changes when sets are iterated over in another order" + ftext(p), sc.name)
                            break
        finally:
            prog.summaries = {}
    run.name = w.name + ", set orders"
    return run


def sets(tier):
    """operations on sets of known content"""
    res = []
    R = "reduced_tensor_product"

    def u(name, mod, fn, *args, tags=("util",)):
        def b(c):
            return [c.call(c.fn(mod, fn), *[a(c) if callable(a) else a for a in args])]
        res.append(Work(name, f"{SRC}{mod.replace('.', '/')}.py in {fn}", b, tags=set(tags), max_paths=16))

    def group(n, sgn):
        def odd(p):
            return sum(1 for i in range(n) for j in range(i) if p[j] > p[i]) % 2
        import itertools
        ps = sorted(itertools.permutations(range(n)))
        return lambda c: PySet([((-1 if sgn and odd(p) else 1), p) for p in ps], True)
    cyc = lambda c: PySet([(1, (0, 1, 2)), (1, (1, 2, 0)), (1, (2, 0, 1))], True)
    perms = lambda *ps: (lambda c: PySet(list(ps)))
    m = "discrete_groups.perm"
    for p in ((1, 0, 3, 2, 4), (1, 2, 0, 4, 3), (3, 2, 1, 0), (2, 0, 1, 5, 3, 4)):
        u(f"perm.sign{p}", m, "sign", p, tags=("perm",))
        u(f"perm.to_cycles{p}", m, "to_cycles", p, tags=("perm",))
    u("perm.germinate(2 generators)", m, "germinate", perms((1, 0, 2), (1, 2, 0)), tags=("perm",))
    u("perm.is_group(S3)", m, "is_group", perms((0, 1, 2), (1, 0, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0)), tags=("perm",))
    u("perm.is_group(not a group)", m, "is_group", perms((0, 1, 2), (1, 0, 2), (1, 2, 0)), tags=("perm",))
    u("perm.group(3)", m, "group", 3, tags=("perm",))
    for f in ("ij=ji", "ijk=jki", "ijk=-jik", "ijk=jik=ikj", "ijkl=jilk", "ij", "ba=-ab"):
        u(f"germinate_perm_repr({f})", R, "germinate_perm_repr", f)
    swap = lambda c: PySet([(1, (0, 1, 2)), (1, (1, 0, 2))], True)
    for name, g, dims in (("swap", swap, (2, 2, 3)), ("S2", group(2, False), (2, 2)), ("-S2", group(2, True), (3, 3)), ("-S3", group(3, True), (3, 3, 3)), ("C3", cyc, (2, 2, 2)), ("S3", group(3, False), (2, 2, 2))):
        def red(c, g=g, dims=dims):
            b = c.call(c.fn(R, "reduce_permutation_base"), g(c), dims)
            return [b, c.call(c.fn(R, "reduce_permutation_matrix"), b, dims)]
        res.append(Work(f"reduce_permutation_matrix({name}, {dims})", f"{SRC}{R}.py in reduce_permutation_matrix", red, tags={"util"}, max_paths=16))
        if len(dims) == 3:
            for sub in ((0, 2), (2, 1), (0, 1, 2)):
                def sg(c, g=g, dims=dims, sub=sub):
                    f = PySet(list(sub), True)
                    return [c.call(c.fn(R, "subrepr_permutation"), f, g(c)), c.call(c.fn(R, "reduce_subgroup_permutation"), f, g(c), dims)]
                res.append(Work(f"reduce_subgroup_permutation({name}, {sub})", f"{SRC}{R}.py in reduce_subgroup_permutation", sg, tags={"util"}, max_paths=16))
    for cls, s1, s2 in (("SU3", (1, 0, 0), (1, 1, 0)), ("SU3", (2, 1, 0), (1, 0, 0)), ("SU3", (2, 1, 0), (2, 1, 0)), ("SU3", (2, 2, 0), (2, 1, 0)), ("SU2_", (1, 0), (2, 0)), ("SU4", (1, 1, 0, 0), (1, 0, 0, 0)), ("SUN", (2, 0, 0), (1, 1, 0))):
        def pr(c, cls=cls, s1=s1, s2=s2):
            k = c.cls("irreps.sun", cls)
            return [c.call(c.fn("lnsa_work", "mul"), c.call(k, s1), c.call(k, s2))]
        res.append(Work(f"{cls}{s1} * {cls}{s2}", f"{SRC}irreps/sun.py in SUN.__mul__", pr, tags={"family"}, max_paths=16))
    return res + [w for w in W.work() if "rtp" in w.tags or "vmap" in w.name]


# ---------------------------------------------------------------- the syntax tree
SOURCES = ("numpy.random.", "random.", "secrets.", "uuid.", "time.", "datetime.", "os.environ", "os.getenv", "os.urandom", "os.getpid",
           "os.times", "os.cpu_count", "threading.get_ident", "threading.current_thread", "socket.", "platform.", "getpass.", "tempfile.", "sys.argv",
           "os.listdir", "os.scandir", "glob.", "scipy.stats.ortho_group", "scipy.stats.unitary_group", "scipy.stats.special_ortho_group",
           "scipy.stats.random_correlation")
SEEDED = ("numpy.random.RandomState", "numpy.random.default_rng", "numpy.random.Generator", "numpy.random.PCG64", "numpy.random.MT19937", "numpy.random.SeedSequence",
          "numpy.random.Philox", "random.Random", "time.sleep", "datetime.timedelta")
STARTED = ("scipy.sparse.linalg.eigs", "scipy.sparse.linalg.eigsh", "scipy.sparse.linalg.svds", "scipy.sparse.linalg.lobpcg", "scipy.sparse.linalg.onenormest")


def imports(tree):
    """local name -> dotted path, of every import anywhere in the module"""
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    out[a.asname] = a.name
                else:
                    out[a.name.split(".")[0]] = a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                out[a.asname or a.name] = f"{n.module}.{a.name}"
    return out


def dotted(e, names):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name) and e.id in names:
        return ".".join([names[e.id]] + parts[::-1])
    return None


def scan(prog, rep, tier=None):
    """entropy sources anywhere in the package"""
    refs = {}           # function name -> names of the functions which mention it
    found = []
    for m in prog.mods.values():
        if m.name.startswith("lnsa_"):
            continue
        names = imports(m.tree)
        parents = {c: p for p in ast.walk(m.tree) for c in ast.iter_child_nodes(p)}

        def fn_of(n):
            while n in parents:
                n = parents[n]
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = n.name
                    p = parents.get(n)
                    while p is not None and not isinstance(p, (ast.FunctionDef, ast.ClassDef)):
                        p = parents.get(p)
                    if isinstance(p, ast.FunctionDef):
                        n = p
                        q = fn_of(n.body[0])
                    return q
            return None
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Name, ast.Attribute)):
                nm = n.id if isinstance(n, ast.Name) else n.attr
                refs.setdefault(nm, set()).add((fn_of(n), m.rel))
            rep.extra["syntax_nodes_scanned"] = rep.extra.get("syntax_nodes_scanned", 0) + 1
            d = None
            if isinstance(n, (ast.Attribute, ast.Name)) and not isinstance(parents.get(n), ast.Attribute) and isinstance(getattr(n, "ctx", None), ast.Load):
                d = dotted(n, names)
            if d is None:
                if isinstance(n, ast.Name) and n.id in ("id", "hash") and isinstance(n.ctx, ast.Load) and n.id not in names and identity_matters(n, parents, m):
                    found.append((n.id + "()", m, n, fn_of(n)))
                continue
            p = parents.get(n)
            call = p if isinstance(p, ast.Call) and p.func is n else None
            if any(d == s or d.startswith(s + ".") for s in SEEDED):
                if call is None or call.args or call.keywords or d in ("time.sleep", "datetime.timedelta", "numpy.random.Generator"):
                    if call is None or not (call.args and isinstance(call.args[0], ast.Constant) and call.args[0].value is None):
                        continue
                found.append((d + "() without a seed", m, n, fn_of(n)))
            elif d in STARTED:
                if call is not None and any(k.arg in ("v0", "random_state", "rng", "X") for k in call.keywords):
                    continue
                if d.endswith("lobpcg"):
                    continue
                found.append((d + " from a random start", m, n, fn_of(n)))
            elif any(d == s.rstrip(".") and not s.endswith(".") or d.startswith(s) for s in SOURCES):
                if annotation(n, parents):
                    continue
                if d.split(".")[0] in ("os", "glob") and d.split(".")[-1] in ("listdir", "scandir", "glob", "iglob") and call is not None and \
                        isinstance(parents.get(call), ast.Call) and getattr(parents[call].func, "id", "") == "sorted":
                    continue
                found.append((d, m, n, fn_of(n)))
    ok = set(RANDOM_OK)
    changed = True
    while changed:
        changed = False
        for f in {q for _, _, _, q in found if q} | {g for us in refs.values() for g, _ in us if g}:
            if f in ok:
                continue
            us = refs.get(f, set())
            if us and all(g == f or g in ok or g == "reduce" and r.endswith("/reduce.py") for g, r in us):
                ok.add(f)
                changed = True
    for d, m, n, q in found:
        rep.obls += 1
        if q in ok or q == "reduce" and m.rel.endswith("/reduce.py"):
            continue
        rep.violate(f"{m.rel}:{n.lineno} in {q or '<module>'}", "no hidden randomness, clock, environment or identity", f"{d} is read outside the documented random functions", "scan of the syntax tree")
    rep.obls += 1


def annotation(n, parents):
    p, c = parents.get(n), n
    while p is not None and not isinstance(p, ast.stmt):
        if isinstance(p, ast.arg):
            return True
        c, p = p, parents.get(p)
    return isinstance(p, ast.AnnAssign) and p.annotation is c or isinstance(p, ast.FunctionDef) and p.returns is c


def identity_matters(n, parents, m):
    """id and hash are harmless as keys, in membership tests and in comparisons for equality"""
    q = n
    while q in parents:
        q = parents[q]
        if isinstance(q, ast.FunctionDef):
            if q.name == "__hash__":
                return False
            break
    c = parents.get(n)
    if not (isinstance(c, ast.Call) and c.func is n):
        return True             # passed on, for instance as a sort key
    p = parents.get(c)
    while isinstance(p, (ast.Tuple, ast.IfExp, ast.Set)):
        c, p = p, parents.get(p)
    if isinstance(p, ast.Compare) and all(isinstance(o, (ast.Eq, ast.NotEq, ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in p.ops):
        return False
    if isinstance(p, ast.Subscript) and p.slice is c:
        return False
    if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr in ("add", "discard", "get", "setdefault", "pop", "__contains__"):
        return False
    if isinstance(p, (ast.SetComp, ast.DictComp)) or isinstance(p, ast.Dict) and c in p.keys:
        return False
    if isinstance(p, ast.Assign):
        return False            # followed by the interpreter
    return True


FEW = [("ij=ji", {"i": "r"}), ("ij=-ji", {"i": [(1, "p"), (2, "q"), (1, "q")]})]


def fused(tier):
    """the block construction on irreps with a fixed fusion table, under each order of sets"""
    from . import v_blocks as B
    from .v_iface import _named
    out = []
    for ring, what in ((B.TWO, ""), (B.MIXED, ", irreps of different dimensions")):
        ts = [B.task_formula(f, irs, ring, what) for f, irs in B.FORMULAS + FEW] + [B.task_symm(B.QP, 2, ring, what), B.task_symm("p", 3, ring, what)] + \
            [B.task_list(s, ring, what) for s in B.LISTS[2:9:2]]
        for t in ts:
            out.append(_named(t[4] + ", set orders", lambda prog, rep, tier, t=t: fused_task(prog, rep, t, t[4] + ", set orders")))
    return out


def fused_task(prog, rep, t, name):
    from . import v_blocks as B
    info = {"scenario": name, "partition": {"dims": str(t[3][0])}, "paths": 0, "proved": 0, "undecided": 0}
    rep.scen.append(info)
    got = []
    prog.set_used = False
    for o in (0, 1, 2):
        prog.set_order = o
        try:
            ps, model, state = timed(60, lambda: B.paths(prog, t, (2,)))
        except Exception as e:
            ps = []
            rep.undecided.append(f"{name}: {type(e).__name__} under set order {o}")
        finally:
            prog.set_order = 0
        info["paths"] += len(ps)
        rep.paths += len(ps)
        x = None
        if len(ps) == 1 and ps[0].kind in ("return", "raise"):
            p = ps[0]
            rep.functions |= p.stats["functions"]
            rep.sites |= p.stats["sites"]
            x = ("raise", p.exc.name) if p.kind == "raise" else fused_print(p.value)
        got.append((x, set_site(ps[0]) if ps else None))
        if o == 0 and not prog.set_used:
            break
    rep.obls += 1
    if any(x is None for x, _ in got):
        info["undecided"] += 1
        rep.undecided.append(f"{name}: results under another set order are not known")
    elif any(x != got[0][0] for x, _ in got):
        rep.violate(got[0][1] or B.WHERE + t[0], "no result depends on the iteration order of a set", f"{name}: the result changes when sets are iterated over in another order", name)
    else:
        info["proved"] += 1


def fused_print(r):
    try:
        pt = T.Point(5, {}, leaf_fn=None)
        return tuple(map(str, r["irreps"])), tuple((v.shape, v.re.tobytes(), v.imz().tobytes()) for v in [pt.val(x.node, {}) for x in r["list"] + [r["array"]]])
    except Exception:
        return None


def c09(tier):
    return [scan] + [orders_task(w) for w in sets(tier)] + fused(tier) + \
        [W.scenario(w, None, on_path=c09_path, raise_ok=lambda p: True, prefix=True) for w in W.work() if "rtp" not in w.tags]
