"""C16: what from_string makes of a string.  from_string is summarised once for an arbitrary string (conditions and results are expressions
over it: stripped, matched, split, converted); the partition is then read as a decision table at strings of the label grammar and at their
neighbours, which are one character away from it."""
import itertools
import re

from . import table as TB
from . import tens as T
from .poly import P, Poly
from .table import Refuse, Undef, table, value
from .v_family import _named, note, SRC
from .values import *

BAD = (Undef, T.Undefined, T.Stuck)
RULE16 = ("from_string as summarised from the source accepts exactly the strings of the label grammar (with blanks around them) and gives the "
          "labels and multiplicities written, in the order written")
REJECT = "rejected"


class Lab:
    def __init__(self, mod, cls, fields, pat, get, valid, samples, sep=None, chars="0e1x"):
        self.mod, self.cls, self.fields, self.pat, self.get, self.valid, self.samples, self.sep, self.chars = mod, cls, fields, pat, get, valid, samples, sep, chars

    def read(self, s):
        """the labels which the string names, REJECT, or None when the documentation leaves it open"""
        t = s.strip()
        m = re.fullmatch(self.pat, t)
        if m is None:
            if re.search(r"\d\s+\d", t):
                return REJECT
            if re.search(r"[\s_+]", t) or re.search(r"-0", t):
                return None
            return REJECT
        v = self.get(m)
        return v if self.valid(*v) else REJECT

    def labels(self, o):
        if not isinstance(o, tuple) or o[0] != self.cls:
            return None
        d = dict(o[1:])
        return tuple(d[f] for f in self.fields)


def one(m):
    return (int(m.group(1)),)


def two(m):
    return (int(m.group(1)), int(m.group(2)))


def weights(m):
    return (tuple(int(x) for x in m.group(1).split(",")),)


def down(n=None):
    return lambda S: all(a >= b for a, b in zip(S, S[1:])) and S[-1] == 0 and (n is None or len(S) == n)


PAIR, LIST = r"\((\d+),(\d+)\)", r"\((\d+(?:,\d+)*)\)"
SIGN = {"e": 1, "o": -1}
LABS = [
    Lab("irreps.su2", "SU2", ["j"], r"(\d+)", one, lambda j: True, ["0", "1", "2", "7", "10", "137"]),
    Lab("irreps.so3_real", "SO3", ["l"], r"(\d+)", one, lambda l: True, ["0", "1", "2", "7", "10", "137"]),
    Lab("irreps.o3_real", "O3", ["l", "p"], r"(\d+)([eo])", lambda m: (int(m.group(1)), SIGN[m.group(2)]), lambda l, p: True,
        ["0e", "0o", "1e", "1o", "2o", "10e", "34o"], chars="0eo1EO"),
    Lab("irreps.z2", "Z2", ["p"], r"([eo])", lambda m: (SIGN[m.group(1)],), lambda p: True, ["e", "o"], chars="eoEO01"),
    Lab("irreps.sl2c", "SL2C", ["l", "k"], PAIR, two, lambda l, k: True, ["(0,0)", "(1,0)", "(0,1)", "(2,5)", "(12,3)", "(4,10)"], chars="(),012"),
    Lab("irreps.so13", "SO13", ["l", "k"], PAIR, two, lambda l, k: (l + k) % 2 == 0, ["(0,0)", "(2,0)", "(0,2)", "(1,3)", "(12,4)", "(4,10)", "(1,0)"], chars="(),012"),
    Lab("irreps.sun", "SUN", ["S"], LIST, weights, down(), ["(0)", "(1,0)", "(2,1,0)", "(3,3,0)", "(12,10,0)", "(3,2,2,0)", "(1,1)", "(0,1,0)"], sep=",", chars="(),01"),
    Lab("irreps.sun", "SU2_", ["S"], LIST, weights, down(2), ["(0,0)", "(1,0)", "(12,0)", "(0)", "(1,0,0)"], sep=",", chars="(),01"),
    Lab("irreps.sun", "SU3", ["S"], LIST, weights, down(3), ["(0,0,0)", "(1,0,0)", "(2,1,0)", "(11,10,0)", "(1,0)", "(1,1,1,0)"], sep=",", chars="(),01"),
    Lab("irreps.sun", "SU4", ["S"], LIST, weights, down(4), ["(0,0,0,0)", "(3,2,1,0)", "(12,10,9,0)", "(1,0,0)"], sep=",", chars="(),01"),
]
BYNAME = {l.cls: l for l in LABS}
BLANKS = [("", ""), (" ", ""), ("", " "), ("  ", "\t"), ("", "\n")]


def near(s, chars):
    """strings one edit away"""
    for i in range(len(s) + 1):
        for ch in chars:
            yield s[:i] + ch + s[i:]
        if i < len(s):
            yield s[:i] + s[i + 1:]
            for ch in chars:
                yield s[:i] + ch + s[i + 1:]


def strings(lab, tier):
    out = {"": None, " ": None}
    for s in lab.samples:
        for a, b in BLANKS:
            out[a + s + b] = None
    few = lab.samples if tier == "thorough" else lab.samples[:6]
    for s in few:
        for t in near(s, lab.chars + "x+-.[;a" if tier == "thorough" else lab.chars + "x-."):
            out[t] = None
        for t in near(s, " "):
            out[t] = None
        out[s + s] = out[s + "," + s] = out[s + " " + s] = out["-" + s] = None
    return list(out)


def text(v):
    return repr(v) if v == REJECT else str(v)


class Parser:
    """the decision tables of one parser: one for each number of parts the string is split into"""

    def __init__(self, prog, rep, name, build, splits):
        self.tabs = []
        self.name = name
        for combo in splits:
            def b(c, combo=combo):
                c.I.prog.model.splits = dict(combo)
                return build(c)
            self.tabs.append((dict(combo), table(prog, rep, f"{name}" + "".join(f" [{k} {n}]" for k, n in combo), b, max_paths=160, seconds=90)))

    def at(self, s):
        """REJECT, or the value; Undef when the tables do not tell"""
        got, open_, within = [], False, False
        for combo, t in self.tabs:
            outside = False
            env = {"$string": s}
            pt = TB.point(env)
            for r in t.rows:
                fs = []
                for c, v, _ in r.facts:
                    fs.append(TB.fact(c, v, pt))
                    if fs[-1] is False:
                        break
                if False in fs:
                    if "partition" in c.deps:       # the string has another number of parts than this table is about
                        outside = True
                    continue
                if None in fs or r.kind in ("stuck", "cut"):
                    open_ = True
                elif r.kind == "return":
                    try:
                        got.append(value(r.value, pt))
                    except Refuse:
                        pass
                    except BAD:
                        open_ = True
            if not t.complete:
                open_ = True
            within |= not outside
        if any(g != got[0] for g in got[1:]):
            raise Undef("paths overlap")
        if got:
            return got[0]
        if open_ or not within:
            raise Undef("no unique path")
        return REJECT


def judge(rep, where, parser, cases, norm, what):
    n = ok = und = 0
    why = ""
    for s, exp in cases:
        if exp is None:
            continue
        n += 1
        try:
            got = parser.at(s)
            if got is not REJECT:
                got = norm(got)
        except BAD as e:
            und += 1
            why = f"{s!r}: {e}"
            continue
        if got == exp:
            ok += 1
        else:
            rep.violate(where, RULE16, f"{what} {s!r} is {'rejected' if got is REJECT else 'read as ' + str(got)} instead of {'being rejected' if exp is REJECT else 'being read as ' + str(exp)}",
                        parser.name)
    note(rep, n, ok)
    if und:
        rep.undecided.append(f"{parser.name}: {und} of {n} strings undecided ({why})")


def c16(tier):
    out = [_named(f"{l.cls}.from_string", lambda prog, rep, tier, l=l: c16_label(prog, rep, l, tier)) for l in LABS]
    for n in ("SU2", "O3", "Z2", "SL2C"):
        out.append(_named(f"MulIrrep.from_string of {n}", lambda prog, rep, tier, n=n: c16_mul(prog, rep, BYNAME[n], tier)))
        out.append(_named(f"ReducedRep.from_string of {n}", lambda prog, rep, tier, n=n: c16_reduced(prog, rep, BYNAME[n], tier)))
    return out


def arg():
    return StrV("in", ("s",))


def counts(lab, hi):
    return [(("*", k),) for k in range(1, 4)] if lab.sep is None else [((lab.sep, k), ("*", min(k, 3))) for k in range(1, hi + 1)]


def c16_label(prog, rep, lab, tier):
    def build(c):
        return c.call(c.I.getattr(c.cls(lab.mod, lab.cls), "from_string"), arg())
    ps = Parser(prog, rep, lab.cls + ".from_string", build, counts(lab, 9))
    cases = [(s, lab.read(s)) for s in strings(lab, tier)]
    judge(rep, f"{SRC}{lab.mod.replace('.', '/')}.py in {lab.cls}.from_string", ps, cases,
          lambda g: lab.labels(g) if lab.labels(g) is not None else g, f"the string of a {lab.cls} label")


def read_mul(lab, s):
    """(multiplicity, labels)"""
    if s.count("x") == 0:
        r = lab.read(s)
        return r if r in (REJECT, None) else (1, r)
    if s.count("x") > 1:
        return REJECT
    m, t = s.split("x")
    r = lab.read(t)
    if re.fullmatch(r"\s*\d+\s*", m) is None:
        return None if re.search(r"\d", m) and re.search(r"[\s_+-]", m) and r != REJECT else REJECT
    return r if r in (REJECT, None) else (int(m), r)


def mul_of(lab):
    def norm(g):
        if not isinstance(g, tuple) or g[0] != "MulIrrep":
            return g
        d = dict(g[1:])
        if "mul" not in d or "rep" not in d:
            raise Undef("fields of MulIrrep")
        r = lab.labels(d["rep"])
        return (d["mul"], r if r is not None else d["rep"])
    return norm


def c16_mul(prog, rep, lab, tier):
    def build(c):
        return c.call(c.I.getattr(c.cls("reduced_rep", "MulIrrep"), "from_string"), arg(), c.cls(lab.mod, lab.cls))
    ps = Parser(prog, rep, f"MulIrrep.from_string of {lab.cls}", build,
                [x + (("*", k),) for k in (1, 2, 3) for x in ([()] if lab.sep is None else [((lab.sep, j),) for j in range(1, 5)])])
    ss = {}
    good = [s for s in lab.samples if lab.read(s) not in (REJECT, None)][:4]
    for s in good:
        for m in ("", "0x", "1x", "2x", "3x", "12x"):
            for a, b in BLANKS:
                ss[a + m + s + b] = None
        for t in near("2x" + s, "x0."):
            ss[t] = None
        for t in ("x" + s, s + "x", "2x3x" + s, "2x?x" + s, "2xx3x" + s, s + "x2", "2xx" + s, "2" + "X" + s, "2*" + s, "1.5x" + s, "ax" + s, "2x", "x"):
            ss[t] = None
    judge(rep, f"{SRC}reduced_rep.py in MulIrrep.from_string", ps, [(s, read_mul(lab, s)) for s in ss], mul_of(lab), "the term")


def read_sum(lab, s):
    out = []
    for t in s.split("+"):
        r = read_mul(lab, t)
        if r is REJECT:
            return REJECT
        out.append(r)
    return None if None in out else tuple(out)


def c16_reduced(prog, rep, lab, tier):
    from .poly import sym
    top = 4 if tier == "thorough" else 3

    def build(c):
        return c.call(c.I.getattr(c.cls("reduced_rep", "ReducedRep"), "from_string"), arg(), c.cls(lab.mod, lab.cls))
    combos = []
    for k in range(1, top + 1):
        combos += [(("+", k),) + j + x for j in ([(("x", i),) for i in (1, 2, 3)] if k == 1 else [()]) for x in ([()] if lab.sep is None else [((lab.sep, j),) for j in (2, 3, 4)])]
    ps = Parser(prog, rep, f"ReducedRep.from_string of {lab.cls}", build, combos)
    norm1 = mul_of(lab)

    def norm(g):
        if not isinstance(g, tuple) or g[0] != "ReducedRep":
            return g
        d = dict(g[1:])
        if "irreps" not in d:
            raise Undef("fields of ReducedRep")
        return tuple(norm1(x) for x in d["irreps"])
    good = [s for s in lab.samples if lab.read(s) not in (REJECT, None)][:3]
    terms = [m + s for s in good for m in ("", "0x", "2x", "11x")]
    ss = {}
    for t in terms:
        for a, b in BLANKS:
            ss[a + t + b] = None
    for t, u in itertools.product(terms, terms):
        ss[t + "+" + u] = None
        if t != u and t[0] != u[0]:
            ss[t + " + " + u] = ss[" " + t + "+" + u + "\n"] = None
    for t, u, v in itertools.product(terms[::2], terms[1::2], terms[::2]):
        ss[t + "+" + u + "+" + v] = None
    for t, u in itertools.product(terms[:6:2], terms[1:6:2]):
        for z in ("+" + t, t + "+", t + "++" + u, t + u if lab.cls != "SU2" else t + "x" + u, t + "-" + u, t + "," + u, t + "+x" + u, t + "+2x", "2x+" + u, "+", t + "+" + u + "+", t + "+" + u + "a"):
            ss[z] = None
    cases = [(s, read_sum(lab, s)) for s in ss if s.count("+") < top]
    judge(rep, f"{SRC}reduced_rep.py in ReducedRep.from_string", ps, cases, norm, "the formula")
