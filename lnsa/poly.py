"""Symbolic integers: polynomials with Gaussian-rational coefficients over hashable atoms.

An atom is a tuple whose first item names its kind:
  ('sym', name)            a size or label parameter, a non-negative integer unless declared otherwise
  ('ix', id)               the value of an index variable
  ('bound', level)         variable bound by the enclosing psum/tsum
  ('app', f, args...)      value of a pure function the analysis leaves uninterpreted
  ('abs', p) ('sqrt', p) ('inv', p) ('floordiv', a, b) ('mod', a, b) ('pow', b, e) ('max',a,b) ('min',a,b)
  ('tsum', n, dom, body)   sum over all elements of a list,  ('psum', upto, dom, body) over the preceding ones
"""
from fractions import Fraction

_rk = {}


def akey(a):
    k = _rk.get(a)
    if k is None:
        k = _rk[a] = repr(a)
    return k


def _cmul(x, y):
    return (x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])


F0, F1 = Fraction(0), Fraction(1)


class Poly:
    __slots__ = ("t", "_h", "_r")

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c[0] or c[1]}
        self._h = None
        self._r = None

    # -- construction
    @staticmethod
    def const(re, im=0):
        return Poly({(): (Fraction(re), Fraction(im))})

    @staticmethod
    def atom(a, e=1):
        return Poly({((a, e),): (F1, F0)})

    # -- structure
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def items(self):
        return sorted(self.t.items(), key=lambda mc: repr_mono(mc[0]))

    def __repr__(self):
        if self._r is None:
            if not self.t:
                self._r = "0"
            else:
                out = []
                for m, (re, im) in self.items():
                    c = str(re) if not im else (f"{im}j" if not re else f"({re}+{im}j)")
                    s = repr_mono(m)
                    out.append(c if not m else (s if c == "1" else ("-" + s if c == "-1" else c + "*" + s)))
                self._r = "+".join(out).replace("+-", "-")
        return self._r

    def is_zero(self):
        return not self.t

    def as_const(self):
        """(re, im) if constant else None"""
        if not self.t:
            return (F0, F0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def as_frac(self):
        c = self.as_const()
        return c[0] if c is not None and not c[1] else None

    def as_int(self):
        c = self.as_frac()
        return int(c) if c is not None and c.denominator == 1 else None

    def as_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == (F1, F0) and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        t = dict(self.t)
        for m, c in o.t.items():
            d = t.get(m)
            t[m] = c if d is None else (c[0] + d[0], c[1] + d[1])
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: (-c[0], -c[1]) for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                extra, m = mono_mul(m1, m2)
                c = _cmul(c1, c2)
                if extra is not None:
                    for m3, c3 in (Poly({m: c}) * extra).t.items():
                        d = t.get(m3)
                        t[m3] = c3 if d is None else (c3[0] + d[0], c3[1] + d[1])
                    continue
                d = t.get(m)
                t[m] = c if d is None else (c[0] + d[0], c[1] + d[1])
        return Poly(t)

    __rmul__ = __mul__

    def __pow__(self, n):
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def inverse(self):
        """1/self"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            n2 = c[0] * c[0] + c[1] * c[1]
            return Poly({tuple((a, -e) for a, e in m): (c[0] / n2, -c[1] / n2)})
        if not self.t:
            return None
        return Poly.atom(("inv", self))

    def conj(self):
        t = {}
        for m, c in self.t.items():
            t[m] = (c[0], -c[1])
        return Poly(t)

    def real(self):
        return Poly({m: (c[0], F0) for m, c in self.t.items()})

    def imag(self):
        return Poly({m: (c[1], F0) for m, c in self.t.items()})

    def divexact(self, o):
        """self / o when o is a monomial dividing self (or self is a multiple of o); None otherwise"""
        o = P(o)
        if o.is_zero():
            return None
        if self.is_zero():
            return ZERO
        if len(o.t) == 1:
            q = self * o.inverse()
            if all(e > 0 or akind(a) in ("pow",) for m in q.t for a, e in m):
                return q
            # allow negative powers already present
            neg0 = {a for m in self.t for a, e in m if e < 0}
            if all(e > 0 or a in neg0 for m in q.t for a, e in m):
                return q
            return None
        # univariate-style division on leading monomials
        rem, q = self, ZERO
        lo = max(o.t.items(), key=lambda mc: (mono_deg(mc[0]), repr_mono(mc[0])))
        for _ in range(30):
            if rem.is_zero():
                return q
            lr = max(rem.t.items(), key=lambda mc: (mono_deg(mc[0]), repr_mono(mc[0])))
            t = Poly({lr[0]: lr[1]}) * Poly({lo[0]: lo[1]}).inverse()
            if any(e < 0 for m in t.t for a, e in m):
                return None
            q = q + t
            rem = rem - t * o
        return None


def akind(a):
    return a[0] if isinstance(a, tuple) else ""


def mono_deg(m):
    return sum(e for _, e in m)


_rm = {}


def repr_mono(m):
    r = _rm.get(m)
    if r is None:
        r = _rm[m] = "*".join((show(a) if e == 1 else f"{show(a)}^{e}") for a, e in m)
    return r


def show(a):
    if not isinstance(a, tuple) or not a:
        return repr(a)
    k = a[0]
    if k == "sym":
        return str(a[1])
    if k == "ix":
        return f"i{a[1]}"
    return str(k) + "(" + ",".join(show(x) if isinstance(x, tuple) else str(x) for x in a[1:]) + ")"


def mono_mul(m1, m2):
    d = dict(m1)
    extra = None
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    for a in list(d):
        k = akind(a)
        if k == "sqrt" and abs(d[a]) >= 2:
            h, r = divmod(d[a], 2) if d[a] > 0 else (-((-d[a]) // 2), -((-d[a]) % 2))
            d[a] = r
            base = a[1]
            x = base ** h if h > 0 else (base ** (-h)).inverse()
            extra = x if extra is None else extra * x
        elif k == "sign" and d[a] >= 2:      # sign^2 = 1
            d[a] %= 2
        elif k == "pow" and a[1].as_const() == (Fraction(-1), F0) and abs(d[a]) >= 1:
            d[a] %= 2
    return extra, tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: akey(ae[0])))


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return Poly.const(int(x))
    if isinstance(x, (int, Fraction)):
        return Poly.const(x)
    if isinstance(x, float):
        return Poly.const(Fraction(x).limit_denominator(10 ** 12) if abs(x) < 1e9 else Fraction(x))
    if isinstance(x, complex):
        return Poly.const(Fraction(x.real).limit_denominator(10 ** 12), Fraction(x.imag).limit_denominator(10 ** 12))
    raise TypeError(x)


ZERO = Poly({})
ONE = Poly.const(1)


def sym(name):
    return Poly.atom(("sym", name))


# ------------------------------------------------------------------ generic substitution
def subst(o, m):
    """Replace atoms (by Poly) or other sub-objects in polys / tuples; m: dict"""
    if isinstance(o, Poly):
        if not o.t:
            return o
        changed = False
        res = ZERO
        for mono, c in o.t.items():
            term = None
            for a, e in mono:
                na = subst_atom(a, m)
                if na is not a:
                    changed = True
                    if term is None:
                        term = []
                if term is not None:
                    pass
            if term is None:
                res = res + Poly({mono: c})
            else:
                t = Poly({(): c})
                for a, e in mono:
                    na = subst_atom(a, m)
                    p = na if isinstance(na, Poly) else Poly.atom(na)
                    if e > 0:
                        t = t * p ** e
                    else:
                        ip = p.inverse()
                        if ip is None:
                            return Poly.atom(("app", "undef"))
                        t = t * ip ** (-e)
                res = res + t
        return res if changed else o
    if isinstance(o, tuple):
        if o in m:
            r = m[o]
            return r
        n = tuple(subst(x, m) for x in o)
        if all(x is y for x, y in zip(n, o)):
            return o
        return n
    return o


def subst_atom(a, m):
    if a in m:
        return m[a]
    if not isinstance(a, tuple):
        return a
    k = a[0]
    if k in ("sym", "ix", "bound"):
        return a
    n = tuple(subst(x, m) for x in a)
    if all(x is y for x, y in zip(n, a)):
        return a
    # re-normalise interpreted atoms
    if k == "abs":
        return mk_abs(n[1])
    if k == "sqrt":
        return mk_sqrt(n[1])
    if k == "inv":
        r = n[1].inverse()
        return r if r is not None else Poly.atom(("app", "undef"))
    if k == "tsum":
        return tsum_raw(n[1], n[2], n[3])
    if k == "psum":
        return psum_raw(n[1], n[2], n[3])
    if k == "floordiv":
        return mk_floordiv(n[1], n[2])
    if k == "mod":
        return mk_mod(n[1], n[2])
    if k == "pow":
        return mk_pow(n[1], n[2])
    if k in ("max", "min"):
        return mk_minmax(k, n[1], n[2])
    return n


def mentions(o, a):
    """does object o mention atom/sub-object a"""
    if o == a and type(o) is type(a):
        return True
    if isinstance(o, Poly):
        return any(mentions(x, a) for mono in o.t for x, _ in mono)
    if isinstance(o, tuple):
        return any(mentions(x, a) for x in o)
    return False


def walk_atoms(o, out=None):
    """all atoms (deep)"""
    if out is None:
        out = set()
    if isinstance(o, Poly):
        for mono in o.t:
            for a, _ in mono:
                if a not in out:
                    out.add(a)
                    walk_atoms(a, out)
    elif isinstance(o, tuple):
        for x in o:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                out.add(x)
            walk_atoms(x, out)
    return out


# ------------------------------------------------------------------ knowledge about signs
class Know:
    """what is known on the current path: lower bounds of symbols, non-negative polynomials, substitutions"""

    def __init__(self):
        self.lower = {}       # atom -> int lower bound (default for sym/ix/dim: 0)
        self.nonneg = []      # polys known >= 0
        self.nonzero = []     # polys known != 0
        self.sub = {}         # atom -> Poly
        self.kind = {}        # atom -> 'int' | 'half' | 'real'

    def copy(self):
        k = Know()
        k.lower = dict(self.lower)
        k.nonneg = list(self.nonneg)
        k.nonzero = list(self.nonzero)
        k.sub = dict(self.sub)
        k.kind = dict(self.kind)
        return k


KNOW = Know()


def set_know(k):
    global KNOW
    KNOW = k


def know():
    return KNOW


def N(p):
    """normalise under the path's substitutions"""
    p = P(p)
    for _ in range(6):
        if not KNOW.sub:
            return p
        q = subst(p, KNOW.sub)
        if q == p:
            return p
        p = q
    return p


def atom_lower(a):
    if a in KNOW.lower:
        return KNOW.lower[a]
    k = akind(a)
    if k == "sym":
        return 0
    if k in ("ix", "bound"):
        return 0
    if k == "sqrt":
        f = a[1].as_frac() if isinstance(a[1], Poly) else None
        if f is not None and f > 0:
            from math import isqrt
            return Fraction(isqrt(f.numerator * 10**8), isqrt(f.denominator * 10**8) + 1)
        return 0
    if k == "abs":
        return 0
    if k == "app" and a[1] in ("dim", "liedim", "ndisc", "paths", "len", "mulsym"):
        return 0
    if k in ("tsum", "psum") and sign_nonneg(a[3]):
        return 0
    if k == "mod":
        return 0
    if k == "floordiv" and sign_nonneg(a[1]) and sign_nonneg(a[2]):
        return 0
    if k in ("max",):
        return 0 if sign_nonneg(a[1]) or sign_nonneg(a[2]) else None
    return None


def _shift_lower(p):
    """rewrite atoms with positive lower bounds a = lb + a'"""
    m = {}
    for a in p.atoms():
        lb = atom_lower(a)
        if lb:
            m[a] = Poly.atom(("ge0", a)) + lb
    return subst(p, m) if m else p


def sign_nonneg(p):
    """True if p >= 0 is evident"""
    p = _shift_lower(N(p))
    for mono, c in p.t.items():
        if c[1] or c[0] < 0:
            return False
        for a, e in mono:
            if e % 2 == 0:
                continue
            if akind(a) == "ge0":
                continue
            lb = atom_lower(a)
            if lb is None or lb < 0:
                return False
    return True


def nonneg(p, depth=2):
    p = N(p)
    if sign_nonneg(p):
        return True
    if depth:
        for f in KNOW.nonneg:
            f = N(f)
            # subtract a positive multiple of a known non-negative quantity sharing a monomial
            d = p - f
            if len(d.t) <= len(p.t) + 1 and nonneg(d, depth - 1):
                return True
    return False


def positive(p):
    p = N(p)
    if nonneg(p - 1):
        return True
    q = _shift_lower(p)
    c = q.t.get(())
    if c is not None and c[0] > 0 and not c[1] and sign_nonneg(q):
        return True
    if nonneg(p) and any(N(z) == p or N(z) == -p for z in KNOW.nonzero):
        return True
    # product of positive things
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c[0] > 0 and not c[1] and m and all(
            (atom_lower(a) or 0) >= 1 or any(N(z) == Poly.atom(a) for z in KNOW.nonzero) for a, _ in m
        ):
            return True
    return False


def is_intvalued(p):
    """True/False/None"""
    p = N(p)
    ok = True
    const = None
    for mono, c in p.t.items():
        if c[1]:
            return False
        if not mono:
            const = c[0]
            continue
        if c[0].denominator != 1:
            ok = False
        for a, e in mono:
            if e < 0 or not atom_int(a):
                ok = False
    if ok:
        return const is None or const.denominator == 1
    return None


def atom_int(a):
    if a in KNOW.kind:
        return KNOW.kind[a] == "int"
    k = akind(a)
    if k in ("sym", "ix", "bound", "floordiv", "ge0"):
        return True
    if k == "ufn":
        return a[1] in ("trunc", "round", "int")
    if k == "app":
        return a[1] in ("dim", "liedim", "ndisc", "paths", "len", "int")
    if k == "abs":
        return is_intvalued(a[1])
    if k in ("tsum", "psum"):
        return is_intvalued(a[3])
    if k == "mod":
        return is_intvalued(a[1]) and is_intvalued(a[2])
    if k == "pow":
        return a[1].as_int() is not None
    if k in ("max", "min"):
        return is_intvalued(a[1]) and is_intvalued(a[2])
    return False


def cmp(op, a, b):
    """decide a op b: True / False / None"""
    a, b = N(a), N(b)
    d = a - b
    if op in ("==", "!="):
        c = d.as_const()
        if c is not None:
            r = c == (F0, F0)
        elif positive(d) or positive(-d) or any(N(z) == d or N(z) == -d for z in KNOW.nonzero):
            r = False
        else:
            # integer parity style contradiction: const non-integer while rest integer-valued
            cc = d.t.get(())
            if cc is not None and cc[0].denominator != 1 and is_intvalued(d - Poly.const(cc[0], cc[1])):
                r = False
            else:
                return None
        return r if op == "==" else not r
    if op == ">=":
        if nonneg(d):
            return True
        if positive(-d):
            return False
        return None
    if op == ">":
        if positive(d):
            return True
        if nonneg(-d):
            return False
        return None
    if op == "<=":
        return cmp(">=", b, a)
    if op == "<":
        return cmp(">", b, a)
    return None


# ------------------------------------------------------------------ interpreted functions
def mk_abs(p):
    p = N(p)
    c = p.as_frac()
    if c is not None:
        return P(abs(c))
    if nonneg(p):
        return p
    if nonneg(-p):
        return -p
    # sign-canonical, rational content factored out
    items = p.items()
    from math import gcd
    num, den = 0, 1
    for _, (re, im) in items:
        if im:
            return Poly.atom(("abs", p))
        num = gcd(num, abs(re.numerator))
        den = den * re.denominator // gcd(den, re.denominator)
    g = Fraction(num, den)
    q = p * P(1 / g)
    if q.items()[0][1][0] < 0:
        q = -q
    return Poly.atom(("abs", q)) * P(g)


def mk_sqrt(p):
    p = N(p)
    c = p.as_frac()
    if c is not None and c >= 0:
        from math import isqrt
        n, d = isqrt(c.numerator), isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return P(Fraction(n, d))
        return Poly.atom(("sqrt", p))
    if len(p.t) == 1:
        (m, cc), = p.t.items()
        if cc == (F1, F0) and all(e % 2 == 0 and (atom_lower(a) or -1) >= 0 for a, e in m):
            return Poly({tuple((a, e // 2) for a, e in m): cc})
    return Poly.atom(("sqrt", p))


def mk_floordiv(a, b):
    a, b = N(a), N(b)
    if b.as_frac() == 1 and is_intvalued(a):
        return a
    fa, fb = a.as_frac(), b.as_frac()
    if fa is not None and fb:
        return P(fa // fb)
    if fb:
        q = a * P(1 / fb)
        if is_intvalued(q):
            return q
    q = a.divexact(b) if not fb else None
    if q is not None and is_intvalued(q):
        return q
    if fb and fb == 2:
        # k(k-1)/2 style: product of consecutive integers is even
        q = a * P(Fraction(1, 2))
        if even_product(a):
            return q
    return Poly.atom(("floordiv", a, b))


def even_product(p):
    """is integer polynomial p even for all integer values: check on residues mod 2"""
    at = list(p.atoms())
    if len(at) > 4 or not is_intvalued(p):
        return False
    import itertools
    for vals in itertools.product((0, 1), repeat=len(at)):
        v = F0
        for m, c in p.t.items():
            t = c[0]
            for a, e in m:
                if e < 0:
                    return False
                t *= vals[at.index(a)] ** e
            v += t
        if v.denominator != 1 or v % 2:
            return False
    return True


def mk_mod(a, b):
    a, b = N(a), N(b)
    fa, fb = a.as_frac(), b.as_frac()
    if fa is not None and fb:
        return P(fa % fb)
    if fb and fb.denominator == 1 and is_intvalued(a):
        if fb == 2:
            # reduce coefficients mod 2
            t = {}
            integral = all(c[0].denominator == 1 and not c[1] for c in a.t.values())
            if integral:
                r = Poly({m: (Fraction(c[0] % 2), F0) for m, c in a.t.items()})
                if r.as_frac() is not None:
                    return P(r.as_frac() % 2)
                if even_product(r):
                    return ZERO
                if even_product(r + 1):
                    return ONE
                return Poly.atom(("mod", r, b))
            if even_product(a):
                return ZERO
    return Poly.atom(("mod", a, b))


def mk_pow(b, e):
    b, e = N(b), N(e)
    n = e.as_int()
    if n is not None:
        if n >= 0 and n <= 12:
            return b ** n
        if n < 0 and n >= -12:
            i = b.inverse()
            if i is not None:
                return i ** (-n)
    f = e.as_frac()
    if f == Fraction(1, 2):
        return mk_sqrt(b)
    if b.as_frac() == 1:
        return ONE
    if b.as_frac() == -1 and is_intvalued(e):
        m = mk_mod(e, P(2))
        if m.as_int() == 0:
            return ONE
        if m.as_int() == 1:
            return P(-1)
        at = m.as_atom()
        ee = at[1] if at is not None and akind(at) == "mod" else e
        # pull constant sign out
        c = ee.t.get((), (F0, F0))[0]
        if c:
            r = Poly.atom(("pow", P(-1), ee - P(c)))
            return -r if c % 2 else r
        return Poly.atom(("pow", P(-1), ee))
    return Poly.atom(("pow", b, e))


def mk_minmax(k, a, b):
    a, b = N(a), N(b)
    c = cmp(">=", a, b)
    if c is True:
        return a if k == "max" else b
    c2 = cmp(">=", b, a)
    if c2 is True:
        return b if k == "max" else a
    if akey(repr(a)) > akey(repr(b)):
        a, b = b, a
    return Poly.atom((k, a, b))


# ------------------------------------------------------------------ sums over lists
def _max_level(o):
    if isinstance(o, Poly):
        return max([0] + [_max_level(a) for m in o.t for a, _ in m])
    if isinstance(o, tuple):
        if o and o[0] == "bound":
            return o[1]
        return max([0] + [_max_level(x) for x in o])
    return 0


def _faulhaber(k, n):
    """sum_{x=0}^{n-1} x^k"""
    n = P(n)
    if k == 0:
        return n
    if k == 1:
        return n * (n - 1) * P(Fraction(1, 2))
    if k == 2:
        return (n - 1) * n * (2 * n - 1) * P(Fraction(1, 6))
    if k == 3:
        s = n * (n - 1) * P(Fraction(1, 2))
        return s * s
    return None


IDENT = {}   # (dom, canonical repr of body) -> Poly total ; filled by the models


def _sum(kind, upto, dom, body, lvl):
    """body is over ('bound', lvl)"""
    bnd = ("bound", lvl)
    if kind == "tsum" and dom is not None:
        f = IDENT.get(dom[0] if isinstance(dom, tuple) else dom)
        if f is not None:
            r = f(dom, body, bnd)
            if r is not None:
                return r
    total = ZERO
    for mono, c in body.t.items():
        dep, ind = [], []
        for a, e in mono:
            (dep if mentions(a, bnd) else ind).append((a, e))
        indp = Poly({tuple(ind): c})
        if not dep:
            total = total + indp * upto
            continue
        if len(dep) == 1 and dep[0][0] == bnd and dep[0][1] > 0:
            f = _faulhaber(dep[0][1], upto)
            if f is not None:
                total = total + indp * f
                continue
        depp = Poly({tuple(dep): (F1, F0)})
        if kind == "tsum" and dom is not None:
            f = IDENT.get(dom[0] if isinstance(dom, tuple) else dom)
            if f is not None:
                r = f(dom, depp, bnd)
                if r is not None:
                    total = total + indp * r
                    continue
        # rename bound level to minimal
        inner = 0
        for a, _ in dep:
            for x in walk_atoms(a):
                if x[0] == "bound" and x != bnd:
                    inner = max(inner, x[1])
        total = total + indp * Poly.atom((kind, upto, dom, depp))
    return total


def tsum_raw(n, dom, body):
    u = P(n)
    if u.is_zero():
        return ZERO
    return _sum("tsum", u, dom, body, _lvl_of(body))


def psum_raw(upto, dom, body):
    u = P(upto)
    if u.is_zero():
        return ZERO
    return _sum("psum", u, dom, body, _lvl_of(body))


def _lvl_of(body):
    # the bound variable of this sum is the maximal level in its body
    return max(1, _max_level(body))


def over(ixatom, body):
    """abstract ixatom in body as a bound variable; returns body over ('bound', lvl)"""
    lvl = _max_level_bindings(body) + 1
    return subst(P(body), {ixatom: Poly.atom(("bound", lvl))}), lvl


def _max_level_bindings(o):
    return _max_level(o)


def tsum(ixatom, n, dom, body):
    n = N(n)
    b, lvl = over(ixatom, N(body))
    if n.is_zero():
        return ZERO
    return _sum("tsum", n, dom, b, lvl)


def psum(ixatom, upto, dom, body):
    b, lvl = over(ixatom, N(body))
    u = P(upto)
    if u.is_zero():
        return ZERO
    return _sum("psum", u, dom, b, lvl)
