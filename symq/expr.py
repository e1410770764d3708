"""Symbolic scalars of the executor: exponential polynomials over real variables.

A value is  sum_j  c_j * x^a_j * exp(i w_j . x)  with complex double coefficients c_j, integer
exponents a_j and real frequencies w_j, over a table of real variables x.  cos, sin, exp of affine
arguments, products, conjugates and sums stay inside this class and have a normal form; everything
else (sqrt, 1/p, acos, tanh, log, ...) introduces a *defined* variable (an atom) that is keyed by
the normal form of its argument, so that equal arguments give the same variable.
"""
from __future__ import annotations

import cmath
import math
from typing import Any, Iterable

EPS = 1e-13


class Unsupported(Exception):
    """The executor cannot follow the code here (never a verdict about the code)."""


class Var:
    __slots__ = ("id", "name", "kind", "defn", "lo", "hi", "sq", "wit")

    def __init__(self, id, name, kind, defn, lo, hi, wit):
        self.id, self.name, self.kind, self.defn = id, name, kind, defn
        self.lo, self.hi, self.wit = lo, hi, wit
        self.sq = None  # Expr this variable squares to, if the definition gives one


class Table:
    """The variables of one symbolic run."""

    def __init__(self):
        self.vars: list[Var] = []
        self.atoms: dict[Any, Var] = {}
        self.freqs: dict[int, float] = {}
        self.nonzero: list["Expr"] = []

    def new(self, name, lo=None, hi=None, wit=None, kind="input", defn=None) -> Var:
        v = Var(len(self.vars), name, kind, defn, lo, hi, wit)
        self.vars.append(v)
        return v

    def input(self, name, lo, hi, wit) -> "Expr":
        return Expr.var(self.new(name, lo, hi, wit))

    def freq(self, f: float) -> float:
        """Snap a frequency to one already seen (within 1e-9)."""
        k = round(f * 1e8)
        for kk in (k - 1, k, k + 1):
            g = self.freqs.get(kk)
            if g is not None and abs(g - f) < 1e-9:
                return g
        fr = float(f)
        r = round(fr * 5040) / 5040
        if abs(r - fr) < 1e-12:
            fr = r
        self.freqs[k] = fr
        return fr


TAB = Table()


def reset() -> Table:
    global TAB
    TAB = Table()
    _MUL.clear()
    return TAB


def table() -> Table:
    return TAB


ONE = ((), ())
_MUL: dict = {}


def _mulmono(a, b):
    """Product of two monomials: (monomial, [vars whose square must be substituted])."""
    key = (a, b)
    r = _MUL.get(key)
    if r is not None:
        return r
    p = dict(a[0])
    for v, e in b[0]:
        n = p.get(v, 0) + e
        if n:
            p[v] = n
        else:
            p.pop(v, None)
    f = dict(a[1])
    for v, w in b[1]:
        n = f.get(v, 0.0) + w
        if abs(n) > 1e-10:
            f[v] = TAB.freq(n)
        else:
            f.pop(v, None)
    subs = []
    for v in list(p):
        if TAB.vars[v].sq is not None and (p[v] >= 2 or p[v] <= -2):
            q, rem = divmod(p[v], 2) if p[v] > 0 else (-((-p[v]) // 2), -((-p[v]) % 2))
            # only positive powers are substituted
            if q > 0:
                subs.append((v, q))
                if rem:
                    p[v] = rem
                else:
                    p.pop(v)
    r = ((tuple(sorted(p.items())), tuple(sorted(f.items()))), tuple(subs))
    if len(_MUL) < 2_000_000:
        _MUL[key] = r
    return r


class Expr:
    __slots__ = ("t",)

    def __init__(self, terms: dict):
        self.t = terms

    # ---- construction
    @staticmethod
    def const(c) -> "Expr":
        c = complex(c)
        if c == 0:
            return ZERO
        return Expr({ONE: c})

    @staticmethod
    def var(v: Var) -> "Expr":
        return Expr({(((v.id, 1),), ()): 1 + 0j})

    @staticmethod
    def expi(v: Var, w: float) -> "Expr":
        w = TAB.freq(w)
        if abs(w) < 1e-10:
            return UNIT
        return Expr({((), ((v.id, w),)): 1 + 0j})

    # ---- inspection
    def is_const(self) -> bool:
        return not self.t or (len(self.t) == 1 and ONE in self.t)

    def cval(self) -> complex:
        return self.t.get(ONE, 0j)

    def key(self):
        return tuple(sorted((m, _rc(c)) for m, c in self.t.items()))

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for (p, f), c in sorted(self.t.items()):
            s = f"({c:.6g})"
            for v, e in p:
                s += f"*{TAB.vars[v].name}" + (f"^{e}" if e != 1 else "")
            if f:
                s += "*E(" + "+".join(f"{w:g}{TAB.vars[v].name}" for v, w in f) + ")"
            out.append(s)
        return " + ".join(out)

    # ---- arithmetic
    def __add__(self, o):
        o = lift(o)
        if not self.t:
            return o
        if not o.t:
            return self
        r = dict(self.t)
        for m, c in o.t.items():
            n = r.get(m, 0) + c
            if abs(n) < EPS:
                r.pop(m, None)
            else:
                r[m] = n
        return Expr(r)

    __radd__ = __add__

    def __neg__(self):
        return Expr({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) + (-self)

    def __mul__(self, o):
        o = lift(o)
        if not self.t or not o.t:
            return ZERO
        if o.is_const():
            c = o.cval()
            if c == 1:
                return self
            return Expr({m: v * c for m, v in self.t.items() if abs(v * c) >= EPS})
        if self.is_const():
            return o * self
        r: dict = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, subs = _mulmono(m1, m2)
                if subs:
                    e = Expr({m: c1 * c2})
                    for v, q in subs:
                        for _ in range(q):
                            e = e * TAB.vars[v].sq
                    extra = e if extra is None else extra + e
                else:
                    r[m] = r.get(m, 0) + c1 * c2
        out = Expr({m: c for m, c in r.items() if abs(c) >= EPS})
        return out if extra is None else out + extra

    __rmul__ = __mul__

    def __pow__(self, n):
        if isinstance(n, Expr):
            if not n.is_const():
                raise Unsupported("symbolic exponent")
            n = n.cval()
        n = complex(n)
        if n.imag:
            raise Unsupported("complex exponent")
        n = n.real
        if n == int(n):
            n = int(n)
            if n < 0:
                return inv(self ** (-n))
            r = UNIT
            b = self
            while n:
                if n & 1:
                    r = r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        if 2 * n == int(2 * n):
            k = int(2 * n)
            s = sqrt(self)
            return s**k
        if self.is_const():
            return Expr.const(self.cval() ** n)
        return atom("pow", (self, n), lambda a, b: a**b)

    def __truediv__(self, o):
        o = lift(o)
        if o.is_const():
            c = o.cval()
            if c == 0:
                raise Unsupported("division by the constant 0")
            return self * Expr.const(1 / c)
        return self * inv(o)

    def __rtruediv__(self, o):
        return lift(o) / self

    def conj(self):
        return Expr({(p, tuple((v, TAB.freq(-w)) for v, w in f)): c.conjugate() for (p, f), c in self.t.items()})

    def re(self):
        return (self + self.conj()) * 0.5

    def im(self):
        return (self - self.conj()) * (-0.5j)

    # ---- evaluation
    def ev(self, env) -> complex:
        s = 0j
        for (p, f), c in self.t.items():
            for v, e in p:
                c *= env(v) ** e
            if f:
                c *= cmath.exp(1j * sum(w * env(v).real for v, w in f))
            s += c
        return s

    def vars(self) -> set:
        s = set()
        for p, f in self.t:
            s.update(v for v, _ in p)
            s.update(v for v, _ in f)
        return s


def _rc(c: complex):
    return (_r9(c.real), _r9(c.imag))


def _r9(x: float) -> float:
    """9 decimals, but no more than 12 significant digits."""
    return round(x, 9) + 0.0 if abs(x) < 1000 else float(f"{x:.11e}")


ZERO = Expr({})
UNIT = Expr({ONE: 1 + 0j})


def lift(x) -> Expr:
    if isinstance(x, Expr):
        return x
    return Expr.const(x)


class Env:
    """Evaluates variables, atoms included, from values of the input variables."""

    def __init__(self, values: dict[int, float] | None = None):
        self.values = values or {}
        self.cache: dict[int, complex] = {}

    def __call__(self, v: int) -> complex:
        r = self.cache.get(v)
        if r is None:
            var = TAB.vars[v]
            if var.kind == "input":
                r = complex(self.values.get(v, var.wit))
            else:
                fn, args = var.defn
                r = complex(fn(*[a.ev(self) if isinstance(a, Expr) else a for a in args]))
            self.cache[v] = r
        return r


def atom(name: str, args: tuple, fn, lo=None, hi=None) -> Expr:
    key = (name,) + tuple(a.key() if isinstance(a, Expr) else a for a in args)
    v = TAB.atoms.get(key)
    if v is None:
        v = TAB.new(f"{name}#{len(TAB.vars)}", lo, hi, None, "atom", (fn, args))
        TAB.atoms[key] = v
        return Expr.var(v)
    return Expr.var(v)


def is_real(e: Expr) -> bool:
    return not any(abs(c) > 1e-10 for c in (e - e.conj()).t.values())


def _realfn(fn):
    return lambda a: fn(a.real)


def inv(e: Expr) -> Expr:
    if not e.t:
        raise Unsupported("division by 0")
    if len(e.t) == 1:
        ((p, f), c), = e.t.items()
        if p:
            TAB.nonzero.append(e)
        if all(TAB.vars[v].sq is None for v, _ in p):
            return Expr({(tuple((v, -k) for v, k in p), tuple((v, TAB.freq(-w)) for v, w in f)): 1 / c})
    TAB.nonzero.append(e)
    if not is_real(e):
        return e.conj() * inv((e * e.conj()).re())
    # normalise by the leading coefficient
    m0 = min(e.t)
    c0 = e.t[m0]
    if abs(c0.imag) > 1e-12:
        c0 = complex(abs(c0))
    return atom("inv", (e * Expr.const(1 / c0),), lambda a: 1 / a) * Expr.const(1 / c0)


def sqrt(e: Expr) -> Expr:
    if e.is_const():
        return Expr.const(cmath.sqrt(e.cval()))
    if not is_real(e):
        raise Unsupported("sqrt of a complex symbolic value")
    # perfect squares of a single real monomial are |m|: keep as an atom with known square
    r = atom("sqrt", (e,), lambda a: math.sqrt(max(a.real, 0.0)), lo=0.0)
    v = TAB.vars[next(iter(r.t))[0][0][0]]
    if v.sq is None:
        v.sq = e
        TAB.vars[v.id].lo = 0.0
        _MUL.clear()
    return r


def interval(e: Expr):
    """Enclosure of a real-valued expression over the ranges of its variables; None where unknown."""
    lo = hi = 0.0
    for (p, f), c in e.t.items():
        if f or abs(c.imag) > 1e-12:
            return None
        a = b = c.real
        for v, k in p:
            r = _vrange(v)
            if r is None or (k < 0 and r[0] <= 0 <= r[1]):
                return None
            ends = [x**k for x in r]
            if k % 2 == 0 and r[0] < 0 < r[1]:
                ends.append(0.0)
            q = [x * y for x in (a, b) for y in (min(ends), max(ends))]
            a, b = min(q), max(q)
        lo, hi = lo + a, hi + b
    w = 1e-12 * max(1.0, abs(lo), abs(hi))
    return (lo - w, hi + w)


def _vrange(v: int):
    var = TAB.vars[v]
    lo, hi = var.lo, var.hi
    if var.kind == "atom":
        name = var.name.split("#")[0]
        r = interval(var.defn[1][0]) if name in ("exp", "inv", "sqrt") and isinstance(var.defn[1][0], Expr) else None
        if r is not None:
            if name == "exp" and r[1] < 500:
                lo, hi = math.exp(r[0]), math.exp(r[1])
            elif name == "inv" and (r[0] > 0 or r[1] < 0):
                lo, hi = 1 / r[1], 1 / r[0]
            elif name == "sqrt" and r[0] >= 0:
                lo, hi = math.sqrt(r[0]), math.sqrt(r[1])
    return None if lo is None or hi is None else (lo, hi)


def absval(e: Expr) -> Expr:
    if e.is_const():
        return Expr.const(abs(e.cval()))
    if is_real(e):
        r = interval(e)
        if r is not None and r[0] > 0:
            return e
        if r is not None and r[1] < 0:
            return -e
    if len(e.t) == 1:
        ((p, f), c), = e.t.items()
        if not p:
            return Expr.const(abs(c))
    q = (e * e.conj()).re()
    return sqrt(q)


def expE(e: Expr) -> Expr:
    """exp of a complex exponential polynomial."""
    if e.is_const():
        return Expr.const(cmath.exp(e.cval()))
    re, im = e.re(), e.im()
    out = UNIT
    if not re.is_const():
        c = re.cval()
        rest = re - Expr.const(c)
        m0 = min(rest.t)
        out = atom("exp", (rest,), _realfn(math.exp), lo=0.0) * Expr.const(math.exp(c.real))
    else:
        out = Expr.const(math.exp(re.cval().real))
    return out * expi(im)


def expi(im: Expr) -> Expr:
    """exp(i * im) for a real-valued im."""
    out = UNIT
    rest: dict = {}
    for m, c in im.t.items():
        p, f = m
        if m == ONE:
            out = out * Expr.const(cmath.exp(1j * c.real))
        elif not f and len(p) == 1 and p[0][1] == 1:
            out = out * Expr.expi(TAB.vars[p[0][0]], c.real)
        elif not f:
            # a real monomial: its own angle variable, so that multiples stay related
            a = atom("mono", (Expr({m: 1 + 0j}),), lambda z: z)
            out = out * Expr.expi(TAB.vars[next(iter(a.t))[0][0][0]], c.real)
        else:
            rest[m] = c
    if rest:
        r = Expr(rest)
        m0 = max(rest, key=lambda m: (round(abs(rest[m]), 9), m))
        c0 = abs(rest[m0])
        z = rest[m0] / c0
        if z.real < -1e-9 or (abs(z.real) <= 1e-9 and z.imag < 0):
            c0 = -c0  # one angle for an argument and its negative
        a = atom("ang", (r * Expr.const(1 / c0),), lambda z: z)
        out = out * Expr.expi(TAB.vars[next(iter(a.t))[0][0][0]], c0)
    return out


def cosE(e: Expr) -> Expr:
    if e.is_const():
        return Expr.const(cmath.cos(e.cval()))
    if not is_real(e):
        a, b = expE(e * 1j), expE(e * -1j)
        return (a + b) * 0.5
    # cos(acos x) = x, cos(asin x) = sqrt(1 - x^2)
    z = expi(e)
    return (z + z.conj()) * 0.5


def sinE(e: Expr) -> Expr:
    if e.is_const():
        return Expr.const(cmath.sin(e.cval()))
    if not is_real(e):
        a, b = expE(e * 1j), expE(e * -1j)
        return (a - b) * (-0.5j)
    z = expi(e)
    return (z - z.conj()) * (-0.5j)


def fn1(name: str, pyfn, lo=None, hi=None):
    def f(e: Expr) -> Expr:
        if e.is_const():
            c = e.cval()
            return Expr.const(pyfn(c.real if abs(c.imag) < 1e-300 else c))
        if not is_real(e):
            raise Unsupported(f"{name} of a complex symbolic value")
        return atom(name, (e,), _realfn(pyfn), lo, hi)

    return f


FN1 = {
    "acos": fn1("acos", math.acos, 0.0, math.pi),
    "asin": fn1("asin", math.asin, -math.pi / 2, math.pi / 2),
    "atan": fn1("atan", math.atan, -math.pi / 2, math.pi / 2),
    "tanh": fn1("tanh", math.tanh, -1.0, 1.0),
    "log": fn1("log", lambda x: cmath.log(x) if isinstance(x, complex) else math.log(x)),
    "log2": fn1("log2", math.log2),
    "sigmoid": fn1("sigmoid", lambda x: 1 / (1 + math.exp(-x)), 0.0, 1.0),
    "sign": fn1("sign", lambda x: (x > 0) - (x < 0), -1.0, 1.0),
    "floor": fn1("floor", math.floor),
    "ceil": fn1("ceil", math.ceil),
    "erf": fn1("erf", math.erf, -1.0, 1.0),
    "sinh": fn1("sinh", math.sinh),
    "cosh": fn1("cosh", math.cosh),
    "heaviside": fn1("heaviside", lambda x: 0.5 if x == 0 else float(x > 0), 0.0, 1.0),
}


_heaviside = FN1["heaviside"]


def heaviside(e: Expr) -> Expr:
    r = interval(e) if not e.is_const() and is_real(e) else None
    if r is not None and r[0] > 0:
        return UNIT
    if r is not None and r[1] < 0:
        return ZERO
    return _heaviside(e)


FN1["heaviside"] = heaviside


def tanE(e: Expr) -> Expr:
    if e.is_const():
        return Expr.const(cmath.tan(e.cval()))
    return sinE(e) * inv(cosE(e))


def matvars(mats: Iterable[Expr]) -> set:
    s: set = set()
    for m in mats:
        s |= m.vars()
    return s


def diff(e: Expr, v: int) -> Expr:
    """Partial derivative with respect to input variable v (atoms by the chain rule)."""
    out: dict = {}
    extra = ZERO
    for (p, f), c in e.t.items():
        for k, (u, n) in enumerate(p):
            d = _dvar(u, v)
            if d is None:
                continue
            q = p[:k] + (((u, n - 1),) if n != 1 else ()) + p[k + 1 :]
            if d is UNIT:
                m = (q, f)
                out[m] = out.get(m, 0) + c * n
            else:
                extra = extra + Expr({(q, f): c * n}) * d
        for u, w in f:
            d = _dvar(u, v)
            if d is None:
                continue
            if d is UNIT:
                out[(p, f)] = out.get((p, f), 0) + 1j * w * c
            else:
                extra = extra + Expr({(p, f): 1j * w * c}) * d
    return Expr({m: c for m, c in out.items() if abs(c) >= EPS}) + extra


def _dvar(u: int, v: int):
    if u == v:
        return UNIT
    var = TAB.vars[u]
    if var.kind == "input":
        return None
    name, args = var.name.split("#")[0], var.defn[1]
    a = args[0]
    da = diff(a, v)
    if not da.t:
        return None
    me = Expr.var(var)
    if name in ("mono", "ang"):
        return da
    if name == "inv":
        return -(me * me) * da
    if name == "sqrt":
        return da * inv(me) * 0.5
    if name == "exp":
        return me * da
    if name == "log":
        return da * inv(a)
    if name == "acos":
        return -da * inv(sqrt(UNIT - a * a))
    if name == "asin":
        return da * inv(sqrt(UNIT - a * a))
    if name == "atan":
        return da * inv(UNIT + a * a)
    if name == "tanh":
        return da * (UNIT - me * me)
    if name == "sigmoid":
        return da * me * (UNIT - me)
    raise Unsupported(f"derivative of {name}")
