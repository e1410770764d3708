"""Decides obligations over symbolic values with an SMT solver (z3).

An obligation is a list of pairs (lhs, rhs) of exponential polynomials that must agree for every
value of the inputs inside their bounds, under the path condition of the run.

Query 1 (relaxed):  every basis function x^a * e^{i w.x} occurring in the pairs becomes a pair of
bounded real unknowns (its real and imaginary part); the definitions of inverse atoms are added as
linear lemmas; the negated obligation "some component of some lhs - rhs exceeds tol" is asserted.
unsat means the obligation holds for every input in the bounds.
Query 2 (precise):  cos/sin of every base frequency become unknowns with c^2+s^2 = 1, multiples by
the multiple-angle recurrences, atoms by their defining polynomial constraints.
A sat answer is only ever a candidate: it is concretised and replayed against the real code.
"""
from __future__ import annotations

import cmath
import math
import random
import sys
import time
from fractions import Fraction

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

from . import expr as X
from .expr import Env, Expr, lift
from .shadow import BoolE

COEF = 1e-9


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0

    def add(self, r, dt):
        self.queries += 1
        self.time += dt
        if r == z3.unsat:
            self.unsat += 1
        elif r == z3.sat:
            self.sat += 1
        else:
            self.unknown += 1


STATS = Stats()


def run_check(s: z3.Solver):
    t = time.time()
    r = s.check()
    STATS.add(r, time.time() - t)
    return r


def q(x: float):
    if x == 0:
        return z3.RealVal(0)
    f = Fraction(round(x * 2**44), 2**44) if abs(x) < 2**40 else Fraction(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def var_bounds(v: X.Var):
    if v.lo is not None and v.hi is not None:
        return max(abs(v.lo), abs(v.hi))
    if v.kind == "atom" and v.defn and v.defn[0]:
        if v.name.startswith("sqrt") and isinstance(v.defn[1][0], Expr):
            b = bound(v.defn[1][0])
            return None if b is None else math.sqrt(b)
    return None


def mono_bound(m):
    b = 1.0
    for v, e in m[0]:
        var = X.table().vars[v]
        if e < 0:
            return None
        vb = var_bounds(var)
        if vb is None:
            return None
        b *= vb**e
    return b


def bound(e: Expr):
    s = 0.0
    for m, c in e.t.items():
        b = mono_bound(m)
        if b is None:
            return None
        s += abs(c) * b
    return s


class Lin:
    """Linear encoding of exponential polynomials over their basis functions."""

    def __init__(self, solver):
        self.s = solver
        self.vars: dict = {}

    @staticmethod
    def canon(m):
        """m or its conjugate, with a flag, so that both share one unknown."""
        p, f = m
        if not f:
            return m, False
        if f[0][1] < 0:
            return (p, tuple((v, -w) for v, w in f)), True
        return m, False

    def basis(self, m):
        cm, cj = self.canon(m)
        r = self.vars.get(cm)
        if r is None:
            n = len(self.vars)
            re = z3.Real(f"r{n}")
            im = z3.Real(f"i{n}") if cm[1] else None
            self.vars[cm] = r = (re, im)
            b = mono_bound(cm)
            if cm == X.ONE:
                self.s.add(re == 1)
            else:
                if b is not None:
                    bb = q(b)
                    self.s.add(re <= bb, re >= -bb)
                    if im is not None:
                        self.s.add(im <= bb, im >= -bb)
                if im is None and len(cm[0]) == 1:
                    var = X.table().vars[cm[0][0][0]]
                    e = cm[0][0][1]
                    if e == 1:
                        if var.lo is not None:
                            self.s.add(re >= q(var.lo))
                        if var.hi is not None:
                            self.s.add(re <= q(var.hi))
                    elif e > 0 and e % 2 == 0:
                        self.s.add(re >= 0)
        return r[0], (None if r[1] is None else (-r[1] if cj else r[1]))

    def enc(self, e: Expr):
        re, im = [], []
        for m, c in e.t.items():
            a, b = self.basis(m)
            if c.real:
                re.append(q(c.real) * a)
                if b is not None:
                    im.append(q(c.real) * b)
            if c.imag:
                im.append(q(c.imag) * a)
                if b is not None:
                    re.append(-q(c.imag) * b)
        z = z3.RealVal(0)
        return (z3.Sum(re) if re else z), (z3.Sum(im) if im else z)


def snap(a: Expr, b: Expr):
    """Coefficients that differ by less than COEF (floating point noise) are identified."""
    ta, tb = a.t, dict(b.t)
    ra = {}
    for m, c in ta.items():
        d = tb.get(m, 0)
        if abs(c - d) <= COEF * max(1.0, abs(c)):
            if m in tb:
                tb[m] = c
                ra[m] = c
        else:
            ra[m] = c
    tb = {m: c for m, c in tb.items() if m in ra or abs(c) > COEF}
    return Expr(ra), Expr(tb)


def same(a: Expr, b: Expr) -> bool:
    a, b = snap(a, b)
    return a.t == b.t


def inverse_atoms(exprs):
    tab = X.table()
    return {v for e in exprs for v in e.vars() if tab.vars[v].kind == "atom" and tab.vars[v].name.startswith("inv")}


def lemmas(exprs, limit=4000):
    """Linear consequences a*e*m = m of the definitions a = 1/e, for the monomials that occur."""
    tab = X.table()
    out = []
    seen = set()
    monos = {m for e in exprs for m in e.t}
    for _ in range(2):
        new = set()
        for m in list(monos):
            p = dict(m[0])
            for v in list(p):
                var = tab.vars[v]
                if var.kind == "atom" and var.name.startswith("inv") and p[v] > 0:
                    rest = dict(p)
                    rest[v] -= 1
                    if not rest[v]:
                        rest.pop(v)
                    rm = (tuple(sorted(rest.items())), m[1])
                    if (v, rm) in seen:
                        continue
                    seen.add((v, rm))
                    r = Expr({rm: 1 + 0j})
                    full = r * Expr.var(var) * var.defn[1][0]
                    out.append((full, r))
                    new |= set(full.t)
                    if len(out) > limit:
                        return out
        if not new - monos:
            break
        monos |= new
    # every divisor monomial e times the atoms
    for v in inverse_atoms([Expr({m: 1 + 0j}) for m in monos]):
        for m in list(monos)[:200]:
            rm = m
            if (v, rm) in seen:
                continue
            seen.add((v, rm))
            r = Expr({rm: 1 + 0j})
            out.append((r * Expr.var(tab.vars[v]) * tab.vars[v].defn[1][0], r))
            if len(out) > limit:
                return out
    return out


def relaxed(pairs, tol, timeout=20000):
    """('unsat', None) or ('sat', model as {canonical monomial: complex}) or ('unknown', None)."""
    s = z3.Solver()
    s.set("timeout", timeout)
    L = Lin(s)
    bad = []
    uniq = {}
    for a, b in pairs:
        a, b = snap(a, b)
        k = (tuple(sorted(a.t.items(), key=_k)), tuple(sorted(b.t.items(), key=_k)))
        if k in uniq:
            continue
        uniq[k] = 1
        ar, ai = L.enc(a)
        br, bi = L.enc(b)
        t = q(tol)
        bad += [ar - br > t, br - ar > t, ai - bi > t, bi - ai > t]
    exprs = [e for p in pairs for e in p]
    if inverse_atoms(exprs):
        for a, b in lemmas(exprs):
            ar, ai = L.enc(a)
            br, bi = L.enc(b)
            s.add(ar == br, ai == bi)
    s.add(z3.Or(bad) if bad else z3.BoolVal(False))
    r = run_check(s)
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        m = s.model()

        def val(t):
            v = m.eval(t, model_completion=True)
            f = v.as_fraction() if z3.is_rational_value(v) else Fraction(v.approx(10).as_fraction())
            return float(f)

        return "sat", {k: complex(val(a), val(b) if b is not None else 0.0) for k, (a, b) in L.vars.items()}
    return "unknown", None


def _k(kv):
    return kv[0]


class Precise:
    """Polynomial encoding: cos/sin of base frequencies, atoms with their defining constraints."""

    def __init__(self, solver, exprs):
        self.s = solver
        self.x: dict = {}
        self.cs: dict = {}
        self.base: dict = {}
        self.done: set = set()
        fr: dict = {}
        todo = set()
        for e in exprs:
            todo |= e.vars()
        self.closure = set()
        while todo:
            v = todo.pop()
            if v in self.closure:
                continue
            self.closure.add(v)
            var = X.table().vars[v]
            if var.kind == "atom":
                for a in var.defn[1]:
                    if isinstance(a, Expr):
                        todo |= a.vars()
        ex = list(exprs) + [a for v in self.closure for a in (X.table().vars[v].defn or (0, ()))[1] if isinstance(a, Expr)]
        for e in ex:
            for m in e.t:
                for v, w in m[1]:
                    fr.setdefault(v, set()).add(abs(w))
        for v, ws in fr.items():
            b = self._gcd(sorted(ws))
            if b is None:
                raise X.Unsupported("incommensurate frequencies")
            self.base[v] = b

    @staticmethod
    def _gcd(ws):
        w0 = ws[0]
        for d in range(1, 25):
            b = w0 / d
            if all(abs(w / b - round(w / b)) < 1e-7 and round(w / b) <= 24 for w in ws):
                return b
        return None

    def var(self, v):
        if v not in self.x:
            var = X.table().vars[v]
            x = z3.Real(f"x{v}")
            self.x[v] = x
            if var.lo is not None:
                self.s.add(x >= q(var.lo))
            if var.hi is not None:
                self.s.add(x <= q(var.hi))
            if var.kind == "atom":
                args = var.defn[1]
                nm = var.name.split("#")[0]
                if nm == "inv":
                    r, _ = self.enc(args[0])
                    self.s.add(x * r == 1)
                elif nm == "sqrt":
                    r, _ = self.enc(args[0])
                    self.s.add(x * x == r, x >= 0)
                elif nm in ("mono", "ang"):
                    r, _ = self.enc(args[0])
                    self.s.add(x == r)
        return self.x[v]

    def trig(self, v, w):
        k = round(abs(w) / self.base[v])
        if v not in self.cs:
            c, s = z3.Real(f"c{v}"), z3.Real(f"s{v}")
            self.s.add(c * c + s * s == 1)
            self.cs[v] = {0: (z3.RealVal(1), z3.RealVal(0)), 1: (c, s)}
            var = X.table().vars[v]
            if var.kind == "atom":
                nm = var.name.split("#")[0]
                if nm == "acos" and abs(self.base[v] - 1) < 1e-9:
                    r, _ = self.enc(var.defn[1][0])
                    self.s.add(c == r, s >= 0)
                elif nm == "acos" and abs(self.base[v] - 0.5) < 1e-9:
                    r, _ = self.enc(var.defn[1][0])
                    self.s.add(2 * c * c - 1 == r, s >= 0, c >= 0)
                elif nm == "asin" and abs(self.base[v] - 1) < 1e-9:
                    r, _ = self.enc(var.defn[1][0])
                    self.s.add(s == r, c >= 0)
        d = self.cs[v]
        if k not in d:
            for j in range(2, k + 1):
                if j not in d:
                    a, b = d[j - 1]
                    c, s = d[1]
                    x, y = z3.Real(f"c{v}_{j}"), z3.Real(f"s{v}_{j}")
                    self.s.add(x == a * c - b * s, y == a * s + b * c)
                    d[j] = (x, y)
        c, s = d[k]
        return (c, -s) if w < 0 else (c, s)

    def enc(self, e: Expr):
        R, I = [], []
        for m, c in e.t.items():
            re, im = z3.RealVal(1), None
            for v, k in m[0]:
                x = self.var(v)
                if k < 0:
                    y = z3.Real(f"y{v}")
                    if v not in self.done:
                        self.done.add(v)
                        self.s.add(x * y == 1)
                    x, k = y, -k
                for _ in range(k):
                    re = re * x
            for v, w in m[1]:
                a, b = self.trig(v, w)
                if im is None:
                    re, im = re * a, re * b
                else:
                    re, im = re * a - im * b, re * b + im * a
            if c.real:
                R.append(q(c.real) * re)
                if im is not None:
                    I.append(q(c.real) * im)
            if c.imag:
                I.append(q(c.imag) * re)
                if im is not None:
                    R.append(-q(c.imag) * im)
        z = z3.RealVal(0)
        return (z3.Sum(R) if R else z), (z3.Sum(I) if I else z)

    def boole(self, b):
        if not isinstance(b, BoolE):
            return z3.BoolVal(bool(b))
        if b.op == "not":
            return z3.Not(self.boole(b.a))
        if b.op == "and":
            return z3.And([self.boole(x) for x in b.a])
        if b.op == "or":
            return z3.Or([self.boole(x) for x in b.a])
        r, i = self.enc(b.a)
        if b.op == "eq":
            return z3.And(r == 0, i == 0)
        return r < 0 if b.op == "lt" else r <= 0

    def inside(self, b, want, m):
        """`b` is `want`, at a distance from the boundary between the two."""
        if not isinstance(b, BoolE):
            return z3.BoolVal(bool(b) == want)
        if b.op == "not":
            return self.inside(b.a, not want, m)
        if b.op in ("and", "or"):
            return (z3.And if (b.op == "and") == want else z3.Or)([self.inside(x, want, m) for x in b.a])
        r, i = self.enc(b.a)
        if b.op == "eq":
            return z3.And(r == 0, i == 0) if want else z3.Or(r >= m, r <= -m, i >= m, i <= -m)
        return r <= -m if want else r >= m

    def point(self, m):
        out = {}
        tab = X.table()

        def val(t):
            v = m.eval(t, model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            return float(v.as_fraction())

        for v in self.closure:
            var = tab.vars[v]
            if var.kind != "input":
                continue
            if v in self.cs:
                c, s = self.cs[v][1]
                ang = math.atan2(val(s), val(c)) / self.base[v]
                per = 2 * math.pi / self.base[v]
                if v in self.x:
                    x = val(self.x[v])
                    out[v] = x
                    continue
                lo = var.lo if var.lo is not None else -math.inf
                hi = var.hi if var.hi is not None else math.inf
                for k in (0, 1, -1, 2, -2):
                    if lo <= ang + k * per <= hi:
                        ang += k * per
                        break
                out[v] = ang
            elif v in self.x:
                out[v] = val(self.x[v])
        return out


def bexprs(b):
    if not isinstance(b, BoolE):
        return []
    if b.op == "not":
        return bexprs(b.a)
    if b.op in ("and", "or"):
        return [e for x in b.a for e in bexprs(x)]
    return [b.a]


def precise(pairs, path, tol, timeout=15000):
    s = z3.Solver()
    s.set("timeout", timeout)
    exprs = [e for p in pairs for e in p] + [e for b, _ in path for e in bexprs(b)]
    try:
        P = Precise(s, exprs)
        bad = []
        t = q(tol)
        for a, b in pairs:
            a, b = snap(a, b)
            if a.t == b.t:
                continue
            ar, ai = P.enc(a)
            br, bi = P.enc(b)
            bad += [ar - br > t, br - ar > t, ai - bi > t, bi - ai > t]
        for b, r in path:
            f = P.boole(b)
            s.add(f if r else z3.Not(f))
    except X.Unsupported:
        return "unknown", None
    s.add(z3.Or(bad) if bad else z3.BoolVal(False))
    r = run_check(s)
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        return "sat", P.point(s.model())
    return "unknown", None


def holds(path, env) -> bool:
    try:
        return all(b.ev(env) == r for b, r in path)
    except (ValueError, ZeroDivisionError, OverflowError):
        return False


def inputs():
    return [v for v in X.table().vars if v.kind == "input"]


def random_point(rng, i):
    pt = {}
    for v in inputs():
        lo = v.lo if v.lo is not None else -3.0
        hi = v.hi if v.hi is not None else 3.0
        pt[v.id] = rng.uniform(lo, hi)
    return pt


def clip(pt):
    out = {}
    for v in inputs():
        x = pt.get(v.id, v.wit)
        if v.lo is not None:
            x = max(x, v.lo)
        if v.hi is not None:
            x = min(x, v.hi)
        out[v.id] = x
    return out


def diff_at(pairs, env):
    worst = 0.0
    for a, b in pairs:
        try:
            d = abs(a.ev(env) - b.ev(env))
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        if d > worst:
            worst = d
    return worst


def from_relaxed(model):
    """A point suggested by the model of the relaxed query."""
    pt = {}
    for (p, f), z in model.items():
        if len(p) == 1 and p[0][1] == 1 and not f:
            pt[p[0][0]] = z.real
    for (p, f), z in model.items():
        if not p and len(f) == 1 and abs(z) > 1e-9 and f[0][0] not in pt:
            pt[f[0][0]] = cmath.phase(z) / f[0][1]
    return pt


def decide(pairs, path, tol=1e-7, ntry=40):
    """('unsat'|'sat'|'unknown', point or None).

    sat: a point of the input space at which the symbolic sides differ by more than tol."""
    r, m = relaxed(pairs, tol)
    if r == "unsat":
        return "unsat", None
    cand = [(a, b) for a, b in pairs if not same(a, b)]
    if r == "sat":
        rng = random.Random(1)
        pts = [clip(from_relaxed(m)), clip({})] + [random_point(rng, i) for i in range(ntry)]
        best = None
        for pt in pts:
            env = Env(pt)
            if not holds(path, env):
                continue
            d = diff_at(cand, env)
            if d > 10 * tol and (best is None or d > best[0]):
                best = (d, pt)
                if d > 1e-3:
                    break
        if best is not None:
            return "sat", best[1]
    for a, b in cand[:64]:
        r, pt = precise([(a, b)], path, tol)
        if r == "sat":
            pt = clip(pt)
            env = Env(pt)
            if holds(path, env) and diff_at([(a, b)], env) > tol:
                return "sat", pt
            return "unknown", None
        if r == "unknown":
            return "unknown", None
    return ("unsat", None) if len(cand) <= 64 else ("unknown", None)


def flip(prefix, cond, want, ntry=60):
    """A point on the other side of a branch: ('sat', point), ('unsat', None) or ('unknown', None)."""
    path = list(prefix) + [(cond, want)]
    s = z3.Solver()
    s.set("timeout", 5000)
    exprs = [e for b, _ in path for e in bexprs(b)]
    try:
        P = Precise(s, exprs)
        for b, r in path:
            f = P.boole(b)
            s.add(f if r else z3.Not(f))
        r = run_check(s)
    except X.Unsupported:
        r = z3.unknown
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        pt = clip(P.point(s.model()))
        if holds(path, Env(pt)):
            return "sat", pt
        # the model lies on a boundary that the run's arithmetic does not reproduce: keep away from it
        s.push()
        try:
            for b, r in path:
                s.add(P.inside(b, r, q(1e-6)))
            if run_check(s) == z3.sat:
                pt = clip(P.point(s.model()))
                if holds(path, Env(pt)):
                    return "sat", pt
        except X.Unsupported:
            pass
        s.pop()
    rng = random.Random(2)
    for i in range(ntry):
        pt = random_point(rng, i)
        if holds(path, Env(pt)):
            return "sat", pt
    return "unknown", None
