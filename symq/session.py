"""The harness side: symbolic inputs in, obligations out.

The same harness function runs in two modes.  Symbolic: inputs are symbolic variables, `eq` collects
pairs for the solver.  Concrete: inputs are given numbers and `eq` compares numerically - this is how
counterexamples are replayed against the real, unpatched code.
"""
from __future__ import annotations

import hashlib
import random

import numpy as np
import torch

from . import expr as X
from .expr import Expr

TOL = 1e-7


class Reject(Exception):
    """The harness discards this input (a stated precondition fails)."""


class Session:
    def __init__(self, values=None, run=None):
        self.values = values or {}
        self.run = run  # symq.shadow.Run in symbolic mode, None in concrete mode
        self.pairs = []  # (label, index, lhs, rhs, tol)
        self.facts = []  # (label, bool)
        self.fails = []  # concrete mode: (label, detail)
        self.names = {}
        self.used = {}
        self.labels = {}

    @property
    def symbolic(self):
        return self.run is not None

    # ------------------------------------------------------------ inputs
    def _wit(self, name, lo, hi):
        if name in self.values:
            return float(self.values[name])
        h = int(hashlib.sha1(name.encode()).hexdigest()[:8], 16)
        r = random.Random(h)
        # stay a bit away from the ends of the interval
        a, b = lo + 0.07 * (hi - lo), hi - 0.07 * (hi - lo)
        return r.uniform(a, b)

    def scalar(self, name, lo, hi):
        """(witness value, Expr or None)."""
        w = self._wit(name, lo, hi)
        self.used[name] = w
        if self.run is None:
            return w, None
        e = X.table().input(name, lo, hi, w)
        v = X.table().vars[-1]
        self.names[v.id] = name
        self.run.env.values[v.id] = w
        return w, e

    def real(self, name, shape=(), lo=-7.0, hi=7.0, dtype=torch.float64):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        n = int(np.prod(shape)) if shape else 1
        vals, exprs = [], []
        for i in range(n):
            w, e = self.scalar(name if n == 1 else f"{name}[{i}]", lo, hi)
            vals.append(w)
            exprs.append(e)
        t = torch.tensor(vals, dtype=dtype).reshape(shape)
        if self.run is not None:
            arr = np.empty(n, dtype=object)
            for i, e in enumerate(exprs):
                arr[i] = e
            self.run.write(t, arr.reshape(shape))
        return t

    def angle(self, name, batch=1):
        return self.real(name, (batch,), -2 * np.pi, 2 * np.pi)

    def cplx(self, name, shape, b=1.0):
        re = self.real(name + ".re", shape, -b, b)
        im = self.real(name + ".im", shape, -b, b)
        return torch.complex(re, im)

    def state(self, name, n, batch=1):
        """An arbitrary (not necessarily normalised) vector of amplitudes in the unit box."""
        return self.cplx(name, (batch, 2**n))

    def bind(self, t, name, lo=-7.0, hi=7.0):
        """Makes an existing tensor (a trainable parameter, say) an arbitrary input."""
        t = t.data if isinstance(t, torch.nn.Parameter) else t
        new = self.real(name, tuple(t.shape), lo, hi, dtype=t.dtype)
        t.copy_(new)
        return new

    def grad(self, f, env, name):
        """d(sum f(env)) / d env[name], for a function written with torch arithmetic (the oracle's derivative)."""
        x = env[name]
        if self.run is None:
            xx = x if x.requires_grad else x.detach().clone().requires_grad_()
            out = f({**env, name: xx}).sum()
            (g,) = torch.autograd.grad(out.real if out.is_complex() else out, xx, create_graph=True, allow_unused=True)
            return torch.zeros_like(xx) if g is None else g
        with torch.no_grad():
            out = f(env)
            tot = X.ZERO
            for a in self.run.read(out).reshape(-1):
                tot = tot + _expr(self.run, a)
            xs = self.run.read(x)
            arr = np.empty(xs.shape, dtype=object)
            env_ = self.run.env
            vals = torch.zeros(x.shape, dtype=torch.float64)
            for i, v in enumerate(xs.reshape(-1)):
                e = _expr(self.run, v)
                ((p, fr), c), = e.t.items()
                assert not fr and len(p) == 1 and p[0][1] == 1 and c == 1, "derivative with respect to a non-input"
                d = X.diff(tot, p[0][0])
                arr.reshape(-1)[i] = d
                vals.view(-1)[i] = d.ev(env_).real
            self.run.write(vals, arr)
        return vals

    # ------------------------------------------------------------ obligations
    def _label(self, label):
        k = self.labels.get(label, 0)
        self.labels[label] = k + 1
        return label if not k else f"{label}~{k}"

    def eq(self, lhs, rhs, label="eq", tol=TOL):
        """Obligation: lhs == rhs for all inputs (up to tol)."""
        label = self._label(label)
        if not isinstance(lhs, torch.Tensor):
            lhs = torch.as_tensor(lhs)
        if not isinstance(rhs, torch.Tensor):
            rhs = torch.as_tensor(rhs)
        if lhs.layout != torch.strided:
            lhs = lhs.to_dense()
        if rhs.layout != torch.strided:
            rhs = rhs.to_dense()
        if tuple(lhs.shape) != tuple(rhs.shape):
            self.fact(False, f"{label}: shape {tuple(lhs.shape)} but expected {tuple(rhs.shape)}", label)
            return
        if self.run is None:
            a = lhs.detach().resolve_conj().resolve_neg().cpu().numpy().astype(complex)
            b = rhs.detach().resolve_conj().resolve_neg().cpu().numpy().astype(complex)
            d = np.abs(a - b)
            bad = ~(d <= tol)
            if bad.any():
                k = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
                self.fails.append(
                    (label, f"{label}: got {a.reshape(-1)[k]:.9g}, expected {b.reshape(-1)[k]:.9g} at entry {k} of shape {tuple(a.shape)}")
                )
            return
        A, B = self.run.read(lhs), self.run.read(rhs)
        for i, (a, b) in enumerate(zip(A.reshape(-1), B.reshape(-1))):
            a, b = _expr(self.run, a), _expr(self.run, b)
            if not (_finite(a) and _finite(b)):
                if a.t != b.t:
                    self.fact(False, f"{label}: not a finite value at entry {i}", label)
                    return
                continue
            self.pairs.append((label, i, a, b, tol))

    def fact(self, cond, msg, label=None):
        """Obligation: a fact of this execution path (structure, shape, raised error)."""
        self.facts.append((label or msg, bool(cond), msg))
        if self.run is None and not cond:
            self.fails.append((label or msg, msg))

    def raises(self, fn, exc, label):
        try:
            fn()
        except exc:
            self.fact(True, label)
            return
        self.fact(False, f"{label}: no {exc} raised", label)

    def assume(self, cond):
        if not cond:
            raise Reject()


def _finite(e):
    return all(np.isfinite(c) for c in e.t.values())


def _expr(run, v):
    from .shadow import _num

    v = _num(run, v)
    return v if isinstance(v, Expr) else X.lift(v)
