"""Executes unmodified torch code symbolically.

A TorchDispatchMode sees every ATen operation that qadence (and the simulator it drives) performs.
Tensors stay ordinary torch tensors that hold the values of one concrete witness; next to each
storage lives a *shadow*: element offset -> symbolic value (symq.expr.Expr).  Views share storages,
so aliasing and in-place writes need no modelling.  Autograd sits above this mode, so gradients of
the real code are symbolic too.  Comparisons on symbolic values that the code branches on are
decided by the witness and recorded as path conditions.
"""
from __future__ import annotations

import cmath
import math
from typing import Any, Callable

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode

from . import expr as X
from .expr import ZERO, UNIT, Env, Expr, Unsupported, lift

aten = torch.ops.aten


class BoolE:
    """A comparison `d op 0` between symbolic values, or a combination of them."""

    __slots__ = ("op", "a")

    def __init__(self, op, a):
        self.op, self.a = op, a

    def ev(self, env) -> bool:
        o, a = self.op, self.a
        if o == "not":
            return not a.ev(env)
        if o == "and":
            return all(x.ev(env) if isinstance(x, BoolE) else bool(x) for x in a)
        if o == "or":
            return any(x.ev(env) if isinstance(x, BoolE) else bool(x) for x in a)
        v = a.ev(env)
        if o == "eq":
            return abs(v) < 1e-12
        if o == "lt":
            return v.real < 0
        if o == "le":
            return v.real <= 0
        raise AssertionError(o)

    def __repr__(self):
        return f"{self.op}({self.a})"


def bnot(b):
    if isinstance(b, BoolE):
        return b.a if b.op == "not" else BoolE("not", b)
    return not b


def _infinite(e):
    """The sign of an infinite constant, else 0 (symbolic values are finite)."""
    if isinstance(e, Expr):
        if not e.is_const():
            return 0
        e = e.cval()
    e = complex(e).real
    return 1 if e == float("inf") else -1 if e == -float("inf") else 0


def compare(op, a, b):
    ia, ib = _infinite(a), _infinite(b)
    if ia or ib:
        return {"eq": ia == ib, "ne": ia != ib, "lt": ia < ib, "le": ia <= ib, "gt": ia > ib, "ge": ia >= ib}[op]
    d = lift(a) - lift(b)
    if op in ("gt", "ge"):
        op, d = {"gt": "lt", "ge": "le"}[op], -d
    neg = op == "ne"
    if neg:
        op = "eq"
    if d.is_const():
        c = d.cval()
        r = {"eq": c == 0, "lt": c.real < 0, "le": c.real <= 0}[op]
        return bool(r) != neg
    if op != "eq" and not X.is_real(d):
        raise Unsupported("ordering of complex symbolic values")
    b_ = BoolE(op, d)
    return bnot(b_) if neg else b_


class Shadow:
    __slots__ = ("st", "unit", "data")

    def __init__(self, st, unit):
        self.st, self.unit, self.data = st, unit, {}


class Run:
    """State of one symbolic execution."""

    def __init__(self, values: dict[int, float] | None = None):
        self.shadows: dict[int, Shadow] = {}
        self.env = Env(values)
        self.path: list[tuple[BoolE, bool]] = []
        self.pins: list[str] = []
        self.saved: dict = {}  # bytes written by torch.save -> the object with its shadows
        self.nops = 0
        self.nsym = 0
        self.ops: dict[str, int] = {}
        self.multinomial: list = []
        self.funcs: set = set()

    # ---- shadows
    def key(self, t):
        return t.untyped_storage()._cdata

    def has(self, t) -> bool:
        if t.layout != torch.strided or t.device.type != "cpu":
            return False
        return bool(self.shadows) and self.key(t) in self.shadows

    def offsets(self, t) -> np.ndarray:
        off = np.array(t.storage_offset(), dtype=np.int64)
        idx = np.full((1,) * t.dim() if t.dim() else (), off, dtype=np.int64)
        for d, (n, s) in enumerate(zip(t.shape, t.stride())):
            sh = [1] * t.dim()
            sh[d] = n
            idx = idx + (np.arange(n, dtype=np.int64) * s).reshape(sh)
        return np.broadcast_to(idx, tuple(t.shape))

    def read(self, t) -> np.ndarray:
        """Object array of the symbolic values of a tensor (constants lifted)."""
        out = np.empty(tuple(t.shape), dtype=object)
        with torch._C._DisableTorchDispatch() if False else _nodispatch():
            conc = t.detach()
            conc = conc.resolve_conj().resolve_neg()
            if conc.layout != torch.strided:
                conc = conc.to_dense()
            cnp = np.array(conc.tolist() if conc.dtype in (torch.bfloat16,) else conc.numpy())
        isb = t.dtype == torch.bool
        if not self.has(t):
            flat = [bool(c) if isb else Expr.const(c) for c in cnp.reshape(-1).tolist()]
            out.reshape(-1)[:] = flat if flat else out.reshape(-1)
            if len(flat):
                o = out.reshape(-1)
                for i, f in enumerate(flat):
                    o[i] = f
            return out
        sh = self.shadows[self.key(t)]
        offs = self.offsets(t).reshape(-1)
        es = t.element_size()
        cf = cnp.reshape(-1)
        o = out.reshape(-1)
        conj, neg = t.is_conj(), t.is_neg()
        data = sh.data
        for i, k in enumerate(offs.tolist()):
            if es == sh.unit:
                e = data.get(k)
            elif es * 2 == sh.unit:
                e = data.get(k // 2)
                if e is not None:
                    e = e.im() if k % 2 else e.re()
            elif es == sh.unit * 2:
                a, b = data.get(2 * k), data.get(2 * k + 1)
                if a is None and b is None:
                    e = None
                else:
                    cc = complex(cf[i])
                    if conj:
                        cc = cc.conjugate()
                    a = Expr.const(cc.real) if a is None else a
                    b = Expr.const(cc.imag) if b is None else b
                    e = a + b * 1j
            else:
                raise Unsupported("reinterpreting view")
            if e is None:
                o[i] = bool(cf[i]) if isb else Expr.const(cf[i])
            else:
                if isinstance(e, Expr):
                    if conj:
                        e = e.conj()
                    if neg:
                        e = -e
                o[i] = e
        return out

    def write(self, t, arr) -> None:
        arr = np.asarray(arr, dtype=object)
        if tuple(arr.shape) != tuple(t.shape):
            arr = np.broadcast_to(arr, tuple(t.shape))
        k = self.key(t)
        sh = self.shadows.get(k)
        flat = arr.reshape(-1)
        if sh is None:
            if not any(_sym(e) for e in flat):
                return
            sh = self.shadows[k] = Shadow(t.untyped_storage(), t.element_size())
        es = t.element_size()
        offs = self.offsets(t).reshape(-1).tolist()
        conj, neg = t.is_conj(), t.is_neg()
        cplx = t.dtype.is_complex
        for off, e in zip(offs, flat):
            if isinstance(e, Expr):
                if not cplx and not X.is_real(e):
                    e = e.re()
                if conj:
                    e = e.conj()
                if neg:
                    e = -e
            s = _sym(e)
            if es == sh.unit:
                if s:
                    sh.data[off] = e
                else:
                    sh.data.pop(off, None)
            elif es * 2 == sh.unit:
                base = off // 2
                old = sh.data.get(base)
                if old is None:
                    if not s:
                        continue
                    old = Expr.const(self._conc_unit(t, base))
                r, i = old.re(), old.im()
                if off % 2:
                    i = lift(e)
                else:
                    r = lift(e)
                n = r + i * 1j
                if n.is_const():
                    sh.data.pop(base, None)
                else:
                    sh.data[base] = n
            else:
                raise Unsupported("write through a reinterpreting view")

    def _conc_unit(self, t, base):
        with _nodispatch():
            dt = {8: torch.complex128, 4: torch.complex64}[t.element_size()]
            v = torch.empty(0, dtype=dt).set_(t.untyped_storage())
            return complex(v.reshape(-1)[base].item())

    # ---- branching
    def decide(self, b) -> bool:
        if not isinstance(b, BoolE):
            return bool(b)
        r = b.ev(self.env)
        self.path.append((b, r))
        return r

    texts = 0

    def pin(self, what: str) -> None:
        self.pins.append(what)


def _sym(e) -> bool:
    if isinstance(e, Expr):
        return not e.is_const()
    return isinstance(e, BoolE)


_CUR: list["Sym"] = []
_QUIET = 0


class _nodispatch:
    """Turn the mode (and autograd) off inside handlers."""

    def __enter__(self):
        from torch.utils._python_dispatch import _disable_current_modes

        global _QUIET
        _QUIET += 1
        self.m = _disable_current_modes()
        self.m.__enter__()
        self.g = torch.no_grad()
        self.g.__enter__()

    def __exit__(self, *a):
        global _QUIET
        _QUIET -= 1
        self.g.__exit__(*a)
        self.m.__exit__(*a)


VIEWS = {
    "view", "_unsafe_view", "permute", "transpose", "t", "expand", "slice", "select", "unsqueeze",
    "squeeze", "alias", "detach", "as_strided", "diagonal", "split", "split_with_sizes", "unbind",
    "unfold", "chunk", "narrow", "_conj", "_neg_view", "view_as_real", "view_as_complex",
    "lift_fresh", "_reshape_alias", "swapaxes", "movedim", "resolve_conj_view", "detach_",
    "squeeze_", "unsqueeze_", "transpose_", "t_", "numpy_T", "adjoint", "mT", "mH",
    "requires_grad_", "set_", "lift", "hsplit", "vsplit", "tensor_split", "real", "imag",
}
# shape and metadata only
META = {
    "size", "sym_size", "stride", "sym_stride", "sym_numel", "numel", "is_contiguous", "dim",
    "storage_offset", "sym_storage_offset", "is_complex", "is_floating_point", "zeros_like",
    "ones_like", "empty_like", "full_like", "rand_like", "randn_like", "new_zeros", "new_ones",
    "new_empty", "new_full", "new_empty_strided", "is_same_size", "_has_compatible_shallow_copy_type",
    "is_pinned", "result_type", "can_cast", "record_stream", "randint_like", "_version",
    "_local_scalar_dense_meta", "empty_strided", "_efficientzerotensor", "is_non_overlapping_and_dense",
    "layout", "device", "prim_layout",
}
# pure data movement: the operation is replayed on element identities
MOVES = {
    "clone", "contiguous", "flip", "roll", "repeat", "index", "index_select", "gather", "take",
    "masked_select", "tril", "triu", "cat", "stack", "hstack", "vstack", "constant_pad_nd",
    "repeat_interleave", "tile", "rot90", "diag", "diag_embed", "take_along_dim", "unsafe_split",
    "_unsafe_index", "block_diag", "permute_copy", "view_copy", "expand_copy", "select_copy",
    "slice_copy", "as_strided_copy", "resolve_conj", "resolve_neg", "fill_diagonal", "concatenate",
    "meshgrid", "broadcast_tensors", "select_backward", "slice_backward", "diagonal_backward",
    "unfold_backward", "index_select_backward", "_reshape_copy", "dstack", "column_stack", "trace_move",
    "unfold_copy", "triu_", "tril_", "narrow_copy", "split_copy", "unbind_copy",
}
# movement with a second data operand
MOVES2 = {
    "copy": (0, 1), "copy_": (0, 1), "index_put": (0, 2), "index_put_": (0, 2),
    "_index_put_impl_": (0, 2), "_unsafe_index_put": (0, 2),
    "scatter": (0, 3), "scatter_": (0, 3), "slice_scatter": (0, 1), "select_scatter": (0, 1),
    "diagonal_scatter": (0, 1), "as_strided_scatter": (0, 1), "fill": (0, 1), "fill_": (0, 1),
    "masked_fill": (0, 2), "masked_fill_": (0, 2), "masked_scatter": (0, 2), "masked_scatter_": (0, 2),
    "where": (1, 2), "index_copy": (0, 3), "index_copy_": (0, 3), "index_fill": (0, 3), "index_fill_": (0, 3),
    "set_data": (0, 1),
}


def _vec(f, n):
    return np.frompyfunc(f, n, 1)


def _obj(a) -> np.ndarray:
    if isinstance(a, np.ndarray):
        return a
    o = np.empty((), dtype=object)
    o[()] = a
    return o


def _ew(f):
    def h(*arrs):
        arrs = [_obj(a) for a in arrs]
        sh = np.broadcast_shapes(*[a.shape for a in arrs])
        bs = [np.broadcast_to(a, sh).reshape(-1) for a in arrs]
        out = np.empty(sh, dtype=object)
        o = out.reshape(-1) if out.shape else None
        if o is None:
            out[()] = f(*[b[0] for b in bs])
            return out
        res = [f(*xs) for xs in zip(*bs)]
        for i, r in enumerate(res):
            o[i] = r
        return out.reshape(sh)

    return h


def matmul(A: np.ndarray, B: np.ndarray) -> np.ndarray:
    """2D product, skipping zeros."""
    n, k = A.shape
    m = B.shape[1]
    out = np.empty((n, m), dtype=object)
    Bn = [[(l, B[l, j]) for l in range(k) if B[l, j].t] for j in range(m)]
    for i in range(n):
        row = A[i]
        for j in range(m):
            s: dict = {}
            acc = ZERO
            for l, b in Bn[j]:
                a = row[l]
                if a.t:
                    p = a * b
                    for mm, c in p.t.items():
                        s[mm] = s.get(mm, 0) + c
            out[i, j] = Expr({mm: c for mm, c in s.items() if abs(c) >= X.EPS})
    return out


def bmm(A, B):
    return np.stack([matmul(a, b) for a, b in zip(A, B)]) if len(A) else np.empty((0, A.shape[1], B.shape[2]), object)


def _norm_dims(dim, nd):
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        return tuple(range(nd))
    if isinstance(dim, int):
        dim = [dim]
    return tuple(sorted(d % nd if nd else 0 for d in dim))


def _sumarr(a, dims, keep):
    if a.ndim == 0:
        return a
    nd = a.ndim
    rest = [d for d in range(nd) if d not in dims]
    b = np.transpose(a, rest + list(dims)).reshape([a.shape[d] for d in rest] + [-1])
    sh = b.shape[:-1]
    flat = b.reshape(-1, b.shape[-1]) if b.shape[-1] else b.reshape(int(np.prod(sh)) if sh else 1, 0)
    out = np.empty((flat.shape[0],), dtype=object)
    for i in range(flat.shape[0]):
        s: dict = {}
        for e in flat[i]:
            for mm, c in e.t.items():
                s[mm] = s.get(mm, 0) + c
        out[i] = Expr({mm: c for mm, c in s.items() if abs(c) >= X.EPS})
    out = out.reshape(sh)
    if keep:
        out = out.reshape([1 if d in dims else a.shape[d] for d in range(nd)])
    return out


def _prodarr(a, dims, keep):
    nd = a.ndim
    rest = [d for d in range(nd) if d not in dims]
    b = np.transpose(a, rest + list(dims)).reshape([a.shape[d] for d in rest] + [-1])
    sh = b.shape[:-1]
    flat = b.reshape(-1, b.shape[-1])
    out = np.empty((flat.shape[0],), dtype=object)
    for i in range(flat.shape[0]):
        p = UNIT
        for e in flat[i]:
            p = p * e
        out[i] = p
    out = out.reshape(sh)
    if keep:
        out = out.reshape([1 if d in dims else a.shape[d] for d in range(nd)])
    return out


# ------------------------------------------------------------------ matrix exponential
def _spectral(M: np.ndarray):
    """M = sum_g e_g P_g with numeric projectors P_g and symbolic eigenvalues e_g, if the code's matrix
    is a combination of commuting normal matrices; else None."""
    n = M.shape[0]
    monos: dict = {}
    for i in range(n):
        for j in range(n):
            for m, c in M[i, j].t.items():
                monos.setdefault(m, np.zeros((n, n), dtype=complex))[i, j] = c
    mats = list(monos.items())
    # scalar symbolic factor common to all entries: M = p * A with a numeric A
    nz = [(i, j) for i in range(n) for j in range(n) if M[i, j].t]
    if not nz:
        return [(ZERO, np.eye(n, dtype=complex))]
    p0 = M[nz[0]]
    lead = max(p0.t, key=lambda m: (round(abs(p0.t[m]), 9), m))
    base = p0 * Expr.const(1 / p0.t[lead])
    A = np.zeros((n, n), dtype=complex)
    ok = True
    for i, j in nz:
        c = M[i, j].t.get(lead, 0)
        if any(abs(x) > 1e-10 for x in (M[i, j] - base * Expr.const(c)).t.values()):
            ok = False
            break
        A[i, j] = c
    fam = [(base, A)] if ok else [(Expr({m: 1 + 0j}), Am) for m, Am in mats]
    if not all(np.allclose(a @ b, b @ a, atol=1e-10) for _, a in fam for _, b in fam):
        return None
    if not all(np.allclose(a @ a.conj().T, a.conj().T @ a, atol=1e-10) for _, a in fam):
        return None
    rng = np.random.default_rng(7)
    # simultaneous diagonalisation of commuting normal matrices
    G = sum(rng.normal() * (a + a.conj().T) + rng.normal() * 1j * (a - a.conj().T) for _, a in fam)
    w, V = np.linalg.eigh((G + G.conj().T) / 2)
    Ds = [V.conj().T @ a @ V for _, a in fam]
    if not all(np.allclose(d, np.diag(np.diag(d)), atol=1e-8) for d in Ds):
        return None
    # group equal joint eigenvalues into projectors
    groups: dict = {}
    for k in range(n):
        key = tuple((round(d[k, k].real, 8) + 0.0, round(d[k, k].imag, 8) + 0.0) for d in Ds)
        groups.setdefault(key, []).append(k)
    out = []
    for key, ks in groups.items():
        P = V[:, ks] @ V[:, ks].conj().T
        P[abs(P) <= 1e-13] = 0
        arg = ZERO
        for (f, _), d in zip(fam, Ds):
            arg = arg + f * Expr.const(complex(d[ks[0], ks[0]]))
        out.append((arg, P))
    return out


def matrix_exp(M: np.ndarray) -> np.ndarray:
    """exp of a square matrix of Expr."""
    n = M.shape[0]
    if all(M[i, j].is_const() for i in range(n) for j in range(n)):
        import scipy.linalg as sl

        A = np.array([[M[i, j].cval() for j in range(n)] for i in range(n)], dtype=complex)
        R = sl.expm(A)
        return _ew(Expr.const)(R.astype(object))
    sp = _spectral(M)
    if sp is not None:
        out = np.full((n, n), ZERO, dtype=object)
        for e, Pm in sp:
            ph = X.expE(e)
            for i, j in zip(*np.nonzero(Pm)):
                out[i, j] = out[i, j] + ph * Expr.const(Pm[i, j])
        return out
    # the derivative of the exponential: exp [[A, G], [0, A]] = [[e^A, L(A, G)], [0, e^A]]
    h = n // 2
    if n % 2 == 0 and all(not M[h + i, j].t for i in range(h) for j in range(h)):
        A, G, B = M[:h, :h], M[:h, h:], M[h:, h:]
        if all(not any(abs(c) > 1e-10 for c in (A[i, j] - B[i, j]).t.values()) for i in range(h) for j in range(h)):
            sp = _spectral(A)
            if sp is not None:
                out = np.full((n, n), ZERO, dtype=object)
                lift_ = _ew(Expr.const)
                for e, Pm in sp:
                    ph = X.expE(e)
                    for i, j in zip(*np.nonzero(Pm)):
                        out[i, j] = out[i, j] + ph * Expr.const(Pm[i, j])
                    for f, Qm in sp:
                        phi = ph if f is e else (ph - X.expE(f)) * X.inv(e - f)
                        L = matmul(matmul(lift_(Pm.astype(object)), G), lift_(Qm.astype(object)))
                        for i in range(h):
                            for j in range(h):
                                out[i, h + j] = out[i, h + j] + phi * L[i, j]
                out[h:, h:] = out[:h, :h]
                return out
    # M = m0*I + N with N^2 = -q*I, q a real scalar: exp(M) = e^{m0} (cos r + sin r / r * N), r = sqrt q
    tr = ZERO
    for i in range(n):
        tr = tr + M[i, i]
    m0 = tr * (1.0 / n)
    N = M.copy()
    for i in range(n):
        N[i, i] = N[i, i] - m0
    N2 = matmul(N, N)
    q = -N2[0, 0]
    scal = all(
        not any(abs(c) > 1e-9 for c in (N2[i, j] + (q if i == j else ZERO)).t.values())
        for i in range(n)
        for j in range(n)
    )
    if scal and X.is_real(q):
        r = X.sqrt(q)
        ph = X.expE(m0)
        co, si = X.cosE(r), X.sinE(r) * X.inv(r)
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                out[i, j] = ph * ((co if i == j else ZERO) + si * N[i, j])
        return out
    # otherwise uninterpreted, keyed by the matrix; exp commutes with transposition and conjugation
    import scipy.linalg as sl

    cj = _ew(lambda e: e.conj())
    key = lambda A: tuple(str(e) for e in A.reshape(-1))
    same = lambda A: all(not any(abs(c) > 1e-12 for c in (a - b).t.values()) for a, b in zip(A.reshape(-1), M.reshape(-1)))
    symm, herm = same(M.T), same(cj(M.T))
    forms = [(key(A), k) for k, A in enumerate((M, M.T, cj(M), cj(M.T)))]
    form = min(forms)[1]
    if form:
        R = matrix_exp((M.T, cj(M), cj(M.T))[form - 1])
        return (R.T, cj(R), cj(R.T))[form - 1]
    flat = tuple(M.reshape(-1))
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            def num(part, i=i, j=j):
                def f(*vals):
                    R = sl.expm(np.array(vals, dtype=complex).reshape(n, n))[i, j]
                    return R.real if part == 0 else R.imag
                return f

            if j < i and symm:
                out[i, j] = out[j, i]
                continue
            if j < i and herm:
                out[i, j] = out[j, i].conj()
                continue
            re = X.atom(f"expm{i},{j}re", flat, num(0))
            im = X.atom(f"expm{i},{j}im", flat, num(1))
            out[i, j] = re + im * 1j
    return out


# ------------------------------------------------------------------ handlers
def _lift_any(v):
    return v if isinstance(v, (Expr, BoolE, bool)) else lift(v)


H: dict[str, Callable] = {}


def op(*names):
    def d(f):
        for n in names:
            H[n] = f
            H[n + "_"] = f
        return f

    return d


def _num(run, v):
    """Indicator of a boolean: decided on the path."""
    if isinstance(v, BoolE):
        return UNIT if run.decide(v) else ZERO
    if isinstance(v, bool):
        return UNIT if v else ZERO
    return v


def arith(run, arr):
    return _ew(lambda v: _num(run, v))(arr)


def E1(f):
    def h(run, out, a, *r, **k):
        return _ew(f)(arith(run, run.rd(a)))

    return h


def _binary(f):
    def h(run, out, a, b, *r, alpha=1, **k):
        x, y = arith(run, run.rd(a)), arith(run, run.rd(b))
        if alpha != 1:
            y = _ew(lambda v: v * alpha)(y)
        return _ew(f)(x, y)

    return h


op("add")(_binary(lambda a, b: a + b))
op("sub", "subtract")(_binary(lambda a, b: a - b))
op("rsub")(_binary(lambda a, b: b - a))
op("mul", "multiply")(_binary(lambda a, b: a * b))
op("true_divide")(_binary(lambda a, b: a / b))


@op("div")
def _div(run, out, a, b, rounding_mode=None, **k):
    if rounding_mode is not None:
        raise Unsupported("rounded division")
    return _ew(lambda p, q: p / q)(arith(run, run.rd(a)), arith(run, run.rd(b)))


op("neg", "negative", "negative_")(E1(lambda a: -a))
op("cos")(E1(X.cosE))
op("sin")(E1(X.sinE))
op("tan")(E1(X.tanE))
op("exp")(E1(X.expE))
op("sqrt")(E1(X.sqrt))
op("rsqrt")(E1(lambda a: X.inv(X.sqrt(a))))
op("reciprocal")(E1(X.inv))
op("square")(E1(lambda a: a * a))
op("abs", "absolute")(E1(X.absval))
op("conj_physical", "_conj_physical", "conj")(E1(lambda a: a.conj()))
op("positive", "nan_to_num")(E1(lambda a: a))
op("log1p")(E1(lambda a: X.FN1["log"](a + 1)))
for _n in ("acos", "asin", "atan", "tanh", "log", "log2", "sigmoid", "sign", "floor", "ceil", "erf", "sinh", "cosh"):
    op(_n)(E1(X.FN1[_n]))
op("arccos")(E1(X.FN1["acos"]))
op("arcsin")(E1(X.FN1["asin"]))
op("log_sigmoid")(E1(lambda a: X.FN1["log"](X.FN1["sigmoid"](a))))


def _sgn(a):
    if X.is_real(a):
        return X.FN1["sign"](a)
    return a * X.inv(X.absval(a))


op("sgn")(E1(_sgn))


@op("heaviside")
def _heav(run, out, a, b, **k):
    return _ew(lambda p, q: X.FN1["heaviside"](p))(run.rd(a), run.rd(b))


@op("angle")
def _angle(run, out, a, **k):
    def f(e):
        if e.is_const():
            return Expr.const(cmath.phase(e.cval()))
        return X.atom("angle", (e,), lambda z: cmath.phase(z), -math.pi, math.pi)

    return _ew(f)(run.rd(a))


@op("polar")
def _polar(run, out, a, b, **k):
    return _ew(lambda r, t: r * X.expi(t))(run.rd(a), run.rd(b))


@op("complex")
def _complex(run, out, a, b, **k):
    return _ew(lambda r, i: r + i * 1j)(run.rd(a), run.rd(b))


@op("pow")
def _pow(run, out, a, b, **k):
    def f(p, q):
        if q.is_const():
            return p**q
        if p.is_const():
            return X.expE(q * Expr.const(cmath.log(p.cval())))
        raise Unsupported("symbolic ** symbolic")

    return _ew(f)(arith(run, run.rd(a)), arith(run, run.rd(b)))


@op("xlogy")
def _xlogy(run, out, a, b, **k):
    return _ew(lambda p, q: p * X.FN1["log"](q) if p.t else ZERO)(run.rd(a), run.rd(b))


@op("mm")
def _mm(run, out, a, b, **k):
    return matmul(run.rd(a), run.rd(b))


@op("bmm")
def _bmm(run, out, a, b, **k):
    return bmm(run.rd(a), run.rd(b))


@op("mv")
def _mv(run, out, a, b, **k):
    return matmul(run.rd(a), run.rd(b)[:, None])[:, 0]


@op("dot")
def _dot(run, out, a, b, **k):
    return matmul(run.rd(a)[None], run.rd(b)[:, None])[0, 0]


@op("vdot")
def _vdot(run, out, a, b, **k):
    return matmul(_ew(lambda e: e.conj())(run.rd(a))[None], run.rd(b)[:, None])[0, 0]


@op("addmm")
def _addmm(run, out, c, a, b, beta=1, alpha=1, **k):
    return _ew(lambda p, q: p * beta + q * alpha)(run.rd(c), matmul(run.rd(a), run.rd(b)))


@op("baddbmm")
def _baddbmm(run, out, c, a, b, beta=1, alpha=1, **k):
    return _ew(lambda p, q: p * beta + q * alpha)(run.rd(c), bmm(run.rd(a), run.rd(b)))


@op("addcmul")
def _addcmul(run, out, c, a, b, value=1, **k):
    return _ew(lambda p, q, r: p + q * r * value)(run.rd(c), run.rd(a), run.rd(b))


@op("addcdiv")
def _addcdiv(run, out, c, a, b, value=1, **k):
    return _ew(lambda p, q, r: p + q / r * value)(run.rd(c), run.rd(a), run.rd(b))


@op("lerp")
def _lerp(run, out, a, b, w, **k):
    return _ew(lambda p, q, r: p + (q - p) * r)(run.rd(a), run.rd(b), run.rd(w))


@op("ger", "outer")
def _outer(run, out, a, b, **k):
    return matmul(run.rd(a)[:, None], run.rd(b)[None])


@op("linalg_outer")
def _outer2(run, out, a, b, **k):
    return matmul(run.rd(a)[:, None], run.rd(b)[None])


@op("sum")
def _sum(run, out, a, dim=None, keepdim=False, **k):
    x = arith(run, run.rd(a))
    return _sumarr(x, _norm_dims(dim, x.ndim), keepdim)


@op("mean")
def _mean(run, out, a, dim=None, keepdim=False, **k):
    x = arith(run, run.rd(a))
    dims = _norm_dims(dim, x.ndim)
    n = int(np.prod([x.shape[d] for d in dims])) if x.ndim else 1
    return _ew(lambda e: e * (1.0 / n))(_sumarr(x, dims, keepdim))


@op("var")
def _var(run, out, a, dim=None, unbiased=None, correction=None, keepdim=False, **k):
    x = run.rd(a)
    dims = _norm_dims(dim, x.ndim)
    n = int(np.prod([x.shape[d] for d in dims])) if x.ndim else 1
    if correction is None:
        correction = 0 if unbiased is False else 1
    mu = _ew(lambda e: e * (1.0 / n))(_sumarr(x, dims, True))
    d2 = _ew(lambda p, q: (p - q) * (p - q).conj())(x, mu)
    return _ew(lambda e: e * (1.0 / (n - correction)))(_sumarr(d2, dims, keepdim))


@op("std")
def _std(run, out, a, *r, **k):
    return _ew(X.sqrt)(_var(run, out, a, *r, **k))


@op("prod")
def _prod(run, out, a, dim=None, keepdim=False, **k):
    x = run.rd(a)
    return _prodarr(x, _norm_dims(dim, x.ndim), keepdim)


@op("cumsum")
def _cumsum(run, out, a, dim, **k):
    x = arith(run, run.rd(a))
    y = x.copy()
    y = np.moveaxis(y, dim, 0)
    for i in range(1, y.shape[0]):
        y[i] = _ew(lambda p, q: p + q)(y[i - 1], y[i])
    return np.moveaxis(y, 0, dim)


@op("cumprod")
def _cumprod(run, out, a, dim, **k):
    x = run.rd(a).copy()
    y = np.moveaxis(x, dim, 0)
    for i in range(1, y.shape[0]):
        y[i] = _ew(lambda p, q: p * q)(y[i - 1], y[i])
    return np.moveaxis(y, 0, dim)


@op("trace")
def _trace(run, out, a, **k):
    x = run.rd(a)
    s = ZERO
    for i in range(min(x.shape)):
        s = s + x[i, i]
    return s


@op("kron")
def _kron(run, out, a, b, **k):
    x, y = run.rd(a), run.rd(b)
    nd = max(x.ndim, y.ndim)
    x = x.reshape((1,) * (nd - x.ndim) + x.shape)
    y = y.reshape((1,) * (nd - y.ndim) + y.shape)
    r = _ew(lambda p, q: p * q)(
        x.reshape(sum(([s, 1] for s in x.shape), [])), y.reshape(sum(([1, s] for s in y.shape), []))
    )
    return r.reshape([s * t for s, t in zip(x.shape, y.shape)])


@op("_to_copy", "to")
def _to_copy(run, out, a, **k):
    x = run.rd(a)
    if out.dtype == torch.bool:
        return _ew(lambda e: e if isinstance(e, (BoolE, bool)) else compare("ne", e, 0))(x)
    if not out.dtype.is_floating_point and not out.dtype.is_complex:
        if any(_sym(e) for e in x.reshape(-1)):
            if a.dtype == torch.bool:
                return arith(run, x)
            if a.dtype.is_floating_point or a.dtype.is_complex:
                run.pin("cast of a symbolic value to integers")
                return _ew(lambda e: Expr.const(round(e.ev(run.env).real)) if _sym(e) else e)(x)
        return x
    return arith(run, x)


@op("linalg_matrix_exp", "matrix_exp")
def _mexp(run, out, a, **k):
    x = run.rd(a)
    sh = x.shape
    x = x.reshape((-1,) + sh[-2:])
    return np.stack([matrix_exp(m) for m in x]).reshape(sh)


@op("_linalg_solve_ex", "linalg_solve_ex", "linalg_solve")
def _solve(run, out, A, B, left=True, check_errors=False, **k):
    if run.has(A):
        raise Unsupported("linear system with a symbolic matrix")
    with _nodispatch():
        inv_ = torch.linalg.inv(A).numpy()
    if not left or A.dim() != 2:
        raise Unsupported("batched linear system")
    x = run.rd(B)
    y = x[:, None] if x.ndim == 1 else x
    r = matmul(_ew(Expr.const)(inv_.astype(object)), y)
    r = r[:, 0] if x.ndim == 1 else r
    return [r] + [None] * (len(out) - 1) if isinstance(out, (tuple, list)) else r


@op("linalg_qr", "qr")
def _qr(run, out, A, mode="reduced", **k):
    """Gram-Schmidt, with the signs of the real diagonal of R that LAPACK chose at the witness."""
    M = run.rd(A)
    n = M.shape[-1]
    if M.shape != (n, n) or mode not in ("reduced", "complete"):
        raise Unsupported("QR of this shape")
    with _nodispatch():
        sg = [-1.0 if v < 0 else 1.0 for v in out[1].diagonal().real.tolist()]
    Q = np.empty((n, n), dtype=object)
    R = np.empty((n, n), dtype=object)
    R[:] = X.ZERO
    for j in range(n):
        v = [M[r, j] if isinstance(M[r, j], Expr) else X.lift(M[r, j]) for r in range(n)]
        for i in range(j):
            R[i, j] = sum((Q[r, i].conj() * v[r] for r in range(n)), X.ZERO)
            v = [v[r] - Q[r, i] * R[i, j] for r in range(n)]
        norm = X.sqrt(sum(((x * x.conj()).re() for x in v), X.ZERO))
        R[j, j] = norm * sg[j]
        inv_ = X.inv(R[j, j])
        for r in range(n):
            Q[r, j] = v[r] * inv_
    return [Q, R]


@op("_linalg_eigh", "linalg_eigh", "_linalg_eigvals_h", "linalg_eigvalsh")
def _eigh(run, out, a, UPLO="L", compute_v=True, **k):
    """Hermitian eigenproblem: numeric eigenvectors with symbolic eigenvalues, or the 2x2 formula (values only)."""
    x = run.rd(a)
    n = x.shape[-1]
    ms = x.reshape((-1, n, n))
    vals = np.empty((ms.shape[0], n), dtype=object)
    vecs = np.empty((ms.shape[0], n, n), dtype=object)
    for b, M in enumerate(ms):
        sp = _spectral(M)
        if sp is not None:
            es = []
            for e, Pm in sp:
                w, U = np.linalg.eigh(Pm)
                es += [(e, U[:, i]) for i in range(n) if w[i] > 0.5]
        elif n == 2:
            m, d = (M[0, 0].re() + M[1, 1].re()) * 0.5, (M[0, 0].re() - M[1, 1].re()) * 0.5
            r = X.sqrt(d * d + (M[1, 0] * M[1, 0].conj()).re())
            es = [(m - r, None), (m + r, None)]
        else:
            raise Unsupported("eigenproblem of a symbolic matrix")
        es = [(e.re(), u) for e, u in es]
        es.sort(key=lambda e: e[0].ev(run.env).real if _sym(e[0]) else e[0].cval().real)
        for (p, _), (q, _) in zip(es, es[1:]):
            if p is not q and (_sym(p) or _sym(q)):
                run.decide(compare("le", p, q))
        vals[b] = [e for e, _ in es]
        if es[0][1] is not None:
            vecs[b] = _ew(Expr.const)(np.stack([u for _, u in es], 1).astype(complex).astype(object))
        else:  # unknown functions of the entries: using them leaves the obligation undecided
            flat = [f for e in M.reshape(-1) for f in (e.re(), e.im())]
            for i in range(n):
                for j in range(n):
                    vecs[b, i, j] = X.atom(f"eigvec{i},{j}", tuple(flat), lambda *v: 0.0)
    vals = vals.reshape(x.shape[:-1])
    if not isinstance(out, (tuple, list)):
        return vals
    # within the path (fixed order of the eigenvalues) the eigenvectors do not depend on the inputs
    V = None
    if out[1] is not None and out[1].numel():
        V = vecs.reshape(x.shape)
        if not any(_sym(v) for v in V.reshape(-1)):  # any choice inside degenerate spaces is as good
            with _nodispatch():
                num = np.array([v.cval() for v in V.reshape(-1)]).reshape(x.shape)
                out[1].copy_(torch.as_tensor(num if out[1].is_complex() else num.real))
    return [vals, V]


@op("linalg_vector_norm", "norm", "linalg_norm")
def _vnorm(run, out, a, ord=2, dim=None, keepdim=False, **k):
    x = run.rd(a)
    if isinstance(ord, Expr) or ord not in (2, 2.0, None, "fro"):
        raise Unsupported("norm order")
    sq = _ew(lambda e: (e * e.conj()).re())(x)
    return _ew(X.sqrt)(_sumarr(sq, _norm_dims(dim, x.ndim), keepdim))


def _cmp(name):
    def h(run, out, a, b, **k):
        return _ew(lambda p, q: compare(name, _num(run, p), _num(run, q)))(run.rd(a), run.rd(b))

    return h


for _n, _m in [("lt", "lt"), ("le", "le"), ("gt", "gt"), ("ge", "ge"), ("eq", "eq"), ("ne", "ne")]:
    op(_n)(_cmp(_m))


def _tob(v):
    return v if isinstance(v, (BoolE, bool)) else compare("ne", v, 0)


@op("logical_not", "bitwise_not")
def _lnot(run, out, a, **k):
    return _ew(lambda v: bnot(_tob(v)))(run.rd(a))


@op("logical_and", "bitwise_and")
def _land(run, out, a, b, **k):
    def f(p, q):
        p, q = _tob(p), _tob(q)
        if p is True or p is False:
            return q if p else False
        if q is True or q is False:
            return p if q else False
        return BoolE("and", (p, q))

    return _ew(f)(run.rd(a), run.rd(b))


@op("logical_or", "bitwise_or")
def _lor(run, out, a, b, **k):
    def f(p, q):
        p, q = _tob(p), _tob(q)
        if p is True or p is False:
            return True if p else q
        if q is True or q is False:
            return True if q else p
        return BoolE("or", (p, q))

    return _ew(f)(run.rd(a), run.rd(b))


def _redb(kind):
    def h(run, out, a, dim=None, keepdim=False, **k):
        x = _ew(_tob)(run.rd(a))
        dims = _norm_dims(dim, x.ndim)
        rest = [d for d in range(x.ndim) if d not in dims]
        b = np.transpose(x, rest + list(dims)).reshape([x.shape[d] for d in rest] + [-1])
        flat = b.reshape(-1, b.shape[-1])
        o = np.empty((flat.shape[0],), dtype=object)
        for i, row in enumerate(flat):
            syms = [v for v in row if isinstance(v, BoolE)]
            consts = [bool(v) for v in row if not isinstance(v, BoolE)]
            if kind == "all":
                o[i] = False if not all(consts) else (BoolE("and", tuple(syms)) if syms else True)
            else:
                o[i] = True if any(consts) else (BoolE("or", tuple(syms)) if syms else False)
        o = o.reshape(b.shape[:-1])
        if keepdim:
            o = o.reshape([1 if d in dims else x.shape[d] for d in range(x.ndim)])
        return o

    return h


op("all", "_is_all_true")(_redb("all"))
op("any", "_is_any_true")(_redb("any"))


@op("isnan", "isinf", "isneginf", "isposinf")
def _isnan(run, out, a, **k):
    return _ew(lambda e: False)(run.rd(a))


@op("isfinite")
def _isfin(run, out, a, **k):
    return _ew(lambda e: True)(run.rd(a))


def _choose(kind):
    def h(run, out, a, b=None, keepdim=False, dim=None, **k):
        x = run.rd(a)
        better = (lambda p, q: compare("ge", p, q)) if kind == "max" else (lambda p, q: compare("le", p, q))
        if b is None and dim is None:
            flat = list(x.reshape(-1))
            best = flat[0]
            for e in flat[1:]:
                if not run.decide(better(best, e)):
                    best = e
            return best
        if isinstance(b, torch.Tensor):
            return _ew(lambda p, q: p if run.decide(better(p, q)) else q)(x, run.rd(b))
        d = b if b is not None else dim
        d = d[0] if isinstance(d, (list, tuple)) else d
        y = np.moveaxis(x, d, -1)
        flat = y.reshape(-1, y.shape[-1])
        o = np.empty((flat.shape[0],), dtype=object)
        for i, row in enumerate(flat):
            best = row[0]
            for e in row[1:]:
                if not run.decide(better(best, e)):
                    best = e
            o[i] = best
        o = o.reshape(y.shape[:-1])
        if keepdim:
            o = np.expand_dims(o, d)
        return [o, None] if isinstance(out, (tuple, list)) else o

    return h


op("max", "maximum", "amax")(_choose("max"))
op("min", "minimum", "amin")(_choose("min"))


@op("clamp")
def _clamp(run, out, a, min=None, max=None, **k):
    x = run.rd(a)
    if min is not None:
        x = _ew(lambda p, q: q if run.decide(compare("lt", p, q)) else p)(x, run.rd(min))
    if max is not None:
        x = _ew(lambda p, q: q if run.decide(compare("gt", p, q)) else p)(x, run.rd(max))
    return x


@op("clamp_min", "clamp_max_dummy")
def _clamp_min(run, out, a, m, **k):
    return _clamp(run, out, a, min=m)


@op("clamp_max")
def _clamp_max(run, out, a, m, **k):
    return _clamp(run, out, a, max=m)


@op("relu")
def _relu(run, out, a, **k):
    return _ew(lambda p: p if run.decide(compare("gt", p, 0)) else ZERO)(run.rd(a))


@op("round")
def _round(run, out, a, decimals=0, **k):
    run.pin("round of a symbolic value")
    return _ew(lambda e: Expr.const(round(e.ev(run.env).real, decimals)) if _sym(e) else e)(run.rd(a))


@op("mse_loss")
def _mse(run, out, a, b, reduction=1, **k):
    d = _ew(lambda p, q: (p - q) * (p - q))(run.rd(a), run.rd(b))
    if reduction == 0:
        return d
    s = _sumarr(d, tuple(range(d.ndim)), False)
    s = _obj(s)[()] if not isinstance(s, Expr) else s
    return s * (1.0 / d.size) if reduction == 1 else s


@op("mse_loss_backward")
def _mseb(run, out, g, a, b, reduction, **k):
    x, y, gg = run.rd(a), run.rd(b), run.rd(g)
    n = 1.0 / x.size if reduction == 1 else 1.0
    return _ew(lambda p, q, r: (p - q) * (2 * n) * r)(x, y, gg)


@op("sigmoid_backward")
def _sigb(run, out, g, y, **k):
    return _ew(lambda p, q: p * q * (1 - q))(run.rd(g), run.rd(y))


@op("tanh_backward")
def _tanhb(run, out, g, y, **k):
    return _ew(lambda p, q: p * (1 - q * q))(run.rd(g), run.rd(y))


@op("threshold_backward")
def _thrb(run, out, g, y, t, **k):
    return _ew(lambda p, q: p if run.decide(compare("gt", q, t)) else ZERO)(run.rd(g), run.rd(y))


def _sortlike(run, name, args, kwargs, res):
    """Selection operations: keep the witness' selection and record the conditions that justify it."""
    a = args[0]
    x = run.rd(a)
    if name == "sort":
        vals, idx = res
        d = kwargs.get("dim", args[1] if len(args) > 1 and isinstance(args[1], int) else -1)
        desc = kwargs.get("descending", args[2] if len(args) > 2 else False)
    elif name == "argsort":
        idx, vals = res, None
        d = kwargs.get("dim", args[1] if len(args) > 1 else -1)
        desc = kwargs.get("descending", args[2] if len(args) > 2 else False)
    elif name == "topk":
        vals, idx = res
        d, desc = -1, True
    else:
        raise Unsupported(name)
    with _nodispatch():
        ii = idx.numpy()
    y = np.moveaxis(x, d, -1)
    iy = np.moveaxis(ii, d, -1)
    o = np.take_along_axis(y, iy, -1)
    for row in o.reshape(-1, o.shape[-1]):
        for p, q in zip(row, row[1:]):
            run.decide(compare("ge" if desc else "le", p, q))
    if vals is not None:
        run.write(vals, np.moveaxis(o, -1, d))


class Sym(TorchDispatchMode):
    """The symbolic execution mode."""

    def __init__(self, run: Run, check: bool = False):
        super().__init__()
        self.run = run
        self.check = check

    def __enter__(self):
        _CUR.append(self)
        return super().__enter__()

    def __exit__(self, *a):
        _CUR.pop()
        return super().__exit__(*a)

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        run = self.run
        run.nops += 1
        name = func._schema.name.split("::")[1]
        ts = [t for t in torch.utils._pytree.tree_leaves((args, kwargs)) if isinstance(t, torch.Tensor)]
        if not run.shadows or not any(run.has(t) for t in ts):
            return func(*args, **kwargs)
        if name in VIEWS:
            out = func(*args, **kwargs)
            first = ts[0]
            for o in torch.utils._pytree.tree_leaves(out):
                if isinstance(o, torch.Tensor) and run.key(o) != run.key(first):
                    with _nodispatch():
                        pass
                    if o.shape == first.shape:
                        run.write(o, run.read(first))
                    else:
                        raise Unsupported(f"{name} copied")
            return out
        if name in META:
            return func(*args, **kwargs)
        run.nsym += 1
        run.ops[name] = run.ops.get(name, 0) + 1
        return self.symbolic(func, name, args, kwargs)

    def symbolic(self, func, name, args, kwargs):
        run = self.run
        if name in ("_local_scalar_dense", "item"):
            v = run.read(args[0]).reshape(-1)[0]
            conc = func(*args, **kwargs)
            if isinstance(v, BoolE):
                return run.decide(v)
            if _sym(v):
                run.pin("item() of a symbolic value")
            return conc
        if name == "is_nonzero":
            v = run.read(args[0]).reshape(-1)[0]
            return run.decide(v if isinstance(v, (BoolE, bool)) else compare("ne", v, 0))
        if name in ("equal",):
            a, b = args[:2]
            if a.shape != b.shape:
                return False
            return run.decide(_conj(compare("eq", p, q) for p, q in zip(run.read(a).reshape(-1), run.read(b).reshape(-1))))
        if name in ("allclose", "isclose"):
            a, b = args[0], args[1]
            rtol = kwargs.get("rtol", args[2] if len(args) > 2 else 1e-5)
            atol = kwargs.get("atol", args[3] if len(args) > 3 else 1e-8)

            def cl(p, q):
                p, q = lift(p), lift(q)
                d = p - q
                if d.is_const() and q.is_const():
                    return abs(d.cval()) <= atol + rtol * abs(q.cval())
                bound = lift(X.absval(q) * rtol + atol if rtol else atol)
                if X.is_real(d):
                    return _conj([compare("le", d, bound), compare("le", -d, bound)])
                return compare("le", X.absval(d), bound)

            r = _ew(cl)(run.rd(a), run.rd(b))
            if name == "allclose":
                return run.decide(_conj(r.reshape(-1)))
            out = func(*args, **kwargs)
            run.write(out, r)
            return out
        if name == "_sparse_coo_tensor_with_dims_and_tensors":
            # the sparse layout is represented by the dense tensor it stands for
            size, indices, values = args[2], args[3], args[4] if len(args) > 4 else kwargs["values"]
            with _nodispatch():
                idx = indices.numpy()
                out = func(*args, **kwargs).to_dense()
            arr = np.empty(tuple(size), dtype=object)
            arr[...] = ZERO
            for k, e in enumerate(run.read(values).reshape(-1)):
                cell = tuple(idx[:, k])
                arr[cell] = arr[cell] + e
            run.write(out, arr)
            return out
        if name == "multinomial":
            run.multinomial.append((run.read(args[0]), args[1:], dict(kwargs)))
            return func(*args, **kwargs)
        if name in ("nonzero",):
            x = run.read(args[0])
            for e in x.reshape(-1):
                run.decide(e if isinstance(e, (BoolE, bool)) else compare("ne", e, 0))
            return func(*args, **kwargs)
        if name in ("bernoulli", "bernoulli_", "normal", "poisson"):
            run.pin(f"{name} of a symbolic value")
            return func(*args, **kwargs)
        if name in ("argmax", "argmin"):
            x = run.read(args[0]).reshape(-1)
            out = func(*args, **kwargs)
            if out.numel() != 1:
                raise Unsupported("argmax over a dimension")
            k = int(_item(out))
            for i, e in enumerate(x):
                if i != k:
                    run.decide(compare("ge" if name == "argmax" else "le", x[k], e))
            return out
        if name in ("sort", "argsort", "topk"):
            out = func(*args, **kwargs)
            _sortlike(run, name, args, kwargs, out)
            return out
        if name in MOVES:
            return self.move(func, name, args, kwargs)
        if name == "where" and len(args) == 3 and isinstance(args[0], torch.Tensor):
            c = run.read(args[0])
            a, b = run.rd(args[1]), run.rd(args[2])
            out = func(*args, **kwargs)
            run.write(out, _ew(lambda k, p, q: p if run.decide(k) else q)(c, a, b))
            return out
        if name in MOVES2:
            return self.move2(func, name, args, kwargs)
        h = H.get(name)
        if h is None:
            return self.decompose(func, name, args, kwargs)
        inplace = name.endswith("_") and not name.startswith("_")
        run.rd = self.rd
        if inplace:
            arr = h(run, args[0], *args, **kwargs)
            out = func(*args, **kwargs)
            run.write(out, arr)
            return out
        out = func(*args, **kwargs)
        arr = h(run, out, *args, **{k: v for k, v in kwargs.items() if k not in ("dtype", "layout", "device", "pin_memory", "memory_format", "non_blocking", "out")})
        outs = list(out) if isinstance(out, (tuple, list)) else [out]
        arrs = arr if isinstance(arr, list) else [arr]
        for o, r in zip(outs, arrs):
            if r is not None:
                run.write(o, _obj(r))
        if self.check:
            self.validate(name, outs)
        return out

    def rd(self, v):
        if isinstance(v, torch.Tensor):
            return self.run.read(v)
        return _obj(lift(v) if not isinstance(v, bool) else v)

    def validate(self, name, outs):
        for o in outs:
            if isinstance(o, torch.Tensor) and self.run.has(o) and o.dtype != torch.bool:
                sym = np.array([complex(e.ev(self.run.env)) for e in self.run.read(o).reshape(-1)])
                with _nodispatch():
                    c = o.detach().resolve_conj().numpy().reshape(-1).astype(complex)
                if not np.allclose(sym, c, atol=1e-6, rtol=1e-5, equal_nan=True):
                    raise AssertionError(f"engine mismatch in {name}: {sym} vs {c}")

    def ids(self, t, pool):
        arr = self.run.read(t)
        n = len(pool)
        flat = arr.reshape(-1)
        pool.extend(flat)
        with _nodispatch():
            return torch.arange(n, n + flat.size, dtype=torch.int64).reshape(tuple(t.shape))

    def move(self, func, name, args, kwargs):
        run = self.run
        pool: list = [ZERO]
        out = func(*args, **kwargs)
        bool_ = False
        if isinstance(args[0], (list, tuple)):
            bool_ = all(t.dtype == torch.bool for t in args[0])
            a0 = [self.ids(t, pool) for t in args[0]]
            rest = args[1:]
        else:
            bool_ = args[0].dtype == torch.bool
            a0 = self.ids(args[0], pool)
            rest = list(args[1:])
            if name == "masked_select":
                m = run.read(rest[0])
                if any(isinstance(v, BoolE) for v in m.reshape(-1)):
                    for v in m.reshape(-1):
                        run.decide(v)
            for r in torch.utils._pytree.tree_leaves(rest):
                if isinstance(r, torch.Tensor) and run.has(r) and r.dtype == torch.bool:
                    for v in run.read(r).reshape(-1):
                        run.decide(v)
        kw = {k: v for k, v in kwargs.items() if k not in ("memory_format", "dtype", "layout", "device")}
        with _nodispatch():
            if name == "block_diag":
                ido = torch.block_diag(*a0)
            elif name.endswith("_backward"):
                ido = func(a0, *rest, **kw)
            elif name in ("tril_", "triu_"):
                ido = getattr(torch, name[:-1])(a0, *rest, **kw)
            elif name in ("resolve_conj", "resolve_neg", "contiguous", "clone"):
                ido = a0
            else:
                ido = func(a0, *rest, **kw)
        outs = list(out) if isinstance(out, (tuple, list)) else [out]
        idos = list(ido) if isinstance(ido, (tuple, list)) else [ido]
        for o, i in zip(outs, idos):
            ii = i.numpy().reshape(-1)
            arr = np.empty(ii.shape, dtype=object)
            for k, j in enumerate(ii.tolist()):
                arr[k] = pool[j] if j or not bool_ else False
            run.write(o, arr.reshape(tuple(o.shape)))
        if self.check:
            self.validate(name, outs)
        return out

    def move2(self, func, name, args, kwargs):
        run = self.run
        pool: list = [ZERO]
        i, j = MOVES2[name]
        args = list(args)
        acc = False
        if name.startswith(("index_put", "_index_put", "_unsafe_index_put")):
            acc = bool(args[3]) if len(args) > 3 else kwargs.get("accumulate", False)
        src = args[j] if len(args) > j else kwargs.get("src", kwargs.get("value"))
        self_t = args[i]
        if isinstance(src, torch.Tensor):
            sarr = run.read(src)
        else:
            sarr = _obj(lift(src))
        a0 = self.ids(self_t, pool) if isinstance(self_t, torch.Tensor) else None
        base = len(pool)
        tobool = isinstance(self_t, torch.Tensor) and self_t.dtype == torch.bool
        for e in sarr.reshape(-1):
            pool.append(_num(run, e) if not tobool else e)
        with _nodispatch():
            s_ids = torch.arange(base, len(pool), dtype=torch.int64).reshape(sarr.shape)
            if not isinstance(src, torch.Tensor) and name not in ("copy_", "copy"):
                s_ids = s_ids.reshape(())
        a2 = list(args)
        pyname = func
        if acc:
            cur = run.read(self_t)
            out = func(*args, **kwargs)
            idx = tuple((x.numpy() if isinstance(x, torch.Tensor) else slice(None)) for x in args[1])
            if any(isinstance(x, slice) for x in idx):
                raise Unsupported("accumulating index_put with slices")
            cells = np.arange(cur.size).reshape(cur.shape)[idx]
            vals = np.broadcast_to(sarr, cells.shape)
            cf = cur.reshape(-1).copy()
            for c, v in zip(cells.reshape(-1), vals.reshape(-1)):
                cf[c] = cf[c] + v
            run.write(out, cf.reshape(cur.shape))
            return out
        out = func(*args, **kwargs)
        with _nodispatch():
            base_name = name.rstrip("_").lstrip("_")
            if base_name in ("copy", "fill", "set_data"):
                ido = s_ids.expand(tuple(self_t.shape)) if s_ids.dim() <= self_t.dim() else s_ids
            elif base_name in ("index_put", "index_put_impl", "unsafe_index_put"):
                ido = a0.clone().index_put(tuple(args[1]) if False else _idx(args[1], a0), s_ids)
            elif base_name == "masked_fill":
                ido = torch.where(args[1], s_ids, a0)
            elif base_name == "where":
                raise Unsupported("where")
            else:
                a2[i] = a0.clone()
                if len(a2) > j:
                    a2[j] = s_ids if isinstance(src, torch.Tensor) else int(s_ids)
                f2 = getattr(torch.ops.aten, base_name)
                kw = dict(kwargs)
                ido = f2(*a2, **kw)
        ii = ido.numpy().reshape(-1)
        arr = np.empty(ii.shape, dtype=object)
        for k, jj in enumerate(ii.tolist()):
            arr[k] = pool[jj]
        run.write(out, arr.reshape(tuple(out.shape)))
        if self.check:
            self.validate(name, [out])
        return out

    def decompose(self, func, name, args, kwargs):
        """Fall back to torch's own decompositions into simpler operations."""
        from torch._decomp import decomposition_table

        d = decomposition_table.get(func)
        if d is not None:
            with self:
                r = d(*args, **kwargs)
            return r
        with self:
            r = func.decompose(*args, **kwargs)
        if r is NotImplemented:
            raise Unsupported(f"aten::{name} on symbolic values")
        return r


def _idx(indices, a0):
    return [None if x is None else x for x in indices] if any(x is None for x in indices) else tuple(indices)


def _conj(bs):
    syms = []
    for b in bs:
        if isinstance(b, BoolE):
            syms.append(b)
        elif not b:
            return False
    return BoolE("and", tuple(syms)) if syms else True


def _item(t):
    with _nodispatch():
        return t.item()


# ------------------------------------------------------------------ entry points that bypass ATen
_PATCHED = False


def patch() -> None:
    """Carry shadows through the few torch entry points that do not go through the dispatcher."""
    global _PATCHED
    if _PATCHED:
        return
    _PATCHED = True
    otensor = torch.tensor

    def shadowed(x) -> bool:
        if not _CUR:
            return False
        if isinstance(x, torch.Tensor):
            return _CUR[-1].run.has(x)
        if isinstance(x, (list, tuple)):
            return any(shadowed(y) for y in x)
        return False

    def build(x):
        if isinstance(x, torch.Tensor):
            return x
        if isinstance(x, (list, tuple)):
            return torch.stack([torch.as_tensor(build(y)) for y in x])
        return otensor(x)

    def tensor(data, *a, dtype=None, device=None, requires_grad=False, **k):
        if shadowed(data):
            t = build(data).detach().clone()
            if isinstance(data, (list, tuple)):
                # torch.tensor on a list of one-element tensors yields scalars
                while t.dim() > _depth(data):
                    t = t.squeeze(-1)
            if dtype is not None:
                t = t.to(dtype)
            return t.requires_grad_(requires_grad)
        return otensor(data, *a, dtype=dtype, device=device, requires_grad=requires_grad, **k)

    def _depth(x):
        return 1 + _depth(x[0]) if isinstance(x, (list, tuple)) else 0

    torch.tensor = tensor
    oas = torch.as_tensor

    def as_tensor(data, *a, **k):
        if not isinstance(data, torch.Tensor) and shadowed(data):
            return tensor(data, **k)
        return oas(data, *a, **k)

    torch.as_tensor = as_tensor
    import math

    odist = math.dist

    def dist(p, q):
        if shadowed(list(p)) or shadowed(list(q)):
            return torch.sqrt(sum((oas(a, dtype=torch.float64) - oas(b, dtype=torch.float64)) ** 2 for a, b in zip(p, q)))
        return odist(p, q)

    math.dist = dist
    osqrt = math.sqrt

    def sqrt(x):
        return torch.sqrt(x) if shadowed(x) else osqrt(x)

    math.sqrt = sqrt
    ocall = torch.Tensor.__deepcopy__

    def deepcopy_(self, memo):
        if shadowed(self) and type(self) in (torch.Tensor, torch.nn.Parameter):
            if id(self) in memo:
                return memo[id(self)]
            with torch.no_grad():
                r = self.detach().clone()
            if isinstance(self, torch.nn.Parameter):
                r = torch.nn.Parameter(r, self.requires_grad)
            else:
                r.requires_grad_(self.requires_grad)
            memo[id(self)] = r
            return r
        return ocall(self, memo)

    torch.Tensor.__deepcopy__ = deepcopy_
    opd = torch.nn.Parameter.__deepcopy__

    def pdeep(self, memo):
        if shadowed(self):
            return deepcopy_(self, memo)
        return opd(self, memo)

    torch.nn.Parameter.__deepcopy__ = pdeep

    def guard(name):
        orig = getattr(torch.Tensor, name)

        def f(self, *a, **k):
            if _CUR and not _QUIET and shadowed(self):
                _CUR[-1].run.pin(f"Tensor.{name}() of a symbolic value")
            return orig(self, *a, **k)

        setattr(torch.Tensor, name, f)

    import copy
    import hashlib

    osave, oload = torch.save, torch.load

    def content(f):
        if hasattr(f, "getvalue"):
            return hashlib.sha1(f.getvalue()).hexdigest()
        with open(f, "rb") as h:
            return hashlib.sha1(h.read()).hexdigest()

    def save(obj, f, *a, **k):
        # what is written is written for real; the shadows travel with the bytes of the file
        if not _CUR:
            return osave(obj, f, *a, **k)
        kept = copy.deepcopy(obj)
        with _nodispatch():
            osave(obj, f, *a, **k)
        _CUR[-1].run.saved[content(f)] = kept

    def load(f, *a, **k):
        if not _CUR:
            return oload(f, *a, **k)
        kept = _CUR[-1].run.saved.get(content(f))
        with _nodispatch():
            r = oload(f, *a, **k)
        return r if kept is None else copy.deepcopy(kept)

    torch.save, torch.load = save, load

    for n in ("numpy", "tolist", "__array__", "__reduce_ex__"):
        guard(n)

    orepr = torch.Tensor.__repr__

    def text(self, *a, **k):
        # the text of a tensor is that of its current witness (stated as an assumption)
        if _CUR and not _QUIET and shadowed(self):
            _CUR[-1].run.texts += 1
            with _nodispatch():
                return orepr(self.detach(), *a, **k)
        return orepr(self, *a, **k)

    torch.Tensor.__repr__ = text

    # tensor subclasses: a view made below the dispatcher shares the storage, hence the shadow
    osub = torch.Tensor.as_subclass

    def as_subclass(self, cls):
        from torch.utils._python_dispatch import _disable_current_modes

        with _disable_current_modes():
            return osub(self, cls)

    torch.Tensor.as_subclass = as_subclass
    from pyqtorch.utils import DensityMatrix

    def new(cls, data, *a, **k):
        return as_subclass(data, cls)

    DensityMatrix.__new__ = new
    import pyqtorch.noise.digital_gates as dg

    dg.sqrt = sqrt
    import pyqtorch.hamiltonians.observable as po

    ovmap = po.vmap

    def vmap(f):
        # the result of a vmap is a plain tensor, also of a subclass and below a mode
        return lambda *a: as_subclass(ovmap(f)(*a), torch.Tensor)

    po.vmap = vmap
