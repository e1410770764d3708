"""An independent reading of what qadence programs mean.

`Term`s pair a qadence block (built through the public API) with its textbook operator.  Operators are
applied to amplitude arrays index by index (qubit 0 is the most significant bit), with torch arithmetic
only, so that they are executed symbolically together with the code under test.
"""
from __future__ import annotations

import math

import torch

CD = torch.cdouble


# ------------------------------------------------------------------ plain linear algebra
def c(m):
    return torch.tensor(m, dtype=CD)


I2 = c([[1, 0], [0, 1]])
X2 = c([[0, 1], [1, 0]])
Y2 = c([[0, -1j], [1j, 0]])
Z2 = c([[1, 0], [0, -1]])
N2 = c([[0, 0], [0, 1]])
H2 = c([[1, 1], [1, -1]]) / math.sqrt(2)
S2 = c([[1, 0], [0, 1j]])
SD2 = c([[1, 0], [0, -1j]])
T2 = c([[1, 0], [0, complex(math.cos(math.pi / 4), math.sin(math.pi / 4))]])
TD2 = c([[1, 0], [0, complex(math.cos(math.pi / 4), -math.sin(math.pi / 4))]])
SWAP4 = c([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]])


def bat(m):
    return m if m.dim() == 3 else m.unsqueeze(0)


def col(t):
    """Parameter tensor -> (batch, 1, 1)."""
    t = torch.as_tensor(t)
    return t.reshape(-1, 1, 1)


def rot(P, th):
    th = col(th)
    return torch.cos(th / 2) * I2.unsqueeze(0) - 1j * torch.sin(th / 2) * P.unsqueeze(0)


def phase(th):
    th = col(th)
    e = torch.cos(th) + 1j * torch.sin(th)
    return c([[1, 0], [0, 0]]).unsqueeze(0) + e * N2.unsqueeze(0)


def ctrl(m, nc):
    """Controlled version of m with nc controls in front."""
    m = bat(m)
    b, d = m.shape[0], m.shape[-1]
    D = d * 2**nc
    out = torch.zeros((b, D, D), dtype=CD)
    for i in range(D - d):
        out[:, i, i] = 1.0
    out[:, D - d :, D - d :] = m
    return out


def mm(a, b):
    return torch.matmul(bat(a), bat(b))


def kron(*ms):
    out = None
    for m in ms:
        m = bat(m)
        if out is None:
            out = m
        else:
            B = max(out.shape[0], m.shape[0])
            a = out.expand(B, -1, -1) if out.shape[0] != B else out
            d = m.expand(B, -1, -1) if m.shape[0] != B else m
            out = (a[:, :, None, :, None] * d[:, None, :, None, :]).reshape(
                B, a.shape[1] * d.shape[1], a.shape[2] * d.shape[2]
            )
    return out


def adj(m):
    return bat(m).transpose(-1, -2).conj()


def embed(m, support, n):
    """Operator m (batch, 2^k, 2^k) whose k-th factor acts on qubit support[k], on n qubits (big endian)."""
    m = bat(m)
    k = len(support)
    assert m.shape[-1] == 2**k, (m.shape, support)
    rest = [q for q in range(n) if q not in support]
    big = kron(m, torch.eye(2 ** len(rest), dtype=CD)) if rest else m
    order = list(support) + rest  # axis j of `big` is qubit order[j]
    B = big.shape[0]
    big = big.reshape([B] + [2] * n + [2] * n)
    pos = [order.index(q) for q in range(n)]
    perm = [0] + [1 + p for p in pos] + [1 + n + p for p in pos]
    return big.permute(perm).reshape(B, 2**n, 2**n)


def apply(m, support, n, psi):
    """Applies m to a batch of states (batch, 2^n)."""
    m = bat(m)
    k = len(support)
    rest = [q for q in range(n) if q not in support]
    B = max(m.shape[0], psi.shape[0])
    if psi.shape[0] != B:
        psi = psi.expand(B, -1)
    if m.shape[0] != B:
        m = m.expand(B, -1, -1)
    order = list(support) + rest
    v = psi.reshape([B] + [2] * n).permute([0] + [1 + q for q in order]).reshape(B, 2**k, -1)
    v = torch.matmul(m, v)
    inv = [order.index(q) for q in range(n)]
    return v.reshape([B] + [2] * n).permute([0] + [1 + p for p in inv]).reshape(B, 2**n)


def bit_reverse(v, n, dim=-1):
    idx = [int(format(i, f"0{n}b")[::-1], 2) for i in range(2**n)]
    return v.index_select(dim, torch.tensor(idx))


def inner(a, b):
    """<a|b> per batch entry."""
    return (a.conj() * b).sum(-1)


def expect(m, psi):
    """<psi|m|psi>, m on the full space (batch, D, D)."""
    return inner(psi, torch.matmul(bat(m), psi.unsqueeze(-1)).squeeze(-1))


def zero_state(n, batch=1):
    v = torch.zeros((batch, 2**n), dtype=CD)
    v[:, 0] = 1.0
    return v


def expm_hermitian_involution(P, t):
    """exp(-i t P) for P^2 = 1."""
    t = col(t)
    return torch.cos(t) * torch.eye(P.shape[-1], dtype=CD).unsqueeze(0) - 1j * torch.sin(t) * bat(P)


# ------------------------------------------------------------------ programs with a meaning
class Term:
    """block: the qadence block; op(env, n): its operator on n qubits; act(env, n, psi): its action."""

    def __init__(self, block, support, op=None, full=None, act=None):
        self.block, self.support, self._op, self._full, self._act = block, tuple(support), op, full, act

    def op(self, env, n):
        if self._full is not None:
            return self._full(env, n)
        return embed(self._op(env), self.support, n)

    def act(self, env, n, psi):
        if self._act is not None:
            return self._act(env, n, psi)
        if self._full is not None:
            return torch.matmul(self._full(env, n), psi.unsqueeze(-1)).squeeze(-1)
        return apply(self._op(env), self.support, n, psi)

    @property
    def n(self):
        return max(self.support) + 1


def val(p, env):
    """p: number, tensor, parameter name or function of env."""
    if callable(p):
        return p(env)
    if isinstance(p, str):
        return env[p]
    if isinstance(p, torch.Tensor):
        return p
    return torch.tensor([complex(p) if isinstance(p, complex) else float(p)])


class A:
    """A parameter argument: what is given to qadence, and its value."""

    def __init__(self, q, v=None):
        self.q, self.v = q, (v if v is not None else q)


def _a(p):
    return p if isinstance(p, A) else A(p)


FIXED = {"I": I2, "X": X2, "Y": Y2, "Z": Z2, "N": N2, "H": H2, "S": S2, "SDagger": SD2, "T": T2, "TDagger": TD2}
ROTS = {"RX": X2, "RY": Y2, "RZ": Z2}


def _qd():
    import qadence

    return qadence


def _ops():
    import qadence.operations as o

    return o


def gate(name, *sup, params=()):
    """Any named gate, on qubits `sup` (controls first)."""
    o = _ops()
    ps = [_a(p) for p in params]
    if name in FIXED:
        return Term(getattr(o, name)(sup[0]), sup, lambda env: FIXED[name])
    if name == "Zero":
        return Term(o.Zero(), sup or (0,), lambda env: torch.zeros((2, 2), dtype=CD))
    if name in ROTS:
        return Term(getattr(o, name)(sup[0], ps[0].q), sup, lambda env: rot(ROTS[name], val(ps[0].v, env)))
    if name == "PHASE":
        return Term(o.PHASE(sup[0], ps[0].q), sup, lambda env: phase(val(ps[0].v, env)))
    if name == "U":
        return Term(
            o.U(sup[0], *[p.q for p in ps]), sup,
            lambda env: mm(rot(Z2, val(ps[2].v, env)), mm(rot(Y2, val(ps[1].v, env)), rot(Z2, val(ps[0].v, env)))),
        )
    if name in ("CNOT", "CZ"):
        return Term(getattr(o, name)(*sup), sup, lambda env: ctrl(X2 if name == "CNOT" else Z2, 1))
    if name in ("CRX", "CRY", "CRZ"):
        return Term(getattr(o, name)(*sup, ps[0].q), sup, lambda env: ctrl(rot(ROTS[name[1:]], val(ps[0].v, env)), 1))
    if name == "CPHASE":
        return Term(o.CPHASE(*sup, ps[0].q), sup, lambda env: ctrl(phase(val(ps[0].v, env)), 1))
    if name in ("MCRX", "MCRY", "MCRZ"):
        return Term(
            getattr(o, name)(tuple(sup[:-1]), sup[-1], ps[0].q), sup,
            lambda env: ctrl(rot(ROTS[name[2:]], val(ps[0].v, env)), len(sup) - 1),
        )
    if name == "MCPHASE":
        return Term(o.MCPHASE(tuple(sup[:-1]), sup[-1], ps[0].q), sup, lambda env: ctrl(phase(val(ps[0].v, env)), len(sup) - 1))
    if name == "MCZ":
        return Term(o.MCZ(tuple(sup[:-1]), sup[-1]), sup, lambda env: ctrl(Z2, len(sup) - 1))
    if name == "Toffoli":
        return Term(o.Toffoli(tuple(sup[:-1]), sup[-1]), sup, lambda env: ctrl(X2, len(sup) - 1))
    if name == "SWAP":
        return Term(o.SWAP(*sup), sup, lambda env: SWAP4)
    if name == "CSWAP":
        return Term(o.CSWAP(*sup), sup, lambda env: ctrl(SWAP4, 1))
    raise KeyError(name)


def projector(ket, bra, sup):
    o = _ops()
    sup = (sup,) if isinstance(sup, int) else tuple(sup)
    d = 2 ** len(ket)
    m = torch.zeros((d, d), dtype=CD)
    m[int(ket, 2), int(bra, 2)] = 1.0
    return Term(o.Projector(ket, bra, sup if len(sup) > 1 else sup[0]), sup, lambda env: m)


def matrix(m, sup):
    from qadence.blocks import MatrixBlock

    return Term(MatrixBlock(m, tuple(sup)), sup, lambda env: bat(m))


def chain(*ts):
    qd = _qd()
    sup = tuple(sorted({q for t in ts for q in t.support}))

    def full(env, n):
        out = None
        for t in ts:
            m = t.op(env, n)
            out = m if out is None else mm(m, out)
        return out

    def act(env, n, psi):
        for t in ts:
            psi = t.act(env, n, psi)
        return psi

    return Term(qd.chain(*[t.block for t in ts]), sup, full=full, act=act)


def kronb(*ts):
    r = chain(*ts)
    return Term(_qd().kron(*[t.block for t in ts]), r.support, full=r._full, act=r._act)


def add(*ts):
    sup = tuple(sorted({q for t in ts for q in t.support}))

    def full(env, n):
        out = None
        for t in ts:
            m = t.op(env, n)
            out = m if out is None else out + m
        return out

    return Term(_qd().add(*[t.block for t in ts]), sup, full=full)


def scale(t, p):
    p = _a(p)
    return Term(p.q * t.block, t.support, full=lambda env, n: col(val(p.v, env)) * t.op(env, n))


def put(t, lo, hi):
    from qadence.blocks.utils import put as qput

    return Term(qput(t.block, lo, hi), tuple(range(lo, hi + 1)), full=t._full or (lambda env, n: t.op(env, n)))


def ham_evo(P, p, involution=True):
    """exp(-i p P) for a Term P whose operator squares to one."""
    p = _a(p)
    o = _ops()

    def full(env, n):
        return expm_hermitian_involution(P.op(env, n), val(p.v, env))

    return Term(o.HamEvo(P.block, p.q), P.support, full=full)


def ham_evo_sum(groups, p):
    """exp(-i p sum_k c_k P_k) for pairwise commuting involutions P_k: product of the factors."""
    p = _a(p)
    o = _ops()
    qd = _qd()
    gen = qd.add(*[cf * t.block for cf, t in groups])
    sup = tuple(sorted({q for _, t in groups for q in t.support}))

    def full(env, n):
        out = None
        for cf, t in groups:
            m = expm_hermitian_involution(t.op(env, n), cf * val(p.v, env))
            out = m if out is None else mm(m, out)
        return out

    return Term(o.HamEvo(gen, p.q), sup, full=full)


def ham_evo_concrete(P, p):
    """exp(-i p H) for any Term H whose operator is a concrete hermitian matrix: spectral sum."""
    p = _a(p)
    o = _ops()

    def full(env, n):
        h = P.op({}, n)[0]
        lam, vec = torch.linalg.eigh(h)
        groups = []
        for k, l in enumerate(lam.tolist()):
            pr = torch.outer(vec[:, k], vec[:, k].conj())
            for g in groups:
                if abs(g[0] - l) < 1e-9:
                    g[1] = g[1] + pr
                    break
            else:
                groups.append([round(l, 10), pr])
        out = None
        t = val(p.v, env)
        for l, pr in groups:
            pr = torch.complex(torch.round(pr.real, decimals=12), torch.round(pr.imag, decimals=12))
            m = pr * torch.complex(torch.cos(l * t), -torch.sin(l * t)).reshape(-1, 1, 1)
            out = m if out is None else out + m
        return out

    return Term(o.HamEvo(P.block, p.q), P.support, full=full)


class draws:
    """Stands in for the random number source of categorical draws: outcome k comes up counts[k] times.

    The weights of every draw are recorded, so a harness can state what distribution was asked for.
    """

    def __init__(self, counts):
        self.counts = list(counts)

    def __enter__(self):
        self.real = torch.multinomial
        rec = []

        def stub(input, num_samples, replacement=False, *, generator=None, out=None):
            rec.append(input)
            idx = [k for k, c in enumerate(self.counts) for _ in range(c)]
            assert len(idx) == num_samples, (len(idx), num_samples)
            r = torch.tensor(idx)
            return r if input.dim() == 1 else r.expand(input.shape[0], -1)

        torch.multinomial = stub
        return rec

    def __exit__(self, *a):
        torch.multinomial = self.real


class Weight:
    """A positive number of shots, possibly symbolic: the arithmetic that is done with counts.

    Comparisons with zero are those of a positive number, as every outcome is given a positive weight.
    """

    def __init__(self, t):
        self.t = t

    def _op(self, o, f):
        o = o.t if isinstance(o, Weight) else o
        return Weight(f(self.t, o if isinstance(o, torch.Tensor) else float(o)))

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._op(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._op(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._op(o, lambda a, b: b / a)

    def __neg__(self):
        return Weight(-self.t)

    def __gt__(self, o):
        assert not isinstance(o, Weight) and o <= 0, "only comparisons with zero"
        return True

    def __ge__(self, o):
        return self > o

    def __bool__(self):
        return True


class exact:
    """Stands in for the finite sampling of the simulator: the count of each outcome is its probability."""

    def __enter__(self):
        import pyqtorch.circuit as pc
        from collections import Counter

        self.real, self.tensor = pc.sample_multinomial, (torch.tensor, torch.as_tensor)

        def stub(probs, length_bitstring, n_samples, *a, **k):
            assert n_samples >= 1
            return Counter({format(i, f"0{length_bitstring}b"): Weight(probs[i]) for i in range(2**length_bitstring)})

        def strip(x):
            if isinstance(x, Weight):
                return x.t
            if isinstance(x, (list, tuple)):
                return [strip(y) for y in x]
            if getattr(x, "dtype", None) == object and hasattr(x, "tolist"):
                return strip(x.tolist())
            return x

        def has(x):
            return isinstance(x, Weight) or (isinstance(x, (list, tuple)) and any(has(y) for y in x)) or getattr(x, "dtype", None) == object

        def deep(x):
            return torch.stack([deep(y) for y in x]) if isinstance(x, list) else torch.as_tensor(x)

        pc.sample_multinomial = stub
        for name, real in zip(("tensor", "as_tensor"), self.tensor):
            setattr(torch, name, lambda x, *a, real=real, **k: deep(strip(x)) if has(x) else real(x, *a, **k))
        return self

    def __exit__(self, *a):
        import pyqtorch.circuit as pc

        pc.sample_multinomial = self.real
        torch.tensor, torch.as_tensor = self.tensor


def batch(got, want, env):
    """Batch size of a result: that of the inputs it depends on, or that of all the inputs given; never another one."""
    if got.shape[0] == want.shape[0]:
        return want.shape[0]
    return max([want.shape[0]] + [v.shape[0] for v in env.values() if torch.is_tensor(v) and v.ndim > 0])
