"""C22: readout mitigation."""
from __future__ import annotations

from collections import Counter
from itertools import product

import numpy as np
import torch

from symq.runner import obligation

P = "C22"
F64 = torch.float64


class Num:
    """A number of a run (0-d tensor) that numpy can hold; whole numbers are reached by case split."""

    run = None

    def __init__(self, t):
        self.t = t

    @classmethod
    def make(cls, t):
        if cls.run is None:  # replay on plain numbers: a total is a whole number
            v = float(t)
            return round(v) if abs(v - round(v)) < 1e-9 else cls(t)
        e = cls.run.read(t)[()]
        if not e.is_const():
            return cls(t)
        v = float(e.cval().real)
        return round(v) if abs(v - round(v)) < 1e-9 else v

    def _v(self, o):
        return o.t if isinstance(o, Num) else float(o)

    def __add__(self, o):
        return Num.make(self.t + self._v(o))

    def __sub__(self, o):
        return Num.make(self.t - self._v(o))

    def __rsub__(self, o):
        return Num.make(self._v(o) - self.t)

    def __mul__(self, o):
        return Num.make(self.t * self._v(o))

    def __truediv__(self, o):
        return Num.make(self.t / self._v(o))

    def __neg__(self):
        return Num.make(-self.t)

    def __abs__(self):
        return self if self >= 0 else -self

    def __pow__(self, k):
        return Num.make(self.t**k)

    def __lt__(self, o):
        return bool(self.t < self._v(o))

    def __le__(self, o):
        return bool(self.t <= self._v(o))

    def __gt__(self, o):
        return bool(self.t > self._v(o))

    def __ge__(self, o):
        return bool(self.t >= self._v(o))

    def __eq__(self, o):
        return bool(self.t == self._v(o))

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        return self != 0

    __radd__, __rmul__, __hash__ = __add__, __mul__, None

    def conjugate(self):
        return self

    def rint(self):
        """The nearest integer (even at ties): one branch per integer."""
        for k in range(0, 40):
            for j in {k, -k}:
                up = self <= j + 0.5 if j % 2 == 0 else self < j + 0.5
                if up and (self >= j - 0.5 if j % 2 == 0 else self > j - 0.5):
                    return j
        raise AssertionError("no nearest integer within 40")

    def __round__(self, n=None):
        return self.rint()

    def sqrt(self):
        return Num.make(torch.sqrt(self.t))


def val(o):
    return o.t if isinstance(o, Num) else torch.tensor(float(o), dtype=F64)


class Counts(Counter):
    """A histogram whose counts are the run's variables and whose total is a known integer."""

    def values(self):
        v = list(super().values())

        class L(list):
            def __iter__(s):
                return iter(v)

        return L(v)


def nums(vec):
    out = np.empty(len(vec), dtype=object)
    for i in range(len(vec)):
        out[i] = Num.make(vec[i])
    return out


def simplex(s, name, m, total, lo=0.0):
    """m numbers >= lo with the given sum."""
    w = type(s)()  # the name only picks the first point that is tried
    name = next(
        f"{name}.{k}" for k in range(1000) if sum(w._wit(f"{name}.{k}[{i}]" if m > 2 else f"{name}.{k}", lo, total) for i in range(m - 1)) < total
    )
    v = s.real(name, (m - 1,), lo=lo, hi=float(total))
    v = torch.cat([v, (total - v.sum()).reshape(1)])
    s.assume(bool(v[-1] >= lo))
    return v


def start(s):
    """numpy's rounding takes arrays of such numbers."""
    Num.run = s.run
    for name in ("rint", "round", "around"):
        f = getattr(np, name)
        if not hasattr(f, "plain"):
            g = lambda x, *a, _f=f, **k: np.frompyfunc(lambda v: v.rint() if isinstance(v, Num) else int(_f(v)), 1, 1)(x) if getattr(x, "dtype", None) == object else _f(x, *a, **k)  # noqa
            g.plain = f
            setattr(np, name, g)


def projection(m):
    def body(s):
        """mle_solve: the nearest probability vector (KKT conditions) of any real vector with sum 1."""
        from qadence.mitigations.readout import mle_solve

        start(s)
        v = s.real("p", (m - 1,), lo=-2.0, hi=2.0)
        v = torch.cat([v, (1 - v.sum()).reshape(1)])
        r = mle_solve(nums(v))
        s.fact(len(r) == m, "length")
        r = [val(x) for x in r]
        s.eq(torch.stack(r).sum(), 1.0, "normalised")
        pos = [i for i in range(m) if bool(r[i] > 0)]
        for i in range(m):
            s.fact(i in pos or not bool(r[i] < 0), "not negative")
        s.fact(len(pos) > 0, "support")
        th = v[pos[0]] - r[pos[0]]
        for i in range(m):
            if i in pos:
                s.eq(v[i] - r[i], th, "one shift for all")
            else:
                s.fact(not bool(v[i] > th + 1e-9), "only what falls below the shift is dropped")

    return body


obligation(P, "nearest-distribution-2", max_paths=50)(projection(2))
obligation(P, "nearest-distribution-3", max_paths=200)(projection(3))
obligation(P, "nearest-distribution-4", max_paths=2500, timeout=600)(projection(4))

# [observed, true]; binary fractions, so that the totals are exact
ASYM = [[[0.875, 0.25], [0.125, 0.75]], [[0.8125, 0.0625], [0.1875, 0.9375]], [[0.625, 0.3125], [0.375, 0.6875]]]


def noise_of(mats):
    from qadence import NoiseHandler, NoiseProtocol

    return NoiseHandler(NoiseProtocol.READOUT.INDEPENDENT, {"error_probability": mats})


def full(mats):
    T = torch.ones(1, 1, dtype=F64)
    for m in mats:
        T = torch.kron(T, m)
    return T


def strings(n):
    return [format(i, f"0{n}b") for i in range(2**n)]


def histogram(vec, order=None):
    n = len(vec).bit_length() - 1
    c = Counts()
    for i in order or range(len(vec)):
        c[format(i, f"0{n}b")] = Num.make(vec[i])
    return c


def compositions(total, m):
    return [c for c in product(range(total + 1), repeat=m) if sum(c) == total]


def judge(s, r, t, total, lab):
    """A mitigated histogram: total kept, whole numbers, and the true counts wherever they are whole."""
    m = len(t)
    bs = strings(m.bit_length() - 1)
    s.fact(all(k in bs for k in r), f"{lab}: keys {sorted(r)}")
    s.fact(all(int(v) == v and v > 0 for v in r.values()), f"{lab}: positive whole counts")
    s.fact(sum(r.values()) == total, f"{lab}: {sum(r.values())} shots of {total}")
    got = tuple(int(r.get(b, 0)) for b in bs)
    other = torch.tensor([k for k in compositions(total, m) if k != got], dtype=F64)
    near = ((t - other <= 0.01) & (t - other >= -0.01)).all(-1)
    s.fact(not bool(near.any()), f"{lab}: true counts not found, got {got}")


def recover(mats, total, **opts):
    def body(s):
        """Counts that the readout errors make of true counts: mitigation returns the true counts."""
        from qadence.mitigations import Mitigations
        from qadence.mitigations.protocols import apply_mitigation

        start(s)
        T = torch.tensor(mats, dtype=F64)
        m = 2 ** len(mats)
        t = simplex(s, "t", m, total)
        raw = full(T) @ t
        out = apply_mitigation(noise_of(T), Mitigations(Mitigations.READOUT, dict(opts)), [histogram(raw, range(m - 1, -1, -1))])
        s.fact(len(out) == 1, "one histogram")
        judge(s, out[0], t, total, "mitigated")

    return body


obligation(P, "recovers-one-qubit", max_paths=100)(recover(ASYM[:1], 7))
obligation(P, "recovers-one-qubit-explicit", max_paths=100)(recover(ASYM[2:], 4, optimization_type="mle"))
obligation(P, "recovers-two-qubits", max_paths=3000, timeout=600)(recover(ASYM[:2], 2))
obligation(P, "recovers-two-qubits-3", max_paths=6000, timeout=900, tier="thorough")(recover(ASYM[1:], 3))


def kept(mats, total, start_at=None):
    def body(s):
        """Any counts, singular errors included: whole positive counts that add up to the same shots."""
        from qadence.mitigations import Mitigations
        from qadence.mitigations.protocols import apply_mitigation

        start(s)
        T = torch.tensor(mats, dtype=F64)
        m = 2 ** len(mats)
        a, b = simplex(s, "a", m, total), torch.zeros(m, dtype=F64)
        b[-1] = total
        out = apply_mitigation(noise_of(T), Mitigations(Mitigations.READOUT), [histogram(a), histogram(b)])
        s.fact(len(out) == 2, "two histograms")
        for r, lab in zip(out, "ab"):
            s.fact(all(len(k) == len(mats) and set(k) <= {"0", "1"} for k in r), f"{lab}: keys {sorted(r)}")
            s.fact(all(int(v) == v and v > 0 for v in r.values()), f"{lab}: positive whole counts")
            s.fact(sum(r.values()) == total, f"{lab}: {sum(r.values())} shots of {total}")

    return body


HALF = [[0.5, 0.5], [0.5, 0.5]]
SYM = [[0.875, 0.125], [0.125, 0.875]]
obligation(P, "shots-kept-one-qubit", max_paths=200)(kept([ASYM[0]], 9))
obligation(P, "shots-kept-singular", max_paths=300, timeout=300)(kept([HALF, HALF], 3))
obligation(P, "shots-kept-mixed", max_paths=800, timeout=600)(kept([HALF, SYM], 3))
obligation(P, "shots-kept-three-qubits", max_paths=400, timeout=600, tier="thorough")(kept([HALF, SYM, SYM], 2))


@obligation(P, "constrained", max_paths=400, timeout=300)
def ob(s):
    """The constrained method minimises |T p - p_raw|^2 over the probability vectors."""
    import qadence.mitigations.readout as R
    from qadence.mitigations import Mitigations
    from qadence.types import ReadOutOptimization

    start(s)
    T = torch.tensor(ASYM[:2], dtype=F64)
    A = full(T)
    total = 3
    raw = simplex(s, "r", 4, total)
    sol = simplex(s, "x", 4, total) / total
    q = s.real("q", (4,), lo=-1, hi=1)
    seen = []

    class Res:
        x = nums(sol)
        success = True
        fun = 0.0

    def minimize(fun, x0, args=(), **kw):
        seen.append((fun, x0, args, kw))
        return Res

    old = R.minimize, R.norm
    # scipy's norm of an array of run variables
    R.norm = lambda v, ord=None: Num.make(sum((val(x) * val(x) for x in v), torch.zeros((), dtype=F64)).sqrt())
    R.minimize = minimize
    try:
        out = R.mitigate(noise_of(T), Mitigations("readout", {"optimization_type": ReadOutOptimization.CONSTRAINED}), [histogram(raw)])
    finally:
        R.minimize, R.norm = old
    s.fact(len(seen) == 1, "one problem")
    fun, x0, args, kw = seen[0]
    s.eq(val(fun(nums(q), *args)), ((A @ q - raw / total) ** 2).sum(), "objective", tol=1e-6)
    s.fact(len(x0) == 4, "start")
    bounds = [-np.inf * np.ones(4), np.inf * np.ones(4)]
    sums = []
    for c in kw["constraints"]:
        M = np.atleast_2d(c.A)
        for row, lb, ub in zip(M, np.broadcast_to(c.lb, len(M)), np.broadcast_to(c.ub, len(M))):
            nz = np.flatnonzero(row)
            if len(nz) == 1 and row[nz[0]] == 1:
                bounds[0][nz[0]] = max(bounds[0][nz[0]], lb)
                bounds[1][nz[0]] = min(bounds[1][nz[0]], ub)
            else:
                sums.append((tuple(row), float(lb), float(ub)))
    s.fact(sums == [((1, 1, 1, 1), 1.0, 1.0)], f"normalised {sums}")
    s.fact(bool((bounds[0] == 0).all() and (bounds[1] >= 1).all()), "not negative, and nothing else")
    judge(s, out[0], sol * total, total, "solution")


@obligation(P, "estimated-errors", max_paths=400, timeout=300)
def ob(s):
    """Error probabilities instead of matrices: the matrices of the simulator's noise are inverted."""
    import pyqtorch as pyq
    from qadence import NoiseHandler, NoiseProtocol
    from qadence.mitigations import Mitigations
    from qadence.mitigations.readout import mitigate

    start(s)
    seen, mats = [], torch.tensor([SYM, [[0.75, 0.25], [0.25, 0.75]]], dtype=F64)
    cls = pyq.noise.ReadoutNoise
    old = cls.create_noise_matrix

    def create(self, n_shots):
        seen.append((n_shots, float(self.error_probability), self.seed))
        self.confusion_matrix = mats[: self.n_qubits].clone()

    cls.create_noise_matrix = create
    try:
        for opts, prob, seed in (({}, 0.1, None), ({"error_probability": 0.3, "seed": 7}, 0.3, 7)):
            seen.clear()
            t = simplex(s, f"t{seed}", 2, 4)
            raw = mats[0] @ t
            noise = NoiseHandler(NoiseProtocol.READOUT.INDEPENDENT, dict(opts, error_probability=prob))
            out = mitigate(noise, Mitigations("readout"), [histogram(raw)])
            s.fact(len(seen) >= 1 and all(a == 4 and abs(b - prob) < 1e-6 and c == seed for a, b, c in seen), f"estimate {seen}")
            judge(s, out[0], t, 4, f"error probability {prob}")
    finally:
        cls.create_noise_matrix = old


@obligation(P, "sampling", max_paths=400, timeout=300)
def ob(s):
    """sample(noise, mitigation) in both bit orders: the simulator's counts, mitigated, in that order."""
    import qadence as qd
    from qadence.backends.api import backend_factory
    from qadence.mitigations import Mitigations
    from qadence.types import Endianness
    import pyqtorch as pyq

    start(s)
    T = torch.tensor(ASYM[:2], dtype=F64)
    t = simplex(s, "t", 3, 2)
    t4 = torch.cat([t[:2], torch.zeros(1, dtype=F64), t[2:]])
    raw = full(T) @ t4
    noise, mit = noise_of(T), Mitigations(Mitigations.READOUT)
    circ = qd.QuantumCircuit(2, qd.kron(qd.H(0), qd.X(1)))
    old = pyq.QuantumCircuit.sample
    calls = []

    def sample(self, *a, **k):
        calls.append(k.get("n_shots"))
        return [histogram(raw)]

    pyq.QuantumCircuit.sample = sample
    try:
        big = qd.QuantumModel(circ).sample({}, n_shots=2, noise=noise, mitigation=mit)
        little = qd.QuantumModel(circ).sample({}, n_shots=2, noise=noise, mitigation=mit, endianness=Endianness.LITTLE)
        own = qd.QuantumModel(circ, noise=noise, mitigation=mit).sample({}, n_shots=2)
        low = qd.sample(circ, n_shots=2, noise=noise)
    finally:
        pyq.QuantumCircuit.sample = old
    s.fact(calls == [2] * 4, f"shots {calls}")
    judge(s, big[0], t4, 2, "big")
    judge(s, own[0], t4, 2, "noise and mitigation of the model")
    judge(s, Counter({k[::-1]: v for k, v in little[0].items()}), t4, 2, "little")
    s.fact(all(isinstance(v, (Num, int, float)) for v in low[0].values()) and sorted(low[0]) == strings(2), "no mitigation unless asked")


@obligation(P, "protocols")
def ob(s):
    """Protocol objects survive conversion to dictionaries; requests that make no sense are refused."""
    from qadence import NoiseHandler, NoiseProtocol
    from qadence.mitigations import Mitigations
    from qadence.mitigations.readout import mitigate

    start(s)
    for o in ({}, {"optimization_type": "mle"}, {"optimization_type": "constrained"}):
        m = Mitigations._from_dict(Mitigations("readout", o)._to_dict())
        s.fact(m.protocol == "readout" and m.options == o, f"dictionary {o}")
    s.fact(Mitigations._from_dict({}) is None, "empty")
    s.fact(Mitigations("readout").get_mitigation_fn() is mitigate, "readout")
    t = simplex(s, "t", 2, 2)
    h = [histogram(t)]
    s.raises(lambda: mitigate(noise_of(torch.tensor(ASYM[:1], dtype=F64)), Mitigations("readout", {"optimization_type": "other"}), h), NotImplementedError, "unknown method")
    s.raises(lambda: mitigate(NoiseHandler(NoiseProtocol.DIGITAL.BITFLIP, {"error_probability": 0.1}), Mitigations("readout"), h), ValueError, "no readout noise")
