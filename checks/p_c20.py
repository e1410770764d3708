"""C20: measured estimates are estimates of the observable's expectation value."""
import itertools
from collections import Counter

import torch

from symq.runner import obligation
from checks import oracle as O

P = "C20"
TOMO = {"n_shots": 1000}


def g(name, *sup):
    return O.gate(name, *sup)


def sc(x, t):
    return O.scale(t, x)


def prep(n):
    """A circuit whose states have generic expectation values, with 2 n angles."""
    ts = [O.gate("RX", q, params=[f"x{q}"]) for q in range(n)] + [O.gate("RZ", q, params=[f"y{q}"]) for q in range(n)]
    ts += [O.gate("CNOT", q, q + 1) for q in range(n - 1)]
    if n > 1:
        ts += [O.gate("RY", 0, params=["x0"])]
    return O.chain(*ts)


def values(s, n, b=1):
    return {f"{k}{q}": s.angle(f"{k}{q}", b) for q in range(n) for k in "xy"}


def zoo():
    X, Y, Z, I, N = ((lambda *q, k=k: g(k, *q)) for k in "XYZIN")
    kr, ch, ad = O.kronb, O.chain, O.add
    return {
        "X": (1, X(0)), "Y": (1, Y(0)), "Z": (1, Z(0)), "N": (1, N(0)),
        "all of one qubit": (1, ad(sc(0.5, X(0)), sc(-1.5, Y(0)), sc(2.0, Z(0)))),
        "identity and Z": (1, ad(sc(3.0, I(0)), Z(0))),
        "product on one qubit": (1, ch(Z(0), Z(0))),
        "three on one qubit": (1, ch(X(0), Z(0), X(0))),
        "Z on the last": (2, Z(1)), "Y on the last": (2, Y(1)),
        **{f"{a}{b}": (2, kr(g(a, 0), g(b, 1))) for a in "XYZI" for b in "XYZI" if a + b != "II"},
        "YX reversed": (2, kr(Y(1), X(0))),
        "XZ by a chain": (2, ch(X(0), Z(1))),
        "ZY by a reversed chain": (2, ch(Y(1), Z(0))),
        "N and X": (2, kr(N(0), X(1))),
        "N and N": (2, kr(N(0), N(1))),
        "scaled factors": (2, kr(sc(2.0, X(0)), sc(-3.0, Z(1)))),
        "scaled sum": (2, sc(2.0, ad(Z(0), sc(0.5, X(1))))),
        "nested scales": (2, sc(-2.0, ad(sc(0.5, kr(X(0), X(1))), sc(3.0, ad(Y(0), sc(0.25, Z(1))))))),
        "sum and product": (2, ad(kr(Z(0), Z(1)), sc(-0.7, Z(0)), kr(X(0), Y(1)))),
        "product of sums": (2, ch(ad(X(0), Z(1)), ad(X(0), Z(1)))),
        "kron of sums": (2, kr(ad(X(0), Z(0)), ad(Y(1), sc(2.0, Z(1))))),
        "repeated term": (2, ad(X(0), X(0), kr(X(0), Z(1)), kr(Z(1), X(0)))),
        "identity only": (2, sc(2.5, I(1))),
        "identity on the other": (2, ad(kr(I(0), Z(1)), sc(2.0, kr(Z(0), I(1))))),
        "XYZ": (3, kr(X(0), Y(1), Z(2))),
        "nested": (3, kr(kr(X(0), Y(1)), Z(2))),
        "nested right": (3, kr(X(0), kr(Z(1), Y(2)))),
        "gap": (3, kr(Y(0), X(2))),
        "rotated order": (3, kr(Z(2), X(0), Y(1))),
        "weights": (3, ad(sc(0.3, kr(Z(0), Z(1))), sc(0.6, kr(Z(1), Z(2))), sc(-1.1, X(1)), sc(0.2, N(2)))),
    }


ZOO = zoo()


def model(n, c, obs, **k):
    import qadence as qd

    return qd.QuantumModel(qd.QuantumCircuit(n, c.block), [o.block for o in obs], **k)


def measurement(kind, options):
    from qadence.measurements import Measurements

    return Measurements(getattr(Measurements, kind), options=options)


def want(obs, env, n, psi):
    return torch.stack([O.expect(o.op(env, n), psi).real for o in obs], dim=1)


# ------------------------------------------------------------------------------------------------ tomography
for lab, (n, t) in ZOO.items():
    @obligation(P, f"tomography-{lab}", timeout=240)
    def ob(s, n=n, t=t):
        """With the exact outcome distribution in each basis, the estimate is the expectation value."""
        c, env = prep(n), values(s, n)
        psi = c.act(env, n, O.zero_state(n))
        with O.exact():
            got = model(n, c, [t]).expectation(env, measurement=measurement("TOMOGRAPHY", TOMO))
        s.eq(got, want([t], env, n, psi), "estimate", tol=1e-6)


@obligation(P, "tomography-batches", timeout=240)
def ob(s):
    """A column per observable, a row per batch element; identities too; both modes; the state given in the call."""
    import qadence as qd

    n, b = 2, 2
    obs = [ZOO["XY"][1], ZOO["identity only"][1], ZOO["sum and product"][1]]
    c, env = prep(n), values(s, n, b)
    psi = c.act(env, n, O.zero_state(n))
    m = measurement("TOMOGRAPHY", TOMO)
    for mode in (qd.DiffMode.AD, qd.DiffMode.GPSR):
        with O.exact():
            got = model(n, c, obs, diff_mode=mode).expectation(env, measurement=m)
            stored = model(n, c, obs, diff_mode=mode, measurement=m).expectation(env)
        s.eq(got, want(obs, env, n, psi), f"{mode}: call", tol=1e-6)
        s.eq(stored, want(obs, env, n, psi), f"{mode}: model", tol=1e-6)
    with O.exact():
        little = model(n, c, obs).expectation(env, measurement=m, endianness=qd.Endianness.LITTLE)
    s.eq(little, want(obs, env, n, psi), "little endian", tol=1e-6)
    start = qd.product_state("01")
    env1 = {k: v[:1] for k, v in env.items()}
    with O.exact():
        got = model(n, c, obs).expectation(env1, state=start, measurement=m)
    s.eq(got, want(obs, env1, n, c.act(env1, n, start.to(O.CD))), "initial state", tol=1e-6)


@obligation(P, "tomography-expectation", timeout=240)
def ob(s):
    """The free function and the model agree, for a circuit with a fixed and a trainable parameter."""
    import qadence as qd

    n = 2
    t = ZOO["sum and product"][1]
    c = O.chain(O.gate("RX", 0, params=["x"]), O.gate("CNOT", 0, 1), O.gate("RY", 1, params=[0.8]), O.gate("RZ", 0, params=[0.4]), O.gate("RY", 0, params=["x"]))
    env = {"x": s.angle("x", 1)}
    psi = c.act(env, n, O.zero_state(n))
    m = measurement("TOMOGRAPHY", TOMO)
    with O.exact():
        got = qd.expectation(qd.QuantumCircuit(n, c.block), t.block, values=env)
        a = model(n, c, [t]).expectation(env, measurement=m)
    s.eq(got, want([t], env, n, psi), "exact", tol=1e-6)
    s.eq(a, got, "measured", tol=1e-6)


@obligation(P, "tomography-readout", timeout=240)
def ob(s):
    """Readout noise enters through the outcome distribution of every basis."""
    import qadence as qd

    n = 2
    e = s.real("e", (n, 2), 0.01, 0.4)
    conf = torch.stack([torch.stack([torch.stack([1 - e[q, 0], e[q, 1]]), torch.stack([e[q, 0], 1 - e[q, 1]])]) for q in range(n)])
    noise = qd.NoiseHandler(qd.NoiseProtocol.READOUT.INDEPENDENT, {"error_probability": conf, "seed": 0})
    c, env = prep(n), values(s, n)
    psi = c.act(env, n, O.zero_state(n))
    # <Z> of a flipped bit is (1 - e0 - e1) <Z> + e1 - e0
    for lab, op, q in (("Z", "Z", 0), ("Y", "Y", 1), ("X", "X", 0)):
        with O.exact():
            got = model(n, c, [g(op, q)]).expectation(env, noise=noise, measurement=measurement("TOMOGRAPHY", TOMO))
        z = want([g(op, q)], env, n, psi)
        s.eq(got, (1 - e[q, 0] - e[q, 1]) * z + e[q, 1] - e[q, 0], lab, tol=1e-6)


@obligation(P, "tomography-gradients", timeout=240)
def ob(s):
    """Parameter shift rules applied to measured expectations give the derivative of the expectation."""
    import qadence as qd

    n = 2
    t = ZOO["sum and product"][1]
    c = O.chain(O.gate("RX", 0, params=["x"]), O.gate("CNOT", 0, 1), O.gate("RY", 1, params=["y"]), O.gate("CRZ", 0, 1, params=["x"]))
    x, y = s.angle("x", 1), s.angle("y", 1)
    f = lambda env: want([t], env, n, c.act(env, n, O.zero_state(n)))[0, 0]
    m = measurement("TOMOGRAPHY", TOMO)
    env = {"x": x.detach().requires_grad_(True), "y": y.detach().requires_grad_(True)}
    with O.exact():
        got = model(n, c, [t], diff_mode=qd.DiffMode.GPSR).expectation(env, measurement=m)
        gr = torch.autograd.grad(got.sum(), [env["x"], env["y"]])
    for k, d in zip("xy", gr):
        s.eq(d.reshape(()), s.grad(f, {"x": x, "y": y}, k).reshape(()), f"d/d{k}", tol=1e-6)


# ------------------------------------------------------------------------------------------------ estimates from counts
DIAG = {k: v for k, v in ZOO.items() if k in ("Z", "Z on the last", "ZZ", "ZI", "IZ", "product on one qubit", "identity and Z", "identity on the other")}
DIAG["scaled"] = (2, O.add(sc(2.0, g("Z", 1)), sc(-3.0, O.kronb(g("Z", 1), g("Z", 0)))))
DIAG["three"] = (3, O.add(sc(0.5, O.kronb(g("Z", 2), O.kronb(g("Z", 0), g("I", 1)))), sc(-1.0, g("Z", 1)), O.kronb(g("Z", 0), g("Z", 1), g("Z", 2))))
for lab, (n, t) in DIAG.items():
    @obligation(P, f"samples-{lab}")
    def ob(s, n=n, t=t):
        """compute_expectation of counts is the mean of the observable's diagonal over the shots, for all counts."""
        from qadence.measurements.samples import compute_expectation

        b = 2
        w = s.real("w", (b, 2**n), 0.1, 9.0)
        keys = [format(k, f"0{n}b") for k in range(2**n)]
        # the same number of shots for every element of the batch, as the sampler gives them
        w = torch.stack([w[0], torch.cat([w[1, :-1], (w[0].sum() - w[1, :-1].sum()).reshape(1)])])
        samples = [Counter({k: O.Weight(w[i, j]) for j, k in enumerate(keys)}) for i in range(b)]
        with O.exact():
            got = compute_expectation([t.block], samples)
        d = t.op({}, n)[0].diagonal().real
        s.fact(len(got) == 1, "one estimate")
        for i in range(b):
            s.eq(got[0].reshape(-1)[i] * w[i].sum(), (w[i] * d).sum(), f"element {i}", tol=1e-6)


@obligation(P, "samples-errors")
def ob(s):
    """Observables that are not diagonal cannot be estimated from counts."""
    import qadence as qd
    from qadence.measurements.samples import compute_expectation

    c = [Counter({"00": 3, "11": 5})]
    for o in (qd.X(0), qd.kron(qd.Z(0), qd.Y(1)), qd.Z(0) + qd.X(1), 2 * qd.H(0)):
        s.raises(lambda: compute_expectation([o], c), TypeError, str(o.name))
    s.raises(lambda: compute_expectation(qd.Z(0), c), TypeError, "not a list")
    # outcomes that did not occur
    s.eq(compute_expectation([qd.kron(qd.Z(0), qd.Z(1)), qd.Z(0)], c)[0].reshape(()), torch.tensor(1.0), "ZZ", tol=1e-6)
    s.eq(compute_expectation([qd.kron(qd.Z(0), qd.Z(1)), qd.Z(0)], c)[1].reshape(()), torch.tensor(-0.25), "Z", tol=1e-6)


@obligation(P, "tomography-errors")
def ob(s):
    """What the protocol cannot measure is refused."""
    import qadence as qd
    from qadence.blocks import MatrixBlock

    m = measurement("TOMOGRAPHY", TOMO)
    for lab, o in (("H", qd.H(0)), ("RX", qd.RX(0, 0.3)), ("matrix", MatrixBlock(torch.tensor([[1.0, 0.5], [0.5, -1.0]], dtype=O.CD), (0,)))):
        s.raises(lambda: qd.QuantumModel(qd.QuantumCircuit(1, qd.H(0)), o).expectation(measurement=m), Exception, lab)
    s.raises(lambda: qd.QuantumModel(qd.QuantumCircuit(1, qd.H(0)), qd.Z(0)).expectation(measurement=measurement("TOMOGRAPHY", {})), KeyError, "shots")


@obligation(P, "tomography-parametric", timeout=240)
def ob(s):
    """Parameters of an observable have the value of the call, or the trained value."""
    import qadence as qd

    v, f = s.real("v", 1, 0.2, 2.0), s.real("f", 2, 0.2, 2.0)
    c, env = O.gate("RX", 0, params=[0.7]), {}
    z = O.expect(O.Z2.unsqueeze(0), c.act(env, 1, O.zero_state(1))).real
    y = O.expect(O.Y2.unsqueeze(0), c.act(env, 1, O.zero_state(1))).real
    m = measurement("TOMOGRAPHY", TOMO)
    for mode in (qd.DiffMode.AD, qd.DiffMode.GPSR):
        with O.exact():
            p = qd.FeatureParameter("f")
            o = p * qd.Z(0) + 2 * (p**2 * qd.Y(0))
            got = qd.QuantumModel(qd.QuantumCircuit(1, c.block), o, diff_mode=mode).expectation({**env, "f": f}, measurement=m)
            s.eq(got.reshape(-1), f * z + 2 * f**2 * y, f"{mode}: feature", tol=1e-6)
            o = qd.VariationalParameter("v", value=0.3) * qd.Z(0)
            mod = qd.QuantumModel(qd.QuantumCircuit(1, c.block), o, diff_mode=mode)
            mod.reset_vparams(v)
            s.eq(mod.expectation(env, measurement=m).reshape(-1), v * z, f"{mode}: trained", tol=1e-6)


# ------------------------------------------------------------------------------------------------ shadows
BASIS = {"X": O.H2, "Y": torch.matmul(O.H2, O.SD2), "Z": O.I2}


class onebyone:
    """Every draw of one shot is answered from a fixed sequence of outcomes; weights are recorded."""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        import pyqtorch.circuit as pc

        self.real, rec = pc.sample_multinomial, []

        def stub(probs, length_bitstring, n_samples, *a, **k):
            i = (7 * len(rec) + 3 * (len(rec) // 5) + len(rec) // 11) % 2**self.n
            rec.append((probs, n_samples, format(i, f"0{length_bitstring}b")))
            return Counter({rec[-1][2]: n_samples})

        pc.sample_multinomial = stub
        return rec

    def __exit__(self, *a):
        import pyqtorch.circuit as pc

        pc.sample_multinomial = self.real


def strings(t, env, n):
    """Pauli coefficients of an operator."""
    m = t.op(env, n)[0]
    ps = {"I": O.I2, "X": O.X2, "Y": O.Y2, "Z": O.Z2}
    out = {}
    for w in itertools.product("IXYZ", repeat=n):
        k = O.kron(*[ps[a] for a in w])
        v = (torch.matmul(k.reshape(2**n, 2**n), m).diagonal().sum() / 2**n).real.item()
        if abs(v) > 1e-9:
            out["".join(w)] = v
    return out


def repeatable(f):
    """f() with every source of random numbers starting from the same seed."""
    import random
    from unittest import mock

    import numpy as np

    real = np.random.default_rng
    np.random.seed(5), torch.manual_seed(5), random.seed(5)
    with mock.patch.object(np.random, "default_rng", lambda seed=None: real(5 if seed is None else seed)):
        return f()


def shadow(s, n, b, obs, lab, N=40, confidence=0.1, **kw):
    import math

    c, env = prep(n), values(s, n, b)
    ways = ["".join(w) for w in itertools.product("XYZ", repeat=n)]

    def born(env):
        psi = c.act(env, n, O.zero_state(n))
        out = {}
        for w in ways:
            v = O.apply(O.kron(*[O.bat(BASIS[a]) for a in w]), tuple(range(n)), n, psi)
            out[w] = (v.conj() * v).real
        return out

    def run(env):
        opts = {"shadow_size": N, "accuracy": 0.1, "confidence": confidence}
        with onebyone(n) as rec:
            got = repeatable(lambda: model(n, c, obs).expectation(env, measurement=measurement("SHADOW", opts), **kw))
        return got, rec

    # the bases of the snapshots, told from their distributions at some generic angles
    known = {k: torch.full((b,), 0.37 + 0.61 * i, dtype=torch.float64) for i, k in enumerate(env)}
    _, rec = run(known)
    s.fact(len(rec) == N * b and all(r[1] == 1 for r in rec), f"{lab}: {N} snapshots of one shot")
    ref = born(known)
    bases = []
    for i in range(N):
        near = [w for w in ways if torch.allclose(rec[i * b][0].double(), ref[w][0], atol=1e-5)]
        s.fact(len(near) == 1, f"{lab}: the snapshots are in Pauli bases")
        if len(near) != 1:
            return
        bases.append(near[0])
    s.fact(len(set(bases)) > 3**n // 2, f"{lab}: bases vary")
    got, rec = run(env)
    ref = born(env)
    s.fact(len(rec) == N * b, f"{lab}: {N} snapshots")
    for i in range(N):
        for j in range(b):
            s.eq(rec[i * b + j][0], ref[bases[i]][j], f"{lab}: snapshot", tol=1e-6)
    bits = [[rec[i * b + j][2] for j in range(b)] for i in range(N)]
    K = round(2.0 * math.log(2.0 * len(obs) / confidence))
    size = N // K
    out = torch.zeros(b, len(obs), dtype=torch.float64)
    for j in range(b):
        for o, t in enumerate(obs):
            for w, coef in strings(t, {}, n).items():
                groups = []
                for k in range(K):
                    hits = [
                        (-1) ** sum(bits[i][j][q] == "1" for q in range(n) if w[q] != "I")
                        for i in range(k * size, (k + 1) * size)
                        if all(w[q] in ("I", bases[i][q]) for q in range(n))
                    ]
                    groups.append(sum(hits) / len(hits) if hits else 0.0)
                out[j, o] += coef * sorted(groups)[(K - 1) // 2]
    s.eq(got.detach().double(), out, f"{lab}: median of means", tol=1e-5)


for lab in ("Y", "all of one qubit", "identity and Z", "N", "product on one qubit", "XY", "YX reversed", "ZI", "IY", "Z on the last", "N and X", "scaled factors", "nested scales", "sum and product", "kron of sums", "XZ by a chain", "ZY by a reversed chain", "nested", "rotated order", "weights", "gap"):
    @obligation(P, f"shadow-{lab}", timeout=240)
    def ob(s, lab=lab):
        """Snapshots are drawn from the Born distribution of a random Pauli basis, and combined by the median of means."""
        n, t = ZOO[lab]
        shadow(s, n, 1, [t], lab, N=40 if n < 3 else 90)


@obligation(P, "shadow-batches", timeout=240)
def ob(s):
    import qadence as qd

    obs = [ZOO["XY"][1], ZOO["sum and product"][1], ZOO["identity on the other"][1]]
    shadow(s, 2, 2, obs, "batch", N=48)
    shadow(s, 2, 1, obs, "little endian", N=40, endianness=qd.Endianness.LITTLE)
    shadow(s, 2, 1, obs[:2], "confidence", N=40, confidence=0.3)
