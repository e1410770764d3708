"""C03: expectation values are <psi|O|psi> for the state the circuit prepares."""
import torch

from symq.runner import obligation
from checks import oracle as O

P = "C03"


def params(s, k, batch, pre="p"):
    return {f"{pre}{i}": s.angle(f"{pre}{i}", batch) for i in range(k)}


def circ():
    return O.chain(
        O.kronb(O.gate("RX", 0, params=["p0"]), O.gate("RY", 2, params=["p1"]), O.gate("H", 1)),
        O.gate("CRY", 2, 0, params=["p1"]),
        O.gate("CNOT", 1, 2),
        O.gate("PHASE", 2, params=["p0"]),
    )


def obs():
    Z, X, Y, N = (lambda q: O.gate("Z", q)), (lambda q: O.gate("X", q)), (lambda q: O.gate("Y", q)), (lambda q: O.gate("N", q))
    return {
        "Z0": Z(0), "X2": X(2), "Y1": Y(1), "N0": N(0),
        "ZZ": O.kronb(Z(0), Z(2)), "XYZ": O.kronb(X(2), Y(0), Z(1)),
        "ising": O.add(O.scale(O.kronb(Z(0), Z(1)), 0.5), O.scale(O.kronb(Z(1), Z(2)), -1.5), Z(0), O.scale(X(2), 2.0)),
        "scaled": O.scale(O.add(X(0), O.kronb(Y(1), Y(2))), -3.0),
        "equal-scales": O.scale(O.add(O.scale(X(0), 2.0), O.kronb(Z(1), Z(2)), O.scale(O.add(Y(2), O.scale(Z(0), 2.0)), 2.0)), 2.0),
        "single-in-sum": O.add(N(0), N(1), N(2)),
        "chain": O.chain(Z(0), Z(2)),
        "diag": O.add(Z(0), O.kronb(Z(1), Z(2)), O.scale(Z(2), 0.25)),
    }


def check(s, t, o, env, oenv, n, label, state=None, **kw):
    import qadence as qd

    psi = t.act(env, n, O.zero_state(n) if state is None else state)
    want = O.expect(o.op(oenv, n), psi)
    got = qd.expectation(n, t.block, o.block, values={**env, **oenv}, state=state, **kw)
    B = O.batch(got, want, {**env, **oenv})
    s.eq(got, want.expand(B).reshape(-1, 1), label)


for name in obs():
    for B in (1, 2):
        @obligation(P, f"obs-{name}-b{B}")
        def ob(s, name=name, B=B):
            env = params(s, 2, B)
            o = obs()[name]
            check(s, circ(), o, env, {}, 3, name)


@obligation(P, "state-any")
def ob(s):
    env = params(s, 2, 1)
    t = O.chain(O.gate("RX", 0, params=["p0"]), O.gate("CRY", 1, 0, params=["p1"]))
    psi = s.state("psi", 2)
    for nm in ("Z", "X"):
        check(s, t, O.kronb(O.gate(nm, 1), O.gate("Y", 0)), env, {}, 2, nm, state=psi)


@obligation(P, "state-batch")
def ob(s):
    env = params(s, 2, 2)
    t = O.chain(O.gate("RX", 0, params=["p0"]), O.gate("CRY", 1, 0, params=["p1"]))
    check(s, t, O.add(O.gate("Z", 1), O.gate("X", 0)), env, {}, 2, "batch of states", state=s.state("psi", 2, 2))


@obligation(P, "identity-norm")
def ob(s):
    env = params(s, 2, 2)
    check(s, circ(), O.gate("I", 1), env, {}, 3, "identity")


@obligation(P, "many-observables")
def ob(s):
    """Columns follow the order of the observables."""
    import qadence as qd

    env = params(s, 2, 3)
    t = circ()
    ob_ = obs()
    names = ["Z0", "ising", "Y1", "diag"]
    psi = t.act(env, 3, O.zero_state(3))
    got = qd.expectation(3, t.block, [ob_[k].block for k in names], values=env)
    s.fact(tuple(got.shape) == (3, 4), f"shape (batch, observables), got {tuple(got.shape)}", "shape")
    for j, k in enumerate(names):
        s.eq(got[:, j], O.expect(ob_[k].op({}, 3), psi).expand(3), k)


@obligation(P, "parametric-observable")
def ob(s):
    import qadence as qd

    env = params(s, 2, 2)
    w = s.real("w", 2)
    o = O.Term(
        qd.FeatureParameter("w") * qd.kron(qd.Z(0), qd.X(1)) + 2 * qd.Z(2), (0, 1, 2),
        full=lambda e, n: O.col(e["w"]) * O.embed(O.kron(O.Z2, O.X2), (0, 1), n) + 2 * O.embed(O.Z2, (2,), n),
    )
    check(s, circ(), o, env, {"w": w}, 3, "w ZX + 2 Z")
    o2 = O.Term(qd.FeatureParameter("w") * (qd.Z(0) + qd.kron(qd.Z(0), qd.X(1))), (0, 1), full=lambda e, n: O.col(e["w"]) * (O.embed(O.Z2, (0,), n) + O.embed(O.kron(O.Z2, O.X2), (0, 1), n)))
    check(s, circ(), o2, env, {"w": w}, 3, "w (Z + ZX)")


@obligation(P, "shared-parameter")
def ob(s):
    """A feature parameter used both in the circuit and in the observable has one value."""
    import qadence as qd

    env = params(s, 2, 2)
    o = O.Term(qd.FeatureParameter("p0") * qd.Z(0) + qd.X(1), (0, 1), full=lambda e, n: O.col(e["p0"]) * O.embed(O.Z2, (0,), n) + O.embed(O.X2, (1,), n))
    check(s, circ(), o, env, {"p0": env["p0"]}, 3, "shared")


@obligation(P, "observable-batch-only")
def ob(s):
    """A batch that only enters through the observable, or only through the circuit."""
    import qadence as qd

    t = O.chain(O.gate("RX", 0, params=["p0"]), O.gate("CRY", 1, 0, params=["p1"]))
    o = O.Term(qd.FeatureParameter("w") * qd.Z(0) + qd.X(1), (0, 1), full=lambda e, n: O.col(e["w"]) * O.embed(O.Z2, (0,), n) + O.embed(O.X2, (1,), n))
    check(s, t, o, params(s, 2, 1), {"w": s.real("w", 3)}, 2, "obs batch")
    check(s, t, o, params(s, 2, 3, "p"), {"w": s.real("v", 1)}, 2, "circuit batch")


@obligation(P, "entrypoints")
def ob(s):
    import qadence as qd

    env = params(s, 2, 2)
    t, o = circ(), obs()["ising"]
    want = O.expect(o.op({}, 3), t.act(env, 3, O.zero_state(3))).reshape(-1, 1)
    c = qd.QuantumCircuit(3, t.block)
    s.eq(qd.expectation(t.block, o.block, values=env), want, "block")
    s.eq(qd.expectation(qd.Register(3), t.block, o.block, values=env), want, "register")
    s.eq(qd.expectation(c, o.block, values=env), want, "circuit")
    for dm in ("ad", "adjoint", "gpsr"):
        s.eq(qd.QuantumModel(c, observable=o.block, diff_mode=dm).expectation(env), want, f"model {dm}")
    s.eq(qd.expectation(c, o.block, values=env, diff_mode="ad"), want, "ad")
    m = qd.QuantumModel(c, observable=obs()["Z0"].block)
    m.expectation(env)
    s.eq(m.expectation(env, observable=m.backend.observable(o.block, 3)), want, "override")
    s.eq(m.expectation(env), O.expect(obs()["Z0"].op({}, 3), t.act(env, 3, O.zero_state(3))).reshape(-1, 1), "after override")


@obligation(P, "adjoint-many")
def ob(s):
    import qadence as qd

    env = params(s, 2, 3)
    t = circ()
    names = ["Z0", "ising"]
    m = qd.QuantumModel(qd.QuantumCircuit(3, t.block), observable=[obs()[k].block for k in names], diff_mode="adjoint")
    got = m.expectation(env)
    psi = t.act(env, 3, O.zero_state(3))
    want = torch.stack([O.expect(obs()[k].op({}, 3), psi) for k in names], -1)
    s.eq(got, want, "columns")


@obligation(P, "hermitian-real")
def ob(s):
    import qadence as qd

    env = params(s, 2, 2)
    for k in ("ising", "XYZ"):
        got = qd.expectation(3, circ().block, obs()[k].block, values=env)
        s.fact(not got.is_complex(), f"{k}: real-valued")


@obligation(P, "linear")
def ob(s):
    """Expectation is linear in the observable."""
    import qadence as qd

    env = params(s, 2, 2)
    c = qd.QuantumCircuit(3, circ().block)
    a, b = qd.kron(qd.X(0), qd.Z(2)), qd.Y(1)
    e = lambda o: qd.expectation(c, o, values=env)
    s.eq(e(0.3 * a - 2.5 * b), 0.3 * e(a) - 2.5 * e(b), "linear")
    s.eq(e(2 * (a + b)), 2 * e(a) + 2 * e(b), "scaled sum")
    s.eq(e(a + a), 2 * e(a), "repeated term")


for n, tier in ((4, "thorough"), (5, "thorough")):
    @obligation(P, f"ising-{n}", tier, timeout=900)
    def ob(s, n=n):
        env = params(s, 3, 2)
        t = O.chain(
            O.kronb(*[O.gate("RY", i, params=[f"p{i % 3}"]) for i in range(n)]),
            *[O.gate("CRX", i, i + 1, params=[f"p{i % 3}"]) for i in range(n - 1)],
        )
        o = O.add(*[O.scale(O.kronb(O.gate("Z", i), O.gate("Z", i + 1)), 0.5 + i) for i in range(n - 1)], *[O.gate("X", i) for i in range(n)])
        check(s, t, o, env, {}, n, "ising")


@obligation(P, "configurations")
def ob(s):
    """The evaluation strategy (looped or batched, merged single-qubit gates) is not observable."""
    import qadence as qd

    env = params(s, 2, 3)
    t = O.chain(circ(), O.gate("RX", 1, params=["p1"]), O.gate("RZ", 1, params=["p0"]))
    w = s.real("w", 3)
    fixed, par = obs()["ising"], O.Term(qd.FeatureParameter("w") * qd.kron(qd.Z(0), qd.Y(1)), (0, 1), full=lambda e, n: O.col(e["w"]) * O.embed(O.kron(O.Z2, O.Y2), (0, 1), n))
    psi = t.act(env, 3, O.zero_state(3))
    want = torch.stack([O.expect(fixed.op({}, 3), psi), O.expect(par.op({"w": w}, 3), psi)], -1)
    c = qd.QuantumCircuit(3, t.block)
    for cfg in ({"loop_expectation": True}, {"use_single_qubit_composition": True}, {"_use_gate_params": True}, {"loop_expectation": True, "use_single_qubit_composition": True}):
        got = qd.expectation(c, [fixed.block, par.block], values={**env, "w": w}, configuration=dict(cfg))
        s.eq(got, want, f"expectation {sorted(cfg)}")
        m = qd.QuantumModel(c, observable=[fixed.block, par.block], configuration=dict(cfg))
        s.eq(m.expectation({**env, "w": w}), want, f"model {sorted(cfg)}")


@obligation(P, "one-element-batches")
def ob(s):
    """Parameters with a single value are shared by all elements of the batch."""
    import qadence as qd

    env = {"p0": s.angle("p0", 3), "p1": s.angle("p1", 1)}
    t, o = circ(), obs()["ising"]
    want = O.expect(o.op({}, 3), t.act(env, 3, O.zero_state(3))).reshape(-1, 1)
    for cfg in ({}, {"loop_expectation": True}):
        s.eq(qd.expectation(qd.QuantumCircuit(3, t.block), o.block, values=env, configuration=cfg), want, str(cfg))
