"""C02: running a circuit applies exactly its operator to the input state."""
import itertools

import torch

from symq.runner import obligation
from checks import oracle as O

P = "C02"


def params(s, k, batch):
    return {f"p{i}": s.angle(f"p{i}", batch) for i in range(k)}


def check(s, t, env, n, psi, label, **kw):
    import qadence as qd

    got = qd.run(n, t.block, values=env, state=psi, **kw)
    want = t.act(env, n, psi)
    B = O.batch(got, want, env)
    s.eq(got, want.expand(B, -1), label)


for nm in ["I", "X", "Y", "Z", "N", "H", "S", "SDagger", "T"]:
    @obligation(P, f"fixed-{nm}")
    def ob(s, nm=nm):
        for n in (1, 3):
            psi = s.state(f"psi{n}", n)
            for q in range(n):
                check(s, O.gate(nm, q), {}, n, psi, f"{nm}({q})/{n}")
for nm, k in [("RX", 1), ("RY", 1), ("RZ", 1), ("PHASE", 1), ("U", 3)]:
    @obligation(P, f"rot-{nm}")
    def ob(s, nm=nm, k=k):
        env = params(s, k, 2)
        for n in (1, 3):
            psi = s.state(f"psi{n}", n)
            for q in range(n):
                check(s, O.gate(nm, q, params=[f"p{i}" for i in range(k)]), env, n, psi, f"{nm}({q})/{n}")
for nm in ["CNOT", "CZ", "SWAP", "CRX", "CRY", "CRZ", "CPHASE"]:
    @obligation(P, f"two-{nm}")
    def ob(s, nm=nm):
        env = params(s, 1, 1 if nm in ("CNOT", "CZ", "SWAP") else 2)
        if nm in ("CNOT", "CZ", "SWAP"):
            env = {}
        for n in (2, 3):
            psi = s.state(f"psi{n}", n)
            for a, b in itertools.permutations(range(n), 2):
                check(s, O.gate(nm, a, b, params=["p0"]), env, n, psi, f"{nm}({a},{b})/{n}")
for nm in ["CSWAP", "Toffoli", "MCZ", "MCRX", "MCRY", "MCRZ", "MCPHASE"]:
    @obligation(P, f"multi-{nm}")
    def ob(s, nm=nm):
        env = {} if nm in ("CSWAP", "Toffoli", "MCZ") else params(s, 1, 2)
        psi = s.state("psi", 4)
        for sup in [(0, 1, 2), (2, 1, 0), (3, 0, 1), (1, 3, 0), (0, 3, 2), (2, 0, 3)]:
            check(s, O.gate(nm, *sup, params=["p0"]), env, 4, psi, f"{nm}{sup}")
        if nm != "CSWAP":
            for sup in [(0, 1, 2, 3), (3, 1, 0, 2), (0, 3), (2, 1)]:
                check(s, O.gate(nm, *sup, params=["p0"]), env, 4, psi, f"{nm}{sup}")


@obligation(P, "matrixblock")
def ob(s):
    m1 = s.cplx("m1", (2, 2))
    m2 = s.cplx("m2", (4, 4))
    psi = s.state("psi", 3)
    for q in range(3):
        check(s, O.matrix(m1, (q,)), {}, 3, psi, f"m({q})")
    for sup in [(0, 1), (1, 0), (0, 2), (2, 0), (2, 1)]:
        check(s, O.matrix(m2, sup), {}, 3, psi, f"m{sup}")


@obligation(P, "projector")
def ob(s):
    psi = s.state("psi", 3)
    for ket, bra in itertools.product("01", repeat=2):
        for q in range(3):
            check(s, O.projector(ket, bra, q), {}, 3, psi, f"|{ket}><{bra}|({q})")
    for ket, bra in [("00", "00"), ("01", "01"), ("10", "01"), ("01", "11"), ("11", "10")]:
        for sup in [(0, 1), (1, 0), (0, 2), (2, 1)]:
            check(s, O.projector(ket, bra, sup), {}, 3, psi, f"|{ket}><{bra}|{sup}")


def mixed(batch):
    return O.chain(
        O.kronb(O.gate("RX", 0, params=["p0"]), O.gate("U", 2, params=["p1", "p0", "p2"]), O.gate("H", 1)),
        O.gate("CRY", 2, 0, params=["p1"]),
        O.gate("MCPHASE", 0, 2, 1, params=["p2"]),
        O.chain(O.gate("CNOT", 1, 0), O.gate("S", 2)),
        O.kronb(O.gate("CRZ", 2, 1, params=[O.A(0.3)]), O.gate("RY", 0, params=["p2"])),
    )


for B in (1, 2, 3):
    @obligation(P, f"circuit-b{B}")
    def ob(s, B=B):
        env = params(s, 3, B)
        t = mixed(B)
        check(s, t, env, 3, s.state("psi", 3), "one state")
        import qadence as qd

        s.eq(qd.run(3, t.block, values=env), t.act(env, 3, O.zero_state(3)).expand(B, -1), "default state")
    @obligation(P, f"circuit-states-b{B}")
    def ob(s, B=B):
        env = params(s, 3, B)
        check(s, mixed(B), env, 3, s.state("psi", 3, B), "state batch")


@obligation(P, "batch-mixed")
def ob(s):
    """Parameters of batch size one broadcast against batched ones."""
    env = {"p0": s.angle("p0", 3), "p1": s.angle("p1", 1), "p2": s.angle("p2", 3)}
    t = mixed(3)
    check(s, t, env, 3, s.state("psi", 3), "mixed batch")
    env["p1"] = env["p1"].squeeze()
    import qadence as qd

    s.eq(qd.run(3, t.block, values=env), t.act(env, 3, O.zero_state(3)), "0d parameter")


@obligation(P, "extra-qubits")
def ob(s):
    env = params(s, 3, 1)
    t = O.chain(O.gate("RX", 1, params=["p0"]), O.gate("CRY", 2, 1, params=["p1"]))
    check(s, t, env, 4, s.state("psi", 4), "idle qubits")


@obligation(P, "add-nonunitary")
def ob(s):
    env = params(s, 3, 2)
    psi = s.state("psi", 2)
    t = O.add(O.scale(O.kronb(O.gate("X", 0), O.gate("Z", 1)), 0.5), O.scale(O.gate("RX", 1, params=["p0"]), 1.5), O.chain(O.gate("CNOT", 1, 0), O.gate("RY", 0, params=["p1"])))
    check(s, t, env, 2, psi, "sum")
    check(s, O.chain(O.gate("RZ", 0, params=["p2"]), t), env, 2, psi, "chain with sum")


@obligation(P, "parametric-scale")
def ob(s):
    import qadence as qd

    env = params(s, 2, 2)
    env["w"] = s.real("w", 2)
    psi = s.state("psi", 2)
    A, B = O.gate("RX", 1, params=["p0"]), O.gate("CRY", 0, 1, params=["p1"])
    w = qd.FeatureParameter("w")
    t = O.Term(w * A.block + 2 * B.block, (0, 1), full=lambda e, n: O.col(e["w"]) * A.op(e, n) + 2 * B.op(e, n))
    check(s, t, env, 2, psi, "w A + 2 B")
    t = O.Term(w * qd.chain(A.block, B.block), (0, 1), full=lambda e, n: O.col(e["w"]) * O.mm(B.op(e, n), A.op(e, n)))
    check(s, t, env, 2, psi, "w (AB)")
    t = O.Term(0.5 * (w * (A.block + B.block)), (0, 1), full=lambda e, n: 0.5 * O.col(e["w"]) * (B.op(e, n) + A.op(e, n)))
    check(s, t, env, 2, psi, "0.5 w (A+B)")
    t = O.Term(qd.chain(A.block, w * qd.kron(qd.X(0), qd.Z(1)), A.block), (0, 1), full=lambda e, n: O.col(e["w"]) * O.mm(A.op(e, n), O.mm(O.embed(O.kron(O.X2, O.Z2), (0, 1), 2), A.op(e, n))))
    check(s, t, env, 2, psi, "A (w XZ) A")


@obligation(P, "expressions")
def ob(s):
    import qadence as qd
    import sympy

    env = params(s, 2, 2)
    psi = s.state("psi", 2)
    x, y = qd.FeatureParameter("p0"), qd.FeatureParameter("p1")
    for lab, e, f in [
        ("2x", 2 * x, lambda v: 2 * v["p0"]),
        ("x+y", x + y, lambda v: v["p0"] + v["p1"]),
        ("x*y", x * y, lambda v: v["p0"] * v["p1"]),
        ("x^2-y/3", x**2 - y / 3, lambda v: v["p0"] ** 2 - v["p1"] / 3),
        ("x cos y + 1", x * sympy.cos(y) + 1, lambda v: v["p0"] * torch.cos(v["p1"]) + 1),
    ]:
        check(s, O.gate("RX", 0, params=[O.A(e, f)]), env, 2, psi, f"RX({lab})")
        check(s, O.gate("CRZ", 1, 0, params=[O.A(e, f)]), env, 2, psi, f"CRZ({lab})")


@obligation(P, "hamevo-pauli")
def ob(s):
    env = params(s, 1, 2)
    psi = s.state("psi", 3)
    for names, sup in [("Z", (0,)), ("X", (1,)), ("ZZ", (0, 2)), ("XY", (2, 0)), ("XZY", (0, 1, 2))]:
        g = O.kronb(*[O.gate(k, q) for k, q in zip(names, sup)]) if len(names) > 1 else O.gate(names, sup[0])
        check(s, O.ham_evo(g, "p0"), env, 3, psi, f"exp({names}{sup})")


@obligation(P, "hamevo-commuting-sum")
def ob(s):
    env = params(s, 1, 3)
    psi = s.state("psi", 3)
    zz = O.kronb(O.gate("Z", 0), O.gate("Z", 1))
    check(s, O.ham_evo_sum([(0.7, zz), (-1.3, O.gate("Z", 2)), (2.0, O.gate("Z", 0))], "p0"), env, 3, psi, "ising")
    xx = O.kronb(O.gate("X", 2), O.gate("X", 0))
    yy = O.kronb(O.gate("Y", 2), O.gate("Y", 0))
    check(s, O.ham_evo_sum([(0.5, xx), (0.5, yy)], "p0"), env, 3, psi, "xy")


@obligation(P, "hamevo-matrix")
def ob(s):
    import qadence as qd

    t = s.angle("t", 2)
    psi = s.state("psi", 3)
    g2 = torch.kron(O.X2, O.Z2)
    for sup in [(0, 1), (1, 0), (0, 2), (2, 0), (2, 1)]:
        T = O.Term(qd.HamEvo(g2, "t", qubit_support=sup), sup, lambda e: O.expm_hermitian_involution(g2, e["t"]))
        check(s, T, {"t": t}, 3, psi, f"exp(matrix{sup})")


@obligation(P, "hamevo-in-circuit")
def ob(s):
    import qadence as qd

    env = params(s, 3, 2)
    x = qd.FeatureParameter("p0")
    t = O.chain(
        O.gate("RX", 1, params=["p1"]),
        O.ham_evo(O.kronb(O.gate("Z", 2), O.gate("X", 0)), O.A(2 * x, lambda v: 2 * v["p0"])),
        O.kronb(O.gate("CRY", 2, 1, params=["p2"]), O.ham_evo(O.gate("Y", 0), "p1")),
    )
    check(s, t, env, 3, s.state("psi", 3), "evo")


@obligation(P, "hamevo-parametric-generator")
def ob(s):
    import qadence as qd

    env = {"w": s.real("w", 2, 0.01, 3), "t": s.angle("t", 2)}  # pyqtorch drops off-diagonals below 1e-6
    psi = s.state("psi", 2)
    ZX = O.kron(O.Z2, O.X2)
    h = qd.HamEvo(qd.FeatureParameter("w") * qd.kron(qd.Z(0), qd.X(1)), "t")
    T = O.Term(h, (0, 1), full=lambda e, n: O.expm_hermitian_involution(ZX, e["w"] * e["t"]))
    check(s, T, env, 2, psi, "exp(-i t w ZX)")
    h = qd.HamEvo(qd.FeatureParameter("w") * (qd.Z(0) + qd.kron(qd.Z(0), qd.X(1))), "t")
    T = O.Term(h, (0, 1), full=lambda e, n: O.mm(O.expm_hermitian_involution(O.kron(O.Z2, O.I2), e["w"] * e["t"]), O.expm_hermitian_involution(ZX, e["w"] * e["t"])))
    check(s, T, env, 2, psi, "exp(-i t w (Z+ZX))")


@obligation(P, "entrypoints")
def ob(s):
    """run(block), run(register, block), run(circuit) and QuantumModel.run are the same function."""
    import qadence as qd

    env = params(s, 3, 2)
    t = mixed(2)
    psi = s.state("psi", 3)
    want = t.act(env, 3, psi)
    circ = qd.QuantumCircuit(3, t.block)
    s.eq(qd.run(t.block, values=env, state=psi), want, "block")
    s.eq(qd.run(qd.Register(3), t.block, values=env, state=psi), want, "register")
    s.eq(qd.run(circ, values=env, state=psi), want, "circuit")
    s.eq(qd.QuantumModel(circ).run(env, state=psi), want, "model")


@obligation(P, "no-mutation")
def ob(s):
    """Running leaves the user's state and values alone, and can be repeated."""
    import qadence as qd

    env = params(s, 3, 2)
    t = mixed(2)
    psi = s.state("psi", 3)
    keep, kenv = psi.clone(), {k: v.clone() for k, v in env.items()}
    m = qd.QuantumModel(qd.QuantumCircuit(3, t.block))
    a = m.run(env, state=psi)
    b = m.run(env, state=psi)
    s.eq(a, b, "repeat")
    s.eq(psi, keep, "state")
    for k in env:
        s.eq(env[k], kenv[k], f"value {k}")
    s.fact(set(env) == set(kenv), "no key is added to the user's values")


@obligation(P, "norm")
def ob(s):
    """A circuit of unitary gates preserves inner products."""
    import qadence as qd

    env = params(s, 3, 1)
    a, b = s.state("a", 2), s.state("b", 2)
    blk = qd.chain(qd.RX(0, "p0"), qd.CRY(0, 1, "p1"), qd.CPHASE(1, 0, "p2"), qd.HamEvo(qd.kron(qd.X(0), qd.Y(1)), "p0"))
    ra, rb = qd.run(2, blk, values=env, state=a), qd.run(2, blk, values=env, state=b)
    s.eq(O.inner(ra, rb), O.inner(a, b), "inner")


for nm, k, q in [("U", 3, 1), ("CRX", 1, 2), ("CPHASE", 1, 2), ("MCRY", 1, 3), ("MCPHASE", 1, 4), ("CSWAP", 0, 3), ("MCZ", 0, 4), ("Toffoli", 0, 4)]:
    @obligation(P, f"placements-{nm}", "thorough", timeout=800)
    def ob(s, nm=nm, k=k, q=q):
        env = params(s, k, 2)
        env["z"] = s.angle("z", 2)
        psi = s.state("psi", 4)
        for sup in itertools.permutations(range(4), q):
            t = O.chain(O.gate("RY", 1, params=["z"]), O.gate(nm, *sup, params=[f"p{i}" for i in range(k)]), O.gate("CRZ", 3, 0, params=["z"]))
            check(s, t, env, 4, psi, f"{nm}{sup}")


@obligation(P, "fixed-numbers")
def ob(s):
    """Different fixed numbers in one circuit do not get confused."""
    env = params(s, 1, 1)
    psi = s.state("psi", 2)
    for nums in [(-1, -2), (-1.0, -2.0), (1, -1), (0.5, 5), (1e-3, 1000.0), (2, 2.5), (-2.5, 2.5)]:
        t = O.chain(*[O.gate("RX", i % 2, params=[O.A(v)]) for i, v in enumerate(nums)], O.gate("RY", 0, params=["p0"]), O.scale(O.gate("X", 0), nums[0]), O.scale(O.gate("RZ", 1, params=["p0"]), nums[1]))
        check(s, t, env, 2, psi, f"{nums}")
    A, B = O.gate("RX", 0, params=["p0"]), O.gate("RY", 1, params=["p0"])
    for lab, blk, f in [("A-B", A.block - B.block, lambda e, n: A.op(e, n) - B.op(e, n)), ("-A", -A.block, lambda e, n: -A.op(e, n)), ("-2(A+B)", -2 * (A.block + B.block), lambda e, n: -2 * A.op(e, n) - 2 * B.op(e, n))]:
        check(s, O.Term(blk, (0, 1), full=f), env, 2, psi, lab)


@obligation(P, "close-values")
def ob(s):
    """Values that differ only slightly are not mistaken for each other, whatever was evaluated before."""
    import qadence as qd

    t, d = s.angle("t"), s.real("d", 1, 1e-6, 9e-6)
    psi = s.state("psi", 2)
    for lab, T in [("pauli", O.ham_evo(O.kronb(O.gate("X", 0), O.gate("Z", 1)), "t")), ("sum", O.ham_evo_sum([(0.5, O.kronb(O.gate("X", 0), O.gate("X", 1))), (0.5, O.kronb(O.gate("Y", 0), O.gate("Y", 1)))], "t")),
                   ("rx", O.gate("RX", 0, params=["t"])), ("crx", O.gate("CRX", 1, 0, params=["t"]))]:
        m = qd.QuantumModel(qd.QuantumCircuit(2, T.block))
        m.run({"t": t}, state=psi)
        s.eq(m.run({"t": t + d}, state=psi), T.act({"t": t + d}, 2, psi), lab, tol=1e-9)


def one_qubit_chains():
    g = lambda nm, q, *p: O.gate(nm, q, params=list(p))
    K, C = O.kronb, O.chain
    return {
        "u-last": C(g("RX", 1, "p0"), g("U", 1, "p1", "p0", "p2"), g("H", 1)),
        "u-first": C(g("U", 1, "p1", "p0", "p2"), g("RY", 1, "p0")),
        "scale-last": C(g("H", 0), g("RZ", 0, "p0"), O.scale(g("X", 0), 2.0)),
        "scale-param": C(g("H", 0), O.scale(g("RX", 0, "p1"), "p2"), g("S", 0)),
        "projector": C(g("RX", 2, "p0"), O.projector("1", "1", 2), g("RY", 2, "p1")),
        "number": C(g("RX", 2, "p0"), g("N", 2), g("RY", 2, "p1")),
        "phase": C(g("PHASE", 1, "p0"), g("H", 1), g("T", 1), g("PHASE", 1, "p1"), g("SDagger", 1)),
        "evo": C(g("RX", 0, "p0"), O.ham_evo(g("Y", 0), "p1"), g("RZ", 0, "p2")),
        "sum": C(g("RX", 0, "p0"), O.add(g("X", 0), O.scale(g("Z", 0), 0.5)), g("RZ", 0, "p2")),
        "nested": C(C(g("RX", 0, "p0"), g("RY", 0, "p1")), C(g("RX", 1, "p0"), C(g("Z", 1), g("RY", 1, "p1")))),
        "kron": K(C(g("RX", 0, "p0"), g("Y", 0)), C(g("RZ", 2, "p1"), g("U", 2, "p1", "p0", "p2"))),
        "between": C(g("RX", 0, "p0"), g("RY", 0, "p1"), O.gate("CRX", 0, 1, params=["p2"]), g("RZ", 1, "p0"), g("RX", 1, "p1"), O.gate("CNOT", 2, 0), g("RX", 0, "p2")),
    }


for nm in ["u-last", "u-first", "scale-last", "scale-param", "projector", "number", "phase", "evo", "sum", "nested", "kron", "between"]:
    @obligation(P, f"configured-{nm}")
    def ob(s, nm=nm):
        """Optional speed-ups of the simulator do not change the result."""
        env = params(s, 3, 2)
        psi = s.state("psi", 3)
        t = one_qubit_chains()[nm]
        for conf in ({}, {"use_single_qubit_composition": True}, {"use_gradient_checkpointing": True}, {"use_single_qubit_composition": True, "loop_expectation": True}):
            check(s, t, env, 3, psi, f"{nm} {conf}", configuration=conf)


@obligation(P, "matrix-generator-batch")
def ob(s):
    """A constant matrix as generator is not a batch of parameters, whatever its size."""
    import qadence as qd

    for n, g in [(1, O.X2), (2, O.kron(O.Z2, O.X2)[0]), (3, O.kron(O.X2, O.Z2, O.Y2)[0])]:
        sup = tuple(range(n))
        for B in (1, 2, 3):
            t = s.angle(f"t{B}", B)
            T = O.chain(O.gate("H", 0), O.Term(qd.HamEvo(g, "t", qubit_support=sup), sup, lambda e, g=g: O.expm_hermitian_involution(g, e["t"])))
            s.eq(qd.run(n, T.block, values={"t": t}), T.act({"t": t}, n, O.zero_state(n)), f"{n} qubits, batch {B}")
            s.eq(qd.expectation(n, T.block, qd.Z(0), values={"t": t}), O.expect(O.embed(O.Z2, (0,), n), T.act({"t": t}, n, O.zero_state(n))).real.reshape(-1, 1), f"expectation on {n} qubits, batch {B}")
            psi = s.state(f"psi{n}", n)
            s.eq(qd.run(n, T.block, values={"t": t}, state=psi), T.act({"t": t}, n, psi), f"{n} qubits, batch {B}, from a state")
        T = O.Term(qd.HamEvo(g, 0.75, qubit_support=sup), sup, lambda e, g=g: O.expm_hermitian_involution(g, torch.tensor([0.75], dtype=torch.double)))
        s.eq(qd.run(n, T.block), T.act({}, n, O.zero_state(n)), f"{n} qubits, fixed time")
        psi2 = s.state(f"psi{n}b", n, 3) if False else torch.cat([psi, psi.conj(), -psi])
        s.eq(qd.run(n, T.block, state=psi2), T.act({}, n, psi2), f"{n} qubits, fixed time, batched state")


@obligation(P, "inferred-qubits")
def ob(s):
    """A block run by itself acts on the qubits 0…max of its support, whatever gate it is."""
    import qadence as qd

    env = params(s, 3, 1)
    g = lambda nm, *q: O.gate(nm, *q, params=["p0", "p1", "p2"] if nm == "U" else ["p0"])
    for t in [
        g("H", 2), g("RX", 2), g("U", 2), g("T", 1), g("S", 2), g("PHASE", 1), g("CNOT", 2, 1), g("CRX", 2, 1), g("CPHASE", 0, 2), g("SWAP", 1, 2), g("Toffoli", 3, 0, 1), g("MCRZ", 0, 3, 1), g("MCZ", 1, 0, 3), g("CSWAP", 0, 3, 2),
        O.matrix(O.H2, (2,)), O.Term(qd.HamEvo(O.X2, "p0", qubit_support=(2,)), (2,), lambda e: O.expm_hermitian_involution(O.X2, e["p0"])),
        O.ham_evo(O.kronb(g("Z", 2), g("X", 0)), "p0"), O.kronb(g("RX", 2), g("RY", 0)), O.scale(g("RX", 2), 0.5), O.add(g("X", 1), g("U", 2)), O.chain(O.chain(g("T", 2)), g("H", 0)), O.projector("1", "1", 2),
    ]:
        n = max(t.block.qubit_support) + 1
        lab = f"{t.block.name}{tuple(t.block.qubit_support)}"
        want = t.act(env, n, O.zero_state(n))
        s.eq(qd.run(t.block, values=env), want, lab)
        c = qd.QuantumCircuit(n, t.block)
        s.fact(c.n_qubits == n and t.block.n_qubits == n, f"{lab}: number of qubits")
        s.eq(qd.QuantumModel(c).run(env), want, f"{lab} model")
        s.eq(qd.expectation(t.block, qd.Z(0), values=env), O.expect(O.embed(O.Z2, (0,), n), want).real.reshape(-1, 1), f"{lab} expectation")


@obligation(P, "several-circuits")
def ob(s):
    """run of a list of circuits stacks the states of all of them."""
    import qadence as qd

    env = params(s, 3, 2)
    for n in (1, 2):
        ts = [O.gate("RX", 0, params=["p0"]), O.chain(O.gate("H", n - 1), O.gate("RZ", n - 1, params=["p1"])), O.gate("U", n - 1, params=["p0", "p1", "p2"])]
        cs = [qd.QuantumCircuit(n, t.block) for t in ts]
        want = [t.act(env, n, O.zero_state(n, 2)) for t in ts]
        for k in (1, 2, 3):
            s.eq(qd.run(cs[:k], values=env), torch.cat(want[:k]), f"{k} circuits on {n} qubits")


def _td(n_steps=9):
    """Time-dependent generators with their Hamiltonian H(e, t): the library's integrator is replaced by a recorder."""
    import qadence as qd
    import sympy as sp

    t = qd.TimeParameter("t")
    w, v = qd.FeatureParameter("w"), qd.FeatureParameter("v")
    X_, Z_ = lambda n, q: O.embed(O.X2, (q,), n), lambda n, q: O.embed(O.Z2, (q,), n)
    Y_ = lambda n, q: O.embed(O.Y2, (q,), n)
    return t, {
        "linear": (t * qd.X(0), 1, lambda e, t, n: t * X_(n, 0)),
        "feature": (w * (t * qd.X(0) + t**2 * qd.Y(1)), 2, lambda e, t, n: e["w"] * (t * X_(n, 0) + t**2 * Y_(n, 1))),
        "functions": (sp.sin(w * t) * qd.X(1) + 0.5 * qd.kron(qd.Z(0), qd.Z(1)) + sp.exp(-t) * v * qd.Y(0), 2, lambda e, t, n: torch.sin(e["w"] * t) * X_(n, 1) + 0.5 * torch.matmul(Z_(n, 0), Z_(n, 1)) + torch.exp(-t) * e["v"] * Y_(n, 0)),
        "upper-qubits": (w * t * qd.Z(2) + 2 * qd.X(1), 3, lambda e, t, n: e["w"] * t * Z_(n, 2) + 2 * X_(n, 1)),
        "nested": (qd.add(t * (w * qd.X(0) + t * qd.Z(1)), qd.chain(qd.Z(0), t * qd.X(1))), 2, lambda e, t, n: t * (e["w"] * X_(n, 0) + t * Z_(n, 1)) + t * torch.matmul(X_(n, 1), Z_(n, 0))),
    }


TD = ("linear", "feature", "functions", "upper-qubits", "nested")
for name in TD:
    @obligation(P, f"time-dependent-{name}", allow_pins=True)
    def ob(s, name=name):
        """A time-dependent evolution hands H(t), the state, the grid and the solver of the program to the integrator, and its result onwards."""
        import qadence as qd
        from types import SimpleNamespace
        from unittest import mock

        t, gens = _td()
        gen, n, H = gens[name]
        env = {k: s.real(k, 1, 0.3, 2.0) for k in ("w", "v")}
        tt = s.real("tt", (), 0.1, 1.5)
        pre, post = O.gate("RX", 0, params=[0.4]), O.gate("RY", n - 1, params=[1.3])
        phi = s.state("phi", n)
        for lab, dur, dval, vals in (
            ("default duration", None, 0.75, {"duration": torch.tensor(0.75)}), ("named duration", "T", 1.25, {"T": torch.tensor(1.25)}), ("number", 0.5, 0.5, {}),
            ("parameter", qd.FeatureParameter("T"), 2.5, {"T": torch.tensor(2.5)}),
        ):
            h = qd.HamEvo(gen, t, duration=dur)
            s.fact(tuple(h.qubit_support) == tuple(gen.qubit_support), f"{lab}: qubits")
            c = qd.QuantumCircuit(n, qd.chain(pre.block, h, post.block))
            for steps, solver in ((9, "dp5_se"), (4, "krylov_se")):
                rec = []

                def sesolve(Ht, psi0, tsave, sv, options=None):
                    rec.append((Ht, psi0, tsave, sv))
                    return SimpleNamespace(states=[psi0, phi.reshape(-1, 1)])

                cfg = {"n_steps_hevo": steps, "ode_solver": qd.types.SolverType(solver)}
                values = {**{k: v for k, v in env.items()}, **vals}
                with mock.patch("pyqtorch.hamiltonians.evolution.sesolve", sesolve):
                    out = qd.run(c, values=values, configuration=cfg)
                s.fact(len(rec) == 1 and rec[0][3] == solver, f"{lab} {solver}: one integration with the chosen solver")
                s.eq(out, post.act({}, n, phi), f"{lab} {solver}: the rest of the circuit acts on the result")
                Ht, psi0, tsave, _ = rec[0]
                s.eq(psi0.reshape(1, -1), pre.act({}, n, O.zero_state(n)), f"{lab} {solver}: initial state")
                s.eq(tsave, torch.linspace(0, dval, steps), f"{lab} {solver}: grid", tol=1e-6)
                s.eq(Ht(tt), H(env, tt, n).reshape(2**n, 2**n), f"{lab} {solver}: H(t)")
                s.eq(Ht(0.5 * tt), H(env, 0.5 * tt, n).reshape(2**n, 2**n), f"{lab} {solver}: H(t/2)")


@obligation(P, "jump-operators", allow_pins=True)
def ob(s):
    """Noisy evolutions hand the jump operators, as matrices on the qubits of the evolution, to the integrator."""
    import qadence as qd
    from types import SimpleNamespace
    from unittest import mock

    t, gens = _td()
    gen, n, H = gens["feature"]
    w, tt = s.real("w", 1, 0.3, 2.0), s.real("tt", (), 0.1, 1.5)
    psi = s.state("psi", n)
    ops = [O.gate("X", 0), O.gate("Z", 1), O.scale(O.kronb(O.gate("X", 0), O.gate("Y", 1)), 0.5), O.add(O.gate("X", 1), O.scale(O.gate("Y", 1), 1.5)), O.chain(O.gate("H", 0), O.gate("CNOT", 0, 1))]
    rho = s.cplx("rho", (2**n, 2**n))
    for sel in ([0], [1], [2], [3, 1], [0, 4]):
        h = qd.HamEvo(gen, t, noise_operators=[ops[i].block for i in sel])
        rec = []

        def mesolve(Ht, r0, L, tsave, solver, options=None):
            rec.append((Ht, r0, L, tsave, solver))
            return SimpleNamespace(states=[r0, rho.unsqueeze(-1)])

        with mock.patch("pyqtorch.noise.analog.mesolve", mesolve):
            out = qd.run(n, h, values={"w": w, "duration": torch.tensor(0.75)}, state=psi, configuration={"n_steps_hevo": 6, "ode_solver": qd.types.SolverType("dp5_me")})
        s.fact(len(rec) == 1 and rec[0][4] == "dp5_me" and len(rec[0][2]) == len(sel), f"{sel}: one integration")
        Ht, r0, L, tsave, _ = rec[0]
        for i, m in zip(sel, L):
            s.eq(m, ops[i].op({}, n).reshape(2**n, 2**n), f"{sel}: jump operator {i}")
        s.eq(tsave, torch.linspace(0, 0.75, 6), f"{sel}: grid", tol=1e-6)
        s.eq(Ht(tt), H({"w": w}, tt, n).reshape(2**n, 2**n), f"{sel}: H(t)")
        s.eq(r0.squeeze(-1), psi.reshape(-1, 1) * psi.conj().reshape(1, -1), f"{sel}: initial state")
        s.eq(out.reshape(2**n, 2**n), rho, f"{sel}: result")
    s.raises(lambda: qd.HamEvo(gen, t, noise_operators=[qd.X(2)]), ValueError, "outside of the evolution's qubits")
    s.raises(lambda: qd.HamEvo(gen, t, noise_operators=[qd.RX(0, "a")]), ValueError, "parametric jump operators")
    s.raises(lambda: qd.HamEvo(qd.X(0), "a", duration=1.0), TypeError, "duration of a constant generator")
