"""C04: dagger is the adjoint."""
import itertools

import torch

from symq.runner import obligation
from checks import oracle as O

P = "C04"


def params(s, k, batch):
    return {f"p{i}": s.angle(f"p{i}", batch) for i in range(k)}


def check(s, t, env, n, label, run=True):
    import qadence as qd

    d = t.block.dagger()
    want = O.adj(t.op(env, n))
    got = qd.block_to_tensor(d, env, qubit_support=tuple(range(n)))
    B = O.batch(got, want, env)
    s.eq(got.expand(B, -1, -1), want.expand(B, -1, -1), label + " matrix")
    dd = d.dagger()
    got = qd.block_to_tensor(dd, env, qubit_support=tuple(range(n)))
    s.eq(got.expand(B, -1, -1), t.op(env, n).expand(B, -1, -1), label + " twice")
    s.fact(tuple(sorted(d.qubit_support)) == tuple(sorted(t.block.qubit_support)), f"{label}: dagger keeps the qubits")
    if run:
        psi = s.state(f"psi{n}", n)
        got = qd.run(n, d, values=env, state=psi)
        w = torch.matmul(want, psi.unsqueeze(-1)).squeeze(-1)
        s.eq(got, w.expand(O.batch(got, w, env), -1), label + " run")


for nm, q in [("I", 1), ("X", 1), ("Y", 1), ("Z", 1), ("N", 1), ("H", 1), ("S", 1), ("SDagger", 1), ("T", 1), ("TDagger", 1), ("CNOT", 2), ("CZ", 2), ("SWAP", 2), ("CSWAP", 3), ("Toffoli", 3), ("MCZ", 3)]:
    @obligation(P, f"fixed-{nm}")
    def ob(s, nm=nm, q=q):
        sups = [(0,), (1,)] if q == 1 else [(0, 1), (2, 0)] if q == 2 else [(0, 1, 2), (2, 0, 1)]
        for sup in sups:
            check(s, O.gate(nm, *sup), {}, 3, f"{nm}{sup}", run=nm not in ("T", "TDagger"))
for nm, k, q in [("RX", 1, 1), ("RY", 1, 1), ("RZ", 1, 1), ("PHASE", 1, 1), ("U", 3, 1), ("CRX", 1, 2), ("CRY", 1, 2), ("CRZ", 1, 2), ("CPHASE", 1, 2), ("MCRX", 1, 3), ("MCRY", 1, 3), ("MCRZ", 1, 3), ("MCPHASE", 1, 3)]:
    @obligation(P, f"param-{nm}")
    def ob(s, nm=nm, k=k, q=q):
        import qadence as qd

        env = params(s, k, 2)
        sups = [(0,), (1,)] if q == 1 else [(0, 1), (2, 0)] if q == 2 else [(0, 1, 2), (2, 0, 1)]
        for sup in sups:
            check(s, O.gate(nm, *sup, params=[f"p{i}" for i in range(k)]), env, 3, f"{nm}{sup}")
        if k == 1:
            check(s, O.gate(nm, *sups[0], params=[O.A(0.7)]), {}, 3, f"{nm} number")
            x = qd.FeatureParameter("p0")
            check(s, O.gate(nm, *sups[0], params=[O.A(x**2 + 1, lambda v: v["p0"] ** 2 + 1)]), env, 3, f"{nm} expression")


@obligation(P, "matrixblock")
def ob(s):
    m1, m2 = s.cplx("m1", (2, 2)), s.cplx("m2", (4, 4))
    check(s, O.matrix(m1, (1,)), {}, 3, "1q")
    for sup in [(0, 1), (2, 0)]:
        check(s, O.matrix(m2, sup), {}, 3, f"{sup}")


@obligation(P, "projector")
def ob(s):
    import qadence as qd

    psi = s.state("psi", 3)
    for ket, bra in [("0", "0"), ("0", "1"), ("1", "0"), ("1", "1")]:
        t = O.projector(ket, bra, 1)
        s.eq(qd.run(3, t.block.dagger(), state=psi), O.projector(bra, ket, 1).act({}, 3, psi), f"{ket}{bra}")
    for ket, bra in [("01", "10"), ("11", "11"), ("00", "10")]:
        t = O.projector(ket, bra, (2, 0))
        s.eq(qd.run(3, t.block.dagger(), state=psi), O.projector(bra, ket, (2, 0)).act({}, 3, psi), f"{ket}{bra}")


@obligation(P, "composites")
def ob(s):
    import qadence as qd

    env = params(s, 4, 2)
    A, B, C, D = O.gate("RX", 0, params=["p0"]), O.gate("CRY", 2, 0, params=["p1"]), O.gate("U", 1, params=["p0", "p2", "p3"]), O.gate("S", 2)
    check(s, O.chain(A, B, C), env, 3, "chain")
    check(s, O.kronb(B, C), env, 3, "kron")
    check(s, O.add(A, B, D), env, 3, "add")
    check(s, O.chain(A, O.kronb(B, C), O.chain(D, C)), env, 3, "nested")
    check(s, O.scale(A, 0.5), env, 3, "scale")
    check(s, O.scale(O.add(O.chain(A, D), C), -2.0), env, 3, "scaled sum")


@obligation(P, "scale-parametric")
def ob(s):
    import qadence as qd

    env = params(s, 2, 2)
    env["w"] = s.real("w", 2)
    A, D = O.gate("RX", 0, params=["p0"]), O.gate("CRZ", 1, 0, params=["p1"])
    w = qd.FeatureParameter("w")
    t = O.Term(w * qd.chain(A.block, D.block), (0, 1), full=lambda e, n: O.col(e["w"]) * O.mm(D.op(e, n), A.op(e, n)))
    check(s, t, env, 2, "w (AD)", run=False)
    psi = s.state("psi", 2)
    s.eq(qd.run(2, t.block.dagger(), values=env, state=psi), torch.matmul(O.adj(t.op(env, 2)), psi.unsqueeze(-1)).squeeze(-1), "run")


@obligation(P, "scale-complex")
def ob(s):
    import qadence as qd

    env = params(s, 1, 1)
    A = O.gate("RX", 0, params=["p0"])
    t = O.Term((2 - 3j) * A.block, (0,), full=lambda e, n: (2 - 3j) * A.op(e, n))
    check(s, t, env, 1, "(2-3i) A", run=False)


@obligation(P, "hamevo")
def ob(s):
    import qadence as qd

    env = params(s, 1, 2)
    for names, sup in [("Z", (1,)), ("XY", (2, 0)), ("XZY", (0, 1, 2))]:
        g = O.kronb(*[O.gate(k, q) for k, q in zip(names, sup)]) if len(names) > 1 else O.gate(names, sup[0])
        check(s, O.ham_evo(g, "p0"), env, 3, f"exp({names}{sup})")
    check(s, O.ham_evo_sum([(0.7, O.kronb(O.gate("Z", 0), O.gate("Z", 1))), (-1.3, O.gate("Z", 2))], "p0"), env, 3, "ising")
    g2 = torch.kron(O.X2, O.Z2)
    for sup in [(0, 1), (2, 0)]:
        T = O.Term(qd.HamEvo(g2, "p0", qubit_support=sup), sup, lambda e: O.expm_hermitian_involution(g2, e["p0"]))
        check(s, T, env, 3, f"exp(matrix{sup})")


@obligation(P, "inverse")
def ob(s):
    """U followed by its dagger is the identity, for a circuit with all kinds of parameters."""
    import qadence as qd

    env = params(s, 3, 2)
    psi = s.state("psi", 3)
    b = qd.chain(qd.kron(qd.RX(0, "p0"), qd.U(1, "p1", "p2", 0.4), qd.PHASE(2, "p2")), qd.CRX(2, 0, "p1"), qd.MCPHASE((0, 1), 2, "p0"), qd.SWAP(0, 2), qd.S(1), qd.HamEvo(qd.kron(qd.X(0), qd.Y(2)), "p1"))
    s.eq(qd.run(3, qd.chain(b, b.dagger()), values=env, state=psi), psi.expand(2, -1), "U^dag U")
    s.eq(qd.run(3, qd.chain(b.dagger(), b), values=env, state=psi), psi.expand(2, -1), "U U^dag")
    c = qd.QuantumCircuit(3, b)
    out = qd.run(c, values=env, state=psi)
    s.eq(qd.run(c.dagger(), values=env, state=out), psi.expand(2, -1), "circuit")


@obligation(P, "original-untouched")
def ob(s):
    import qadence as qd

    env = params(s, 2, 1)
    t = O.chain(O.gate("CRX", 0, 1, params=["p0"]), O.gate("RY", 0, params=["p1"]), O.gate("MCPHASE", 1, 0, params=["p1"]))
    t.block.dagger()
    s.eq(qd.block_to_tensor(t.block, env), t.op(env, 2), "block after dagger()")
