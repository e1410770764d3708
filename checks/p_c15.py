"""C15: ansatz and transform constructors (HEA, ALA, identity-initialised, QFT, digital-analog transform)."""
import itertools
import math
from unittest import mock

import torch

from symq.runner import obligation
from checks import oracle as O
from checks.builders import ala_gates, circuit, hea_gates, iia_gates, names

P = "C15"


def compare(s, block, gates, n, label, roles=True, pre="", chunk=0):
    """The block against the list of gates, all parameters and the state symbolic (or, with chunk, the state and
    chunk parameters at a time, the others at fixed distinct generic values)."""
    import qadence as qd
    from qadence.blocks.utils import parameters

    if roles:
        s.fact({str(p): bool(p.trainable) for p in parameters(block) if not p.is_number} == {k: True for k in names(gates)}, f"{label}: parameter names and trainability")
    ks = sorted(names(gates))
    if chunk and len(ks) > chunk:
        psi = s.state(pre + "psi", n)
        for a in range(0, len(ks), chunk):
            env = {k: s.angle(pre + k, 1) if a <= i < a + chunk else torch.tensor([0.37 + 0.61 * i]) for i, k in enumerate(ks)}
            s.eq(qd.run(n, block, values=env, state=psi), circuit(gates)(env, n, psi), f"{label} parameters {a}..")
        return
    env = {k: s.angle(pre + k, 1) for k in ks}
    psi = s.state(pre + "psi", n)
    s.eq(qd.run(n, block, values=env, state=psi), circuit(gates)(env, n, psi), label)


# ------------------------------------------------------------------------------------------------ HEA
for n, depth, kw in [
    (1, 1, {}), (2, 1, {}), (2, 2, {}), (3, 1, {}), (3, 2, dict(ops=("RZ", "RX"))), (4, 1, dict(ops=("RY",))), (4, 1, dict(ops=("RX",), periodic=True)),
    (2, 1, dict(periodic=True)), (3, 1, dict(periodic=True, ops=("RY",))), (2, 2, dict(ops=("RX",), ent="CRZ")), (3, 2, dict(ops=("RY",), ent="CPHASE", pre="a")), (4, 1, dict(ops=("RZ",), ent="CRX", periodic=True)),
    (3, 1, dict(ops=("RX",), ent="CZ", sup=(2, 0, 3))), (2, 1, dict(ent="CRY", sup=(1, 0), ops=("RX", "RZ"))),
]:
    @obligation(P, f"hea-{n}-{depth}-" + "-".join(f"{k}{v}" for k, v in kw.items()).replace("'", "").replace(" ", ""))
    def ob(s, n=n, depth=depth, kw=kw):
        import qadence as qd

        a = {}
        if "ops" in kw:
            a["operations"] = [getattr(qd, o) for o in kw["ops"]]
        if "ent" in kw:
            a["entangler"] = getattr(qd, kw["ent"])
        if "periodic" in kw:
            a["periodic"] = kw["periodic"]
        b = qd.hea(n, depth, param_prefix=kw.get("pre", "theta"), support=kw.get("sup"), **a)
        compare(s, b, hea_gates(n, depth, **kw), max(kw.get("sup", (n - 1,))) + 1, "hea")


for n, depth, ops in [(2, 1, ("RX", "RY", "RX")), (2, 2, ("RZ",)), (3, 1, ("RY",))]:
    @obligation(P, f"hea-sdaqc-{n}-{depth}")
    def ob(s, n=n, depth=depth, ops=ops):
        import qadence as qd

        b = qd.hea(n, depth, strategy="sDAQC", operations=[getattr(qd, o) for o in ops])
        compare(s, b, hea_gates(n, depth, ops=ops, analog=True), n, "hea sDAQC")


# ------------------------------------------------------------------------------------------------ ALA
for n, m, depth, kw in [
    (2, 2, 1, {}), (4, 2, 1, dict(ops=("RY",))), (4, 2, 2, dict(ops=("RX",))), (3, 3, 1, {}), (4, 4, 2, dict(ops=("RX",))), (3, 2, 2, dict(ops=("RX",), ent="CRZ")), (4, 3, 2, dict(ops=("RZ",), ent="CPHASE")),
    (3, 2, 2, dict(ops=("RY",), ent="CZ", sup=(3, 1, 0))), (5, 3, 3, dict(ops=("RX",))),
]:
    @obligation(P, f"ala-{n}-{m}-{depth}-" + "-".join(f"{k}{v}" for k, v in kw.items()).replace("'", "").replace(" ", ""), tier="thorough" if n > 4 else "quick")
    def ob(s, n=n, m=m, depth=depth, kw=kw):
        import qadence as qd
        from qadence.constructors import ala

        a = {}
        if "ops" in kw:
            a["operations"] = [getattr(qd, o) for o in kw["ops"]]
        if "ent" in kw:
            a["entangler"] = getattr(qd, kw["ent"])
        b = ala(n, m, depth, support=kw.get("sup"), **a)
        compare(s, b, ala_gates(n, m, depth, **kw), max(kw.get("sup", (n - 1,))) + 1, "ala")


# ------------------------------------------------------------------------------------------------ identity-initialised
IIA = [
    (2, 1, {}), (3, 1, {}), (2, 2, {}), (2, 1, dict(ops=("RZ", "RX", "RY"))), (3, 1, dict(ent="CRX", ops=("RX",))), (3, 2, dict(ent="CZ", ops=("RY",))), (3, 1, dict(periodic=True, ops=("RX",))),
    (3, 1, dict(periodic=True, ent="CPHASE", ops=("RX",))), (2, 1, dict(sdaqc=True)), (3, 1, dict(sdaqc=True, ops=("RX",))),
]


def iia_build(n, depth, kw):
    import qadence as qd
    from qadence.constructors import identity_initialized_ansatz

    a = {}
    if "ops" in kw:
        a["rotations"] = [getattr(qd, o) for o in kw["ops"]]
    if "ent" in kw:
        a["entangler"] = getattr(qd, kw["ent"])
    if "periodic" in kw:
        a["periodic"] = kw["periodic"]
    if "sdaqc" in kw:
        a["strategy"] = "sDAQC"
    return identity_initialized_ansatz(n, depth, **a)


for n, depth, kw in IIA:
    nm = f"iia-{n}-{depth}-" + "-".join(f"{k}{v}" for k, v in kw.items()).replace("'", "").replace(" ", "")

    @obligation(P, nm + "-identity", allow_pins=True)
    def ob(s, n=n, depth=depth, kw=kw):
        """With its initial values the ansatz is the identity, whatever was drawn."""
        import qadence as qd

        draws = []

        def rand(*size, **k):
            size = size[0] if len(size) == 1 and not isinstance(size[0], int) else size
            draws.append(s.real(f"u{len(draws)}", tuple(int(x) for x in size), 0.0, 1.0))
            return draws[-1]

        with mock.patch("torch.rand", rand):
            b = iia_build(n, depth, kw)
        psi = s.state("psi", n)
        s.eq(qd.run(n, b, state=psi), psi, "identity", tol=1e-5)
        m = qd.QuantumModel(qd.QuantumCircuit(n, b))
        s.eq(m.run({}, state=psi), psi, "model identity", tol=1e-5)

    @obligation(P, nm + "-parameters")
    def ob(s, n=n, depth=depth, kw=kw):
        """Every rotation has its own trainable parameter (a mirrored entangler shares that of its image); all values of them."""
        from qadence.blocks.utils import parameters

        b = iia_build(n, depth, kw)
        ps = [str(p) for p in parameters(b) if not p.is_number]
        ops = kw.get("ops", ("RX", "RY"))
        rots = n * (2 * len(ops) + 1) * depth
        ent = 0
        if "sdaqc" in kw:
            ent = depth
        elif kw.get("ent", "CNOT") in ("CRX", "CPHASE"):
            ent = depth * (n if kw.get("periodic") else n - 1)
        s.fact(len(set(ps)) == rots + ent, f"{len(set(ps))} parameters, expected {rots + ent}")
        s.fact(all(p.trainable for p in parameters(b) if not p.is_number), "trainable")
        compare(s, b, iia_gates(n, depth, **kw), n, "iia", roles=False, chunk=0 if n * depth < 3 else 3)


@obligation(P, "iia-many-layers", allow_pins=True)
def ob(s):
    """No two gates share a parameter, also with more than ten layers and more than ten rotations per layer."""
    from qadence.blocks.utils import parameters

    b = iia_build(6, 12, {})
    ps = [str(p) for p in parameters(b) if not p.is_number]
    s.fact(len(set(ps)) == 6 * 5 * 12, f"{len(set(ps))} parameters for {6 * 5 * 12} rotations")
    v = s.real("dummy", 1, 0, 1)
    s.eq(v, v, "-")


# ------------------------------------------------------------------------------------------------ QFT
def dft(n, inverse=False):
    N = 2**n
    sg = -1 if inverse else 1
    return torch.tensor([[complex(math.cos(2 * math.pi * j * k / N), sg * math.sin(2 * math.pi * j * k / N)) / math.sqrt(N) for k in range(N)] for j in range(N)], dtype=O.CD)


def rev(n):
    """The permutation that reverses the order of n qubits."""
    m = torch.zeros((2**n, 2**n), dtype=O.CD)
    for i in range(2**n):
        m[int(format(i, f"0{n}b")[::-1], 2), i] = 1
    return m


for strat, ns in (("Digital", (1, 2, 3, 4)), ("sDAQC", (2, 3, 5))):
    for n in ns:
        @obligation(P, f"qft-{strat}-{n}", tier="thorough" if n == 5 else "quick", timeout=400)
        def ob(s, strat=strat, n=n):
            import qadence as qd

            psi = s.state("psi", n)
            for inv in (False, True):
                for rin in (False, True):
                    for sw in (False, True):
                        b = qd.qft(n, inverse=inv, reverse_in=rin, swaps_out=sw, strategy=strat)
                        F = dft(n)  # with swaps_out the textbook transform, without it the output order is reversed
                        A = F if sw else torch.matmul(rev(n), F)
                        if rin:  # the qubits are used in reversed order
                            A = torch.matmul(rev(n), torch.matmul(A, rev(n)))
                        if inv:
                            A = A.conj().T
                        s.eq(qd.run(n, b, state=psi), torch.matmul(A, psi.unsqueeze(-1)).squeeze(-1), f"inverse={inv} reverse_in={rin} swaps_out={sw}", tol=2e-5 if strat == "sDAQC" else 1e-7)


@obligation(P, "qft-support")
def ob(s):
    import qadence as qd

    psi = s.state("psi", 4)
    for sup in ((1, 3), (3, 0, 2), (2, 1)):
        k = len(sup)
        for inv in (False, True):
            A = dft(k).conj().T if inv else dft(k)
            s.eq(qd.run(4, qd.qft(k, support=sup, inverse=inv, swaps_out=True), state=psi), O.apply(A, sup, 4, psi), f"{sup} {inv}")


# ------------------------------------------------------------------------------------------------ digital-analog transform
def diag_gen(kind, coup, n):
    """Diagonal of sum c_ij op_i op_j."""
    val = (lambda b: 1 - 2 * b) if kind == "Z" else (lambda b: b)
    return torch.tensor([sum(c * val(bits[i]) * val(bits[j]) for (i, j), c in coup.items()) for bits in itertools.product((0, 1), repeat=n)], dtype=torch.float64)


COUP = {
    2: [{(0, 1): 0.7}, {(0, 1): -1.3}],
    3: [{(0, 1): 0.5, (1, 2): 0.7, (0, 2): 0.2}, {(1, 2): 0.1}, {(0, 2): -0.8, (0, 1): 1.5}],
    5: [{p: 0.2 + 0.1 * k for k, p in enumerate(itertools.combinations(range(5), 2))}, {(1, 3): 0.4, (0, 4): -0.6}],
}
for n in (2, 3, 5):
    for tk in "ZN":
        for bk in "ZN":
            @obligation(P, f"daqc-{n}-{tk}-on-{bk}", tier="thorough" if n == 5 else "quick", timeout=400)
            def ob(s, n=n, tk=tk, bk=bk):
                import qadence as qd

                psi = s.state("psi", n)
                build = COUP[n][0]
                mk = lambda k, cp, flip=False: qd.add(*[c * qd.kron(getattr(qd, k)(j if flip else i), getattr(qd, k)(i if flip else j)) for (i, j), c in cp.items()])
                for t_i, target in enumerate(COUP[n]):
                    for tf in (1.0, -0.6):
                        for flip in (False, True):
                            b = qd.daqc_transform(n, mk(tk, target, flip), tf, gen_build=mk(bk, build))
                            ph = diag_gen(tk, target, n) * tf
                            want = torch.complex(torch.cos(ph), -torch.sin(ph)) * psi
                            s.eq(qd.run(n, b, state=psi), want, f"target {t_i} t={tf} flip={flip}", tol=3e-5)
                b = qd.daqc_transform(n, mk(tk, COUP[n][1]), 0.9)
                ph = diag_gen(tk, COUP[n][1], n) * 0.9
                s.eq(qd.run(n, b, state=psi), torch.complex(torch.cos(ph), -torch.sin(ph)) * psi, "default build", tol=3e-5)


@obligation(P, "daqc-invalid")
def ob(s):
    import qadence as qd

    z = s.state("psi", 1)
    s.eq(z, z, "-")
    zz = lambda i, j, c=1.0: c * (qd.Z(i) @ qd.Z(j))
    s.raises(lambda: qd.daqc_transform(3, zz(0, 2), 1.0, gen_build=zz(0, 1) + zz(1, 2)), ValueError, "missing interaction")
    s.raises(lambda: qd.daqc_transform(4, zz(0, 2), 1.0), NotImplementedError, "four qubits")
    s.raises(lambda: qd.daqc_transform(3, qd.X(0) @ qd.X(1), 1.0), (TypeError, ValueError), "not Ising")
