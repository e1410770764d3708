"""C05: circuit rewrites preserve meaning."""
import itertools

import torch

from symq.runner import obligation
from checks import oracle as O

P = "C05"
PRM = ("p0", "p1", "p2")


def params(s, batch=2):
    return {k: s.angle(k, batch) for k in PRM}


def g(nm, *sup, p=None):
    return O.gate(nm, *sup, params=[] if p is None else (list(p) if isinstance(p, (tuple, list)) else [p]))


def zoo(extra=True):
    """Programs with the structures the rewrites look at."""
    Z = {
        "gates": O.chain(g("RX", 0, p="p0"), g("CRY", 2, 0, p="p1"), g("U", 1, p=PRM), g("SWAP", 0, 2), g("MCPHASE", 0, 2, 1, p="p2")),
        "nested-chain": O.chain(O.chain(O.chain(g("RX", 0, p="p0"), g("CNOT", 0, 2)), g("RY", 0, p="p1")), O.chain(g("RZ", 2, p="p2"))),
        "nested-kron": O.kronb(O.kronb(g("RX", 2, p="p0"), O.kronb(g("RY", 0, p="p1"))), g("RZ", 1, p="p2")),
        "chain-in-kron": O.chain(O.kronb(O.chain(g("RX", 0, p="p0"), g("CRY", 0, 2, p="p1"), g("CNOT", 2, 0)), O.chain(g("H", 1), g("RZ", 1, p="p2"))), g("CZ", 1, 2)),
        "layers": O.chain(
            O.kronb(g("RX", 0, p="p0"), g("RX", 1, p="p1"), g("RX", 2, p="p2")),
            O.kronb(g("RY", 0, p="p2"), g("RY", 1, p="p0"), g("RY", 2, p="p1")),
            O.kronb(g("RZ", 0, p="p1"), g("H", 1), g("S", 2)),
        ),
        "layers-shuffled": O.chain(
            O.kronb(g("RX", 0, p="p0"), g("RX", 1, p="p1"), g("RX", 2, p="p2")),
            O.kronb(g("RY", 2, p="p2"), g("RY", 0, p="p0"), g("RZ", 1, p="p1")),
            O.kronb(g("RZ", 1, p="p1"), g("H", 2), g("S", 0)),
        ),
        "layers-partial": O.chain(
            O.kronb(g("RX", 0, p="p0"), g("RX", 1, p="p1")),
            O.kronb(g("RY", 1, p="p2"), g("RY", 2, p="p0")),
            O.kronb(g("RZ", 2, p="p1"), g("H", 0)),
        ),
        "hea-like": O.chain(
            O.chain(O.kronb(g("RX", 0, p="p0"), g("RX", 1, p="p1")), O.kronb(g("RY", 0, p="p2"), g("RY", 1, p="p0"))),
            g("CNOT", 0, 1),
            O.chain(O.kronb(g("RX", 0, p="p1"), g("RX", 1, p="p1")), O.kronb(g("RZ", 0, p="p2"), g("RY", 1, p="p0"))),
        ),
        "scale": O.scale(O.chain(g("RX", 0, p="p0"), O.kronb(g("RY", 1, p="p1"), g("CRZ", 2, 0, p="p2"))), 1.5),
        "scale-kron": O.scale(O.kronb(g("RY", 1, p="p1"), g("CRZ", 2, 0, p="p2")), -0.5),
        "scale-add": O.scale(O.add(g("RX", 0, p="p0"), O.scale(O.chain(g("RY", 1, p="p1"), g("CNOT", 1, 0)), 2.0), O.kronb(g("X", 0), g("Z", 2))), -3.0),
        "scale-nested": O.scale(O.chain(O.scale(O.kronb(g("RX", 0, p="p0"), g("Y", 2)), 0.5), O.scale(g("RY", 0, p="p2"), 4.0), O.scale(O.add(g("X", 1), g("RZ", 1, p="p1")), 2.0)), 3.0),
        "add-nested": O.add(O.add(g("RX", 0, p="p0"), O.add(g("Z", 1), g("X", 2))), O.chain(O.chain(g("RY", 1, p="p1"), g("CNOT", 0, 1))), O.scale(O.add(g("Y", 2), g("Z", 0)), 0.25)),
    }
    if extra:
        Z["evo"] = O.chain(g("RX", 1, p="p1"), O.ham_evo(O.kronb(g("Z", 2), g("X", 0)), "p0"), O.kronb(g("CRY", 2, 1, p="p2"), O.ham_evo(g("Y", 0), "p1")))
        Z["matrix"] = O.chain(g("RX", 1, p="p1"), O.matrix(torch.kron(O.S2, O.H2), (2, 0)), g("CPHASE", 1, 2, p="p0"))
        Z["proj"] = O.chain(g("RX", 1, p="p1"), O.projector("01", "11", (2, 1)), g("N", 0), g("CRX", 0, 2, p="p0"))
    return Z


def same(s, t, blk, env, label, n=3):
    import qadence as qd

    psi = s.state("psi", n)
    want = t.act(env, n, psi)
    got = qd.run(n, blk, values=env, state=psi)
    B = O.batch(got, want, env)
    s.eq(got.expand(B, -1), want.expand(B, -1), label)


def rewrites():
    from qadence.transpile import chain_single_qubit_ops, digitalize, flatten, scale_primitive_blocks_only, transpile
    from qadence.blocks import AddBlock, ChainBlock, KronBlock
    from qadence.types import LTSOrder

    return {
        "flatten": flatten,
        "flatten-chain": lambda b: flatten(b, [ChainBlock]),
        "flatten-kron": lambda b: flatten(b, [KronBlock]),
        "flatten-add": lambda b: flatten(b, [AddBlock]),
        "scale": scale_primitive_blocks_only,
        "single-qubit": chain_single_qubit_ops,
        "digitalize": lambda b: digitalize(b, LTSOrder.BASIC),
        "composed": transpile(chain_single_qubit_ops, flatten, scale_primitive_blocks_only),
        "composed2": transpile(scale_primitive_blocks_only, flatten, chain_single_qubit_ops),
    }


for rw in ["flatten", "flatten-chain", "flatten-kron", "flatten-add", "scale", "single-qubit", "digitalize", "composed", "composed2"]:
    for z in zoo(False).keys() | {"evo", "matrix", "proj"}:
        @obligation(P, f"{rw}-{z}")
        def ob(s, rw=rw, z=z):
            env = params(s)
            t = zoo()[z]
            blk = rewrites()[rw](t.block)
            same(s, t, blk, env, rw)
            same(s, t, t.block, env, "original untouched")


@obligation(P, "parametric-scale")
def ob(s):
    import qadence as qd

    env = params(s)
    w = qd.FeatureParameter("p2")
    A, B = g("RX", 0, p="p0"), g("CRY", 2, 1, p="p1")
    progs = {
        "w(AB)": O.Term(w * qd.chain(A.block, B.block), (0, 1, 2), full=lambda e, n: O.col(e["p2"]) * O.mm(B.op(e, n), A.op(e, n))),
        "w(A+2B)": O.Term(w * (A.block + 2 * B.block), (0, 1, 2), full=lambda e, n: O.col(e["p2"]) * (A.op(e, n) + 2 * B.op(e, n))),
        "2(w(A x X1))": O.Term(2 * (w * qd.kron(A.block, qd.X(1))), (0, 1), full=lambda e, n: 2 * O.col(e["p2"]) * O.mm(A.op(e, n), O.embed(O.X2, (1,), n))),
        "w^2": O.Term(w * qd.chain(w * A.block, B.block), (0, 1, 2), full=lambda e, n: O.col(e["p2"] ** 2) * O.mm(B.op(e, n), A.op(e, n))),
    }
    for lab, t in progs.items():
        for rw in ("scale", "flatten", "composed", "composed2"):
            same(s, t, rewrites()[rw](t.block), env, f"{rw} {lab}")


@obligation(P, "fill-identities")
def ob(s):
    import qadence as qd
    from qadence.transpile import fill_identities

    env = params(s)
    for z, t in zoo(False).items():
        if "scale" in z:
            continue
        c = fill_identities(qd.QuantumCircuit(4, t.block))
        same(s, t, c.block, env, f"circuit {z}", 4)
        s.fact(set(c.block.qubit_support) == set(range(4)), f"{z}: every wire is used")


for z in list(zoo(False)) + ["evo", "matrix", "proj"]:
    @obligation(P, f"reassign-{z}")
    def ob(s, z=z):
        """Relabelling qubits permutes the operator's wires."""
        import qadence as qd
        from qadence.transpile import reassign

        env = params(s)
        t = zoo()[z]
        for mp in [(2, 0, 1), (1, 2, 3), (3, 1, 0)]:
            qm = dict(enumerate(mp))
            r = reassign(t.block, qm)
            s.fact(set(r.qubit_support) == {qm[q] for q in t.block.qubit_support}, f"support {mp}")
            n = max(mp) + 1
            psi = s.state(f"psi{n}", n)
            want = relabel(t, env, qm, n, psi)
            got = qd.run(n, r, values=env, state=psi)
            s.eq(got, want.expand(O.batch(got, want, env), -1), f"reassign {mp}")
        same(s, t, t.block, env, "original untouched")


def relabel(t, env, qm, n, psi):
    """Action of t with qubit q living on wire qm[q]."""
    wires = [qm[q] for q in range(3)]
    rest = [q for q in range(n) if q not in wires]
    B = psi.shape[0]
    order = wires + rest
    v = psi.reshape([B] + [2] * n).permute([0] + [1 + q for q in order]).reshape(B, 8, -1)
    m = t.op(env, 3)
    v = torch.matmul(m, v)
    inv = [order.index(q) for q in range(n)]
    return v.reshape([v.shape[0]] + [2] * n).permute([0] + [1 + p for p in inv]).reshape(v.shape[0], 2**n)


for z in list(zoo(False)) + ["evo", "matrix", "proj"]:
    @obligation(P, f"invert-{z}")
    def ob(s, z=z):
        """Flipping the endianness of a circuit mirrors its wires."""
        import qadence as qd
        from qadence.transpile import invert_endianness

        env = params(s)
        t = zoo()[z]
        psi = s.state("psi", 3)
        want = O.bit_reverse(t.act(env, 3, O.bit_reverse(psi, 3)), 3)
        got = qd.run(3, invert_endianness(t.block, 3, False), values=env, state=psi)
        s.eq(got, want.expand(O.batch(got, want, env), -1), "block")
        c = invert_endianness(qd.QuantumCircuit(3, t.block))
        s.eq(qd.run(c, values=env, state=psi), want.expand(O.batch(got, want, env), -1), "circuit")
        got = qd.run(3, invert_endianness(invert_endianness(t.block, 3, False), 3, False), values=env, state=psi)
        s.eq(got, t.act(env, 3, psi).expand(O.batch(got, want, env), -1), "twice")


def pauli_sums():
    g = O.gate
    K = O.kronb
    return {
        "gap": K(g("Z", 2), g("X", 0)),
        "gapY": K(g("Y", 0), g("Y", 2)),
        "one-Y": g("Y", 1),
        "XYZ": K(g("X", 1), g("Y", 0), g("Z", 2)),
        "nested-kron": K(K(g("X", 0), K(g("Y", 2))), g("Z", 1)),
        "identity": O.add(O.scale(g("I", 1), 0.75), g("X", 0)),
        "kron-identity": K(g("Y", 0), g("I", 1), g("X", 2)),
        "number": O.add(g("N", 0), O.scale(K(g("N", 1), g("N", 2)), -0.5)),
        "number-mixed": K(g("N", 2), g("X", 0)),
        "scaled-sum": O.scale(O.add(O.scale(K(g("Z", 0), g("Z", 1)), 0.5), K(g("X", 0), g("X", 1)), O.scale(K(g("Y", 0), g("Y", 1)), -0.25)), 1.5),
        "scale-in-kron": K(O.scale(g("X", 0), 0.3), g("Z", 2)),
        "ZZ-ladder": O.add(K(g("Z", 0), g("Z", 1)), K(g("Z", 1), g("Z", 2)), O.scale(K(g("Z", 0), g("Z", 2)), 0.7)),
    }


for z in ["gap", "gapY", "one-Y", "XYZ", "nested-kron", "identity", "kron-identity", "number", "number-mixed", "scaled-sum", "scale-in-kron", "ZZ-ladder"]:
    @obligation(P, f"pauli-evolution-{z}")
    def ob(s, z=z):
        """The gate decomposition of an evolution under commuting Pauli terms is exact."""
        import qadence as qd
        from qadence.types import LTSOrder

        env = {"p0": s.angle("p0", 1)}
        h = pauli_sums()[z]
        e = O.ham_evo_concrete(h, "p0")
        for order in ("BASIC",):
            blk = e.block.digital_decomposition(LTSOrder[order])
            s.fact(not any(type(b).__name__ == "HamEvo" for b in qd.blocks.utils.primitive_blocks(blk)), "digital")
            same(s, e, blk, env, order)


@obligation(P, "backend-transpile")
def ob(s):
    """The backend's own rewriting (any configuration) does not change results."""
    import qadence as qd

    env = params(s)
    psi = s.state("psi", 3)
    for z, t in zoo().items():
        want = t.act(env, 3, psi)
        for conf in [{}, {"use_single_qubit_composition": True}, {"use_sparse_observable": True}]:
            got = qd.run(3, t.block, values=env, state=psi, configuration=conf)
            B = O.batch(got, want, env)
            s.eq(got.expand(B, -1), want.expand(B, -1), f"{z} {conf}")


@obligation(P, "sparse-observable")
def ob(s):
    import qadence as qd

    env = params(s)
    t = zoo()["gates"]
    psi = t.act(env, 3, O.zero_state(3))
    for lab, o in {
        "ising": O.add(O.scale(O.kronb(g("Z", 0), g("Z", 1)), 0.5), O.scale(O.kronb(g("Z", 2), g("Z", 0)), -1.5), g("Z", 2)),
        "z": g("Z", 1),
        "partial": O.kronb(g("Z", 2), g("Z", 1)),
        "full": O.add(g("Z", 0), g("X", 1)),
    }.items():
        for conf in [{}, {"use_sparse_observable": True}, {"use_single_qubit_composition": True}]:
            got = qd.expectation(3, t.block, o.block, values=env, configuration=conf)
            s.eq(got, O.expect(o.op({}, 3), psi).reshape(-1, 1), f"{lab} {conf}")
