"""C13: Hamiltonian and observable constructors build the operator they are documented to build."""
import itertools
from unittest import mock

import torch

from symq.runner import obligation
from checks import oracle as O

P = "C13"
M = {"X": O.X2, "Y": O.Y2, "Z": O.Z2, "N": O.N2, "I": O.I2}


def term(w, n):
    """w: {qubit: letter} -> operator on n qubits."""
    return O.kron(*[M[w.get(q, "I")] for q in range(n)])


PAIR = {
    "ZZ": lambda i, j: [{i: "Z", j: "Z"}],
    "NN": lambda i, j: [{i: "N", j: "N"}],
    "XY": lambda i, j: [{i: "X", j: "X"}, {i: "Y", j: "Y"}],
    "XYZ": lambda i, j: [{i: "X", j: "X"}, {i: "Y", j: "Y"}, {i: "Z", j: "Z"}],
}


def summ(terms, n):
    """terms: list of (weight, {qubit: letter})."""
    out = torch.zeros((1, 2**n, 2**n), dtype=O.CD)
    for w, t in terms:
        out = out + O.col(torch.as_tensor(w, dtype=torch.float64) if not isinstance(w, torch.Tensor) else w) * term(t, n)
    return out


def registers():
    import networkx as nx
    import qadence as qd

    g = nx.Graph()
    for i in (2, 0, 1):
        g.add_node(i, pos=(float(i * i), 1.0))
    g.add_edge(2, 1)
    g.add_edge(0, 2)
    return {
        "int": lambda n: (n, n, [(i, j) for i in range(n) for j in range(i + 1, n)]),
        "line": lambda n: (qd.Register.line(n), n, [(i, i + 1) for i in range(n - 1)]),
        "circle": lambda n: (qd.Register.circle(n), n, sorted({tuple(sorted((i, (i + 1) % n))) for i in range(n)})),
        "all": lambda n: (qd.Register.all_to_all(n), n, [(i, j) for i in range(n) for j in range(i + 1, n)]),
        "coords": lambda n: (qd.Register.from_coordinates([(float(i), float(i % 2)) for i in range(n)]), n, []),
        "custom": lambda n: (qd.Register(g.copy(), spacing=None), 3, [(1, 2), (0, 2)]),
    }


def matrix(s, block, n, want, env, label):
    """Matrix of the block, and what expectation values of it are."""
    from qadence.blocks.block_to_tensor import block_to_tensor

    s.eq(block_to_tensor(block, env, qubit_support=tuple(range(n))), want, label)


def expv(s, block, n, want, env, label, psi):
    import qadence as qd

    got = qd.expectation(n, qd.chain(*[qd.I(q) for q in range(n)]), block, values=env, state=psi)
    w = O.expect(want, psi)
    s.eq(got, w.expand(max(len(w), got.shape[0])).reshape(-1, 1), label + " expectation")


@obligation(P, "strings")
def ob(s):
    """Named strengths: x_i and x_ij, one parameter per node and per edge."""
    import qadence as qd

    for rn, r in registers().items():
        for n in (2, 3, 4):
            if rn == "custom" and n != 3:
                continue
            reg, n, edges = r(n)
            env = {f"d_{i}": s.real(f"{rn}{n}d{i}", 1, -2, 2) for i in range(n)}
            matrix(s, qd.hamiltonian_factory(reg, detuning=qd.X, detuning_strength="d"), n, summ([(env[f"d_{i}"], {i: "X"}) for i in range(n)], n), env, f"{rn}{n} detuning")
            if not edges:
                continue
            # the name of an edge follows the order in which the register lists its two qubits
            listed = list(reg.edges) if not isinstance(reg, int) else edges
            s.fact(sorted(tuple(sorted(e)) for e in listed) == sorted(tuple(sorted(e)) for e in edges), f"{rn}{n}: edges of the register")
            for i, j in listed:
                env[f"c_{i}{j}"] = s.real(f"{rn}{n}c{i}{j}", 1, -2, 2)
            want = [(env[f"d_{i}"], {i: "N"}) for i in range(n)] + [(env[f"c_{i}{j}"], t) for i, j in listed for t in PAIR["XY"](i, j)]
            matrix(s, qd.hamiltonian_factory(reg, qd.Interaction.XY, qd.N, "c", "d"), n, summ(want, n), env, f"{rn}{n} interaction")


@obligation(P, "kinds")
def ob(s):
    """Every interaction with every detuning, on a symbolic state."""
    import qadence as qd

    psi = s.state("psi", 3)
    reg = qd.Register.line(3)
    env = {f"d_{i}": s.real(f"d{i}", 1, -2, 2) for i in range(3)} | {f"c_{i}{i+1}": s.real(f"c{i}", 1, -2, 2) for i in range(2)}
    for k in PAIR:
        for d in "XYZN":
            b = qd.hamiltonian_factory(reg, getattr(qd.Interaction, k), getattr(qd, d), "c", "d")
            want = summ([(env[f"d_{i}"], {i: d}) for i in range(3)] + [(env[f"c_{i}{i+1}"], t) for i in range(2) for t in PAIR[k](i, i + 1)], 3)
            matrix(s, b, 3, want, env, f"{k} {d}")
            if d in "YN":
                expv(s, b, 3, want, env, f"{k} {d}", psi)


@obligation(P, "batched-strengths")
def ob(s):
    import qadence as qd

    env = {f"d_{i}": s.real(f"d{i}", 3, -2, 2) for i in range(2)} | {"c_01": s.real("c01", 3, -2, 2)}
    want = summ([(env["d_0"], {0: "Z"}), (env["d_1"], {1: "Z"}), (env["c_01"], {0: "N", 1: "N"})], 2)
    b = qd.hamiltonian_factory(2, qd.Interaction.NN, qd.Z, "c", "d")
    matrix(s, b, 2, want, env, "batch")
    expv(s, b, 2, want, env, "batch", s.state("psi", 2))


@obligation(P, "arrays")
def ob(s):
    """Lists, arrays and tensors of strengths, in the order of the nodes and edges of the register."""
    import numpy as np
    import qadence as qd

    psi = s.state("psi", 3)
    for rn, r in registers().items():
        reg, n, edges = r(3)
        listed = list(reg.edges) if not isinstance(reg, int) else edges
        nodes = list(reg.nodes) if not isinstance(reg, int) else range(3)
        dv = [0.3, -1.2, 2.5]
        cv = [-0.7, 1.0, 0.125][: len(edges)]
        for conv in (list, np.array, lambda v: torch.tensor(v, dtype=torch.float64)):
            b = qd.hamiltonian_factory(reg, qd.Interaction.XYZ if edges else None, qd.Y, conv(cv) if edges else None, conv(dv))
            want = summ([(w, {i: "Y"}) for w, i in zip(dv, nodes)] + [(w, t) for w, (i, j) in zip(cv, listed) for t in PAIR["XYZ"](i, j)], 3)
            expv(s, b, 3, want, {}, f"{rn} arrays", psi)
    s.raises(lambda: qd.hamiltonian_factory(3, detuning=qd.Z, detuning_strength=[1.0, 2.0]), ValueError, "wrong size")
    s.raises(lambda: qd.hamiltonian_factory(3, qd.Interaction.ZZ, interaction_strength=[1.0, 2.0]), ValueError, "wrong size")


@obligation(P, "all-node-pairs")
def ob(s):
    import qadence as qd

    psi = s.state("psi", 3)
    for rn, r in registers().items():
        reg, n, edges = r(3)
        if isinstance(reg, int):
            continue
        pairs = [(0, 1), (0, 2), (1, 2)]
        env = {f"c_{i}{j}": s.real(f"c{i}{j}{rn}", 1, -2, 2) for i, j in pairs}
        b = qd.hamiltonian_factory(reg, qd.Interaction.NN, interaction_strength="c", use_all_node_pairs=True)
        want = summ([(env[f"c_{i}{j}"], t) for i, j in pairs for t in PAIR["NN"](i, j)], 3)
        matrix(s, b, 3, want, env, rn)
        b = qd.hamiltonian_factory(reg, qd.Interaction.ZZ, interaction_strength=[0.5, 1.5, -2.0], use_all_node_pairs=True)
        expv(s, b, 3, summ([(w, t) for w, (i, j) in zip((0.5, 1.5, -2.0), pairs) for t in PAIR["ZZ"](i, j)], 3), {}, rn, psi)
        b = qd.hamiltonian_factory(reg, qd.Interaction.ZZ, use_all_node_pairs=True)
        expv(s, b, 3, summ([(1.0, t) for (i, j) in pairs for t in PAIR["ZZ"](i, j)], 3), {}, rn, psi)


@obligation(P, "custom-interaction")
def ob(s):
    import qadence as qd

    psi = s.state("psi", 3)
    f = lambda i, j: qd.X(i) @ qd.Z(j) + 2.0 * qd.Y(j)
    env = {"c_01": s.real("c01", 1, -2, 2), "c_12": s.real("c12", 1, -2, 2)}
    b = qd.hamiltonian_factory(qd.Register.line(3), f, qd.N, "c")
    want = summ([(1.0, {i: "N"}) for i in range(3)] + [(env[f"c_{i}{j}"] * k, t) for i, j in ((0, 1), (1, 2)) for k, t in ((1.0, {i: "X", j: "Z"}), (2.0, {j: "Y"}))], 3)
    matrix(s, b, 3, want, env, "custom")
    expv(s, b, 3, want, env, "custom", psi)
    s.raises(lambda: qd.hamiltonian_factory(3, lambda i, j: qd.RX(i, 1.0) @ qd.X(j)), ValueError, "not a Hamiltonian")
    s.raises(lambda: qd.hamiltonian_factory(3), ValueError, "nothing given")
    s.raises(lambda: qd.hamiltonian_factory(3, detuning=qd.H), TypeError, "unsupported detuning")


@obligation(P, "random-strength", allow_pins=True)
def ob(s):
    """Random strengths: each term has its own strength 2u-1 for the draws u."""
    import qadence as qd

    draws = {}

    def rand(*size, **kw):
        k = int(size[0])
        draws.setdefault(k, []).append([0.05 + 0.9 * ((7 * i + 3 * len(draws)) % 10) / 10 for i in range(k)])
        return torch.tensor(draws[k][-1], dtype=kw.get("dtype", torch.float64))

    psi = s.state("psi", 4)
    with mock.patch("torch.rand", rand), mock.patch("qadence.constructors.hamiltonians.rand", rand, create=True):
        b = qd.hamiltonian_factory(4, qd.Interaction.ZZ, qd.X, random_strength=True)
    d, c = draws[4][0], draws[6][0]
    want = summ([(2 * u - 1, {i: "X"}) for i, u in enumerate(d)] + [(2 * u - 1, t) for u, (i, j) in zip(c, itertools.combinations(range(4), 2)) for t in PAIR["ZZ"](i, j)], 4)
    expv(s, b, 4, want, {}, "random", psi)


@obligation(P, "named-hamiltonians")
def ob(s):
    import numpy as np
    import qadence as qd
    from qadence.constructors import ising_hamiltonian, total_magnetization, zz_hamiltonian

    for n in (1, 2, 3, 4):
        psi = s.state(f"psi{n}", n)
        Zs = [(1.0, {i: "Z"}) for i in range(n)]
        pairs = list(itertools.combinations(range(n), 2))
        expv(s, total_magnetization(n), n, summ(Zs, n), {}, f"magnetization {n}", psi)
        zt = np.array([0.5, -1.0, 2.0, 0.25][:n])
        expv(s, total_magnetization(n, zt), n, summ([(w, t) for w, (_, t) in zip(zt, Zs)], n), {}, f"weighted {n}", psi)
        if n == 1:
            continue
        ZZ = [(1.0, t) for i, j in pairs for t in PAIR["ZZ"](i, j)]
        expv(s, zz_hamiltonian(n), n, summ(Zs + ZZ, n), {}, f"zz {n}", psi)
        zz = np.arange(1, n * n + 1).reshape(n, n) * 0.1
        wzz = [(zz[i, j], t) for i, j in pairs for t in PAIR["ZZ"](i, j)]
        wz = [(w, t) for w, (_, t) in zip(zt, Zs)]
        expv(s, zz_hamiltonian(n, zt, zz), n, summ(wz + wzz, n), {}, f"zz weighted {n}", psi)
        Xs = [(1.0, {i: "X"}) for i in range(n)]
        expv(s, ising_hamiltonian(n), n, summ(Xs + Zs + ZZ, n), {}, f"ising {n}", psi)
        xt = zt[::-1].copy()
        expv(s, ising_hamiltonian(n, xt, zt, zz), n, summ([(w, {i: "X"}) for i, w in enumerate(xt)] + wz + wzz, n), {}, f"ising weighted {n}", psi)


def _registers4():
    import qadence as qd

    return {"n2": 2, "n3": 3, "n4": 4, "line3": qd.Register.line(3), "circle4": qd.Register.circle(4)}


def _edges(reg):
    if isinstance(reg, int):
        return reg, list(itertools.combinations(range(reg), 2))
    return reg.n_qubits, [tuple(e) for e in reg.edges]


@obligation(P, "observable-config")
def ob(s):
    """scale * H + shift, with numbers, trainable and feature transforms."""
    import qadence as qd
    from qadence.constructors import ObservableConfig
    from qadence.blocks.utils import parameters
    from qadence.ml_tools.constructors import create_observable

    for rn, reg in _registers4().items():
        n, edges = _edges(reg)
        psi = s.state(f"psi{rn}", n)
        a, b = s.real(f"a{rn}", 1, -2, 2), s.real(f"b{rn}", 1, -2, 2)
        for kind, det in (("ZZ", "Z"), ("XY", None), (None, "N"), ("NN", "X")):
            H = summ(([(1.0, {i: det}) for i in range(n)] if det else []) + ([(1.0, t) for i, j in edges for t in PAIR[kind](i, j)] if kind else []), n)
            one = summ([(1.0, {})], n)
            kw = dict(interaction=getattr(qd.Interaction, kind) if kind else None, detuning=getattr(qd, det) if det else None)
            o = create_observable(reg, ObservableConfig(**kw, scale=2.5, shift=-0.75))
            expv(s, o, n, 2.5 * H - 0.75 * one, {}, f"{rn} {kind} {det} numbers", psi)
            o = create_observable(reg, ObservableConfig(**kw))
            expv(s, o, n, H, {}, f"{rn} {kind} {det} default", psi)
            for tr in (True, False):
                o = create_observable(reg, ObservableConfig(**kw, scale="sc", shift="sh", trainable_transform=tr))
                expv(s, o, n, O.col(a) * H + O.col(b) * one, {"sc": a, "sh": b}, f"{rn} {kind} {det} trainable={tr}", psi)
                names = {str(p): p.trainable for p in parameters(o) if not p.is_number}
                s.fact(names == {"sc": tr, "sh": tr}, f"{rn} trainability {names}")


CFG = {"total_magnetization": ("Z", ""), "zz_hamiltonian": ("Z", "ZZ"), "ising_hamiltonian": ("XZ", "ZZ")}
for name in CFG:
    for rn in ("n2", "n3", "n4", "line3", "circle4"):
        @obligation(P, f"config-{name}-{rn}")
        def ob(s, name=name, rn=rn):
            import qadence.constructors.hamiltonians as h
            from qadence.ml_tools.constructors import create_observable

            reg = _registers4()[rn]
            n, edges = _edges(reg)
            psi = s.state("psi", n)
            det, inter = CFG[name]
            H = summ([(1.0, {i: d}) for i in range(n) for d in det] + [(1.0, t) for i, j in edges if inter for t in PAIR[inter](i, j)], n)
            o = create_observable(reg, getattr(h, name + "_config")(scale=1.5, shift=0.25))
            expv(s, o, n, 1.5 * H + 0.25 * summ([(1.0, {})], n), {}, name, psi)
