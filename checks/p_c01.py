"""C01: the dense matrix of a block is its textbook operator."""
import itertools

import torch

from symq.runner import obligation
from checks import oracle as O

P = "C01"
FULL = ["I", "X", "Y", "Z", "N", "H", "S", "SDagger", "T"]
ONE = ["RX", "RY", "RZ", "PHASE"]
CTL = ["CRX", "CRY", "CRZ", "CPHASE"]


def tensor(block, env, **kw):
    from qadence.blocks import block_to_tensor

    return block_to_tensor(block, env, **kw)


def reduced(t, sup):
    """The oracle operator on the block's own support only."""
    sup = tuple(sorted(sup))
    m = {q: i for i, q in enumerate(sup)}
    return m


def check(s, t, env, label, n=None):
    from qadence.types import Endianness

    sup = tuple(sorted(t.block.qubit_support))
    n = n or max(sup) + 1
    full = tuple(range(n))
    want = t.op(env, n)
    got = tensor(t.block, env, qubit_support=full, use_full_support=True)
    B = O.batch(got, want, env)
    s.eq(got.expand(B, -1, -1), want.expand(B, -1, -1), label)
    return got


def params(s, k, batch):
    return {f"p{i}": s.angle(f"p{i}", batch) for i in range(k)}


def mk(name, sup, k, tier="quick", batch=1, n=None):
    @obligation(P, f"gate-{name}-{'_'.join(map(str, sup))}-b{batch}" + (f"-n{n}" if n else ""), tier)
    def ob(s, name=name, sup=sup, k=k, batch=batch, n=n):
        env = params(s, k, batch)
        t = O.gate(name, *sup, params=[f"p{i}" for i in range(k)])
        check(s, t, env, name, n)


for nm in FULL + ["TDagger"]:
    @obligation(P, f"fixed-{nm}")
    def ob(s, nm=nm):
        for n in (1, 2, 3):
            for q in range(n):
                check(s, O.gate(nm, q), {}, f"{nm}({q})/{n}", n)
for nm in ONE:
    @obligation(P, f"rot-{nm}")
    def ob(s, nm=nm):
        env = params(s, 1, 2)
        for n in (1, 2, 3):
            for q in range(n):
                check(s, O.gate(nm, q, params=["p0"]), env, f"{nm}({q})/{n}", n)
@obligation(P, "rot-U")
def ob(s):
    env = params(s, 3, 2)
    for n in (1, 2):
        for q in range(n):
            check(s, O.gate("U", q, params=["p0", "p1", "p2"]), env, f"U({q})/{n}", n)


for nm in ["CNOT", "CZ", "SWAP"]:
    @obligation(P, f"two-{nm}")
    def ob(s, nm=nm):
        for n in (2, 3, 4):
            for a, b in itertools.permutations(range(n), 2):
                check(s, O.gate(nm, a, b), {}, f"{nm}({a},{b})/{n}", n)
for nm in CTL:
    @obligation(P, f"two-{nm}")
    def ob(s, nm=nm):
        env = params(s, 1, 2)
        for n in (2, 3, 4):
            for a, b in itertools.permutations(range(n), 2):
                check(s, O.gate(nm, a, b, params=["p0"]), env, f"{nm}({a},{b})/{n}", n)
for nm in ["CSWAP", "Toffoli", "MCZ", "MCRX", "MCRY", "MCRZ", "MCPHASE"]:
    for n, tier in ((3, "quick"), (4, "quick")):
        @obligation(P, f"multi-{nm}-{n}", tier)
        def ob(s, nm=nm, n=n):
            env = params(s, 1, 1)
            for sup in itertools.permutations(range(n), 3):
                check(s, O.gate(nm, *sup, params=["p0"]), env, f"{nm}{sup}/{n}", n)
for nm in ["Toffoli", "MCZ", "MCRX", "MCRZ", "MCPHASE"]:
    @obligation(P, f"multi4-{nm}")
    def ob(s, nm=nm):
        env = params(s, 1, 1)
        for sup in [(0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2), (2, 0, 3, 1)]:
            check(s, O.gate(nm, *sup, params=["p0"]), env, f"{nm}{sup}", 4)


# ------------------------------------------------------------------ multi-qubit matrices and projectors
PLACES3 = [(0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)]


@obligation(P, "matrixblock-1q")
def ob(s):
    m = s.cplx("m", (2, 2))
    for n in (1, 2, 3):
        for q in range(n):
            check(s, O.matrix(m, (q,)), {}, f"matrix({q})/{n}", n)


@obligation(P, "matrixblock-2q")
def ob(s):
    m = s.cplx("m", (4, 4))
    for sup in PLACES3:
        check(s, O.matrix(m, sup), {}, f"matrix{sup}", 3)


@obligation(P, "matrixblock-3q")
def ob(s):
    m = s.cplx("m", (8, 8))
    for sup in [(0, 1, 2), (3, 0, 2), (1, 3, 0), (2, 1, 3)]:
        check(s, O.matrix(m, sup), {}, f"matrix{sup}", 4)


@obligation(P, "projector")
def ob(s):
    for ket in ["0", "1"]:
        for n in (1, 2, 3):
            for q in range(n):
                check(s, O.projector(ket, ket, q), {}, f"|{ket}><{ket}|({q})/{n}", n)
    for ket in ["00", "01", "10", "11"]:
        for sup in PLACES3:
            check(s, O.projector(ket, ket, sup), {}, f"|{ket}><{ket}|{sup}", 3)


@obligation(P, "projector-offdiagonal")
def ob(s):
    """Off-diagonal |ket><bra|: a known finding (the matrix comes out transposed); nothing else may be wrong with it."""
    t = O.projector("0", "1", 0)
    check(s, t, {}, "ketbra", 1)
    for ket, bra in [("10", "01"), ("01", "10"), ("11", "10"), ("00", "11"), ("01", "11")]:
        for sup in PLACES3:
            t = O.projector(ket, bra, sup)
            got = tensor(t.block, {}, qubit_support=(0, 1, 2))
            want = t.op({}, 3)
            if torch.allclose(got, want):
                continue
            s.eq(got, want.transpose(-1, -2), f"transposed |{ket}><{bra}|{sup}")


# ------------------------------------------------------------------ algebra
def three(s, batch=1):
    env = params(s, 4, batch)
    A = O.gate("RX", 0, params=["p0"])
    B = O.gate("CRY", 2, 0, params=["p1"])
    C = O.gate("U", 1, params=["p0", "p2", "p3"])
    return env, A, B, C


@obligation(P, "chain-order")
def ob(s):
    env, A, B, C = three(s)
    check(s, O.chain(A, B, C), env, "ABC", 3)
    check(s, O.chain(C, B, A), env, "CBA", 3)
    check(s, O.chain(A, O.chain(B, C), A), env, "A(BC)A", 3)


@obligation(P, "chain-operator")
def ob(s):
    env, A, B, C = three(s)
    t = O.chain(A, B, C)
    t.block = A.block * B.block * C.block
    check(s, t, env, "A*B*C", 3)
    t = O.chain(A, A)
    t.block = A.block ** 2
    check(s, t, env, "A**2", 3)
    t = O.chain(B, B, B)
    t.block = B.block ** 3
    check(s, t, env, "B**3", 3)


@obligation(P, "kron")
def ob(s):
    env = params(s, 3, 2)
    A, B, C = O.gate("RX", 3, params=["p0"]), O.gate("CRZ", 2, 0, params=["p1"]), O.gate("PHASE", 1, params=["p2"])
    check(s, O.kronb(A, B, C), env, "kron", 4)
    t = O.kronb(B, C)
    t.block = B.block @ C.block
    check(s, t, env, "@", 4)


@obligation(P, "kron-power")
def ob(s):
    import qadence as qd

    env = params(s, 2, 1)
    x = qd.FeatureParameter("p0")
    for lab, arg, q in [
        ("name", "p0", O.A("p0")), ("feature", x, O.A(x, "p0")), ("number", 0.75, O.A(0.75)), ("negative", -1.5, O.A(-1.5)),
        ("expr", 2 * x + 0.5, O.A(2 * x + 0.5, lambda v: 2 * v["p0"] + 0.5)),
    ]:
        for n in (2, 3):
            t = O.kronb(*[O.gate("RY", i, params=[q]) for i in range(n)])
            t.block = qd.RY(0, arg) ^ n
            check(s, t, env, f"RY({lab})^{n}", n)
    t = O.kronb(*[O.gate("PHASE", i, params=["p1"]) for i in (1, 2)])
    t.block = qd.PHASE(1, "p1") ^ 2
    check(s, t, env, "PHASE(1)^2", 3)
    for n in (1, 2, 3):
        t = O.kronb(*[O.gate("H", i) for i in range(n)])
        t.block = qd.H(0) ^ n
        check(s, t, env, f"H^{n}", n)


@obligation(P, "fixed-numbers")
def ob(s):
    """Different fixed numbers in one block do not get confused."""
    env = params(s, 1, 1)
    for nums in [(-1, -2), (-1.0, -2.0), (1, -1), (0.5, 5), (1e-3, 1000.0), (2, 2.5), (-2.5, 2.5)]:
        t = O.chain(*[O.gate("RX", i % 2, params=[O.A(v)]) for i, v in enumerate(nums)], O.gate("RY", 0, params=["p0"]), O.scale(O.gate("X", 0), nums[0]), O.scale(O.gate("RZ", 1, params=["p0"]), nums[1]))
        check(s, t, env, f"{nums}", 2)


@obligation(P, "add-sub")
def ob(s):
    env, A, B, C = three(s)
    check(s, O.add(A, B, C), env, "A+B+C", 3)
    check(s, O.add(O.chain(A, B), C), env, "AB+C", 3)
    t = O.add(A, O.scale(B, -1.0))
    t.block = A.block - B.block
    check(s, t, env, "A-B", 3)
    t = O.scale(A, -1.0)
    t.block = -A.block
    check(s, t, env, "-A", 3)
    t = O.add(A, B, O.scale(C, -1.0))
    t.block = A.block + B.block - C.block
    check(s, t, env, "A+B-C", 3)
    t = O.add(A, O.scale(O.add(B, C), -1.0))
    t.block = A.block - (B.block + C.block)
    check(s, t, env, "A-(B+C)", 3)


@obligation(P, "inplace-operators")
def ob(s):
    env, A, B, C = three(s)
    b = A.block + B.block
    b += C.block
    t = O.add(A, B, C)
    t.block = b
    check(s, t, env, "+=", 3)
    b = A.block + B.block
    b -= C.block
    t = O.add(A, B, O.scale(C, -1.0))
    t.block = b
    check(s, t, env, "-=", 3)
    b = A.block * B.block
    b *= C.block
    t = O.chain(A, B, C)
    t.block = b
    check(s, t, env, "*=", 3)
    b = A.block @ C.block
    t = O.chain(A, C)
    t.block = b
    check(s, t, env, "@", 3)


@obligation(P, "scale")
def ob(s):
    import qadence as qd
    import sympy

    env, A, B, C = three(s, 2)
    env["w"] = s.real("w", 2)
    check(s, O.scale(A, 2.5), env, "2.5 A", 3)
    check(s, O.scale(A, "w") if False else O.Term(qd.FeatureParameter("w") * A.block, A.support, full=lambda e, n: O.col(e["w"]) * A.op(e, n)), env, "w A", 3)
    w = qd.FeatureParameter("w")
    t = O.Term(w * (A.block + B.block), (0, 2), full=lambda e, n: O.col(e["w"]) * (A.op(e, n) + B.op(e, n)))
    check(s, t, env, "w (A+B)", 3)
    t = O.Term(2.0 * (w * A.block), (0,), full=lambda e, n: 2 * O.col(e["w"]) * A.op(e, n))
    check(s, t, env, "2 (w A)", 3)
    t = O.Term(w * (3.0 * A.block), (0,), full=lambda e, n: 3 * O.col(e["w"]) * A.op(e, n))
    check(s, t, env, "w (3 A)", 3)
    t = O.Term((w * A.block) * 0.5, (0,), full=lambda e, n: 0.5 * O.col(e["w"]) * A.op(e, n))
    check(s, t, env, "(w A) 0.5", 3)
    t = O.Term(A.block / 4, (0,), full=lambda e, n: A.op(e, n) / 4)
    check(s, t, env, "A/4", 3)
    t = O.Term(w * A.block - 2 * w * C.block, (0, 1), full=lambda e, n: O.col(e["w"]) * (A.op(e, n) - 2 * C.op(e, n)))
    check(s, t, env, "wA-2wC", 3)
    t = O.Term(-(w * A.block), (0,), full=lambda e, n: -O.col(e["w"]) * A.op(e, n))
    check(s, t, env, "-(wA)", 3)


@obligation(P, "expressions")
def ob(s):
    import qadence as qd
    import sympy

    env = params(s, 2, 2)
    x, y = qd.FeatureParameter("p0"), qd.FeatureParameter("p1")
    for lab, e, f in [
        ("2x", 2 * x, lambda v: 2 * v["p0"]),
        ("x+y", x + y, lambda v: v["p0"] + v["p1"]),
        ("x*y", x * y, lambda v: v["p0"] * v["p1"]),
        ("x^2-y/3", x**2 - y / 3, lambda v: v["p0"] ** 2 - v["p1"] / 3),
        ("sin x", sympy.sin(x), lambda v: torch.sin(v["p0"])),
        ("x cos y + 1", x * sympy.cos(y) + 1, lambda v: v["p0"] * torch.cos(v["p1"]) + 1),
    ]:
        check(s, O.gate("RX", 0, params=[O.A(e, f)]), env, f"RX({lab})", 1)
        check(s, O.gate("CPHASE", 1, 0, params=[O.A(e, f)]), env, f"CPHASE({lab})", 2)


@obligation(P, "hamevo-pauli")
def ob(s):
    env = params(s, 1, 2)
    for names, sup in [("Z", (0,)), ("X", (1,)), ("ZZ", (0, 2)), ("XY", (2, 0)), ("XZY", (0, 1, 2))]:
        g = O.kronb(*[O.gate(k, q) for k, q in zip(names, sup)]) if len(names) > 1 else O.gate(names, sup[0])
        check(s, O.ham_evo(g, "p0"), env, f"exp({names}{sup})", 3)
        check(s, O.ham_evo(g, O.A(0.75)), {}, f"exp(.75 {names}{sup})", 3)


@obligation(P, "hamevo-commuting-sum")
def ob(s):
    env = params(s, 1, 3)
    zz = O.kronb(O.gate("Z", 0), O.gate("Z", 1))
    check(s, O.ham_evo_sum([(0.7, zz), (-1.3, O.gate("Z", 2)), (2.0, O.gate("Z", 0))], "p0"), env, "ising", 3)
    xx = O.kronb(O.gate("X", 2), O.gate("X", 0))
    yy = O.kronb(O.gate("Y", 2), O.gate("Y", 0))
    check(s, O.ham_evo_sum([(0.5, xx), (0.5, yy)], "p0"), env, "xy", 3)


@obligation(P, "hamevo-matrix")
def ob(s):
    import qadence as qd

    t = s.angle("t", 2)
    g = torch.kron(torch.kron(O.X2, O.Y2), O.Z2)
    for sup in [(0, 1, 2), (0, 2, 1), (2, 0, 1)]:
        T = O.Term(qd.HamEvo(g, "t", qubit_support=sup), sup, lambda e: O.expm_hermitian_involution(g, e["t"]))
        check(s, T, {"t": t}, f"exp(matrix{sup})", 3)
    g2 = torch.kron(O.X2, O.Z2)
    for sup in PLACES3:
        T = O.Term(qd.HamEvo(g2, "t", qubit_support=sup), sup, lambda e: O.expm_hermitian_involution(g2, e["t"]))
        check(s, T, {"t": t}, f"exp(matrix{sup})", 3)


@obligation(P, "own-support")
def ob(s):
    """Without an explicit support the matrix acts on the block's sorted own qubits."""
    import qadence as qd

    env = params(s, 2, 1)
    for t, dense in [
        (O.gate("CRX", 4, 2, params=["p0"]), O.gate("CRX", 1, 0, params=["p0"])),
        (O.chain(O.gate("RY", 5, params=["p1"]), O.gate("CNOT", 1, 5)), O.chain(O.gate("RY", 1, params=["p1"]), O.gate("CNOT", 0, 1))),
        (O.kronb(O.gate("RZ", 7, params=["p0"]), O.gate("RX", 3, params=["p1"])), O.kronb(O.gate("RZ", 1, params=["p0"]), O.gate("RX", 0, params=["p1"]))),
    ]:
        s.eq(tensor(t.block, env), dense.op(env, 2), "own")


@obligation(P, "endianness")
def ob(s):
    from qadence.types import Endianness

    env, A, B, C = three(s)
    m2 = s.cplx("m", (4, 4))
    for lab, t in [
        ("chain", O.chain(A, B, C)), ("add", O.add(A, B)), ("matrix", O.matrix(m2, (2, 0))), ("proj", O.projector("01", "01", (0, 2))),
        ("scale", O.scale(O.add(A, C), 0.5)), ("exp", O.ham_evo(O.kronb(O.gate("X", 0), O.gate("Z", 1)), "p3")),
    ]:
        big = t.op(env, 3)
        lit = O.bit_reverse(O.bit_reverse(big, 3, -1), 3, -2)
        s.eq(tensor(t.block, env, qubit_support=(0, 1, 2), endianness=Endianness.LITTLE), lit, lab)


@obligation(P, "put")
def ob(s):
    env = params(s, 2, 1)
    import qadence as qd
    from qadence.blocks.utils import put

    b = qd.chain(qd.RX(0, "p0"), qd.CRZ(1, 0, "p1"))
    want = O.chain(O.gate("RX", 1, params=["p0"]), O.gate("CRZ", 2, 1, params=["p1"])).op(env, 4)
    try:
        got = tensor(put(b, 1, 2), env, qubit_support=(0, 1, 2, 3))
    except TypeError:
        s.fact(True, "PutBlock has no dense form")
        return
    s.eq(got, want, "put")


@obligation(P, "sparse-diagonal")
def ob(s):
    import qadence as qd
    from qadence.types import Endianness, TensorType

    for lab, t in [
        ("ising", O.add(O.scale(O.kronb(O.gate("Z", 0), O.gate("Z", 1)), 0.5), O.scale(O.gate("Z", 2), 1.5), O.gate("Z", 1))),
        ("chain", O.chain(O.gate("Z", 0), O.gate("I", 1), O.gate("Z", 2))),
        ("kron", O.kronb(O.gate("Z", 2), O.gate("I", 0))),
        ("nested", O.scale(O.add(O.kronb(O.gate("Z", 0), O.gate("Z", 2)), O.gate("I", 1)), -2.0)),
        ("imaginary", O.scale(O.gate("Z", 1), 2j)),
        ("complex", O.add(O.scale(O.kronb(O.gate("Z", 0), O.gate("Z", 1)), 1j), O.scale(O.gate("Z", 2), 1 - 0.5j), O.scale(O.gate("I", 0), -1j))),
        ("cancelling", O.add(O.gate("Z", 0), O.gate("Z", 1), O.scale(O.kronb(O.gate("Z", 0), O.gate("Z", 1)), 1e-6))),
    ]:
        n = len(t.block.qubit_support)
        rel = {q: i for i, q in enumerate(sorted(t.block.qubit_support))}
        big = t.op({}, 3)
        for e in (Endianness.BIG, Endianness.LITTLE):
            got = tensor(t.block, {}, tensor_type=TensorType.SPARSEDIAGONAL, endianness=e).to_dense()
            want = tensor(t.block, {}, endianness=e).squeeze(0)
            s.eq(got, want, f"{lab}-{e}")


# thorough: every placement of every gate on four qubits, inside a circuit, batch 3
for nm, k, q in [("RX", 1, 1), ("U", 3, 1), ("CRY", 1, 2), ("CPHASE", 1, 2), ("MCRX", 1, 3), ("MCPHASE", 1, 3), ("CSWAP", 0, 3), ("MCZ", 0, 4)]:
    @obligation(P, f"placements-{nm}", "thorough", timeout=600)
    def ob(s, nm=nm, k=k, q=q):
        env = params(s, k, 3)
        env["z"] = s.angle("z", 3)
        for sup in itertools.permutations(range(4), q):
            t = O.chain(O.gate("RY", 1, params=["z"]), O.gate(nm, *sup, params=[f"p{i}" for i in range(k)]), O.gate("CRZ", 3, 0, params=["z"]))
            check(s, t, env, f"{nm}{sup}", 4)


@obligation(P, "parameter-order")
def ob(s):
    """Parameters keep their positions whatever their names are."""
    import qadence as qd

    env = {k: s.angle(k, 2) for k in ("a", "b", "c")}
    for perm in itertools.permutations("abc"):
        check(s, O.gate("U", 0, params=list(perm)), env, f"U{perm}", 2)
    x = {k: qd.FeatureParameter(k) for k in "abc"}
    args = [O.A(2 * x["c"], lambda v: 2 * v["c"]), O.A(0.3), O.A(x["b"] + x["a"], lambda v: v["b"] + v["a"])]
    for p in itertools.permutations(range(3)):
        check(s, O.gate("U", 1, params=[args[i] for i in p]), env, f"U expressions {p}", 2)


@obligation(P, "inferred-support")
def ob(s):
    """use_full_support infers the qubits 0…max of the block, also for blocks with gaps."""
    from qadence.types import TensorType

    env = params(s, 2, 1)
    for lab, t in [
        ("RX(2)", O.gate("RX", 2, params=["p0"])), ("CRY(3,1)", O.gate("CRY", 3, 1, params=["p0"])),
        ("chain", O.chain(O.gate("RZ", 2, params=["p0"]), O.gate("RX", 0, params=["p1"]))),
        ("kron", O.kronb(O.gate("PHASE", 3, params=["p0"]), O.gate("RX", 1, params=["p1"]))),
        ("sum", O.add(O.gate("Z", 2), O.gate("X", 0))), ("T", O.gate("T", 2)), ("Toffoli", O.gate("Toffoli", 3, 0, 1)), ("MCRX", O.gate("MCRX", 0, 3, 1, params=["p0"])),
        ("U", O.gate("U", 2, params=["p0", "p1", "p0"])), ("matrix", O.matrix(s.cplx("m", (2, 2)), (2,))), ("SWAP", O.gate("SWAP", 1, 3)),
    ]:
        n = max(t.block.qubit_support) + 1
        s.eq(tensor(t.block, env, use_full_support=True), t.op(env, n), lab)
    for lab, t in [("Z(2)", O.gate("Z", 2)), ("ZZ", O.kronb(O.gate("Z", 3), O.gate("Z", 1))), ("sum", O.add(O.gate("Z", 2), O.scale(O.gate("Z", 0), 0.5)))]:
        n = max(t.block.qubit_support) + 1
        s.eq(tensor(t.block, {}, use_full_support=True, tensor_type=TensorType.SPARSEDIAGONAL).to_dense(), t.op({}, n)[0], f"sparse {lab}")
        s.eq(tensor(t.block, {}, qubit_support=(0, 1, 2, 3), tensor_type=TensorType.SPARSEDIAGONAL).to_dense(), t.op({}, 4)[0], f"sparse on 4 {lab}")


@obligation(P, "sparse-parametric")
def ob(s):
    import qadence as qd
    from qadence.types import Endianness, TensorType

    env = {"w": s.real("w", 1, -5, -0.5), "v": s.real("v", 1, 0.5, 5)}
    w, v = qd.FeatureParameter("w"), qd.FeatureParameter("v")
    Z = [O.gate("Z", i) for i in range(3)]
    W = lambda e: O.col(e["w"])
    V = lambda e: O.col(e["v"])
    for lab, t in [
        ("wZ", O.Term(w * qd.Z(0), (0,), full=lambda e, n: W(e) * Z[0].op(e, n))),
        ("wZ+vZ", O.Term(w * qd.Z(0) + v * qd.Z(2), (0, 2), full=lambda e, n: W(e) * Z[0].op(e, n) + V(e) * Z[2].op(e, n))),
        ("2wZZ", O.Term((2 * w) * qd.kron(qd.Z(1), qd.Z(0)), (0, 1), full=lambda e, n: 2 * W(e) * Z[0].op(e, n) @ Z[1].op(e, n))),
        ("w(Z+vZ)", O.Term(w * (qd.Z(1) + v * qd.Z(2)), (1, 2), full=lambda e, n: W(e) * (Z[1].op(e, n) + V(e) * Z[2].op(e, n)))),
    ]:
        big = t.op(env, 3)[0]
        for e in (Endianness.BIG, Endianness.LITTLE):
            got = tensor(t.block, env, qubit_support=(0, 1, 2), tensor_type=TensorType.SPARSEDIAGONAL, endianness=e).to_dense()
            want = big if e == Endianness.BIG else O.bit_reverse(O.bit_reverse(big, 3, -1), 3, -2)
            s.eq(got, want, f"{lab}-{e}")


def spectrum(s, label, vals, m):
    """The numbers are the eigenvalues of the matrix, with multiplicity: all power sums agree with the traces of the powers."""
    vals = torch.as_tensor(vals).reshape(-1).to(torch.cdouble)
    s.fact(len(vals) == m.shape[-1], f"{label}: {len(vals)} eigenvalues of a matrix of size {m.shape[-1]}", f"{label}: how many")
    p, q = vals, m
    for k in range(1, m.shape[-1] + 1):
        s.eq(p.sum(), q.diagonal(dim1=-2, dim2=-1).sum(), f"{label}: power sum {k}")
        p, q = p * vals, q @ m


@obligation(P, "eigenvalues", timeout=300)
def ob(s):
    """The eigenvalues a gate reports are those of its matrix, also for controls, scaled gates and arbitrary supports."""
    import qadence as qd

    g = lambda nm, *q, **k: O.gate(nm, *q, **k)
    for nm in FULL + ["TDagger"]:
        for q in (0, 2):
            t = g(nm, q)
            spectrum(s, f"{nm}({q})", t.block.eigenvalues, O.gate(nm, 0).op({}, 1)[0])
    for nm, sups in (("CNOT", [(0, 1), (3, 1)]), ("CZ", [(0, 1), (3, 1)]), ("SWAP", [(0, 1), (1, 3)]), ("CSWAP", [(0, 1, 2), (4, 0, 2)]), ("Toffoli", [(0, 1, 2), (4, 0, 2)]), ("MCZ", [(0, 1, 2), (4, 0, 2)])):
        for sup in sups:
            spectrum(s, f"{nm}{sup}", g(nm, *sup).block.eigenvalues, O.gate(nm, *range(len(sup))).op({}, len(sup))[0])
    for k, (nm, sups) in enumerate([(n, [(0,), (3,)]) for n in ONE] + [(n, [(0, 1), (3, 1)]) for n in CTL] + [(n, [(0, 1, 2), (4, 0, 2)]) for n in ("MCRX", "MCRY", "MCRZ", "MCPHASE")]):
        for sup in sups:
            for th in (0.7, -2.3):  # evaluated with plain numbers by the code under test
                t = O.gate(nm, *sup, params=[O.A(qd.VariationalParameter(f"e{nm}{sup}{th}", value=th))])
                spectrum(s, f"{nm}{sup}({th})", t.block.eigenvalues, O.gate(nm, *range(len(sup)), params=["t"]).op({"t": torch.tensor([th], dtype=torch.float64)}, len(sup))[0])
    for vals in ((0.1, 0.2, 0.3), (1.0, -2.0, 0.5), (0.0, 3.0, 0.0)):
        u = qd.U(1, *vals)
        spectrum(s, f"U{vals}", u.eigenvalues, O.gate("U", 0, params=list("abc")).op(dict(zip("abc", [torch.tensor([v], dtype=torch.float64) for v in vals])), 1)[0])
    for lab, b, m in (("2X", 2 * qd.X(1), 2 * O.X2), ("-Z", -qd.Z(0), -O.Z2), ("-1.5(0.5H)", -1.5 * (0.5 * qd.H(2)), -0.75 * O.H2), ("3N", 3 * qd.N(0), 3 * O.N2), ("0.5S", 0.5 * qd.S(1), 0.5 * O.S2), ("2jT", 2j * qd.T(1), 2j * O.T2)):
        spectrum(s, lab, b.eigenvalues, m)


@obligation(P, "scalar-algebra")
def ob(s):
    """Powers, sums, identities and zeros behave as operators: (cA)^k, sum([...]), I * A, A + Zero, A @= B."""
    import qadence as qd
    from qadence.operations import Zero

    env = params(s, 2, 2)
    c = s.real("c", 2, -3, 3)
    env["c"] = c
    cc = qd.FeatureParameter("c")
    rx, cn, ry = O.gate("RX", 1, params=["p0"]), O.gate("CNOT", 0, 1), O.gate("RY", 0, params=["p1"])
    C = O.col(c)
    for k in (1, 2, 3):
        for t, base in ((rx, rx), (cn, cn), (O.chain(rx, cn), O.chain(rx, cn))):
            full = lambda e, n, t=t, k=k: O.col(e["c"]) ** k * torch.linalg.matrix_power(t.op(e, n), k) if False else _pow(t.op(e, n), k) * O.col(e["c"]) ** k
            check(s, O.Term((cc * t.block) ** k, tuple(t.block.qubit_support), full=full), env, f"(c {t.block.name})^{k}", 2)
    sm = lambda ts: lambda e, n: sum((t.op(e, n) for t in ts[1:]), ts[0].op(e, n))
    ts = [rx, cn, ry]
    check(s, O.Term(sum(t.block for t in ts), (0, 1), full=sm(ts)), env, "sum of three", 2)
    check(s, O.Term(sum([rx.block]), (1,), full=sm([rx])), env, "sum of one", 2)
    z = Zero()
    check(s, O.Term(z + rx.block, (1,), full=sm([rx])), env, "0 + A", 2)
    check(s, O.Term(rx.block + z, (1,), full=sm([rx])), env, "A + 0", 2)
    check(s, O.Term(rx.block - z, (1,), full=sm([rx])), env, "A - 0", 2)
    check(s, O.Term(z - rx.block, (1,), full=lambda e, n: -rx.op(e, n)), env, "0 - A", 2)
    s.fact(isinstance(z * rx.block, Zero) and isinstance(z * 3, Zero) and isinstance(-z, Zero), "products with zero vanish")
    s.fact(isinstance(z**3, Zero) and isinstance(z.dagger(), Zero), "powers and adjoint of zero vanish")


def _pow(m, k):
    r = m
    for _ in range(k - 1):
        r = torch.bmm(r, m)
    return r


@obligation(P, "endianness-gates")
def ob(s):
    """The little-endian matrix of every gate, on every order of its qubits, is the bit-reversed one."""
    from qadence.types import Endianness

    env = params(s, 3, 1)
    ts = [O.gate(nm, 1) for nm in FULL] + [O.gate(nm, 1, params=["p0"]) for nm in ONE] + [O.gate("U", 2, params=["p0", "p1", "p2"])]
    for sup in ((0, 1), (1, 0), (2, 0)):
        ts += [O.gate(nm, *sup) for nm in ("CNOT", "CZ", "SWAP")] + [O.gate(nm, *sup, params=["p0"]) for nm in CTL]
    for sup in ((0, 1, 2), (2, 0, 1), (1, 2, 0)):
        ts += [O.gate(nm, *sup) for nm in ("Toffoli", "CSWAP", "MCZ")] + [O.gate(nm, *sup, params=["p0"]) for nm in ("MCRX", "MCRY", "MCRZ", "MCPHASE")]
    ts += [O.kronb(O.gate("CSWAP", 2, 0, 1), O.gate("H", 3)), O.chain(O.gate("CSWAP", 1, 0, 2), O.gate("Toffoli", 0, 2, 1))]
    for t in ts:
        n = max(max(t.block.qubit_support) + 1, 3)
        big = t.op(env, n)
        lit = O.bit_reverse(O.bit_reverse(big, n, -1), n, -2)
        lab = f"{t.block.name}{tuple(t.block.qubit_support)}"
        s.eq(tensor(t.block, env, qubit_support=tuple(range(n)), endianness=Endianness.LITTLE), lit, lab)
        small = sorted(t.block.qubit_support)
        k = len(small)
        if k == n:
            s.eq(tensor(t.block, env, endianness=Endianness.LITTLE), lit, f"{lab} own qubits")


@obligation(P, "block-algebra")
def ob(s):
    """+, -, *, @, their in-place forms, negation and division of composite blocks are the operations on operators."""
    import qadence as qd

    env = params(s, 2, 1)
    env["c"] = s.real("c", 1, -3, 3)
    cc = qd.FeatureParameter("c")
    n = 3
    a, b, x, y = O.gate("RX", 0, params=["p0"]), O.gate("CNOT", 0, 1), O.gate("RY", 2, params=["p1"]), O.gate("H", 1)
    def scal(k, m):
        return O.col(k) * m if isinstance(k, torch.Tensor) else k * m
    def T(block, m):
        return O.Term(block, tuple(sorted(block.qubit_support)), full=lambda e, n_: m)
    M = {k: t.op(env, n) for k, t in dict(a=a, b=b, x=x, y=y).items()}
    # operands: name -> (block, operator); fresh blocks on every use
    ops = {
        "single": (lambda: a.block, M["a"]), "chain": (lambda: qd.chain(a.block, b.block), M["b"] @ M["a"]), "chain2": (lambda: qd.chain(b.block, y.block), M["y"] @ M["b"]), "add": (lambda: qd.add(a.block, b.block), M["a"] + M["b"]),
        "add2": (lambda: qd.add(y.block, qd.chain(a.block, y.block)), M["y"] + M["y"] @ M["a"]), "kron": (lambda: qd.kron(a.block, y.block), M["a"] @ M["y"]), "scale": (lambda: 2.0 * b.block, 2.0 * M["b"]), "scale-parameter": (lambda: cc * a.block, O.col(env["c"]) * M["a"]),
    }
    def put(lab, blk, m):
        s.eq(tensor(blk, env, qubit_support=(0, 1, 2)), m, lab)
    for na, (A, MA) in ops.items():
        put(f"-{na}", -A(), -MA)
        put(f"+{na}", +A(), MA)
        put(f"{na}/4", A() / 4, MA / 4)
        put(f"{na}/2j", A() / 2j, MA / 2j)
        put(f"{na}*0.5", A() * 0.5, MA * 0.5)
        put(f"c*{na}", cc * A(), O.col(env["c"]) * MA)
        put(f"{na}**2", A() ** 2, MA @ MA)
        for nb, (B, MB) in ops.items():
            l = f"{na}, {nb}"
            put(f"{l} *", A() * B(), MB @ MA)
            put(f"{l} +", A() + B(), MA + MB)
            put(f"{l} -", A() - B(), MA - MB)
            r = A(); before = r
            r *= B(); put(f"{l} *=", r, MB @ MA)
            r = A()
            r += B(); put(f"{l} +=", r, MA + MB)
            r = A()
            r -= B(); put(f"{l} -=", r, MA - MB)
            put(f"{l} left operand unchanged", before, MA)
    for lab, A, MA in (("single", x.block, M["x"]), ("kron", qd.kron(x.block, qd.Z(4)), None)):
        for nb in ("single", "chain", "add", "kron", "scale"):
            B, MB = ops[nb]
            if MA is not None:
                put(f"{lab} @ {nb}", A @ B(), MA @ MB)
                put(f"{nb} @ {lab}", B() @ A, MA @ MB)
                r = A
                r @= B(); put(f"{lab} @= {nb}", r, MA @ MB)
                r = B()
                r @= A; put(f"{nb} @= {lab}", r, MA @ MB)
    k1, k2 = qd.kron(qd.X(0), qd.Y(2)), qd.kron(qd.Z(1), qd.H(3))
    e = lambda m, q: O.embed(m, (q,), 4)
    want = e(O.X2, 0) @ e(O.Y2, 2) @ e(O.Z2, 1) @ e(O.H2, 3)
    s.eq(tensor(k1 @ k2, {}, qubit_support=(0, 1, 2, 3)), want, "kron @ kron")
    r = k1
    r @= k2
    s.eq(tensor(r, {}, qubit_support=(0, 1, 2, 3)), want, "kron @= kron")
    s.fact(len(k1.blocks) == 2 and len(k2.blocks) == 2, "operands of @= unchanged")
    for lab, f in (("+", lambda: qd.X(0) + 3), ("-", lambda: qd.X(0) - 3), ("@", lambda: qd.X(0) @ 3), ("/", lambda: qd.X(0) / qd.Y(0)), ("radd", lambda: 3 + qd.X(0))):
        s.raises(f, TypeError, f"no {lab} of blocks and numbers")
