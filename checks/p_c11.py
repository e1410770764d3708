"""C11: every overlap method returns |<bra|ket>|^2."""
import torch

from symq.runner import obligation
from checks import oracle as O

P = "C11"
METHODS = ("exact", "compute_uncompute", "swap_test", "hadamard_test")


def g(n, *q, p=()):
    return O.gate(n, *q, params=[p] if not isinstance(p, (list, tuple)) else list(p))


def f(name, k=1.0, c=0.0):
    import qadence as qd

    return O.A(k * qd.FeatureParameter(name) + c, lambda e: k * e[name] + c)


def circuits():
    """name -> (n qubits, bra, ket)"""
    ent = lambda a, b: O.gate("CNOT", a, b)
    return {
        "one-qubit": (1, lambda: g("RX", 0, p=f("x")), lambda: g("RX", 0, p=f("y"))),
        "one-qubit-y": (1, lambda: O.chain(g("H", 0), g("PHASE", 0, p=f("x"))), lambda: O.chain(g("RY", 0, p=f("y")), g("S", 0))),
        "entangled": (2, lambda: O.chain(g("H", 0), g("CRY", 0, 1, p=f("x"))), lambda: O.chain(g("RX", 0, p=f("y")), ent(0, 1))),
        "phases": (2, lambda: O.chain(O.kronb(g("H", 0), g("H", 1)), g("CPHASE", 0, 1, p=f("x"))), lambda: O.chain(O.kronb(g("H", 0), g("H", 1)), g("RZ", 1, p=f("y")), g("S", 0))),
        "crossed": (2, lambda: O.chain(g("RY", 1, p=f("x")), ent(1, 0)), lambda: O.chain(g("RX", 0, p=f("y")), ent(0, 1), g("S", 1))),
        "order": (2, lambda: O.chain(g("RX", 0, p=f("x")), g("H", 1)), lambda: O.chain(g("H", 0), g("RX", 1, p=f("y")), g("SDagger", 0))),
    }


def want(bra, ket, n, x, y):
    """All pairs: (bra batch, ket batch)."""
    b = bra.act({"x": x}, n, O.zero_state(n))
    k = ket.act({"y": y}, n, O.zero_state(n))
    ip = (b.conj().unsqueeze(1) * k.unsqueeze(0)).sum(-1)
    return ip.real**2 + ip.imag**2


for m in METHODS:
    for name in circuits():
        for bb, bk in ((1, 1), (2, 2), (2, 1), (1, 2)) if name in ("one-qubit", "crossed") else ((2, 2),):
            @obligation(P, f"{m}-{name}-{bb}{bk}", timeout=240)
            def ob(s, m=m, name=name, bb=bb, bk=bk):
                """Two features: every bra value with every ket value."""
                import qadence as qd

                n, bra, ket = circuits()[name]
                bra, ket = bra(), ket()
                x, y = s.angle("x", bb), s.angle("y", bk)
                ov = qd.Overlap(qd.QuantumCircuit(n, bra.block), qd.QuantumCircuit(n, ket.block), method=m)
                got = ov({"x": x}, {"y": y})
                s.eq(got, want(bra, ket, n, x, y), "overlap")


def one_feature():
    return {
        "bra-only": (lambda: O.chain(g("RX", 0, p=f("x")), g("CNOT", 0, 1)), lambda: O.kronb(g("H", 0), g("S", 1))),
        "ket-only": (lambda: O.kronb(g("H", 0), g("S", 1)), lambda: O.chain(g("RX", 0, p=f("x")), g("CNOT", 0, 1), g("S", 0))),
        "same": (lambda: O.chain(g("H", 0), g("PHASE", 0, p=f("x")), g("CNOT", 0, 1)), lambda: O.chain(g("H", 0), g("RY", 1, p=f("x", 2.0, 0.5)), g("CNOT", 1, 0))),
        "none": (lambda: O.chain(g("H", 0), g("T", 0), g("CNOT", 0, 1)), lambda: O.chain(g("RX", 0, p=0.7), g("H", 1), g("S", 1))),
    }


for m in METHODS:
    for kind in one_feature():
        @obligation(P, f"{m}-feature-{kind}")
        def ob(s, m=m, kind=kind):
            """At most one feature: pairs with equal values, as a column."""
            import qadence as qd

            bra, ket = (t() for t in one_feature()[kind])
            x = s.angle("x", 2)
            ov = qd.Overlap(qd.QuantumCircuit(2, bra.block), qd.QuantumCircuit(2, ket.block), method=m)
            vals = {"bra-only": ({"x": x}, {}), "ket-only": ({}, {"x": x}), "same": ({"x": x}, {"x": x}), "none": ({}, {})}[kind]
            got = ov(*vals)
            b = bra.act({"x": x}, 2, O.zero_state(2))
            k = ket.act({"x": x}, 2, O.zero_state(2))
            ip = O.inner(b, k)
            w = (ip.real**2 + ip.imag**2).reshape(-1, 1)
            s.eq(got.expand_as(w) if got.shape[0] == 1 and w.shape[0] == 2 else got, w, "overlap")


@obligation(P, "exact-different-values-of-one-feature")
def ob(s):
    import qadence as qd

    t = O.chain(g("H", 0), g("PHASE", 0, p=f("x")), g("CNOT", 0, 1))
    x, y = s.angle("x", 2), s.angle("y", 2)
    ov = qd.Overlap(qd.QuantumCircuit(2, t.block), qd.QuantumCircuit(2, t.block))
    ip = O.inner(t.act({"x": x}, 2, O.zero_state(2)), t.act({"x": y}, 2, O.zero_state(2)))
    s.eq(ov({"x": x}, {"x": y}), (ip.real**2 + ip.imag**2).reshape(-1, 1), "kernel")


@obligation(P, "exact-initial-states")
def ob(s):
    import qadence as qd

    bra, ket = O.chain(g("RX", 0, p=f("x")), g("CNOT", 0, 1)), O.chain(g("RY", 1, p=f("y")), g("CNOT", 1, 0))
    a, b = s.state("a", 2), s.state("b", 2)
    x, y = s.angle("x"), s.angle("y")
    ov = qd.Overlap(qd.QuantumCircuit(2, bra.block), qd.QuantumCircuit(2, ket.block))
    ip = O.inner(bra.act({"x": x}, 2, a), ket.act({"y": y}, 2, b))
    s.eq(ov({"x": x}, {"y": y}, bra_state=a, ket_state=b), (ip.real**2 + ip.imag**2).reshape(1, 1), "overlap")


@obligation(P, "exact-trainable")
def ob(s):
    """Trainable parameters of both circuits."""
    import qadence as qd

    bra = O.chain(g("RX", 0, p=O.A("t0", lambda e: e["t0"])), g("CNOT", 0, 1))
    ket = O.chain(g("RY", 1, p=O.A("t1", lambda e: e["t1"])), g("CNOT", 1, 0), g("S", 0))
    for m in METHODS:
        ov = qd.Overlap(qd.QuantumCircuit(2, bra.block), qd.QuantumCircuit(2, ket.block), method=m)
        env = {}
        with torch.no_grad():
            for n_, p in ov.named_parameters():
                k = n_.split(".")[-1]
                if k in ("t0", "t1"):
                    if k in env:
                        p.copy_(env[k])
                    else:
                        env[k] = s.bind(p, f"{k}_{m}", -3, 3)
        ip = O.inner(bra.act(env, 2, O.zero_state(2)), ket.act(env, 2, O.zero_state(2)))
        s.eq(ov(), (ip.real**2 + ip.imag**2).reshape(1, 1), m)


for m in METHODS:
    @obligation(P, f"{m}-wider-circuit", timeout=240)
    def ob(s, m=m):
        """Circuits with qubits that no gate touches, and blocks that start at another qubit."""
        import qadence as qd

        x, y = s.angle("x"), s.angle("y")
        n = 3
        for lab, bra, ket in (
            ("untouched end", O.chain(g("RX", 0, p=f("x")), g("CNOT", 0, 1)), O.chain(g("RY", 1, p=f("y")), g("CNOT", 1, 0))),
            ("untouched start", O.chain(g("RX", 1, p=f("x")), g("CNOT", 1, 2)), O.chain(g("RY", 2, p=f("y")), g("CNOT", 2, 1))),
            ("different supports", O.chain(g("RX", 0, p=f("x")), g("CNOT", 0, 2)), g("RY", 1, p=f("y"))),
        ):
            ov = qd.Overlap(qd.QuantumCircuit(n, bra.block), qd.QuantumCircuit(n, ket.block), method=m)
            s.eq(ov({"x": x}, {"y": y}), want(bra, ket, n, x, y), lab)


@obligation(P, "functions")
def ob(s):
    """The overlap functions on arbitrary states."""
    from qadence.overlap import overlap_compute_uncompute, overlap_exact, fidelity
    import qadence.states as st

    a, b = s.state("a", 2, 2), s.state("b", 2, 2)
    ip = O.inner(a, b)
    w = ip.real**2 + ip.imag**2
    s.eq(overlap_exact(a, b), w, "overlap_exact")
    s.eq(fidelity(a, b), w, "fidelity")
    s.eq(st.overlap(a, b), w, "states.overlap")
    s.eq(overlap_compute_uncompute(a), a[:, 0].real ** 2 + a[:, 0].imag ** 2, "compute_uncompute")


for m in METHODS[1:]:
    @obligation(P, f"{m}-different-values-of-one-feature")
    def ob(s, m=m):
        """The same feature name with one value for the bra and another for the ket."""
        import qadence as qd

        t = O.chain(g("H", 0), g("PHASE", 0, p=f("x")))
        x, y = s.angle("x", 2), s.angle("y", 2)
        ov = qd.Overlap(qd.QuantumCircuit(1, t.block), qd.QuantumCircuit(1, t.block), method=m)
        ip = O.inner(t.act({"x": x}, 1, O.zero_state(1)), t.act({"x": y}, 1, O.zero_state(1)))
        s.eq(ov({"x": x}, {"x": y}), (ip.real**2 + ip.imag**2).reshape(-1, 1), "kernel")
