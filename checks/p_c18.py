"""C18: analog blocks evolve the register under the documented Rydberg Hamiltonian for the documented time."""
import itertools
import math

import torch

from symq.runner import obligation
from checks import oracle as O
from checks.builders import angles, feature

P = "C18"
PI = math.pi
C6 = {50: 96120.72, 60: 865723.02, 70: 5420158.53}  # rad um^6 / us, the documented table
NN, XY = "NN", "XY"


def one(m, q, n):
    return O.kron(*[m if i == q else O.I2 for i in range(n)])


def two(m, i, j, n):
    return O.kron(*[m if q in (i, j) else O.I2 for q in range(n)])


def t64(x):
    return x if isinstance(x, torch.Tensor) else torch.as_tensor(x, dtype=torch.float64)


def h_int(pts, kind=NN, c=C6[60], n=None):
    """Every pair of atoms interacts: c/r^6 N N, or c/r^3 (XX + YY)."""
    n = n or len(pts)
    out = torch.zeros((1, 2**n, 2**n), dtype=O.CD)
    for i, j in itertools.combinations(range(n), 2):
        r2 = sum((t64(a) - t64(b)) ** 2 for a, b in zip(pts[i], pts[j]))
        if kind == NN:
            out = out + O.col(c / r2**3) * two(O.N2, i, j, n)
        else:
            out = out + O.col(c / (r2 * torch.sqrt(r2))) * (two(O.X2, i, j, n) + two(O.Y2, i, j, n))
    return out


def h_drive(n, sup, omega=0.0, delta=0.0, phase=0.0):
    out = torch.zeros((1, 2**n, 2**n), dtype=O.CD)
    for q in sup:
        out = out + O.col(t64(omega) / 2 * torch.cos(t64(phase))) * one(O.X2, q, n) - O.col(t64(omega) / 2 * torch.sin(t64(phase))) * one(O.Y2, q, n) - O.col(t64(delta)) * one(O.N2, q, n)
    return out


def evolve(h, us, psi, n):
    """exp(-i h t) psi."""
    return O.apply(torch.linalg.matrix_exp(-1j * O.col(t64(us)) * h), tuple(range(n)), n, psi)


def line(n, d):
    return [(d * i, 0.0) for i in range(n)]


def go(s, reg, block, vals, psi, want, label, tol=None):
    import qadence as qd

    kw = {} if tol is None else {"tol": tol}
    s.eq(qd.run(reg, block, values=vals, state=psi), want, label, **kw)


# ------------------------------------------------------------------------------------------------ one atom
@obligation(P, "one-atom-rotations")
def ob(s):
    """Closed forms: rotations about x and y, diag(1, e^{i angle}) for z; numbers, names, features and expressions."""
    import qadence as qd

    psi = s.state("psi", 1)
    reg = qd.Register(1)
    a, b = s.angle("a", 1), s.angle("b", 2)
    for nm, m in (("RX", lambda t: O.rot(O.X2, t)), ("RY", lambda t: O.rot(O.Y2, t)), ("RZ", O.phase)):
        op = getattr(qd, "Analog" + nm)
        go(s, reg, op("a"), {"a": a}, psi, O.apply(m(a), (0,), 1, psi), f"{nm} named")
        go(s, reg, op("a", qubit_support=(0,)), {"a": a}, psi, O.apply(m(a), (0,), 1, psi), f"{nm} local")
        go(s, reg, op(0.8), {}, psi, O.apply(m(torch.tensor([0.8])), (0,), 1, psi), f"{nm} number")
        go(s, reg, op(2 * qd.FeatureParameter("b") + 0.3), {"b": b}, psi, O.apply(m(2 * b + 0.3), (0,), 1, psi), f"{nm} expression")


@obligation(P, "one-atom-general")
def ob(s):
    """H = omega/2 (cos phase X - sin phase Y) - delta N for duration nanoseconds; every argument symbolic."""
    import qadence as qd

    psi = s.state("psi", 1)
    reg = qd.Register(1)
    t, w, d, p = s.real("t", 1, 50, 2000), s.real("w", 1, 0.5, 15), s.real("d", 1, -20, 20), s.angle("p", 1)
    vals = {"t": t, "w": w, "d": d, "p": p}
    go(s, reg, qd.AnalogRot(duration="t", omega="w", delta="d", phase="p"), vals, psi, evolve(h_drive(1, (0,), w, d, p), t / 1000, psi, 1), "all named")
    go(s, reg, qd.AnalogRot(duration="t", omega="w"), vals, psi, O.apply(O.rot(O.X2, w * t / 1000), (0,), 1, psi), "omega only")
    go(s, reg, qd.AnalogRot(duration="t", omega="w", phase=-PI / 2), vals, psi, O.apply(O.rot(O.Y2, w * t / 1000), (0,), 1, psi), "omega and phase")
    go(s, reg, qd.AnalogRot(duration="t", delta="d"), vals, psi, O.apply(O.phase(d * t / 1000), (0,), 1, psi), "delta only")
    go(s, reg, qd.AnalogRot(duration=300.0, omega="w", delta=2.5, phase="p"), vals, psi, evolve(h_drive(1, (0,), w, 2.5, p), 0.3, psi, 1), "mixed")
    tt = s.real("tt", 3, 50, 2000)
    go(s, reg, qd.AnalogRot(duration=qd.FeatureParameter("t"), omega=3.0, phase="p"), {"t": tt, "p": p}, psi, evolve(h_drive(1, (0,), 3.0, 0.0, p), tt / 1000, psi, 1), "batch of durations")
    s.raises(lambda: qd.AnalogRot(duration="t"), ValueError, "no drive")


# ------------------------------------------------------------------------------------------------ interaction
def device(kind=NN, level=60, c3=3700.0, pattern=None):
    from qadence.analog import RydbergDevice
    from qadence.types import Interaction

    return RydbergDevice(interaction=getattr(Interaction, kind), rydberg_level=level, coeff_xy=c3, pattern=pattern)


DEVS = {"nn60": (NN, 60, 3700.0, C6[60]), "nn50": (NN, 50, 3700.0, C6[50]), "nn70": (NN, 70, 1.0, C6[70]), "xy": (XY, 60, 3700.0, 3700.0), "xy2": (XY, 50, 120.0, 120.0)}
SHAPES = {
    "line": (3, lambda qd, **k: qd.Register.line(3, **k), line(3, 1.0)),
    "lattice": (4, lambda qd, **k: qd.Register.rectangular_lattice(2, 2, **k), [(0.0, 0.0), (0.0, 1.0), (1.0, 0.0), (1.0, 1.0)]),
}
for dn, (kind, level, c3, c) in DEVS.items():
    @obligation(P, f"interaction-{dn}", max_paths=40)
    def ob(s, dn=dn, kind=kind, level=level, c3=c3, c=c):
        """Free evolution: all pairs interact, for every duration and state, on every shape."""
        import qadence as qd

        t = s.real("t", 1, 10, 2000)
        for d, (sh, (n, mk, unit)) in itertools.product((6.5, 11.7), SHAPES.items()):
            if kind == XY and sh != "line":
                continue
            psi = s.state(f"psi{sh}{d}", n)
            reg = mk(qd, spacing=d, device_specs=device(kind, level, c3))
            h = h_int([(d * x, d * y) for x, y in unit], kind, c)
            go(s, reg, qd.AnalogInteraction("t"), {"t": t}, psi, evolve(h, t / 1000, psi, n), f"{sh} {d}", tol=1e-5)
        if dn == "nn60":
            reg = qd.Register.line(2, spacing=d)
            psi = s.state("psi2", 2)
            go(s, reg, qd.AnalogInteraction("t"), {"t": t}, psi, evolve(h_int(line(2, d)), t / 1000, psi, 2), "default device")
            go(s, reg, qd.AnalogInteraction("t", qubit_support=(0, 1)), {"t": t}, psi, evolve(h_int(line(2, d)), t / 1000, psi, 2), "support given")
            go(s, reg, qd.AnalogInteraction(250), {}, psi, evolve(h_int(line(2, d)), 0.25, psi, 2), "number")


@obligation(P, "interaction-coordinates", max_paths=40)
def ob(s):
    """Three atoms in general position."""
    import qadence as qd

    t = s.real("t", 1, 10, 2000)
    xy = [(0.3, 0.0), (8.1, 2.2), (3.9, 7.4)]
    reg = qd.Register.from_coordinates(xy)
    psi = s.state("psi", 3)
    go(s, reg, qd.AnalogInteraction("t"), {"t": t}, psi, evolve(h_int(xy), t / 1000, psi, 3), "coordinates")


# ------------------------------------------------------------------------------------------------ driven registers
DRIVES = {
    "global": (2, None), "global3": (3, None), "first": (2, (0,)), "last": (3, (2,)), "middle": (3, (1,)), "two": (3, (2, 0)),
}
for nm, (n, sup) in DRIVES.items():
    for kind in (NN, XY):
        @obligation(P, f"drive-{nm}-{kind}", max_paths=40)
        def ob(s, n=n, sup=sup, kind=kind):
            """Drive on the support plus interaction between all atoms, in one exponential."""
            import qadence as qd

            t, w, d, p = s.real("t", 1, 50, 2000), s.real("w", 1, 0.5, 15), s.real("d", 1, -20, 20), s.angle("p", 1)
            a = s.angle("a", 1)
            sp = 7.3
            reg = qd.Register.line(n, spacing=sp, device_specs=device(kind))
            hi = h_int(line(n, sp), kind, C6[60] if kind == NN else 3700.0)
            q = tuple(range(n)) if sup is None else sup
            k = {} if sup is None else {"qubit_support": sup}
            psi = s.state("psi", n)
            vals = {"t": t, "w": w, "d": d, "p": p, "a": a}
            go(s, reg, qd.AnalogRot(duration="t", omega="w", delta="d", phase="p", **k), vals, psi, evolve(hi + h_drive(n, q, w, d, p), t / 1000, psi, n), "AnalogRot")
            go(s, reg, qd.AnalogRot(duration="t", delta="d", **k), vals, psi, evolve(hi + h_drive(n, q, 0.0, d), t / 1000, psi, n), "detuning only")
            go(s, reg, qd.AnalogRX("a", **k), vals, psi, evolve(hi + h_drive(n, q, PI), a / PI, psi, n), "AnalogRX")
            go(s, reg, qd.AnalogRY("a", **k), vals, psi, evolve(hi + h_drive(n, q, PI, 0.0, -PI / 2), a / PI, psi, n), "AnalogRY")
            go(s, reg, qd.AnalogRZ("a", **k), vals, psi, evolve(hi + h_drive(n, q, 0.0, PI), a / PI, psi, n), "AnalogRZ")


# ------------------------------------------------------------------------------------------------ compositions
@obligation(P, "sequences", max_paths=20)
def ob(s):
    """Chains of analog and digital blocks in order; every analog block carries its own drive and the same interaction."""
    import qadence as qd

    n = 2
    a, b, t = s.angle("a", 1), s.angle("b", 1), s.real("t", 1, 10, 500)
    reg = qd.Register.line(n, spacing=8.0)
    hi = h_int(line(n, 8.0))
    psi = s.state("psi", n)
    vals = {"a": a, "b": b, "t": t}
    rx = lambda v, sup, x: evolve(hi + h_drive(n, sup, PI), v / PI, x, n)
    ry = lambda v, sup, x: evolve(hi + h_drive(n, sup, PI, 0.0, -PI / 2), v / PI, x, n)
    free = lambda v, x: evolve(hi, v / 1000, x, n)
    go(s, reg, qd.chain(qd.AnalogRX("a"), qd.AnalogInteraction("t"), qd.AnalogRY("b")), vals, psi, ry(b, (0, 1), free(t, rx(a, (0, 1), psi))), "analog chain")
    go(s, reg, qd.chain(qd.AnalogInteraction("t"), qd.chain(qd.AnalogRX("a"), qd.AnalogInteraction(100))), vals, psi, free(torch.tensor([100.0]), rx(a, (0, 1), free(t, psi))), "nested chain")
    go(s, reg, qd.chain(qd.RX(0, "b"), qd.AnalogRX("a"), qd.CNOT(1, 0)), vals, psi, O.apply(O.ctrl(O.X2, 1), (1, 0), n, rx(a, (0, 1), O.apply(O.rot(O.X2, b), (0,), n, psi))), "digital around")
    go(s, reg, qd.chain(qd.AnalogRX("a", qubit_support=(1,)), qd.H(0)), vals, psi, O.apply(O.H2, (0,), n, rx(a, (1,), psi)), "local, then digital")
    # blocks of a kron are applied one after another, as documented
    k = qd.kron(qd.AnalogRX("a", qubit_support=(0,)), qd.AnalogRY("a", qubit_support=(1,)))
    go(s, reg, k, vals, psi, ry(a, (1,), rx(a, (0,), psi)), "kron")
    k = qd.kron(qd.AnalogInteraction(200, qubit_support=(0,)), qd.AnalogRot(duration=200, omega=3.0, qubit_support=(1,)))
    go(s, reg, k, vals, psi, evolve(hi + h_drive(n, (1,), 3.0), 0.2, psi, n), "kron with a free atom")
    k = qd.chain(qd.kron(qd.AnalogRX("a", qubit_support=(0,)), qd.AnalogRX("a", qubit_support=(1,))), qd.AnalogRX("b"))
    go(s, reg, k, vals, psi, rx(b, (0, 1), rx(a, (1,), rx(a, (0,), psi))), "chain of a kron")


@obligation(P, "kron-of-interactions")
def ob(s):
    """Only free atoms in a kron: free evolution for the common duration."""
    import qadence as qd

    reg = qd.Register.line(2, spacing=8.0)
    psi = s.state("psi", 2)
    k = qd.kron(qd.AnalogInteraction(200, qubit_support=(0,)), qd.AnalogInteraction(200, qubit_support=(1,)))
    go(s, reg, k, {}, psi, evolve(h_int(line(2, 8.0)), 0.2, psi, 2), "kron of interactions")


@obligation(P, "models", max_paths=20)
def ob(s):
    """Models: wave function, expectation values, derivatives; several registers alive at once; no interference."""
    import qadence as qd

    n = 2
    a, b = s.angle("a", 2), s.angle("b", 1)
    psi = s.state("psi", n)
    z = qd.Z(0) + 0.5 * qd.X(1)
    zm = one(O.Z2, 0, n) + 0.5 * one(O.X2, 1, n)
    block = qd.chain(qd.AnalogRZ(qd.FeatureParameter("a")), qd.RY(0, "b"), qd.AnalogInteraction(300))
    ms = {}
    for sp in (7.0, 9.0):
        reg = qd.Register.line(n, spacing=sp)
        ms[sp] = qd.QuantumModel(qd.QuantumCircuit(reg, block), observable=z)
    for sp, m in ms.items():
        m.reset_vparams([b])
        hi = h_int(line(n, sp))
        out = evolve(hi + h_drive(n, (0, 1), 0.0, PI), a / PI, psi, n)
        out = evolve(hi, 0.3, O.apply(O.rot(O.Y2, b), (0,), n, out), n)
        s.eq(m.run({"a": a}, state=psi), out, f"run {sp}")
        s.eq(m.expectation({"a": a}, state=psi), O.expect(zm, out).reshape(-1, 1), f"expectation {sp}")


for nm in ("RX", "RY", "RZ"):
    @obligation(P, f"derivative-{nm}")
    def ob(s, nm=nm):
        """Derivative of an expectation value with respect to the angle and to the duration, by automatic differentiation."""
        import qadence as qd

        a = s.angle("a", 1)
        a.requires_grad_()
        psi = s.state("psi", 1)
        reg = qd.Register(1)
        m = qd.QuantumModel(qd.QuantumCircuit(reg, getattr(qd, "Analog" + nm)(qd.FeatureParameter("a"))), observable=qd.X(0) + 2 * qd.Z(0), diff_mode="ad")
        got = m.expectation({"a": a}, state=psi)
        op = {"RX": lambda t: O.rot(O.X2, t), "RY": lambda t: O.rot(O.Y2, t), "RZ": O.phase}[nm]
        g, = torch.autograd.grad(got, a, torch.ones_like(got))
        s.eq(g, s.grad(lambda e: O.expect(O.c(O.X2 + 2 * O.Z2), O.apply(op(e["a"]), (0,), 1, psi)), {"a": a}, "a"), "derivative")


# ------------------------------------------------------------------------------------------------ addressing
def h_pattern(n, amp, det, wa, wd):
    out = torch.zeros((1, 2**n, 2**n), dtype=O.CD)
    for q in range(n):
        out = out + O.col(t64(amp) * t64(wa.get(q, 0.0)) / 2) * one(O.X2, q, n) + O.col(t64(det) * t64(wd.get(q, 0.0))) * one(O.N2, q, n)
    return out


PATS = {
    "both": dict(amp=2.5, det=9.0, wa={0: 0.2, 1: 0.7}, wd={0: 0.9, 1: 0.4}),
    "det-only": dict(amp=0.0, det=11.0, wa={}, wd={1: 0.8}),
    "amp-only": dict(amp=1.5, det=0.0, wa={0: 1.0}, wd={}),
    "missing": dict(amp=2.0, det=7.0, wa={1: 0.5}, wd={0: 0.3}),
    "negative-detuning": dict(amp=2.0, det=-7.0, wa={1: 0.5}, wd={0: 0.3, 1: 0.2}),
}
for nm, kw in PATS.items():
    @obligation(P, f"pattern-{nm}", max_paths=20)
    def ob(s, kw=kw):
        """A fixed pattern adds amp/2 w X - |det| w (-N) to every analog block, unless the block opts out."""
        import qadence as qd
        from qadence.analog import AddressingPattern, IdealDevice

        n = 2
        t, a = s.real("t", 1, 10, 500), s.angle("a", 1)
        psi = s.state("psi", n)
        pat = AddressingPattern(n_qubits=n, amp=kw["amp"], det=kw["det"], weights_amp=dict(kw["wa"]), weights_det=dict(kw["wd"]))
        reg = qd.Register.line(n, spacing=8.0, device_specs=IdealDevice(pat))
        hi = h_int(line(n, 8.0))
        hp = h_pattern(n, kw["amp"], abs(kw["det"]), kw["wa"], kw["wd"])
        go(s, reg, qd.AnalogInteraction("t"), {"t": t}, psi, evolve(hi + hp, t / 1000, psi, n), "free")
        go(s, reg, qd.AnalogInteraction("t", add_pattern=False), {"t": t}, psi, evolve(hi, t / 1000, psi, n), "free, without pattern")
        go(s, reg, qd.AnalogRX("a"), {"a": a}, psi, evolve(hi + hp + h_drive(n, (0, 1), PI), a / PI, psi, n), "driven")
        go(s, reg, qd.AnalogRY("a", qubit_support=(1,)), {"a": a}, psi, evolve(hi + hp + h_drive(n, (1,), PI, 0.0, -PI / 2), a / PI, psi, n), "driven locally")
        go(s, reg, qd.AnalogRZ("a", add_pattern=False), {"a": a}, psi, evolve(hi + h_drive(n, (0, 1), 0.0, PI), a / PI, psi, n), "driven, without pattern")
        go(s, reg, qd.chain(qd.AnalogRX("a", add_pattern=False), qd.AnalogInteraction("t")), {"a": a, "t": t}, psi, evolve(hi + hp, t / 1000, evolve(hi + h_drive(n, (0, 1), PI), a / PI, psi, n), n), "mixed")


# ------------------------------------------------------------------------------------------------ constructors
@obligation(P, "analog-feature-map")
def ob(s):
    import qadence as qd

    reg = qd.Register(1)
    psi = s.state("psi", 1)
    x, c, m = feature(s, "x", "Fourier"), feature(s, "c", "Chebyshev"), s.real("m", 1, 0.2, 3)
    rot = {"AnalogRX": lambda t: O.rot(O.X2, t), "AnalogRY": lambda t: O.rot(O.Y2, t), "AnalogRZ": O.phase}
    for nm, f in rot.items():
        op = getattr(qd, nm)
        act = lambda ang, f=f: O.apply(f(ang), (0,), 1, psi)
        go(s, reg, qd.analog_feature_map("x", op=op), {"x": x}, psi, act(angles(x, 1)[0]), f"{nm} Fourier")
        go(s, reg, qd.analog_feature_map("x", op=op, fm_type=qd.BasisSet.CHEBYSHEV), {"x": c}, psi, act(angles(c, 1, "Chebyshev")[0]), f"{nm} Chebyshev")
        go(s, reg, qd.analog_feature_map("x", op=op, feature_range=(0.0, 2 * PI), target_range=(-1.0, 3.0)), {"x": x}, psi, act(angles(x, 1, fr=(0.0, 2 * PI), tr=(-1.0, 3.0))[0]), f"{nm} ranges")
        go(s, reg, qd.analog_feature_map("x", op=op, multiplier="m"), {"x": x, "m": m}, psi, act(angles(x, 1, mult=m)[0]), f"{nm} multiplier")
    go(s, reg, qd.analog_feature_map("x", reupload_scaling=lambda op, p: qd.chain(op(p), op(2 * p))), {"x": x}, psi, O.apply(O.rot(O.X2, 3 * x), (0,), 1, psi), "own scaling")


@obligation(P, "rydberg-feature-maps")
def ob(s):
    """Tower of detunings: atom i turns by -weight_i times the feature; the interaction acts in every step."""
    import qadence as qd

    n = 2
    x = s.real("x", 2, 0.1, 3)
    psi = s.state("psi", n)
    reg = qd.Register.line(n, spacing=9.0)
    hi = h_int(line(n, 9.0))
    for nm, b, w, md in (
        ("tower", qd.rydberg_tower_feature_map(n, "x"), [1.0, 2.0], 2 * PI * 10),
        ("weights", qd.rydberg_feature_map(n, "x", max_abs_detuning=30.0, weights=[0.5, 0.75]), [0.5, 0.75], 30.0),
    ):
        det = md / sum(w)
        out = psi
        for q in range(n):
            out = evolve(hi + h_drive(n, (q,), 0.0, -det * w[q]), x / det, out, n)
        go(s, reg, b, {"x": x}, psi, out, nm, tol=1e-5)


for n, kw in ((2, {}), (2, dict(addressable_drive=True)), (2, dict(addressable_detuning=False)), (2, dict(tunable_phase=True)), (3, dict(addressable_drive=True, tunable_phase=True)), (2, dict(n_layers=2, additional_prefix="q", tunable_phase=True))):
    @obligation(P, f"rydberg-hea-{n}-" + "-".join(f"{k}" for k in kw))
    def ob(s, n=n, kw=kw):
        """Per layer: drive with interaction, interaction alone, detuning; with the documented parameters."""
        import qadence as qd

        reg = qd.Register.line(n)
        pre = "_" + kw["additional_prefix"] if "additional_prefix" in kw else ""
        L = kw.get("n_layers", 1)
        b = qd.rydberg_hea(reg, **kw)
        env = {}
        for i in range(L):
            env |= {f"{k}{pre}_{i}": s.real(f"{k}{i}", 1, 0.1, 2) for k in ("At", "Omega", "wait")}
        if kw.get("addressable_detuning", True):
            env |= {f"detmap_{j}": s.real(f"detmap{j}", 1, -2, 2) for j in range(n)}
        if kw.get("addressable_drive"):
            env |= {f"drivemap_{j}": s.real(f"drivemap{j}", 1, *((0.1, 2) if j % 2 else (-2, -0.1))) for j in range(n)}
        if kw.get("tunable_phase"):
            env["phase"] = s.angle("phase", 1)
        from qadence.blocks.utils import parameters

        s.fact({str(p): bool(p.trainable) for p in parameters(b) if not p.is_number} == {k: True for k in env}, "parameters")
        nn = sum(two(O.N2, i, i + 1, n) for i in range(n - 1))
        dr = torch.zeros((1, 2**n, 2**n), dtype=O.CD)
        de = torch.zeros((1, 2**n, 2**n), dtype=O.CD)
        ph = env.get("phase", torch.zeros(1, dtype=torch.float64))
        for j in range(n):
            w = O.col(env.get(f"drivemap_{j}", torch.ones(1, dtype=torch.float64)))
            dr = dr + w * (O.col(torch.cos(ph)) * one(O.X2, j, n) - O.col(torch.sin(ph)) * one(O.Y2, j, n))
            de = de + O.col(env.get(f"detmap_{j}", torch.ones(1, dtype=torch.float64))) * one(O.N2, j, n)
        psi = s.state("psi", n)
        out = psi
        for i in range(L):
            out = evolve(dr + nn, env[f"At{pre}_{i}"], out, n)
            out = evolve(nn, env[f"wait{pre}_{i}"], out, n)
            out = evolve(de, env[f"Omega{pre}_{i}"], out, n)
        go(s, n, b, env, psi, out, "rydberg hea")


@obligation(P, "analog-swap")
def ob(s):
    """AnalogSWAP exchanges two qubits up to a global phase, wherever they are."""
    import qadence as qd

    for n, i, j in ((2, 0, 1), (2, 1, 0), (3, 2, 0)):
        psi = s.state(f"psi{n}{i}{j}", n)
        sw = O.apply(torch.tensor([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=O.CD), (i, j), n, psi)
        got = qd.run(n, qd.AnalogSWAP(i, j), state=psi)
        a = O.inner(sw, got)
        nrm = O.inner(psi, psi)
        s.eq(a * a.conj(), nrm * nrm, f"overlap {n} {i} {j}", tol=1e-4)


@obligation(P, "pattern-limits", max_paths=20)
def ob(s):
    """Where a weighted value exceeds what the device allows for one atom, that atom gets no pattern; others keep theirs."""
    import qadence as qd
    from qadence.analog import AddressingPattern, IdealDevice

    n = 2
    t = s.real("t", 1, 10, 500)
    psi = s.state("psi", n)
    hi = h_int(line(n, 8.0))
    for nm, amp, det, wa, wd, ea, ed in (
        ("amplitude", 6.5, 9.0, {0: 0.1, 1: 0.8}, {0: 0.9, 1: 1.0}, {0: 0.1}, {0: 0.9, 1: 1.0}),
        ("detuning", 2.0, 500.0, {0: 0.1, 1: 0.8}, {0: 0.9, 1: 0.1}, {0: 0.1, 1: 0.8}, {1: 0.1}),
    ):
        pat = AddressingPattern(n_qubits=n, amp=amp, det=det, weights_amp=wa, weights_det=wd)
        reg = qd.Register.line(n, spacing=8.0, device_specs=IdealDevice(pat))
        go(s, reg, qd.AnalogInteraction("t"), {"t": t}, psi, evolve(hi + h_pattern(n, amp, det, ea, ed), t / 1000, psi, n), nm)


@obligation(P, "pattern-default", max_paths=20)
def ob(s):
    """The default amplitude and detuning are the largest allowed for one atom; a weight of one gives exactly that."""
    import qadence as qd
    from qadence.analog import AddressingPattern, IdealDevice

    n = 2
    t = s.real("t", 1, 10, 500)
    psi = s.state("psi", n)
    hi = h_int(line(n, 8.0))
    pat = AddressingPattern(n_qubits=n, weights_amp={0: 0.5, 1: 0.2}, weights_det={0: 0.25})
    reg = qd.Register.line(n, spacing=8.0, device_specs=IdealDevice(pat))
    go(s, reg, qd.AnalogInteraction("t"), {"t": t}, psi, evolve(hi + h_pattern(n, 3.0, 40 * PI, {0: 0.5, 1: 0.2}, {0: 0.25}), t / 1000, psi, n), "weights below one")
    pat = AddressingPattern(n_qubits=n, weights_amp={0: 1.0}, weights_det={})
    reg = qd.Register.line(n, spacing=8.0, device_specs=IdealDevice(pat))
    go(s, reg, qd.AnalogInteraction("t"), {"t": t}, psi, evolve(hi + h_pattern(n, 3.0, 0.0, {0: 1.0}, {}), t / 1000, psi, n), "weight one")


@obligation(P, "pattern-trainable", max_paths=20)
def ob(s):
    """Trainable weights and maximal values enter the pattern; weights smoothly restricted to [0, 1]."""
    import qadence as qd
    from qadence.analog import AddressingPattern, IdealDevice

    n = 2
    t = s.real("t", 1, 10, 500)
    env = {"t": t, "A": s.real("A", 1, 0.5, 2.5), "D": s.real("D", 1, 1.0, 20.0)} | {f"u{i}": s.real(f"u{i}", 1, 0.1, 0.6) for i in range(n)} | {f"v{i}": s.real(f"v{i}", 1, 0.1, 0.6) for i in range(n)}
    psi = s.state("psi", n)
    hi = h_int(line(n, 8.0))
    sig = lambda x: 1.0 / (1.0 + torch.exp(-x))
    soft = lambda w: w * (sig(20 * (w + 1)) - sig(20 * (w - 1)))
    pat = AddressingPattern(n_qubits=n, amp="A", det="D", weights_amp={i: f"u{i}" for i in range(n)}, weights_det={i: f"v{i}" for i in range(n)})
    reg = qd.Register.line(n, spacing=8.0, device_specs=IdealDevice(pat))
    wa, wd = {i: soft(env[f"u{i}"]) for i in range(n)}, {i: soft(env[f"v{i}"]) for i in range(n)}
    go(s, reg, qd.AnalogInteraction("t"), env, psi, evolve(hi + h_pattern(n, env["A"], env["D"], wa, wd), t / 1000, psi, n), "all trainable")
    pat = AddressingPattern(n_qubits=n, amp="A", det=5.0, weights_amp={0: 0.5}, weights_det={1: "v1"})
    reg = qd.Register.line(n, spacing=8.0, device_specs=IdealDevice(pat))
    go(s, reg, qd.AnalogRZ("t"), env, psi, evolve(hi + h_drive(n, (0, 1), 0.0, PI) + h_pattern(n, env["A"], 5.0, {0: 0.5}, {1: wd[1]}), t / PI, psi, n), "some trainable")
