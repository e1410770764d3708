"""C14: feature maps encode the feature with the documented rotation, scaling and range."""
import torch

from symq.runner import obligation
from checks import oracle as O
from checks.builders import DEF, PI, SC, act, angles, feature, rescale

P = "C14"
for basis in ("Fourier", "Chebyshev"):
    for scaling in SC:
        @obligation(P, f"basic-{basis}-{scaling}")
        def ob(s, basis=basis, scaling=scaling):
            import qadence as qd

            x = feature(s, "x", basis)
            for opn in ("RX", "RY", "RZ", "PHASE"):
                psi = s.state("psi" + opn, 3)
                b = qd.feature_map(3, param="x", op=getattr(qd, opn), fm_type=basis, reupload_scaling=scaling)
                s.eq(qd.run(3, b, values={"x": x}, state=psi), act(opn, (0, 1, 2), angles(x, 3, basis, scaling), 3, psi), opn)
            # enumeration members mean the same as their names
            b = qd.feature_map(2, param="x", fm_type=getattr(qd.BasisSet, basis.upper()), reupload_scaling=getattr(qd.ReuploadScaling, {"Constant": "CONSTANT", "Tower": "TOWER", "Exponential": "EXP"}[scaling]))
            psi = s.state("psi", 2)
            s.eq(qd.run(2, b, values={"x": x}, state=psi), act("RX", (0, 1), angles(x, 2, basis, scaling), 2, psi), "enum")


RANGES = [((0.0, 1.0), None), (None, (0.0, 1.0)), ((-2.0, 3.0), (0.5, 4.0)), ((3.0, -1.0), (0.0, PI)), ((10.0, 12.0), (-PI, PI)), ((0.0, 1.0), (2.0, -1.0)), ((0.0, 2 * PI), (1.0, 1.0 + 2 * PI))]
for k, (fr, tr) in enumerate(RANGES):
    @obligation(P, f"ranges-{k}")
    def ob(s, fr=fr, tr=tr):
        import qadence as qd

        psi = s.state("psi", 2)
        x = feature(s, "x", "Fourier", fr=fr)
        b = qd.feature_map(2, param="x", op=qd.RY, feature_range=fr, target_range=tr, reupload_scaling="Tower")
        s.eq(qd.run(2, b, values={"x": x}, state=psi), act("RY", (0, 1), angles(x, 2, "Fourier", "Tower", fr, tr), 2, psi), "fourier")
        # the ends of the feature range are mapped onto the ends of the target range
        f, t = fr or DEF["Fourier"], tr or DEF["Fourier"]
        for end in (min, max):
            got = qd.run(1, qd.feature_map(1, param="x", op=qd.RY, feature_range=fr, target_range=tr), values={"x": torch.tensor([end(f)], dtype=torch.float64)}, state=psi[:, :2])
            s.eq(got, O.apply(O.rot(O.Y2, torch.tensor([end(t)], dtype=torch.float64)), (0,), 1, psi[:, :2]), f"{end.__name__} of the range")


@obligation(P, "ranges-chebyshev")
def ob(s):
    import qadence as qd

    psi = s.state("psi", 2)
    for k, (fr, tr) in enumerate([((0.0, 1.0), None), ((-4.0, 4.0), (-0.9, 0.9)), ((2.0, 3.0), (0.0, 0.5))]):
        x = feature(s, f"x{k}", "Chebyshev", fr=fr)
        b = qd.feature_map(2, param="x", op=qd.RX, fm_type="Chebyshev", feature_range=fr, target_range=tr, reupload_scaling="Tower")
        s.eq(qd.run(2, b, values={"x": x}, state=psi), act("RX", (0, 1), angles(x, 2, "Chebyshev", "Tower", fr, tr), 2, psi), f"chebyshev {k}")


@obligation(P, "support")
def ob(s):
    """The scaling follows the position in the support, not the qubit number."""
    import qadence as qd

    psi = s.state("psi", 4)
    x = feature(s, "x", "Fourier")
    for sup in ((1, 3), (3, 0), (2,), (3, 1, 0)):
        for sc in ("Tower", "Exponential"):
            b = qd.feature_map(len(sup), support=sup, param="x", op=qd.RX, reupload_scaling=sc)
            s.eq(qd.run(4, b, values={"x": x}, state=psi), act("RX", sup, angles(x, len(sup), scaling=sc), 4, psi), f"{sup} {sc}")
    s.raises(lambda: qd.feature_map(2, support=(0, 1, 2)), ValueError, "wrong support")
    s.raises(lambda: qd.feature_map(2, op=qd.H), ValueError, "not a rotation")
    s.raises(lambda: qd.feature_map(2, fm_type="nonsense"), NotImplementedError, "unknown basis")
    s.raises(lambda: qd.feature_map(2, reupload_scaling="nonsense"), NotImplementedError, "unknown scaling")


@obligation(P, "custom")
def ob(s):
    """Own encoding functions, own scalings, own parameters."""
    import qadence as qd
    import sympy

    psi = s.state("psi", 2)
    x = s.real("x", 2, 0.05, 0.95)
    for nm, f, tf in (("asin", sympy.asin, torch.asin), ("square", lambda v: v**2, lambda v: v**2), ("poly", lambda v: v**3 - 2 * v, lambda v: v**3 - 2 * v)):
        b = qd.feature_map(2, param="x", op=qd.RY, fm_type=f, reupload_scaling=lambda i: 5 * i + 2)
        a = [(5 * i + 2) * tf(x) for i in range(2)]
        s.eq(qd.run(2, b, values={"x": x}, state=psi), act("RY", (0, 1), a, 2, psi), nm)
    p = qd.VariationalParameter("q", value=0.5)
    b = qd.feature_map(2, param=p)
    s.eq(qd.run(2, b, values={"q": x}, state=psi), act("RX", (0, 1), angles(x, 2), 2, psi), "parameter")
    from qadence.blocks.utils import parameters

    s.fact({str(t): t.trainable for t in parameters(b) if not t.is_number} == {"q": False}, "the feature is not trainable")


@obligation(P, "multiplier")
def ob(s):
    import qadence as qd

    psi = s.state("psi", 2)
    x = feature(s, "x", "Fourier")
    m = s.real("m", 2, -2, 2)
    for nm, mult, v, env in (("number", 2.5, 2.5, {}), ("negative", -0.5, -0.5, {}), ("name", "m", m, {"m": m}), ("param", qd.FeatureParameter("m"), m, {"m": m}), ("expr", qd.FeatureParameter("m") + 1, m + 1, {"m": m})):
        b = qd.feature_map(2, param="x", op=qd.RZ, multiplier=mult, reupload_scaling="Tower")
        s.eq(qd.run(2, b, values={"x": x, **env}, state=psi), act("RZ", (0, 1), angles(x, 2, scaling="Tower", mult=v), 2, psi), nm)


@obligation(P, "trainable")
def ob(s):
    """param_prefix: one trainable weight per qubit, inside the encoding function."""
    import qadence as qd
    from qadence.blocks.utils import parameters

    psi = s.state("psi", 3)
    x = feature(s, "x", "Fourier")
    w = [s.real(f"w{i}", 1, -2, 2) for i in range(3)]
    b = qd.feature_map(3, param="x", op=qd.RX, param_prefix="w", reupload_scaling="Exponential", feature_range=(-1.0, 1.0))
    s.eq(qd.run(3, b, values={"x": x, **{f"w_{i}": v for i, v in enumerate(w)}}, state=psi), act("RX", (0, 1, 2), angles(x, 3, scaling="Exponential", fr=(-1.0, 1.0), w=w), 3, psi), "fourier")
    s.fact({str(p): p.trainable for p in parameters(b) if not p.is_number} == {"x": False, "w_0": True, "w_1": True, "w_2": True}, "roles")
    y = s.real("y", 2, -0.9, 0.9)
    v = [s.real(f"v{i}", 1, 0.1, 0.9) for i in range(2)]
    b = qd.feature_map(2, param="x", op=qd.RX, param_prefix="w", fm_type="Chebyshev")
    s.eq(qd.run(2, b, values={"x": y, **{f"w_{i}": u for i, u in enumerate(v)}}, state=psi[:, :4]), act("RX", (0, 1), angles(y, 2, "Chebyshev", w=v), 2, psi[:, :4]), "chebyshev")


@obligation(P, "exp-fourier")
def ob(s):
    import qadence as qd

    for n in (1, 2, 3):
        psi = s.state(f"psi{n}", n)
        for fr in (None, (-1.0, 3.0)):
            f = fr or (0.0, 2.0**n)
            x = s.real(f"x{n}{fr}", 2, *f)
            b = qd.exp_fourier_feature_map(n, param="y", feature_range=fr)
            v = psi
            for q in range(n):
                v = O.apply(O.H2, (q,), n, v)
            v = act("RZ", range(n), angles(x, n, scaling="Exponential", fr=f, tr=(0.0, 2 * PI)), n, v)
            s.eq(qd.run(n, b, values={"y": x}, state=psi), v, f"{n} {fr}")
    psi = s.state("psi", 3)
    x = s.real("xs", 2, 0, 4)
    v = psi
    for q in (2, 0):
        v = O.apply(O.H2, (q,), 3, v)
    v = act("RZ", (2, 0), angles(x, 2, scaling="Exponential", fr=(0.0, 4.0), tr=(0.0, 2 * PI)), 3, v)
    s.eq(qd.run(3, qd.exp_fourier_feature_map(2, support=(2, 0)), values={"x": x}, state=psi), v, "support")


@obligation(P, "two-maps")
def ob(s):
    """Several maps of different features in one circuit do not interfere."""
    import qadence as qd

    psi = s.state("psi", 3)
    x, y = feature(s, "x", "Fourier"), feature(s, "y", "Chebyshev")
    b = qd.chain(
        qd.kron(qd.feature_map(1, support=(2,), param="x"), qd.feature_map(2, support=(0, 1), param="y", op=qd.RY, fm_type="Chebyshev", reupload_scaling="Tower")),
        qd.CNOT(0, 2),
        qd.feature_map(3, param="x", op=qd.RZ, reupload_scaling="Exponential"),
    )
    v = act("RX", (2,), angles(x, 1), 3, psi)
    v = act("RY", (0, 1), angles(y, 2, "Chebyshev", "Tower"), 3, v)
    v = O.apply(O.ctrl(O.X2, 1), (0, 2), 3, v)
    v = act("RZ", (0, 1, 2), angles(x, 3, scaling="Exponential"), 3, v)
    s.eq(qd.run(3, b, values={"x": x, "y": y}, state=psi), v, "two")
    f = qd.QuantumModel(qd.QuantumCircuit(3, b), qd.total_magnetization(3) if hasattr(qd, "total_magnetization") else qd.add(qd.Z(0), qd.Z(1), qd.Z(2)))
    v = act("RX", (2,), angles(x, 1), 3, O.zero_state(3))
    v = act("RY", (0, 1), angles(y, 2, "Chebyshev", "Tower"), 3, v)
    v = O.apply(O.ctrl(O.X2, 1), (0, 2), 3, v)
    v = act("RZ", (0, 1, 2), angles(x, 3, scaling="Exponential"), 3, v)
    z = sum(O.embed(O.Z2, (q,), 3) for q in range(3))
    s.eq(f.expectation({"x": x, "y": y}), O.expect(z, v).reshape(-1, 1), "model")
