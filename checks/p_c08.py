"""C08: what is saved and loaded again means the same."""
import json
import math

import torch

from symq.runner import obligation
from checks import oracle as O

P = "C08"


def params(s, k, batch=2, pre="p"):
    return {f"{pre}{i}": s.angle(f"{pre}{i}", batch) for i in range(k)}


def blocks():
    import qadence as qd
    import sympy as sp

    g = lambda n, *q, p=(): O.gate(n, *q, params=[p] if not isinstance(p, (list, tuple)) else list(p))
    x, y = qd.FeatureParameter("p0"), qd.FeatureParameter("p1")
    zx = lambda: O.kronb(O.gate("Z", 0), O.gate("X", 1))
    r = {n: (lambda n=n: O.chain(g("RY", 1, p=0.3), g(n, 1))) for n in ("I", "X", "Y", "Z", "N", "H", "S", "SDagger", "T")}
    r |= {n: (lambda n=n: g(n, 1, p="p0")) for n in ("RX", "RY", "RZ", "PHASE")}
    r |= {n: (lambda n=n: g(n, 2, 0, p="p0")) for n in ("CRX", "CRY", "CRZ", "CPHASE")}
    r |= {n: (lambda n=n: g(n, 2, 0, 1, p="p0")) for n in ("MCRX", "MCRY", "MCRZ", "MCPHASE")}
    r |= {n: (lambda n=n: g(n, 2, 0)) for n in ("CNOT", "CZ", "SWAP")}
    r |= {n: (lambda n=n: g(n, 2, 0, 1)) for n in ("Toffoli", "CSWAP", "MCZ")}
    r |= {
        "U": lambda: g("U", 1, p=["p0", "p1", 0.3]),
        "projector": lambda: O.projector("10", "10", (1, 0)),
        "ketbra": lambda: O.projector("10", "01", (0, 2)),
        "scale": lambda: O.scale(g("X", 0), 2.5),
        "scale-parameter": lambda: O.scale(O.add(g("X", 0), zx()), "p0"),
        "scale-expression": lambda: O.scale(g("Y", 1), O.A(2 * x * y - 1, lambda e: 2 * e["p0"] * e["p1"] - 1)),
        "expression": lambda: g("RX", 0, p=O.A(sp.sin(x) + y**2 / 3 - 0.123456789012345, lambda e: torch.sin(e["p0"]) + e["p1"] ** 2 / 3 - 0.123456789012345)),
        "pi": lambda: g("RX", 0, p=O.A(sp.pi * x / 7, lambda e: math.pi * e["p0"] / 7)),
        "number": lambda: g("RX", 0, p=0.123456789012345678),
        "chain": lambda: O.chain(g("RX", 0, p="p0"), g("CNOT", 1, 0), g("RZ", 1, p="p1")),
        "kron": lambda: O.kronb(g("RX", 2, p="p0"), g("RY", 0, p="p1")),
        "add": lambda: O.add(g("X", 0), O.scale(zx(), -1.5), g("N", 2)),
        "nested": lambda: O.chain(O.kronb(O.chain(g("RX", 0, p="p0"), g("H", 0)), g("CRY", 2, 1, p="p1")), O.scale(O.add(g("Z", 0), O.kronb(g("X", 1), g("Y", 2))), 0.5), g("SWAP", 0, 2)),
        "adjoint": lambda: O.Term(qd.chain(qd.RX(0, x), qd.S(1), qd.CRY(0, 1, y)).dagger(), (0, 1), full=lambda e, n: O.adj(O.chain(g("RX", 0, p="p0"), g("S", 1), g("CRY", 0, 1, p="p1")).op(e, n))),
        "evolution": lambda: O.ham_evo(zx(), "p0"),
        "evolution-expression": lambda: O.ham_evo(zx(), O.A(x + 2 * y, lambda e: e["p0"] + 2 * e["p1"])),
        "evolution-sum": lambda: O.ham_evo_sum([(0.5, g("Z", 0)), (1.5, O.kronb(g("Z", 0), g("Z", 2)))], "p0"),
        "evolution-number": lambda: O.ham_evo(zx(), 0.7),
        "repeated-name": lambda: O.chain(g("RX", 0, p="p0"), g("RX", 1, p="p0"), g("RY", 0, p=O.A(2 * x, lambda e: 2 * e["p0"]))),
    }
    return r


for name in blocks():
    @obligation(P, f"block-{name}")
    def ob(s, name=name):
        """A block, a circuit with it and the text form of both describe the same operator after loading."""
        import qadence as qd

        t = blocks()[name]()
        env = params(s, 2)
        n = 3
        psi = s.state("psi", n)
        want = t.act(env, n, psi).expand(2, -1)
        d = qd.serialize(t.block)
        s.fact(isinstance(d, dict) and d, "serialized to a non-empty dictionary", "dict")
        back = qd.deserialize(d)
        s.eq(qd.run(n, back, values=env, state=psi).expand(2, -1), want, "block")
        text = qd.deserialize(json.loads(json.dumps(d)))
        s.eq(qd.run(n, text, values=env, state=psi).expand(2, -1), want, "through text")
        s.fact(text == t.block and back == t.block, "equal to the original", "equal")
        c = qd.QuantumCircuit(n, t.block)
        c2 = qd.deserialize(json.loads(json.dumps(qd.serialize(c))))
        s.eq(qd.run(c2, values=env, state=psi).expand(2, -1), want, "circuit")
        s.fact(c2 == c and c2.n_qubits == n, "equal circuit", "equal circuit")
        s.eq(qd.run(n, t.block, values=env, state=psi).expand(2, -1), want, "original unchanged")


@obligation(P, "matrix-block")
def ob(s):
    import qadence as qd
    from qadence.blocks import MatrixBlock

    m = torch.tensor([[0, 1j], [1, 0]], dtype=torch.cdouble)
    b = qd.chain(qd.H(0), MatrixBlock(m, (0,)))
    try:
        d = qd.serialize(b)
    except Exception:
        d = {}
    if not d:
        s.fact(True, "not supported, and says so")
        return
    psi = s.state("psi", 1)
    s.eq(qd.run(1, qd.deserialize(d), state=psi), O.apply(O.mm(m, O.H2), (0,), 1, psi), "matrix")


@obligation(P, "tags")
def ob(s):
    import qadence as qd

    a, b = qd.chain(qd.X(0), qd.RX(1, "p0")), qd.kron(qd.Y(0), qd.Z(1))
    qd.tag(a, "first"), qd.tag(b, "second")
    c = qd.chain(a, b, 2 * qd.X(0))
    r = qd.deserialize(json.loads(json.dumps(qd.serialize(c))))
    s.fact([x.tag for x in r.blocks] == ["first", "second", None], "tags")
    s.fact(r == c, "equal")


@obligation(P, "trainable")
def ob(s):
    """Trainable parameters keep name, value and trainability; features stay features."""
    import qadence as qd

    th = qd.VariationalParameter("th", value=0.3217)
    b = qd.chain(qd.RX(0, th), qd.RY(0, 2 * th * qd.FeatureParameter("x")), qd.RZ(0, qd.FeatureParameter("y", value=0.25)))
    x, y = s.angle("x", 2), s.angle("y", 2)
    t = O.chain(O.gate("RX", 0, params=[0.3217]), O.gate("RY", 0, params=[lambda e: 2 * 0.3217 * e["x"]]) if False else O.Term(b.blocks[1], (0,), lambda e: O.rot(O.Y2, 2 * 0.3217 * e["x"])), O.gate("RZ", 0, params=["y"]))
    r = qd.deserialize(json.loads(json.dumps(qd.serialize(b))))
    s.eq(qd.run(1, r, values={"x": x, "y": y}), t.act({"x": x, "y": y}, 1, O.zero_state(1)), "run", tol=1e-6)
    m = qd.QuantumModel(qd.QuantumCircuit(1, r))
    s.fact(list(m.vparams.keys()) == ["th"] and sorted(p.name for p in m.inputs) == ["x", "y"], "roles of the parameters")
    s.raises(lambda: m.run({"x": x}), KeyError, "feature value still required")


@obligation(P, "expressions")
def ob(s):
    import qadence as qd
    import sympy as sp
    from qadence.parameters import evaluate

    v = s.real("x", 2, 0.2, 0.9)
    x = qd.FeatureParameter("x")
    for i, (e, val) in enumerate([(x + 1, v + 1), (sp.acos(x) * 2, 2 * torch.acos(v)), (sp.exp(-x) / 3, torch.exp(-v) / 3), (sp.sqrt(x), torch.sqrt(v)), (x**3 - 0.1 * x, v**3 - 0.1 * v), (sp.tan(x), torch.tan(v))]):
        r = qd.deserialize(json.loads(json.dumps(qd.serialize(e))))
        s.eq(evaluate(r, {"x": v}, as_torch=True).reshape(-1), val, f"expression {i}")


def reg_list():
    import qadence as qd

    return {
        "line": lambda: qd.Register.line(4, spacing=5.0), "all": lambda: qd.Register.all_to_all(3), "square": lambda: qd.Register.square(2, spacing=3.5), "circle": lambda: qd.Register.circle(5),
        "coords": lambda: qd.Register.from_coordinates([(0.0, 1.5), (2.0, -3.25), (7.0, 0.5)]), "triangular": lambda: qd.Register.triangular_lattice(1, 1), "number": lambda: qd.Register(3),
        "device": lambda: qd.Register.line(3, spacing=8.0, device_specs=qd.RealisticDevice()),
        "ideal": lambda: qd.Register.line(2, spacing=6.0, device_specs=qd.IdealDevice()),
    }


for name in ("line", "all", "square", "circle", "coords", "triangular", "number", "device", "ideal"):
    @obligation(P, f"register-{name}")
    def ob(s, name=name):
        import qadence as qd

        r = reg_list()[name]()
        for lab, q in (("dict", qd.deserialize(qd.serialize(r))), ("text", qd.deserialize(json.loads(json.dumps(qd.serialize(r)))))):
            s.fact(q.n_qubits == r.n_qubits and q == r, f"{lab}: equal register")
            s.fact({int(k): tuple(map(float, v)) for k, v in q.coords.items()} == {int(k): tuple(map(float, v)) for k, v in r.coords.items()}, f"{lab}: coordinates")
            norm = lambda e: sorted(tuple(sorted((int(a), int(b)))) for a, b in e)
            s.fact(norm(q.edges) == norm(r.edges), f"{lab}: edges")
            s.fact({tuple(sorted(map(int, k))): round(v, 12) for k, v in q.distances.items()} == {tuple(sorted(map(int, k))): round(v, 12) for k, v in r.distances.items()}, f"{lab}: distances")
            s.fact(q.device_specs == r.device_specs, f"{lab}: device")


def model(obs=True, nobs=1, **kw):
    import qadence as qd

    th, ph = qd.VariationalParameter("th", value=0.3), qd.VariationalParameter("ph", value=1.1)
    t = O.chain(O.gate("RX", 0, params=[O.A(th, lambda e: e["th"])]), O.gate("RY", 1, params=[O.A(ph * qd.FeatureParameter("x"), lambda e: e["ph"] * e["x"])]), O.gate("CNOT", 0, 1))
    os_ = [O.add(O.scale(O.kronb(O.gate("Z", 0), O.gate("X", 1)), 2.0), O.gate("Y", 1)), O.gate("Z", 1)][:nobs]
    return t, os_, qd.QuantumModel(qd.QuantumCircuit(2, t.block), observable=[o.block for o in os_] if obs else None, **kw)


def bound(s, m):
    with torch.no_grad():
        return {k: s.bind(next(p for n_, p in m.named_parameters() if n_.endswith(k)), k, -3, 3) for k in ("th", "ph")}


for dm in ("ad", "gpsr", "adjoint"):
    for nobs in (1, 2):
        @obligation(P, f"model-{dm}-{nobs}")
        def ob(s, dm=dm, nobs=nobs):
            """A reloaded model computes the same states and expectation values with the stored trainable values."""
            import qadence as qd

            t, os_, m = model(nobs=nobs, diff_mode=dm)
            new = bound(s, m)
            x = s.angle("x", 2)
            psi = t.act({"x": x, **new}, 2, O.zero_state(2))
            want = torch.stack([O.expect(o.op({}, 2), psi).real for o in os_], -1)
            d = qd.serialize(m, save_params=True)
            m2 = qd.deserialize(d, as_torch=True)
            s.eq(m2.expectation({"x": x}), want, "expectation")
            s.eq(m2.run({"x": x}), psi, "run")
            s.fact(sorted(m2.vparams) == ["ph", "th"] and str(m2._diff_mode) == str(m._diff_mode), "trainable names and mode", "roles")
            t3, _, m3 = model(nobs=nobs, diff_mode=dm)
            m3.load_params_from_dict(d)
            s.eq(m3.expectation({"x": x}), want, "load_params_from_dict")
            s.eq(m.expectation({"x": x}), want, "original unchanged")


@obligation(P, "model-without-observable")
def ob(s):
    import qadence as qd

    t, _, m = model(obs=False)
    new = bound(s, m)
    x = s.angle("x", 2)
    m2 = qd.deserialize(qd.serialize(m, save_params=True), as_torch=True)
    s.eq(m2.run({"x": x}), t.act({"x": x, **new}, 2, O.zero_state(2)), "run")


@obligation(P, "model-configuration")
def ob(s):
    import qadence as qd

    t, os_, m = model(configuration={"loop_expectation": True, "use_single_qubit_composition": True})
    new = bound(s, m)
    x = s.angle("x", 2)
    m2 = qd.deserialize(qd.serialize(m, save_params=True), as_torch=True)
    c1, c2 = m.backend.backend.config, m2.backend.backend.config
    s.fact(c2.loop_expectation and c2.use_single_qubit_composition, "configuration kept")
    s.eq(m2.expectation({"x": x}), O.expect(os_[0].op({}, 2), t.act({"x": x, **new}, 2, O.zero_state(2))).real.reshape(-1, 1), "expectation")


@obligation(P, "files", allow_pins=True)
def ob(s):
    """Files: both formats, blocks, circuits and models; the numbers come back exactly."""
    import tempfile

    import qadence as qd
    from qadence.types import SerializationFormat

    env = params(s, 2)
    t = blocks()["nested"]()
    psi = s.state("psi", 3)
    want = t.act(env, 3, psi)
    with tempfile.TemporaryDirectory() as d:
        for f, ext in ((SerializationFormat.JSON, "json"), (SerializationFormat.PT, "pt")):
            qd.save(t.block, d, "b" + ext, f)
            s.eq(qd.run(3, qd.load(f"{d}/b{ext}.{ext}"), values=env, state=psi), want, f"block {ext}")
            qd.save(qd.QuantumCircuit(3, t.block), d, "c" + ext, f)
            s.eq(qd.run(qd.load(f"{d}/c{ext}.{ext}"), values=env, state=psi), want, f"circuit {ext}")
        tm, os_, m = model(nobs=2)
        m.reset_vparams([0.123456, -2.5])
        vals = {k: v.clone() for k, v in m.vparams.items()}
        x = s.angle("x", 2)
        wantm = torch.stack([O.expect(o.op({}, 2), tm.act({"x": x, **vals}, 2, O.zero_state(2))).real for o in os_], -1)
        qd.save(m, d, "m", SerializationFormat.PT)
        s.eq(qd.load(f"{d}/m.pt").expectation({"x": x}), wantm, "model")


@obligation(P, "qnn")
def ob(s):
    import qadence as qd
    from qadence.ml_tools.models import QNN

    th = qd.VariationalParameter("th", value=0.3)
    x1, x2 = qd.FeatureParameter("x1"), qd.FeatureParameter("x2")
    t = O.chain(O.gate("RX", 0, params=[O.A(th * x1, lambda e: e["th"] * e["x1"])]), O.gate("RY", 1, params=[O.A(x2, lambda e: e["x2"])]), O.gate("CNOT", 0, 1))
    m = QNN(qd.QuantumCircuit(2, t.block), O.gate("Z", 1).block, inputs=["x2", "x1"])
    with torch.no_grad():
        v = s.bind(next(p for n_, p in m.named_parameters() if n_.endswith("th")), "th", -3, 3)
    xs = s.real("xs", (2, 2), -3, 3)
    want = O.expect(O.embed(O.Z2, (1,), 2), t.act({"x1": xs[:, 1], "x2": xs[:, 0], "th": v}, 2, O.zero_state(2))).real.reshape(-1, 1)
    s.eq(m(xs), want, "original")
    m2 = qd.deserialize(qd.serialize(m, save_params=True), as_torch=True)
    s.eq(m2(xs), want, "reloaded")


@obligation(P, "noise")
def ob(s):
    """Noise attached to gates and circuits survives."""
    import qadence as qd
    from qadence.noise import NoiseHandler
    from qadence.types import NoiseProtocol

    nz = NoiseHandler(protocol=NoiseProtocol.DIGITAL.BITFLIP, options={"error_probability": 0.2})
    b = qd.chain(qd.X(0, noise=nz), qd.RX(0, "p0", noise=nz), qd.CNOT(0, 1, noise=nz))
    r = qd.deserialize(json.loads(json.dumps(qd.serialize(b))))
    s.fact(all(x.noise is not None and x.noise == nz for x in r.blocks), "noise kept")
    h = NoiseHandler._from_dict(json.loads(json.dumps(NoiseHandler(protocol=[NoiseProtocol.DIGITAL.BITFLIP, NoiseProtocol.DIGITAL.DEPOLARIZING], options=[{"error_probability": 0.1}, {"error_probability": 0.3}])._to_dict())))
    s.fact([str(p) for p in h.protocol] == [str(NoiseProtocol.DIGITAL.BITFLIP), str(NoiseProtocol.DIGITAL.DEPOLARIZING)] and [o["error_probability"] for o in h.options] == [0.1, 0.3], "sequence of protocols")
    p = s.angle("p0")
    s.eq(qd.run(2, r, values={"p0": p}), qd.run(2, b, values={"p0": p}), "run")


@obligation(P, "load-params")
def ob(s):
    """Loading stored trainable values: exact names are required unless asked otherwise, and only the named values change."""
    import qadence as qd

    t, os_, m = model()
    new = bound(s, m)
    x = s.angle("x", 2)
    want = lambda th, ph: O.expect(os_[0].op({}, 2), t.act({"x": x, "th": th, "ph": ph}, 2, O.zero_state(2))).real.reshape(-1, 1)
    d = qd.serialize(m, save_params=True)
    keys = dict(d["param_dict"])
    s.fact({k.split(".")[-1] for k in keys} >= {"th", "ph"}, "stored names")
    a = lambda v: torch.tensor([v], dtype=torch.float64)
    th, ph = s.angle("th2"), s.angle("ph2")

    def fresh():
        m2 = model()[2]
        m2.reset_vparams([0.5, -0.25] if [k for k in m2.vparams][0] == "th" else [-0.25, 0.5])
        return m2

    m2 = fresh()
    s.eq(m2.expectation({"x": x}), want(a(0.5), a(-0.25)), "before")
    m2.load_params_from_dict({**d, "param_dict": {k: (th if k.endswith("th") else ph if k.endswith("ph") else v) for k, v in keys.items()}})
    s.eq(m2.expectation({"x": x}), want(th, ph), "loaded")
    s.eq(m.expectation({"x": x}), want(new["th"], new["ph"]), "the stored model unchanged")
    for lab, pd in (("missing", {k: v for k, v in keys.items() if not k.endswith("ph")}), ("unexpected", {**keys, "zz": a(1.0)}), ("renamed", {("zz" if k.endswith("ph") else k): v for k, v in keys.items()})):
        m2 = fresh()
        s.raises(lambda: m2.load_params_from_dict({**d, "param_dict": pd}), RuntimeError, f"{lab}: refused")
        s.eq(m2.expectation({"x": x}), want(a(0.5), a(-0.25)), f"{lab}: nothing changed")
        m2.load_params_from_dict({**d, "param_dict": pd}, strict=False)
        s.eq(m2.expectation({"x": x}), want(new["th"], new["ph"] if lab == "unexpected" else a(-0.25)), f"{lab}: the named ones")


@obligation(P, "model-files", allow_pins=True)
def ob(s):
    """QuantumModel.save and QuantumModel.load, with and without trained values, and missing files."""
    import tempfile
    import qadence as qd

    for nobs in (0, 1, 2):
        for dm in ("ad", "gpsr"):
            t, os_, m = model(obs=nobs > 0, nobs=max(nobs, 1), diff_mode=dm)
            m.reset_vparams([0.123456, -2.5])
            vals = {k: v.clone() for k, v in m.vparams.items()}
            init = {"th": torch.tensor([0.3], dtype=torch.float64), "ph": torch.tensor([1.1], dtype=torch.float64)}
            x = s.angle("x", 2)

            def same(m2, v, lab):
                psi = t.act({"x": x, **v}, 2, O.zero_state(2))
                s.eq(m2.run({"x": x}), psi, f"{lab}: state", tol=1e-6)
                if nobs:
                    s.eq(m2.expectation({"x": x}), torch.stack([O.expect(o.op({}, 2), psi).real for o in os_], -1), f"{lab}: expectation", tol=1e-6)
                s.fact(m2.out_features == nobs and str(m2._diff_mode) == str(m._diff_mode), f"{lab}: features and mode")

            with tempfile.TemporaryDirectory() as d:
                m.save(d)
                # without as_torch the file's values are not asked for: only the structure is judged
                bare = qd.QuantumModel.load(f"{d}/quantum_model.pt")
                same(bare, {k: v.clone() for k, v in bare.vparams.items()}, f"{nobs} {dm} structure")
                same(qd.QuantumModel.load(f"{d}/quantum_model.pt", as_torch=True), vals, f"{nobs} {dm} default file")
                m.save(d, "other.pt", save_params=True)
                same(qd.QuantumModel.load(f"{d}/other.pt", as_torch=True), vals, f"{nobs} {dm} as_torch")
                m.save(d, "bare.pt", save_params=False)
                same(qd.QuantumModel.load(f"{d}/bare.pt"), init, f"{nobs} {dm} without values")
                s.raises(lambda: m.save(f"{d}/nowhere"), FileNotFoundError, "no such folder")
                s.raises(lambda: qd.load(f"{d}/nothing.pt"), FileNotFoundError, "no such file")
                s.raises(lambda: qd.load(f"{d}/nothing.json"), FileNotFoundError, "no such json file")
            same(m, vals, f"{nobs} {dm} original")
