"""C16: quantum neural networks: inputs, configurations, derivatives, parameters, losses and optimisation steps."""
import itertools

import torch

from symq.runner import obligation
from checks import oracle as O
from checks.builders import DEF, act, ala_gates, angles, circuit, hea_gates, iia_gates, names

P = "C16"


def trainables(s, model, lo=-3, hi=3, symbolic=None):
    """All trainable parameters of the model become inputs (those in `symbolic`, or all; the others get generic numbers)."""
    env = {}
    for k, (n, p) in enumerate(sorted(model.named_parameters())):
        if not p.requires_grad:
            continue
        name = n.split(".")[-1]
        if symbolic is None or name in symbolic:
            env[name] = s.bind(p, name, lo, hi)
        else:
            v = torch.full(tuple(p.shape), 0.37 + 0.61 * k, dtype=p.dtype)
            p.data.copy_(v)
            env[name] = v
    return env


def rows(x):
    """(B, k) tensor of symbolic columns."""
    return torch.stack(x, dim=1)


def zsum(n):
    return sum(O.embed(O.Z2, (q,), n) for q in range(n))


def two_feature_circuit():
    import qadence as qd

    b = qd.chain(
        qd.kron(qd.RX(0, qd.FeatureParameter("zeta")), qd.RY(1, qd.FeatureParameter("a"))),
        qd.CNOT(0, 1),
        qd.RZ(1, qd.FeatureParameter("m") * qd.VariationalParameter("th", value=0.4)),
        qd.RX(1, qd.VariationalParameter("ph", value=0.1)),
    )

    def state(e):
        v = O.zero_state(2)
        v = O.apply(O.rot(O.X2, e["zeta"]), (0,), 2, v)
        v = O.apply(O.rot(O.Y2, e["a"]), (1,), 2, v)
        v = O.apply(O.ctrl(O.X2, 1), (0, 1), 2, v)
        v = O.apply(O.rot(O.Z2, e["m"] * e["th"]), (1,), 2, v)
        return O.apply(O.rot(O.X2, e["ph"]), (1,), 2, v)

    return qd.QuantumCircuit(2, b), state


for order in itertools.permutations(("zeta", "a", "m")):
    @obligation(P, "inputs-" + "-".join(order))
    def ob(s, order=order):
        """The columns of the input tensor are the features in the order given, for every batch; outputs are (batch, observables)."""
        import qadence as qd
        import sympy

        c, state = two_feature_circuit()
        Z0, X1 = O.embed(O.Z2, (0,), 2), O.embed(O.X2, (1,), 2)
        for B in (1, 3):
            cols = [s.angle(f"{k}{B}", B) for k in order]
            for kind in ("names", "symbols"):
                ins = list(order) if kind == "names" else [sympy.Symbol(k) for k in order]
                m = qd.QNN(c, [qd.Z(0), 2.0 * qd.X(1) + qd.Z(0)], inputs=ins)
                s.fact(m.in_features == 3 and m.out_features == 2, f"{kind}: number of inputs and outputs")
                env = {**trainables(s, m), **dict(zip(order, cols))}
                v = state(env)
                want = torch.stack([O.expect(Z0, v), 2 * O.expect(X1, v) + O.expect(Z0, v)], dim=1)
                s.eq(m(rows(cols)), want, f"{kind} tensor {B}")
                s.eq(m(dict(zip(order, cols))), want, f"{kind} dict {B}")
                s.eq(m.run(rows(cols)), v, f"{kind} run {B}")
        s.raises(lambda: m(torch.zeros(2, 2)), ValueError, "too few columns")
        s.raises(lambda: m(torch.zeros(2, 4)), ValueError, "too many columns")
        s.raises(lambda: qd.QNN(c, qd.Z(0)), ValueError, "no order given")
        s.raises(lambda: qd.QNN(c, qd.Z(0), inputs=["a", "m"]), ValueError, "order of some features only")


@obligation(P, "single-input")
def ob(s):
    import qadence as qd

    x = s.angle("x", 3)
    c = qd.QuantumCircuit(2, qd.chain(qd.RX(0, qd.FeatureParameter("x")), qd.RY(1, qd.VariationalParameter("th", value=0.2)), qd.CNOT(0, 1)))
    for diff in ("ad", "adjoint", "gpsr"):
        m = qd.QNN(c, qd.Z(1), diff_mode=diff)
        e = trainables(s, m)
        v = O.apply(O.ctrl(O.X2, 1), (0, 1), 2, O.apply(O.rot(O.Y2, e["th"]), (1,), 2, O.apply(O.rot(O.X2, x), (0,), 2, O.zero_state(2))))
        want = O.expect(O.embed(O.Z2, (1,), 2), v).reshape(-1, 1)
        s.eq(m(x), want, f"{diff} vector")
        s.eq(m(x.reshape(-1, 1)), want, f"{diff} column")
        s.eq(m({"x": x}), want, f"{diff} dict")
        s.eq(m.expectation(x), want, f"{diff} expectation")
        k = 1 if diff == "gpsr" else 2  # parameter-shift rules look every number of the observable up among the model's own
        s.eq(m.expectation(x, observable=m.backend.observable(qd.X(0) if k == 1 else k * qd.Y(0), 2)), k * O.expect(O.embed(O.X2 if k == 1 else O.Y2, (0,), 2), v).reshape(-1, 1), f"{diff} other observable")
        psi = s.state("psi" + diff, 2)
        w = O.apply(O.ctrl(O.X2, 1), (0, 1), 2, O.apply(O.rot(O.Y2, e["th"]), (1,), 2, O.apply(O.rot(O.X2, x[:1]), (0,), 2, psi)))
        s.eq(m(x[:1], state=psi), O.expect(O.embed(O.Z2, (1,), 2), w).reshape(-1, 1), f"{diff} initial state")


@obligation(P, "no-input-and-observable-parameters")
def ob(s):
    import qadence as qd

    c = qd.QuantumCircuit(1, qd.RX(0, qd.VariationalParameter("th", value=0.2)))
    m = qd.QNN(c, [qd.VariationalParameter("w", value=0.3) * qd.Z(0), qd.Y(0)])
    e = trainables(s, m)
    v = O.apply(O.rot(O.X2, e["th"]), (0,), 1, O.zero_state(1))
    want = torch.stack([e["w"] * O.expect(O.Z2, v), O.expect(O.Y2, v)], dim=1)
    s.eq(m(), want, "no values")
    s.eq(m({}), want, "empty values")
    c = qd.QuantumCircuit(1, qd.RX(0, qd.FeatureParameter("x")))
    m = qd.QNN(c, qd.FeatureParameter("y") * qd.Z(0) + qd.VariationalParameter("w", value=0.3) * qd.Y(0), inputs=["y", "x"])
    e = trainables(s, m)
    x, y = s.angle("x", 2), s.real("y", 2, -2, 2)
    v = O.apply(O.rot(O.X2, x), (0,), 1, O.zero_state(1))
    s.eq(m(rows([y, x])), (y * O.expect(O.Z2, v) + e["w"] * O.expect(O.Y2, v)).reshape(-1, 1), "feature of the observable")


# ------------------------------------------------------------------------------------------------ configurations
def fm_state(cfg, n, env, ansatz, psi):
    """cfg: dict(inputs, strategy, repeats, basis, scaling, fr, tr, op, prefix); ansatz(prefix) -> gates of one layer."""
    ins = cfg["inputs"]
    get = lambda k, f, d: (cfg[k][f] if isinstance(cfg.get(k), dict) else cfg.get(k, d))
    layers = []
    reps = {f: get("repeats", f, 0) + 1 for f in ins}
    if cfg.get("strategy", "par") == "par":
        size = [n // len(ins) + (1 if i < n % len(ins) else 0) for i in range(len(ins))]
        sup, a = {}, 0
        for f, k in zip(ins, size):
            sup[f], a = tuple(range(a, a + k)), a + k
        for r in range(max(reps.values())):
            layers.append([f for f in ins if reps[f] > r])
    else:
        sup = {f: tuple(range(n)) for f in ins}
        for r in range(max(reps.values())):
            layers += [[f] for f in ins if reps[f] > r]
    for k, fs in enumerate(layers):
        for f in fs:
            w = None if not cfg.get("prefix") else [env[f"{cfg['prefix']}_{f}_{i}"] for i in range(len(sup[f]))]
            psi = act(cfg.get("op", "RX"), sup[f], angles(env[f], len(sup[f]), get("basis", f, "Fourier"), get("scaling", f, "Constant"), get("fr", f, None), get("tr", f, None), w=w), n, psi)
        if k + 1 < len(layers):
            psi = circuit(ansatz(f"fm_{k}"))(env, n, psi)
    return psi


def build(cfg):
    from qadence.ml_tools.config import FeatureMapConfig
    import qadence as qd

    kw = dict(num_features=len(cfg["inputs"]), inputs=list(cfg["inputs"]))
    if "strategy" in cfg:
        kw["multivariate_strategy"] = {"par": qd.MultivariateStrategy.PARALLEL, "ser": qd.MultivariateStrategy.SERIES}[cfg["strategy"]]
    for k, f in (("repeats", "num_repeats"), ("basis", "basis_set"), ("scaling", "reupload_scaling"), ("fr", "feature_range"), ("tr", "target_range"), ("prefix", "param_prefix")):
        if k in cfg:
            kw[f] = cfg[k]
    if "op" in cfg:
        kw["operation"] = getattr(qd, cfg["op"])
    return FeatureMapConfig(**kw)


FM = {
    "one": (2, dict(inputs=("x",))),
    "one-repeats": (2, dict(inputs=("x",), repeats=1, scaling="Tower")),
    "parallel": (3, dict(inputs=("y", "x"), scaling={"x": "Tower", "y": "Exponential"})),
    "parallel-repeats": (2, dict(inputs=("y", "x"), repeats={"x": 0, "y": 2}, op="RY")),
    "parallel-repeats-2": (3, dict(inputs=("b", "a"), repeats={"a": 1, "b": 0}, fr={"a": (0.0, 1.0), "b": (-1.0, 3.0)})),
    "series": (2, dict(inputs=("y", "x"), strategy="ser", scaling={"x": "Constant", "y": "Tower"})),
    "series-repeats": (2, dict(inputs=("y", "x"), strategy="ser", repeats={"x": 1, "y": 0})),
    "ranges": (2, dict(inputs=("q", "p"), fr={"p": (0.0, 2.0), "q": (-1.0, 1.0)}, tr={"p": (0.0, 1.0), "q": (1.0, 4.0)}, op="RY")),
    "chebyshev": (2, dict(inputs=("q", "p"), basis={"p": "Chebyshev", "q": "Fourier"})),
    "prefix": (2, dict(inputs=("q", "p"), prefix="w", op="RZ")),
    "prefix-series": (2, dict(inputs=("q", "p"), strategy="ser", prefix="w")),
}
OPS = ("RY",)
for nm, (n, cfg) in FM.items():
    @obligation(P, "config-fm-" + nm)
    def ob(s, n=n, cfg=cfg):
        """A configured model: feature layers with an ansatz layer between two of them, then the ansatz."""
        import qadence as qd
        from qadence.constructors import ObservableConfig
        from qadence.ml_tools.config import AnsatzConfig

        layer = lambda pre: hea_gates(n, 1, pre=pre, ops=OPS)
        x = {}
        for f in cfg["inputs"]:
            basis = cfg["basis"][f] if isinstance(cfg.get("basis"), dict) else cfg.get("basis", "Fourier")
            lo, hi = (cfg["fr"][f] if "fr" in cfg else DEF[basis])
            e = 0.05 * (hi - lo)
            x[f] = s.real(f, 2, lo + e, hi - e)
        m = qd.QNN.from_configs(n, ObservableConfig(detuning=qd.Z), build(cfg), AnsatzConfig(depth=1, strategy_args={"operations": [getattr(qd, o) for o in OPS]}, param_prefix="th"))
        env = trainables(s, m, -2, 2)
        env.update(x)
        v = fm_state(cfg, n, env, layer, O.zero_state(n))
        v = circuit(layer("th"))(env, n, v)
        s.eq(m.run(rows([x[f] for f in cfg["inputs"]])), v, "state")
        s.eq(m(rows([x[f] for f in cfg["inputs"]])), O.expect(zsum(n), v).reshape(-1, 1), "output")


AN = {
    "hea": (2, dict(depth=2), lambda: hea_gates(2, 2, pre="theta")),
    "hea-args": (3, dict(depth=1, strategy_args=dict(operations=["RZ", "RX"], entangler="CZ", periodic=True), param_prefix="p"), lambda: hea_gates(3, 1, pre="p", ops=("RZ", "RX"), ent="CZ", periodic=True)),
    "hea-crx": (2, dict(depth=2, strategy_args=dict(operations=["RY"], entangler="CRX")), lambda: hea_gates(2, 2, pre="theta", ops=("RY",), ent="CRX")),
    "hea-sdaqc": (2, dict(depth=2, ansatz_strategy="SDAQC", strategy_args=dict(operations=["RX"])), lambda: hea_gates(2, 2, pre="theta", ops=("RX",), analog=True)),
    "iia": (2, dict(depth=1, ansatz_type="IIA", param_prefix="i"), lambda: iia_gates(2, 1, pre="i")),
    "iia-args": (3, dict(depth=1, ansatz_type="IIA", param_prefix="i", strategy_args=dict(operations=["RY"], entangler="CRX")), lambda: iia_gates(3, 1, pre="i", ops=("RY",), ent="CRX")),
    "iia-sdaqc": (2, dict(depth=1, ansatz_type="IIA", ansatz_strategy="SDAQC", param_prefix="i", strategy_args=dict(operations=["RX"])), lambda: iia_gates(2, 1, pre="i", ops=("RX",), sdaqc=True)),
    "ala": (3, dict(depth=2, ansatz_type="ALA", m_block_qubits=2, strategy_args=dict(operations=["RY"])), lambda: ala_gates(3, 2, 2, pre="theta", ops=("RY",))),
    "ala-args": (3, dict(depth=2, ansatz_type="ALA", m_block_qubits=2, param_prefix="a", strategy_args=dict(operations=["RX"], entangler="CRZ")), lambda: ala_gates(3, 2, 2, pre="a", ops=("RX",), ent="CRZ")),
}
for nm, (n, kw, gates) in AN.items():
    @obligation(P, "config-ansatz-" + nm)
    def ob(s, n=n, kw=kw, gates=gates):
        import qadence as qd
        from qadence.constructors import ObservableConfig
        from qadence.ml_tools.config import AnsatzConfig, FeatureMapConfig

        k = dict(kw)
        if "ansatz_type" in k:
            k["ansatz_type"] = getattr(qd.AnsatzType, k["ansatz_type"])
        if "ansatz_strategy" in k:
            k["ansatz_strategy"] = getattr(qd.Strategy, k["ansatz_strategy"])
        if "strategy_args" in k:
            a = dict(k["strategy_args"])
            if "operations" in a:
                a["operations"] = [getattr(qd, o) for o in a["operations"]]
            if "entangler" in a:
                a["entangler"] = getattr(qd, a["entangler"])
            k["strategy_args"] = a
        reg = qd.Register.line(n)
        m = qd.QNN.from_configs(reg, [ObservableConfig(detuning=qd.X, scale=1.5, shift=0.5), ObservableConfig(interaction=qd.Interaction.ZZ)], FeatureMapConfig(num_features=1, inputs=["q"]), AnsatzConfig(**k))
        ks = sorted(names(gates()))
        for a in range(0, len(ks), 4):
            env = trainables(s, m, symbolic=ks[a : a + 4])
            s.fact(sorted(env) == ks, "names of the trainable parameters")
            q = s.real("q", 2, 0.0, 6.0)
            v = act("RX", range(n), [q] * n, n, O.zero_state(n))
            v = circuit(gates())(env, n, v)
            X = sum(O.embed(O.X2, (i,), n) for i in range(n))
            ZZ = sum(O.embed(O.kron(O.Z2, O.Z2), (i, i + 1), n) for i in range(n - 1))
            nrm = O.expect(O.embed(O.c([[1, 0], [0, 1]]), (0,), n), v)
            s.eq(m(q.reshape(-1, 1)), torch.stack([0.5 * nrm + 1.5 * O.expect(X, v), O.expect(ZZ, v)], dim=1), f"output {a}")


# ------------------------------------------------------------------------------------------------ derivatives
def dmodel(s, mode, diff="ad"):
    import qadence as qd

    b = qd.chain(qd.RX(0, qd.FeatureParameter("u")), qd.RY(1, qd.FeatureParameter("t") * 2), qd.CNOT(0, 1), qd.RX(1, qd.FeatureParameter("u") * (qd.FeatureParameter("t") if mode == "ad" else 3)), qd.RZ(0, qd.VariationalParameter("th", value=0.5)))
    m = qd.QNN(qd.QuantumCircuit(2, b), qd.Z(1) + 0.5 * qd.X(0), inputs=["u", "t"], input_diff_mode=mode, diff_mode=diff)
    th = trainables(s, m)["th"]

    def f(e):
        v = O.apply(O.rot(O.X2, e["u"]), (0,), 2, O.zero_state(2))
        v = O.apply(O.rot(O.Y2, 2 * e["t"]), (1,), 2, v)
        v = O.apply(O.ctrl(O.X2, 1), (0, 1), 2, v)
        v = O.apply(O.rot(O.X2, e["u"] * (e["t"] if mode == "ad" else 3)), (1,), 2, v)
        v = O.apply(O.rot(O.Z2, th), (0,), 2, v)
        return O.expect(O.embed(O.Z2, (1,), 2), v) + 0.5 * O.expect(O.embed(O.X2, (0,), 2), v)

    return m, f


for mode, idx, tol, tier in [("ad", (0,), 1e-7, "quick"), ("ad", (1,), 1e-7, "quick"), ("ad", (0, 1), 1e-7, "quick"), ("ad", (1, 1), 1e-7, "quick"), ("ad", (1, 0, 0), 1e-6, "thorough"),
                       ("fd", (0,), 1e-6, "quick"), ("fd", (1,), 1e-6, "quick"), ("fd", (0, 0), 1e-4, "quick"), ("fd", (1, 0), 1e-3, "quick"), ("fd", (1, 1, 1), 2e-3, "thorough")]:
    @obligation(P, f"derivative-{mode}-" + "".join(map(str, idx)), tier=tier)
    def ob(s, mode=mode, idx=idx, tol=tol):
        from qadence.ml_tools.models import derivative

        m, f = dmodel(s, mode)
        env = {"u": s.real("u", 2, -1.5, 1.5), "t": s.real("t", 2, -1.5, 1.5)}
        x = rows([env["u"], env["t"]])
        if mode == "ad":
            x.requires_grad_(True)
        g = f
        for i in idx:
            g = (lambda h, k: lambda e: s.grad(h, e, k))(g, ("u", "t")[i])
        s.eq(derivative(m, x, idx), g(env).reshape(-1, 1), "derivative", tol=tol)


# ------------------------------------------------------------------------------------------------ parameters, losses, steps
def small(s):
    import qadence as qd

    b = qd.chain(qd.RX(0, qd.FeatureParameter("x")), qd.RY(0, qd.VariationalParameter("b", value=0.2)), qd.RX(0, qd.VariationalParameter("a", value=0.7)), qd.RZ(0, qd.VariationalParameter("c", value=0.1)))
    m = qd.QNN(qd.QuantumCircuit(1, b), qd.Z(0) + qd.X(0))

    def f(e):
        v = O.zero_state(1)
        for k, p in (("x", O.X2), ("b", O.Y2), ("a", O.X2), ("c", O.Z2)):
            v = O.apply(O.rot(p, e[k]), (0,), 1, v)
        return O.expect(O.Z2, v) + O.expect(O.X2, v)

    return m, f


@obligation(P, "set-get-parameters")
def ob(s):
    """set_parameters then get_parameters is the identity, and the model uses the values it was given."""
    from qadence.ml_tools.parameters import get_parameters, num_parameters, set_parameters

    m, f = small(s)
    order = [n.split(".")[-1] for n, p in m.named_parameters() if p.requires_grad]
    s.fact(num_parameters(m) == 3, "number of parameters")
    th = s.real("th", 3, -3, 3)
    set_parameters(m, th)
    s.eq(get_parameters(m), th, "round trip")
    x = s.angle("x", 2)
    env = {"x": x, **{k: th[i : i + 1] for i, k in enumerate(order)}}
    s.eq(m(x), f(env).reshape(-1, 1), "model")
    # frozen parameters are left alone
    for n, p in m.named_parameters():
        if n.endswith("b"):
            p.requires_grad_(False)
    s.fact(num_parameters(m) == 2, "number of parameters that are trained")
    t2 = s.real("t2", 2, -3, 3)
    set_parameters(m, t2)
    s.eq(get_parameters(m), t2, "round trip of the trained ones")
    rest = [k for k in order if k != "b"]
    env.update({k: t2[i : i + 1] for i, k in enumerate(rest)})
    s.eq(m(x), f(env).reshape(-1, 1), "model after freezing")


@obligation(P, "reset-vparams")
def ob(s):
    m, f = small(s)
    x = s.angle("x", 1)
    v = {k: s.real(k, 1, -3, 3) for k in "abc"}
    m.reset_vparams(torch.cat([v[k] for k in [n.split(".")[-1] for n, p in m.named_parameters() if p.requires_grad]]))
    s.eq(m(x), f({"x": x, **v}).reshape(-1, 1), "model")


@obligation(P, "losses")
def ob(s):
    from qadence.ml_tools.loss.loss import get_loss_fn, mse_loss

    m, f = small(s)
    e = trainables(s, m)
    x, y = s.angle("x", 3), s.real("y", 3, -2, 2)
    want = ((f({**e, "x": x}) - y) ** 2).sum() / 3
    for nm, fn in (("mse", mse_loss), ("by name", get_loss_fn("mse")), ("default", get_loss_fn(None))):
        loss, metrics = fn(m, (x.reshape(-1, 1), y.reshape(-1, 1)))
        s.eq(loss, want, nm)
        s.eq(metrics["mse"], want, nm + " metric")
    s.raises(lambda: get_loss_fn("nonsense"), ValueError, "unknown loss")
    g = lambda model, b: (model(b[0]).sum(), {})
    s.fact(get_loss_fn(g) is g, "own loss")


@obligation(P, "optimize-step", allow_pins=True)
def ob(s):
    """A plain gradient descent step moves every trainable parameter by -lr times the derivative of the loss and nothing else."""
    from qadence.ml_tools.loss.loss import mse_loss
    from qadence.ml_tools.optimize_step import optimize_step

    m, f = small(s)
    e = trainables(s, m)
    e0 = {k: v.clone() for k, v in e.items()}
    x, y = s.angle("x", 2), s.real("y", 2, -2, 2)
    opt = torch.optim.SGD(m.parameters(), lr=0.25, foreach=False)
    L = lambda d: ((f(d) - y) ** 2).sum() / 2
    loss, metrics = optimize_step(m, opt, mse_loss, (x.reshape(-1, 1), y.reshape(-1, 1)))
    env = {**e0, "x": x}
    s.eq(loss, L(env), "loss")
    new = {n.split(".")[-1]: p for n, p in m.named_parameters()}
    for k in "abc":
        s.eq(new[k].detach(), e0[k] - 0.25 * s.grad(L, env, k), f"step of {k}")


# ------------------------------------------------------------------------------------------------ QCNN
def qcnn_gates(n, depth, ops, ent, corr=False):
    """Layers of two-qubit cells on neighbouring remaining qubits, shifted in odd repetitions of the first two layers; every second qubit is dropped after a layer."""
    g, idx = [], list(range(n))
    for layer, reps in enumerate(depth):
        for r in range(reps):
            shift = r % 2 and layer < 2
            pairs = list(zip(idx[1::2], idx[2::2])) if shift else list(zip(idx[::2], idx[1::2]))
            if shift:
                pairs = [p for p in pairs if p[1] != idx[-1]]
            k = itertools.count()
            nm = lambda: f"θ_{layer}_{next(k) % 9}" if corr else f"θ_{layer}_{r}_{next(k)}"
            for c, t in pairs:
                for o in ops:
                    g += [(o, (c,), nm()), (o, (t,), nm())]
                g += [(ent, (t, c), None), ("RZ", (c,), nm()), ("RY", (t,), nm()), (ent, (c, t), None), ("RY", (t,), nm()), (ent, (t, c), None)]
                for o in ops:
                    g += [(o, (c,), nm()), (o, (t,), nm())]
                if r == reps - 1:
                    g.append((ent, (c, t), None))
        idx = idx[1::2]
    return g


for n, k, depth, kw in [(4, 2, [1], {}), (4, 1, [1, 1], dict(ent="CNOT")), (4, 3, [3], dict(meas=False)), (4, 2, [1, 3], dict(gate="RY")), (4, 4, [1, 1], dict(basis="Chebyshev", corr=True)), (6, 2, [1, 1], dict(ops=("RX", "RZ")))]:
    @obligation(P, f"qcnn-{n}-{k}-{'-'.join(map(str, depth))}-{'-'.join(kw)}", timeout=300)
    def ob(s, n=n, k=k, depth=depth, kw=kw):
        import qadence as qd
        from qadence.ml_tools.qcnn_model import QCNN

        ops, ent, gate, basis, corr = kw.get("ops", ("RX",)), kw.get("ent", "CZ"), kw.get("gate", "RX"), kw.get("basis", "Fourier"), kw.get("corr", False)
        m = QCNN(n_inputs=k, n_qubits=n, depth=depth, operations=[getattr(qd, o) for o in ops], entangler=getattr(qd, ent), random_meas=kw.get("meas", True), fm_basis=basis, fm_gate=getattr(qd, gate), is_corr=corr)
        g = qcnn_gates(n, depth, ops, ent, corr)
        ks = sorted(names(g)) + ([f"w{i}" for i in range(n)] if kw.get("meas", True) else [])
        lo, hi = (0.3, 6.0) if basis == "Fourier" else (-0.9, 0.9)
        x = [s.real(f"x{i}", 1, lo, hi) for i in range(k)]
        size = [n // k + (1 if i < n % k else 0) for i in range(k)]
        for a in range(0, len(ks), 3):
            env = trainables(s, m, symbolic=ks[a : a + 3])
            s.fact(sorted(env) == sorted(ks), "names of the trainable parameters")
            v, q = O.zero_state(n), 0
            for i in range(k):
                v = act(gate, range(q, q + size[i]), angles(x[i] if a == 0 else x[i] * 0 + 0.7 * (i + 1) / k, size[i], basis), n, v)
                q += size[i]
            v = circuit(g)(env, n, v)
            w = [O.col(env[f"w{i}"]).reshape(-1) if kw.get("meas", True) else 1.0 for i in range(n)]
            want = sum(w[i] * O.expect(O.embed(O.Z2, (i,), n), v) for i in range(n))
            xs = rows(x) if a == 0 else torch.tensor([[0.7 * (i + 1) / k for i in range(k)]], dtype=torch.float64)
            s.eq(m(xs), want.reshape(-1, 1), f"output {a}", tol=1e-6)


@obligation(P, "qcnn-invalid")
def ob(s):
    import qadence as qd
    from qadence.ml_tools.qcnn_model import QCNN

    z = s.state("psi", 1)
    s.eq(z, z, "-")
    mk = lambda n, d: QCNN(n_inputs=1, n_qubits=n, depth=d, operations=[qd.RX])
    for n, d, nm in ((2, [1], "too few qubits"), (5, [1], "odd number of qubits"), (4, [2], "even depth")):
        s.raises(lambda: mk(n, d), ValueError, nm)
    s.raises(lambda: mk(4, [1, 1, 1]), RuntimeError, "no qubits left")


# ------------------------------------------------------------------------------------------------ data
@obligation(P, "data-loaders")
def ob(s):
    """Loaders deliver exactly the rows of the given tensors, matching rows together, in batches of the given size."""
    from qadence.ml_tools.data import DictDataLoader, InfiniteTensorDataset, data_to_device, to_dataloader

    x, y = s.real("x", (5, 2)), s.real("y", (5, 1))
    for bs in (1, 2, 3, 5):
        dl = to_dataloader(x, y, batch_size=bs)
        for nm, l in (("loader", dl), ("moved", data_to_device(dl, "cpu"))):
            out = list(l)
            s.fact([len(b[0]) for b in out] == [min(bs, 5 - i) for i in range(0, 5, bs)], f"{nm}: sizes of the batches of {bs}")
            s.eq(torch.cat([b[0] for b in out]), x, f"{nm} x {bs}")
            s.eq(torch.cat([b[1] for b in out]), y, f"{nm} y {bs}")
    d = DictDataLoader({"a": to_dataloader(x, batch_size=2), "b": to_dataloader(y, batch_size=2)})
    for k, b in enumerate(itertools.islice(iter(d), 2)):
        s.eq(b["a"][0], x[2 * k : 2 * k + 2], f"dict a {k}")
        s.eq(b["b"][0], y[2 * k : 2 * k + 2], f"dict b {k}")
    # the infinite loader: every pass delivers a permutation of the rows, columns of one row together
    tag = torch.arange(5.0, dtype=torch.float64)
    for pas in range(2):
        rows_ = list(itertools.islice(iter(InfiniteTensorDataset(x, y, tag)), 10))
        ids = [int(r[2]) for r in rows_]
        s.fact(sorted(ids[:5]) == list(range(5)) and sorted(ids[5:]) == list(range(5)), "every row once per pass")
        s.eq(torch.stack([r[0] for r in rows_]), x[ids], f"infinite x {pas}")
        s.eq(torch.stack([r[1] for r in rows_]), y[ids], f"infinite y {pas}")
    m = data_to_device({"u": x, "v": [x, y], "w": None}, "cpu")
    s.eq(m["u"], x, "nested dict")
    s.eq(m["v"][1], y, "nested list")


for mode in ("ad", "fd"):
    @obligation(P, f"reloaded-derivative-{mode}")
    def ob(s, mode=mode):
        """A reloaded model computes the same outputs and input derivatives."""
        import qadence as qd
        from qadence.ml_tools.models import derivative

        m, f = dmodel(s, mode)
        m2 = qd.QNN._from_dict(m._to_dict(save_params=True), as_torch=True)
        s.fact(m2.input_diff_mode == m.input_diff_mode and [str(i) for i in m2.inputs] == ["u", "t"], "mode and order of the inputs")
        env = {"u": s.real("u", 2, -1.5, 1.5), "t": s.real("t", 2, -1.5, 1.5)}
        x = rows([env["u"], env["t"]])
        s.eq(m2(x), f(env).reshape(-1, 1), "output")
        if mode == "ad":
            x.requires_grad_(True)
        s.eq(derivative(m2, x, (0,)), s.grad(f, env, "u").reshape(-1, 1), "derivative", tol=1e-6)
