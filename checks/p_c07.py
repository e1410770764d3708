"""C07: derivatives of expectation values, by every differentiation mode, are the mathematical ones."""
import torch

from symq.runner import obligation
from checks import oracle as O

P = "C07"
MODES = ("ad", "adjoint", "gpsr")


def params(s, names, batch):
    return {k: s.angle(k, batch).requires_grad_(True) for k in names}


def g(name, *sup, p=()):
    return O.gate(name, *sup, params=[p] if isinstance(p, str) or not isinstance(p, (list, tuple)) else p)


def check(s, t, obs, env, n, mode, wrt, label, state=None, fixed=None, model=None):
    """Reported derivative of sum_ij w_ij <O_j>_i for an arbitrary cotangent w."""
    import qadence as qd

    obs = obs if isinstance(obs, list) else [obs]
    m = model or qd.QuantumModel(qd.QuantumCircuit(n, t.block), observable=[o.block for o in obs], diff_mode=mode)
    got = m.expectation({**env, **(fixed or {})}, state=state)
    B = got.shape[0]
    w = s.real("w", (B, len(obs)), -2, 2)

    def f(e):
        psi = t.act(e, n, O.zero_state(n) if state is None else state)
        vals = torch.stack([O.expect(o.op(e, n), psi).real.expand(B) for o in obs], -1)
        return w * vals

    full = {**env, **(fixed or {})}
    gs = torch.autograd.grad(got, [env[k] for k in wrt], grad_outputs=w, allow_unused=True)
    for k, gr in zip(wrt, gs):
        s.fact(gr is not None, f"{label}: derivative with respect to {k} exists")
        if gr is not None:
            s.eq(gr, s.grad(f, full, k), f"{label} d/d{k}", tol=1e-6)


ZX = lambda: O.add(O.kronb(O.gate("Z", 0), O.gate("X", 1)), O.scale(O.gate("Y", 1), 0.5))
GATES = {
    "RX": lambda p: g("RX", 0, p=p), "RY": lambda p: g("RY", 1, p=p), "RZ": lambda p: g("RZ", 0, p=p), "PHASE": lambda p: g("PHASE", 1, p=p),
    "CRX": lambda p: g("CRX", 0, 1, p=p), "CRY": lambda p: g("CRY", 0, 1, p=p), "CRZ": lambda p: g("CRZ", 0, 1, p=p), "CPHASE": lambda p: g("CPHASE", 1, 0, p=p),
}


def wrapped(t):
    """t between fixed gates that make every amplitude matter."""
    return O.chain(O.kronb(g("RY", 0, p=0.7), g("RX", 1, p=1.1)), g("CNOT", 0, 1), t, O.kronb(g("RX", 0, p=0.4), g("RY", 1, p=2.3)))



BACK = {"CRX": lambda p: g("CRX", 1, 0, p=p), "CRZ": lambda p: g("CRZ", 1, 0, p=p), "CPHASE": lambda p: g("CPHASE", 1, 0, p=p), "CRY": lambda p: g("CRY", 1, 0, p=p)}

for mode in MODES:
    for name in GATES:
        for B in (1, 3):
            @obligation(P, f"{mode}-{name}-b{B}")
            def ob(s, mode=mode, name=name, B=B):
                env = params(s, ["x"], B)
                check(s, wrapped(GATES[name]("x")), ZX(), env, 2, mode, ["x"], name)
    for name in BACK:
        @obligation(P, f"{mode}-reversed-{name}")
        def ob(s, mode=mode, name=name):
            """Control on the higher, target on the lower qubit."""
            env = params(s, ["x"], 2)
            check(s, wrapped(BACK[name]("x")), ZX(), env, 2, mode, ["x"], name)

    @obligation(P, f"{mode}-repeated")
    def ob(s, mode=mode):
        """One parameter in several gates, several parameters, several observables, an initial state."""
        env = params(s, ["x", "y"], 2)
        t = O.chain(g("RX", 0, p="x"), g("RY", 1, p="y"), g("CNOT", 0, 1), g("RZ", 1, p="x"), g("CRY", 0, 1, p="y"), g("RX", 1, p="x"))
        check(s, t, [ZX(), O.gate("Z", 1)], env, 2, mode, ["x", "y"], "repeated")

    @obligation(P, f"{mode}-state")
    def ob(s, mode=mode):
        env = params(s, ["x", "y"], 1)
        t = O.chain(g("RX", 0, p="x"), g("CRY", 0, 1, p="y"))
        check(s, t, [ZX()], env, 2, mode, ["x", "y"], "state", state=s.state("psi", 2))

    @obligation(P, f"{mode}-expressions")
    def ob(s, mode=mode):
        """Functions of parameters: the chain rule through the expression."""
        import qadence as qd
        import sympy

        env = params(s, ["x", "y"], 2)
        x, y = qd.FeatureParameter("x"), qd.FeatureParameter("y")
        t = O.chain(
            g("RX", 0, p=O.A(2 * x + 0.3, lambda e: 2 * e["x"] + 0.3)), g("RY", 1, p=O.A(x * y, lambda e: e["x"] * e["y"])),
            g("CNOT", 0, 1), g("RZ", 1, p=O.A(x**2, lambda e: e["x"] ** 2)), g("RX", 1, p=O.A(-y / 3, lambda e: -e["y"] / 3)),
        )
        check(s, t, [ZX()], env, 2, mode, ["x", "y"], "expr")

    @obligation(P, f"{mode}-trainable")
    def ob(s, mode=mode):
        """Gradients with respect to trainable parameters, alone and multiplied with batched features."""
        import qadence as qd

        env = {"x": s.angle("x", 2).requires_grad_(True)}
        x, th, ph = qd.FeatureParameter("x"), qd.VariationalParameter("th"), qd.VariationalParameter("ph")
        t = O.chain(
            g("RX", 0, p=O.A(th * x, lambda e: e["th"] * e["x"])), g("RY", 1, p=O.A(th, lambda e: e["th"])), g("CNOT", 0, 1),
            g("RZ", 1, p=O.A(ph, lambda e: e["ph"])), g("RX", 1, p="x"),
        )
        obs = [ZX(), O.gate("Z", 0)]
        m = qd.QuantumModel(qd.QuantumCircuit(2, t.block), observable=[o.block for o in obs], diff_mode=mode)
        ps = dict(m.named_parameters())
        key = {k: next(p for n_, p in ps.items() if n_.endswith(k)) for k in ("th", "ph")}
        s.fact(sum(k.endswith(("th", "ph")) for k in ps) == 2, "one trainable tensor per variational parameter")
        for k, p in key.items():
            s.bind(p, k, -3, 3)
        got = m.expectation(env)
        w = s.real("w", (2, 2), -2, 2)
        gs = torch.autograd.grad(got, [env["x"], key["th"], key["ph"]], grad_outputs=w)

        def f(e):
            psi = t.act(e, 2, O.zero_state(2))
            return w * torch.stack([O.expect(o.op(e, 2), psi).real for o in obs], -1)

        full = {**env, **key}
        for k, gr in zip(("x", "th", "ph"), gs):
            s.eq(gr, s.grad(f, full, k), f"d/d{k}", tol=1e-6)

    @obligation(P, f"{mode}-vectorised-trainable")
    def ob(s, mode=mode):
        import qadence as qd

        env = params(s, ["x"], 3)
        th = qd.VariationalParameter("th")
        t = O.chain(g("RX", 0, p="x"), g("RY", 0, p=O.A(th, lambda e: e["th"])))
        m = qd.QuantumModel(qd.QuantumCircuit(1, t.block), observable=O.gate("Z", 0).block, diff_mode=mode)
        (p,) = [v for k, v in m.named_parameters() if k.endswith("th")]
        s.bind(p, "th", -3, 3)
        m.expectation(env).sum().backward()
        f = lambda e: O.expect(O.embed(O.Z2, (0,), 1), t.act(e, 1, O.zero_state(1))).real
        full = {"x": env["x"], "th": p}
        s.eq(p.grad, s.grad(f, full, "th"), "backward th", tol=1e-6)
        s.eq(env["x"].grad, s.grad(f, full, "x"), "backward x", tol=1e-6)

    for nm, mk in {
        "X": lambda: O.gate("X", 0), "ZZ": lambda: O.kronb(O.gate("Z", 0), O.gate("Z", 1)), "YX": lambda: O.kronb(O.gate("Y", 0), O.gate("X", 1)),
    }.items():
        @obligation(P, f"{mode}-evolution-{nm}")
        def ob(s, mode=mode, mk=mk, nm=nm):
            """Derivative with respect to the evolution time."""
            env = params(s, ["x"], 2)
            check(s, wrapped(O.ham_evo(mk(), "x")), ZX(), env, 2, mode, ["x"], nm)

    @obligation(P, f"{mode}-evolution-sum")
    def ob(s, mode=mode):
        env = params(s, ["x"], 2)
        t = O.ham_evo_sum([(1.0, O.gate("Z", 0)), (0.5, O.kronb(O.gate("Z", 0), O.gate("Z", 1))), (1.5, O.gate("Z", 1))], "x")
        check(s, wrapped(t), ZX(), env, 2, mode, ["x"], "sum")

    @obligation(P, f"{mode}-evolution-scales")
    def ob(s, mode=mode):
        """Terms whose strengths differ by orders of magnitude."""
        env = params(s, ["x"], 2)
        for lab, cs in [("weak", (0.04, 1.0)), ("strong", (1.0, 12.5)), ("close", (1.0, 1.03125))]:
            t = O.ham_evo_sum([(cs[0], O.gate("Z", 0)), (cs[1], O.gate("Z", 1))], "x")
            check(s, wrapped(t), ZX(), env, 2, mode, ["x"], lab)

    @obligation(P, f"{mode}-evolution-expression")
    def ob(s, mode=mode):
        import qadence as qd

        env = params(s, ["x", "y"], 2)
        x, y = qd.FeatureParameter("x"), qd.FeatureParameter("y")
        t = O.ham_evo(O.kronb(O.gate("Z", 0), O.gate("X", 1)), O.A(2 * x * y + 1, lambda e: 2 * e["x"] * e["y"] + 1))
        check(s, wrapped(O.chain(t, g("RX", 0, p="x"))), ZX(), env, 2, mode, ["x", "y"], "expr")

    @obligation(P, f"{mode}-mc")
    def ob(s, mode=mode):
        env = params(s, ["x", "y", "z"], 1)
        t = O.chain(
            O.kronb(g("RY", 0, p=0.7), g("RX", 1, p=1.1), g("RY", 2, p=0.4)), g("MCRX", 0, 1, 2, p="x"), O.kronb(g("RY", 0, p=0.3), g("RX", 2, p=0.9)),
            g("MCRZ", 0, 1, 2, p="y"), g("MCPHASE", 0, 1, 2, p="z"), g("RX", 1, p=0.6), g("RY", 2, p=0.3),
        )
        o = O.add(O.kronb(O.gate("Z", 0), O.gate("X", 1), O.gate("Y", 2)), O.gate("X", 2))
        check(s, t, o, env, 3, mode, ["x", "y", "z"], "mc")

for mode in ("ad", "gpsr"):
    for nm, mk in {"rot": lambda: O.chain(g("RX", 0, p="x"), g("RY", 1, p="y"), g("CNOT", 0, 1), g("RZ", 1, p="x")), "crot": lambda: O.chain(g("RX", 0, p="x"), g("CRY", 0, 1, p="y")),
                   "evo": lambda: O.chain(g("RY", 0, p="y"), O.ham_evo(O.kronb(O.gate("Z", 0), O.gate("X", 1)), "x"), g("RX", 0, p="x"))}.items():
        if mode == "ad" and nm == "evo":
            continue  # second derivative of the dense matrix exponential: outside the executor's reach

        @obligation(P, f"{mode}-second-order-{nm}", timeout=200)
        def ob(s, mode=mode, mk=mk):
            """Second derivatives, mixed ones included."""
            import qadence as qd

            env = params(s, ["x", "y"], 2)
            t, o = mk(), ZX()
            m = qd.QuantumModel(qd.QuantumCircuit(2, t.block), observable=o.block, diff_mode=mode)
            out = m.expectation(env)
            f = lambda e: O.expect(o.op(e, 2), t.act(e, 2, O.zero_state(2))).real
            for k in ("x", "y"):
                (d,) = torch.autograd.grad(out.sum(), env[k], create_graph=True)
                s.eq(d, s.grad(f, env, k), f"d{k}", tol=1e-6)
                for l in ("x", "y"):
                    (dd,) = torch.autograd.grad(d.sum(), env[l], retain_graph=True)
                    s.eq(dd, s.grad(lambda e: s.grad(f, e, k), env, l), f"d{k}d{l}", tol=1e-6)


@obligation(P, "ad-U")
def ob(s):
    env = params(s, ["x", "y", "z"], 2)
    check(s, wrapped(g("U", 0, p=["x", "y", "z"])), ZX(), env, 2, "ad", ["x", "y", "z"], "U")


@obligation(P, "ad-observable")
def ob(s):
    """Derivatives with respect to parameters of the observable."""
    import qadence as qd

    env = params(s, ["x", "a", "b"], 2)
    t = O.chain(g("RX", 0, p="x"), g("CRY", 0, 1, p=O.A(qd.FeatureParameter("a"), lambda e: e["a"])))
    o = O.add(O.scale(O.gate("Z", 0), "a"), O.scale(O.kronb(O.gate("X", 0), O.gate("Y", 1)), O.A(qd.FeatureParameter("b") * qd.FeatureParameter("a"), lambda e: e["a"] * e["b"])))
    check(s, t, [o, O.gate("Z", 1)], env, 2, "ad", ["x", "a", "b"], "obs")


@obligation(P, "ad-run")
def ob(s):
    """Derivatives of amplitudes through run()."""
    import qadence as qd

    env = params(s, ["x", "y"], 2)
    t = O.chain(g("RX", 0, p="x"), g("CRY", 0, 1, p="y"), g("PHASE", 1, p="x"))
    w = s.cplx("w", (2, 4))
    out = qd.QuantumModel(qd.QuantumCircuit(2, t.block), diff_mode="ad").run(env)
    f = lambda e: (w * t.act(e, 2, O.zero_state(2))).real
    for k in ("x", "y"):
        (d,) = torch.autograd.grad((w * out).real.sum(), env[k], retain_graph=True)
        s.eq(d, s.grad(f, env, k), f"d{k}")


@obligation(P, "gpsr-fixed-observable-scale")
def ob(s):
    """Observables with numeric coefficients inside nested sums and products."""
    env = params(s, ["x"], 2)
    o = O.scale(O.add(O.scale(O.gate("Z", 0), 0.3), O.kronb(O.scale(O.gate("X", 0), -2.0), O.gate("Y", 1))), 1.5)
    check(s, wrapped(g("RX", 0, p="x")), [o, ZX()], env, 2, "gpsr", ["x"], "scaled")


for pf in (0.5, 0.3, 1.0):
    @obligation(P, f"gpsr-shift-{pf}")
    def ob(s, pf=pf):
        """The result does not depend on the magnitude of the shifts."""
        import qadence as qd

        env = params(s, ["x", "y"], 2)
        t = O.chain(g("RX", 0, p="x"), g("RY", 1, p=0.8), g("CRY", 0, 1, p="y"))
        m = qd.QuantumModel(qd.QuantumCircuit(2, t.block), observable=ZX().block, diff_mode="gpsr", configuration={"shift_prefac": pf})
        check(s, t, ZX(), env, 2, "gpsr", ["x", "y"], f"prefactor {pf}", model=m)
