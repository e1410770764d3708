"""C09: parameter values and parameter expressions reach the gates exactly as written."""
import math

import torch

from symq.runner import obligation
from checks import oracle as O

P = "C09"


def g(name, *sup, p):
    return O.gate(name, *sup, params=p if isinstance(p, list) else [p])


# name -> (range of x, expression maker, its value)
def exprs():
    import sympy as sp

    return {
        "affine": ((-6, 6), lambda x: 2 * x + 1, lambda v: 2 * v + 1),
        "decimal": ((-6, 6), lambda x: 0.123456789 * x - 2.5, lambda v: 0.123456789 * v - 2.5),
        "multidigit": ((-6, 6), lambda x: 12.5 * x - 100.25, lambda v: 12.5 * v - 100.25),
        "tiny": ((-6, 6), lambda x: 0.00125 * x + 3e-05, lambda v: 0.00125 * v + 3e-05),
        "large": ((-1, 1), lambda x: 123456.75 * x, lambda v: 123456.75 * v),
        "negative": ((-6, 6), lambda x: -x, lambda v: -v),
        "rational": ((-6, 6), lambda x: x / 3 + sp.Rational(1, 7), lambda v: v / 3 + 1 / 7),
        "pi": ((-6, 6), lambda x: sp.pi * x / 2, lambda v: math.pi * v / 2),
        "square": ((-3, 3), lambda x: x**2, lambda v: v * v),
        "cube": ((-2, 2), lambda x: 0.5 * x**3 - x, lambda v: 0.5 * v * v * v - v),
        "inverse": ((0.5, 4), lambda x: 1 / x, lambda v: 1 / v),
        "power": ((0.5, 4), lambda x: x**-2, lambda v: 1 / (v * v)),
        "quotient": ((0.5, 4), lambda x: (x + 1) / (x + 2), lambda v: (v + 1) / (v + 2)),
        "sqrt": ((0.3, 4), lambda x: sp.sqrt(x), lambda v: torch.sqrt(v)),
        "sin": ((-6, 6), lambda x: sp.sin(x), torch.sin),
        "cos": ((-6, 6), lambda x: 3 * sp.cos(2 * x + 0.1), lambda v: 3 * torch.cos(2 * v + 0.1)),
        "tan": ((-1.2, 1.2), lambda x: sp.tan(x), torch.tan),
        "exp": ((-2, 2), lambda x: sp.exp(x), torch.exp),
        "exp-": ((-2, 2), lambda x: sp.exp(-x), lambda v: torch.exp(-v)),
        "log": ((0.3, 5), lambda x: sp.log(x), torch.log),
        "acos": ((-0.9, 0.9), lambda x: sp.acos(x), torch.acos),
        "asin": ((-0.9, 0.9), lambda x: sp.asin(x), torch.asin),
        "atan": ((-4, 4), lambda x: 2 * sp.atan(x), lambda v: 2 * torch.atan(v)),
        "tanh": ((-3, 3), lambda x: sp.tanh(x), torch.tanh),
        "2acos": ((-0.9, 0.9), lambda x: 2 * sp.acos(x), lambda v: 2 * torch.acos(v)),
        "abs": ((-3, 3), lambda x: sp.Abs(x), torch.abs),
        "nested": ((-2, 2), lambda x: sp.sin(x**2 + 1), lambda v: torch.sin(v * v + 1)),
        "product": ((-2, 2), lambda x: x * (x + 1) * 0.5, lambda v: v * (v + 1) * 0.5),
        "tower": ((0.5, 3), lambda x: sp.exp(-sp.sqrt(x)), lambda v: torch.exp(-torch.sqrt(v))),
        "heaviside": ((-3, 3), lambda x: sp.Heaviside(x) * x, lambda v: torch.heaviside(v, torch.tensor(0.5, dtype=v.dtype)) * v),
    }


for name in exprs():
    @obligation(P, f"expr-{name}")
    def ob(s, name=name):
        """An expression of a feature parameter is evaluated as mathematics, wherever it is used."""
        import qadence as qd

        (lo, hi), mk, fn = exprs()[name]
        v = s.real("x", 2, lo, hi)
        e = mk(qd.FeatureParameter("x"))
        val = fn(v)
        a = O.A(e, lambda env: val)
        for lab, t in (("gate", O.chain(O.gate("H", 0), g("RX", 0, p=a), g("RZ", 0, p=a))),):
            c = qd.QuantumCircuit(1, t.block)
            want = t.act({}, 1, O.zero_state(1))
            s.eq(qd.run(c, values={"x": v}), want, f"{lab}")
            s.eq(qd.run(c, values={"x": v}, configuration={"_use_gate_params": True}), want, f"{lab} gate-level")
            s.eq(qd.block_to_tensor(t.block, {"x": v}), t.op({}, 1), f"{lab} matrix")
        o = O.scale(O.gate("Z", 0), a)
        c = qd.QuantumCircuit(1, qd.RX(0, 0.3))
        s.eq(qd.expectation(c, o.block, values={"x": v}), (val * math.cos(0.3)).reshape(-1, 1), "observable coefficient")
        h = O.ham_evo(O.gate("X", 0), a)
        s.eq(qd.run(qd.QuantumCircuit(1, h.block), values={"x": v}), h.act({}, 1, O.zero_state(1)).expand(2, -1), "evolution time")

    @obligation(P, f"evaluate-{name}")
    def ob(s, name=name):
        import qadence as qd
        from qadence.parameters import evaluate

        (lo, hi), mk, fn = exprs()[name]
        v = s.real("x", 2, lo, hi)
        s.eq(evaluate(mk(qd.FeatureParameter("x")), {"x": v}, as_torch=True).reshape(-1), fn(v), "evaluate")


@obligation(P, "several-symbols")
def ob(s):
    import qadence as qd

    v = {k: s.real(k, 2, -2, 2) for k in ("x", "y", "z")}
    x, y, z = (qd.FeatureParameter(k) for k in "xyz")
    cases = [
        (x * y * z, v["x"] * v["y"] * v["z"]), (x + y + z + 1, v["x"] + v["y"] + v["z"] + 1),
        (2 * x * y - 3 * z, 2 * v["x"] * v["y"] - 3 * v["z"]), ((x - y) ** 2, (v["x"] - v["y"]) ** 2), (x * (y + z), v["x"] * (v["y"] + v["z"])),
    ]
    for i, (e, val) in enumerate(cases):
        a = O.A(e, lambda env, val=val: val)
        t = O.chain(g("RY", 0, p=a), g("PHASE", 0, p=a))
        s.eq(qd.run(qd.QuantumCircuit(1, t.block), values=v), t.act({}, 1, O.zero_state(1)), f"gate {i}")
        s.eq(qd.expectation(qd.QuantumCircuit(1, qd.RX(0, 0.3)), O.scale(O.gate("Z", 0), a).block, values=v), (val * math.cos(0.3)).reshape(-1, 1), f"scale {i}")


@obligation(P, "fixed-numbers")
def ob(s):
    """Different numbers never stand in for one another, whatever their size, sign or type."""
    import qadence as qd
    import sympy as sp

    nums = [1, -1, -2, 2, 0, 1.0001, 0.1, 0.01, 1e-9, 10, 11, 1.1, 0.11, -0.5, 0.5, 1e3, 3.0000001, 2.9999999]
    th = s.angle("t")
    t = O.gate("RX", 0, params=["t"])
    ts = [t]
    for i, v in enumerate(nums):
        ts.append(O.gate(("RX", "RY", "RZ", "PHASE")[i % 4], i % 2, params=[v]))
    ts.append(O.gate("RX", 1, params=[O.A(sp.pi / 3, torch.tensor([math.pi / 3]))]))
    ts.append(O.gate("RY", 1, params=[O.A(sp.Rational(2, 7), torch.tensor([2 / 7]))]))
    ts.append(O.gate("RZ", 1, params=[O.A(torch.tensor(0.77), torch.tensor([0.77]))]))
    c = O.chain(*ts)
    for cfg in ({}, {"_use_gate_params": True}):
        s.eq(qd.run(2, c.block, values={"t": th}, configuration=cfg), c.act({"t": th}, 2, O.zero_state(2)), f"numbers {cfg}", tol=1e-6)
    for dm in ("ad", "gpsr", "adjoint"):
        m = qd.QuantumModel(qd.QuantumCircuit(2, c.block), observable=qd.Z(0), diff_mode=dm)
        s.eq(m.expectation({"t": th}), O.expect(O.embed(O.Z2, (0,), 2), c.act({"t": th}, 2, O.zero_state(2))).reshape(-1, 1), f"model {dm}", tol=1e-6)


@obligation(P, "fixed-scales")
def ob(s):
    import qadence as qd

    th = s.angle("t")
    nums = [1, -1, -2, 0.25, 1e-3, 12, 1.5, 0.15, -3.75]
    o = O.add(*[O.scale(O.gate(("X", "Y", "Z")[i % 3], i % 2), v) for i, v in enumerate(nums)])
    t = O.chain(O.gate("RX", 0, params=["t"]), O.gate("RY", 1, params=["t"]), O.gate("CNOT", 0, 1))
    for dm in ("ad", "gpsr"):
        m = qd.QuantumModel(qd.QuantumCircuit(2, t.block), observable=o.block, diff_mode=dm)
        s.eq(m.expectation({"t": th}), O.expect(o.op({}, 2), t.act({"t": th}, 2, O.zero_state(2))).reshape(-1, 1), dm)


@obligation(P, "precedence")
def ob(s):
    """Call values override stored trainable values; unnamed trainables keep theirs; models do not share values."""
    import qadence as qd

    th, ph = qd.VariationalParameter("th", value=0.3), qd.VariationalParameter("ph", value=1.1)
    t = O.chain(g("RX", 0, p=O.A(th, lambda e: e["th"])), g("RY", 1, p=O.A(ph + qd.FeatureParameter("x"), lambda e: e["ph"] + e["x"])), O.gate("CNOT", 0, 1))
    c = qd.QuantumCircuit(2, t.block)
    x = s.angle("x", 2)
    v1, v2, v3 = s.angle("v1"), s.angle("v2"), s.angle("v3", 2)
    base = {"th": torch.tensor([0.3]), "ph": torch.tensor([1.1]), "x": x}
    out = lambda e: t.act(e, 2, O.zero_state(2))
    s.eq(qd.run(c, values={"x": x}), out(base), "initial values", tol=1e-6)
    m, m2 = qd.QuantumModel(c), qd.QuantumModel(c)
    s.eq(m.run({"x": x}), out(base), "model initial", tol=1e-6)
    s.eq(m.run({"x": x, "th": v1}), out({**base, "th": v1}), "override", tol=1e-6)
    s.eq(m.run({"x": x, "th": v3}), out({**base, "th": v3}), "override batch", tol=1e-6)
    s.eq(m.run({"x": x}), out(base), "after override", tol=1e-6)
    with torch.no_grad():
        ps = dict(m.named_parameters())
        s.bind(next(p for k, p in ps.items() if k.endswith("th")), "nth", -3, 3)
        s.bind(next(p for k, p in ps.items() if k.endswith("ph")), "nph", -3, 3)
    new = {k: next(p for n_, p in ps.items() if n_.endswith(k)).detach() for k in ("th", "ph")}
    s.eq(m.run({"x": x}), out({**base, **new}), "trained values")
    s.eq(m.run({"x": x, "ph": v2}), out({**base, **new, "ph": v2}), "trained + override")
    s.eq(m2.run({"x": x}), out(base), "other model unchanged", tol=1e-6)
    s.raises(lambda: m.run({"th": v1}), KeyError, "missing feature value")


@obligation(P, "reset-vparams")
def ob(s):
    import qadence as qd

    th, ph = qd.VariationalParameter("th", value=0.3), qd.VariationalParameter("ph", value=1.1)
    t = O.chain(g("RX", 0, p=O.A(th, lambda e: e["th"])), g("RY", 1, p=O.A(ph, lambda e: e["ph"])), O.gate("CNOT", 0, 1))
    m = qd.QuantumModel(qd.QuantumCircuit(2, t.block))
    vals = [s.angle("a").reshape(()), s.angle("b").reshape(())]
    keys = list(m.vparams.keys())
    m.reset_vparams(vals)
    env = {k: v.reshape(1) for k, v in zip(keys, vals)}
    s.fact(sorted(keys) == ["ph", "th"] and m.num_vparams == 2, "trainable names")
    s.eq(m.run({}), t.act(env, 2, O.zero_state(2)), "reset")
    s.eq(m.vals_vparams, torch.cat([env[k] for k in keys]), "reported values")


@obligation(P, "value-shapes")
def ob(s):
    """Scalars, one-element and batched tensors; extra unused values do not matter."""
    import qadence as qd

    t = O.chain(O.gate("RX", 0, params=["x"]), O.gate("CRY", 0, 1, params=["y"]))
    c = qd.QuantumCircuit(2, t.block)
    x, y, y3 = s.angle("x"), s.angle("y"), s.angle("y3", 3)
    w = lambda X, Y: t.act({"x": X, "y": Y}, 2, O.zero_state(2))
    s.eq(qd.run(c, values={"x": x.reshape(()), "y": y.reshape(())}), w(x, y), "0-dim")
    s.eq(qd.run(c, values={"x": x, "y": y3}), w(x, y3), "1 and 3")
    s.eq(qd.run(c, values={"x": x.reshape(()), "y": y3}), w(x, y3), "0-dim and 3")
    s.eq(qd.run(c, values={"x": x, "y": y, "unused": s.angle("u")}), w(x, y), "unused")
    s.eq(qd.run(c, values={"y": y, "x": x}), w(x, y), "order")


@obligation(P, "same-name")
def ob(s):
    """One name is one value, however many objects carry it."""
    import qadence as qd

    x = s.angle("x", 2)
    t = O.chain(
        O.gate("RX", 0, params=["x"]), g("RY", 0, p=O.A(qd.FeatureParameter("x"), lambda e: e["x"])),
        g("RZ", 0, p=O.A(2 * qd.FeatureParameter("x"), lambda e: 2 * e["x"])), g("CRX", 0, 1, p=O.A(qd.FeatureParameter("x") * 2, lambda e: 2 * e["x"])),
    )
    for cfg in ({}, {"_use_gate_params": True}):
        s.eq(qd.run(2, t.block, values={"x": x}, configuration=cfg), t.act({"x": x}, 2, O.zero_state(2)), str(cfg))


@obligation(P, "similar-names")
def ob(s):
    """Names that contain one another, or look like functions or numbers, stay apart."""
    import qadence as qd

    names = ["x", "x1", "x_1", "xx", "y_0", "y0", "theta", "theta_1_2", "E1", "beta2", "lam"]
    env = {k: s.angle(k) for k in names}
    t = O.chain(*[O.gate(("RX", "RY", "RZ")[i % 3], i % 2, params=[k]) for i, k in enumerate(names)])
    s.eq(qd.run(2, t.block, values=env), t.act(env, 2, O.zero_state(2)), "names")


@obligation(P, "trainability")
def ob(s):
    """Turning parameters into fixed inputs and back changes who supplies the value, nothing else."""
    import qadence as qd

    th = qd.VariationalParameter("th", value=0.3)
    t = O.chain(g("RX", 0, p=O.A(th, lambda e: e["th"])), g("RY", 0, p=O.A(qd.FeatureParameter("x"), lambda e: e["x"])))
    x, v = s.angle("x", 2), s.angle("v", 2)
    m = qd.QuantumModel(qd.QuantumCircuit(1, t.block))
    m.set_as_fixed(["th"])
    s.fact("th" not in m.vparams, "no longer trainable")
    s.eq(m.run({"x": x, "th": v}), t.act({"x": x, "th": v}, 1, O.zero_state(1)), "as input")
    s.raises(lambda: m.run({"x": x}), KeyError, "value required")
    m.set_as_variational(["th"])
    s.fact("th" in m.vparams and "x" not in m.vparams, "trainable again")
    s.eq(m.run({"x": x}), t.act({"x": x, "th": torch.tensor([0.3])}, 1, O.zero_state(1)), "own value", tol=1e-6)


@obligation(P, "observable-and-circuit")
def ob(s):
    """Separate values for circuit and observables given as nested dictionaries."""
    import qadence as qd

    x, w = s.angle("x", 2), s.real("w", 2)
    t = O.chain(O.gate("RX", 0, params=["x"]), O.gate("RY", 0, params=["x"]))
    c = qd.QuantumCircuit(1, t.block)
    o = qd.FeatureParameter("w") * qd.Z(0) + qd.X(0)
    psi = t.act({"x": x}, 1, O.zero_state(1))
    want = (w * O.expect(O.embed(O.Z2, (0,), 1), psi).real + O.expect(O.embed(O.X2, (0,), 1), psi).real).reshape(-1, 1)
    s.eq(qd.expectation(c, o, values={"x": x, "w": w}), want, "flat")
    m = qd.QuantumModel(c, observable=o)
    s.eq(m.expectation({"x": x, "w": w}), want, "model")


@obligation(P, "generator-matrices")
def ob(s):
    """Evolutions under different matrices stay different, large matrices included."""
    import qadence as qd
    from qadence.operations import HamEvo

    t = s.angle("t")
    n = 5
    g1 = torch.zeros(1, 2**n, 2**n, dtype=torch.cdouble)
    g2 = torch.zeros(1, 2**n, 2**n, dtype=torch.cdouble)
    for k in range(2**n):
        g1[0, k, k] = 1.0 if k != 13 else 2.0
        g2[0, k, k] = 1.0 if k != 13 else -1.0
    c = qd.chain(*[qd.H(i) for i in range(n)], HamEvo(g1, "t", tuple(range(n))), HamEvo(g2, "t", tuple(range(n))))
    got = qd.run(n, c, values={"t": t})
    amp = 2 ** (-n / 2)
    k = torch.arange(2**n)
    ph = torch.where(k == 13, 1.0, 2.0)
    want = amp * torch.complex(torch.cos(ph * t), -torch.sin(ph * t)).reshape(1, -1)
    s.eq(got, want, "two 5-qubit generators")


# ------------------------------------------------------------------------------------------------ initial values
# allow_pins: sympy takes the truth value of the value, which is true for every number in the range
@obligation(P, "initial-values", timeout=240, allow_pins=True)
def ob(s):
    """The value given to a variational parameter is the one models start from, whatever is done to blocks in between."""
    import copy
    import pickle

    import qadence as qd
    from qadence.transpile import chain_single_qubit_ops, flatten, invert_endianness, reassign

    acts = {
        "nothing": lambda b: b,
        "copy": copy.copy,
        "deepcopy": copy.deepcopy,
        "flatten": flatten,
        "invert_endianness": lambda b: invert_endianness(invert_endianness(b)),
        "dagger": lambda b: b.dagger().dagger(),
        "reassign": lambda b: reassign(reassign(b, {0: 1, 1: 0}), {0: 1, 1: 0}),
        "chain_single_qubit_ops": chain_single_qubit_ops,
        "circuit": lambda b: copy.deepcopy(qd.QuantumCircuit(2, b)).block,
    }
    v = s.real("v", 3, 0.2, 3.0)
    for i, (lab, f) in enumerate(acts.items()):
        a = qd.VariationalParameter(f"iv{i}", value=v[0])
        b = qd.Parameter(f"iw{i}", trainable=True, value=v[1])
        c = qd.VariationalParameter(f"iz{i}", value=v[2])
        blk = qd.chain(qd.RX(0, a), qd.CRY(0, 1, 2 * b + a), qd.kron(qd.RZ(0, c), qd.RX(1, 1.5)), qd.U(1, a, 0.3, b))
        after = f(blk)

        def want():
            x = v.reshape(3, 1)
            psi = O.apply(O.rot(O.X2, x[0]), (0,), 2, O.zero_state(2))
            psi = O.apply(O.ctrl(O.rot(O.Y2, 2 * x[1] + x[0]), 1), (0, 1), 2, psi)
            psi = O.apply(O.rot(O.Z2, x[2]), (0,), 2, psi)
            psi = O.apply(O.rot(O.X2, torch.tensor([1.5], dtype=torch.float64)), (1,), 2, psi)
            for m, t in ((O.Z2, x[0]), (O.Y2, torch.tensor([0.3], dtype=torch.float64)), (O.Z2, x[1])):
                psi = O.apply(O.rot(m, t), (1,), 2, psi)
            return psi

        s.eq(qd.run(2, after), want(), f"{lab}: run")
        s.eq(qd.QuantumModel(qd.QuantumCircuit(2, after)).run(), want(), f"{lab}: model")
        s.eq(qd.run(2, blk), want(), f"{lab}: the block itself")
        m = qd.QuantumModel(qd.QuantumCircuit(2, blk))
        for k, x in ((a, v[0]), (b, v[1]), (c, v[2])):
            s.eq(m.vparams[k.name].reshape(()), x, f"{lab}: {k.name[:2]}")


@obligation(P, "initial-values-pickled")
def ob(s):
    """Pickling and copying parameters, also those without a given value and of value zero."""
    import copy
    import pickle

    import qadence as qd

    for f in (copy.copy, copy.deepcopy, lambda p: pickle.loads(pickle.dumps(p))):
        for kw in ({"value": 0.37}, {"value": 0.0}, {"value": -2.5}, {}, {"value": 1.0}):
            for mk in (qd.VariationalParameter, qd.FeatureParameter):
                p = mk("pk", **kw)
                x, tr, t = p.value, p.trainable, p.is_time
                q = f(p)
                s.fact((q.name, q.value, q.trainable, q.is_time) == ("pk", x, tr, t), f"copy {kw} {mk.__name__}")
                s.fact((p.value, p.trainable, p.is_time) == (x, tr, t), f"original {kw} {mk.__name__}")
                e = f(2 * p + 1)
                s.fact([z.value for z in e.free_symbols] == [x] and p.value == x, f"expression {kw} {mk.__name__}")
        t = qd.TimeParameter("tk")
        s.fact(f(t).is_time and not f(t).trainable and t.is_time, "time")


@obligation(P, "separate-values")
def ob(s):
    """Values given separately reach the circuit and the observables separately, also under one name; a single group serves both."""
    import qadence as qd

    x, y, w = s.angle("x", 2), s.angle("y", 2), s.real("w", 2)
    t = O.chain(g("RX", 0, p=O.A(qd.FeatureParameter("x"), lambda e: e["x"])), g("RY", 0, p=O.A(qd.FeatureParameter("y"), lambda e: e["y"])))
    X_, Z_ = O.embed(O.X2, (0,), 1), O.embed(O.Z2, (0,), 1)

    def obs(two):
        o = [qd.FeatureParameter("x") * qd.Z(0) + qd.FeatureParameter("w") * qd.X(0)]
        return o + [qd.FeatureParameter("w") * qd.Z(0)] if two else o

    def want(cx, ox, ow, two):
        psi = t.act({"x": cx, "y": y}, 1, O.zero_state(1))
        a = ox * O.expect(Z_, psi).real + ow * O.expect(X_, psi).real
        return torch.stack([a, ow * O.expect(Z_, psi).real], -1) if two else a.reshape(-1, 1)

    for two in (False, True):
        m = qd.QuantumModel(qd.QuantumCircuit(1, t.block), observable=obs(two))
        s.eq(m.expectation({"x": x, "y": y, "w": w}), want(x, x, w, two), f"flat {two}")
        s.eq(m.expectation({"circuit": {"x": x, "y": y}, "observables": {"w": w}}), want(x, x, w, two), f"nested {two}")
        s.eq(m.expectation({"circuit": {"x": x, "y": y}, "observables": {"w": w, "x": y}}), want(x, y, w, two), f"one name, two values {two}")
        s.eq(m.expectation({"circuit": {"x": x, "y": y, "w": w}}), want(x, x, w, two), f"only circuit {two}")
        s.eq(m.expectation({"observables": {"x": x, "y": y, "w": w}}), want(x, x, w, two), f"only observables {two}")
    m = qd.QuantumModel(qd.QuantumCircuit(1, t.block), observable=qd.X(0))
    psi = t.act({"x": x, "y": y}, 1, O.zero_state(1))
    s.eq(m.expectation({"circuit": {"x": x, "y": y}}), O.expect(X_, psi).real.reshape(-1, 1), "plain observable")
    s.raises(lambda: m.expectation({"circuit": {"x": x}}), KeyError, "missing value")


@obligation(P, "roles-of-blocks")
def ob(s):
    """set_as_fixed and set_as_variational change the role of exactly the named parameters of exactly the given blocks."""
    import qadence as qd
    from qadence.blocks import parameters
    from qadence.transpile import set_as_fixed, set_as_variational

    def make():
        qd_ = qd.VariationalParameter
        a = qd.chain(qd.RX(0, qd_("ra", value=0.25)), qd.RY(0, 2 * qd_("rb", value=0.5)), qd.RZ(0, 0.75))
        b = qd.kron(qd.RX(0, qd_("rc", value=0.35)), qd.RX(1, qd.FeatureParameter("rd")))
        return a, b

    trainable = lambda *bs: sorted({p.name for b in bs for p in parameters(b) if not p.is_number and p.trainable})
    a, b = make()
    r = set_as_fixed([a, b], ["ra", "rc"])
    s.fact(r == [a, b] and r[0] is a and r[1] is b, "the same blocks")
    s.fact(trainable(a, b) == ["rb"], "only the named ones")
    r = set_as_variational([a, b], ["rc", "rd"])
    s.fact(trainable(a, b) == ["rb", "rc", "rd"], "back, and features too")
    r = set_as_fixed(a)
    s.fact(r is a and trainable(a, b) == ["rc", "rd"], "all of one block")
    set_as_variational(a), set_as_fixed(b, ["rd"])
    s.fact(trainable(a, b) == ["ra", "rb", "rc"], "as at the start")
    s.raises(lambda: set_as_fixed(a, inplace=False), NotImplementedError, "copies are refused")
    s.raises(lambda: set_as_variational(a, inplace=False), NotImplementedError, "copies are refused (variational)")
    x, v = s.angle("x", 2), s.angle("v", 2)
    set_as_fixed([a, b], ["rb"])
    t = O.chain(O.gate("RX", 0, params=[0.25]), O.Term(a.blocks[1], (0,), lambda e: O.rot(O.Y2, 2 * e["v"])), O.gate("RZ", 0, params=[0.75]), O.gate("RX", 0, params=[0.35]), O.gate("RX", 1, params=["x"]))
    s.eq(qd.run(2, qd.chain(a, b), values={"rb": v, "rd": x}), t.act({"x": x, "v": v}, 2, O.zero_state(2)), "values", tol=1e-6)
    s.raises(lambda: qd.run(2, qd.chain(a, b), values={"rd": x}), KeyError, "a fixed one needs its value")
    set_as_variational([a, b], ["ra", "rb", "rc"])
    set_as_fixed(b, ["rd"])


@obligation(P, "roles-of-models")
def ob(s):
    """A model's parameters turned into inputs and back, in the circuit and in its observables."""
    import qadence as qd

    for nobs in (1, 2):
        th, w = qd.VariationalParameter("mth", value=0.3), qd.VariationalParameter("mw", value=0.7)
        t = O.chain(g("RX", 0, p=O.A(th, lambda e: e["mth"])), g("RY", 0, p=O.A(qd.FeatureParameter("x") * th, lambda e: e["x"] * e["mth"])))
        os_ = [w * qd.Z(0), th * qd.X(0)][:nobs]
        m = qd.QuantumModel(qd.QuantumCircuit(1, t.block), observable=os_)
        x, v, u = s.angle(f"x{nobs}", 2), s.angle(f"v{nobs}", 2), s.real(f"u{nobs}", 2)

        def want(a, b):
            psi = t.act({"x": x, "mth": a}, 1, O.zero_state(1))
            r = [b * O.expect(O.embed(O.Z2, (0,), 1), psi).real, a * O.expect(O.embed(O.X2, (0,), 1), psi).real]
            return torch.stack(r[:nobs], -1)

        A, B = torch.tensor([0.3], dtype=torch.float64), torch.tensor([0.7], dtype=torch.float64)
        s.eq(m.expectation({"x": x}), want(A, B), f"{nobs}: start", tol=1e-6)
        m.set_as_fixed()
        s.fact(not m.vparams and m.num_vparams == 0, f"{nobs}: nothing trainable")
        s.eq(m.expectation({"x": x, "mth": v, "mw": u}), want(v, u), f"{nobs}: all given")
        s.raises(lambda: m.expectation({"x": x, "mth": v}), KeyError, f"{nobs}: observable's value required")
        m.set_as_variational(["mw"])
        s.fact(sorted(m.vparams) == ["mw"], f"{nobs}: one trainable")
        s.eq(m.expectation({"x": x, "mth": v}), want(v, B), f"{nobs}: circuit given", tol=1e-6)
        m.set_as_variational(["mth"])
        m.set_as_fixed(["mw"])
        s.fact(sorted(m.vparams) == ["mth"], f"{nobs}: the other trainable")
        s.eq(m.expectation({"x": x, "mw": u}), want(A, u), f"{nobs}: observable given", tol=1e-6)
        with torch.no_grad():
            s.bind(next(p for k, p in m.named_parameters() if k.endswith("mth")), f"new{nobs}", -3, 3)
        new = next(p for k, p in m.named_parameters() if k.endswith("mth")).detach()
        s.eq(m.expectation({"x": x, "mw": u}), want(new, u), f"{nobs}: new value")
        m.set_as_variational(["mth", "mw"])
        s.fact(sorted(m.vparams) == ["mth", "mw"] and m.num_vparams == 2, f"{nobs}: both again")


@obligation(P, "model-interface")
def ob(s):
    """What a model reports about itself, and its conversions, agree with what it computes."""
    import qadence as qd

    th, ph = qd.VariationalParameter("ith", value=0.3), qd.VariationalParameter("iph", value=1.1)
    x, y = qd.FeatureParameter("x"), qd.FeatureParameter("y")
    t = O.chain(g("RX", 0, p=O.A(th, lambda e: e["ith"])), g("RY", 1, p=O.A(x * ph, lambda e: e["x"] * e["iph"])), O.gate("CNOT", 0, 1))
    ow = [O.gate("Z", 0), O.kronb(O.gate("X", 0), O.gate("Y", 1))]
    for dm in ("ad", "gpsr", "adjoint"):
        for obs in (None, ow[0].block, [o.block for o in ow]):
            m = qd.QuantumModel(qd.QuantumCircuit(2, t.block), observable=obs, diff_mode=dm)
            k = 0 if obs is None else len(obs) if isinstance(obs, list) else 1
            s.fact(m.out_features == k, f"{dm} {k}: out_features {m.out_features}")
            s.fact([p.name for p in m.inputs] == ["x"] and m.in_features == 1, f"{dm} {k}: inputs")
            s.fact(sorted(m.vparams) == ["iph", "ith"] and m.num_vparams == 2, f"{dm} {k}: trainable")
            with torch.no_grad():
                new = {n_: s.bind(next(p for k_, p in m.named_parameters() if k_.endswith(n_)), n_ + dm + str(k), -3, 3) for n_ in ("ith", "iph")}
            xs = s.angle("xs", 2)
            env = {"x": xs, **new}
            psi = t.act(env, 2, O.zero_state(2))
            s.eq(m.run({"x": xs}), psi, f"{dm} {k}: run")
            s.eq(m.forward({"x": xs}), psi, f"{dm} {k}: forward")
            s.eq(m({"x": xs}), psi, f"{dm} {k}: call")
            s.eq(m.vals_vparams, torch.cat([new[n_] for n_ in m.vparams]), f"{dm} {k}: values")
            if obs is None:
                s.raises(lambda: m.expectation({"x": xs}), ValueError, f"{dm}: no observable")
            over = [O.gate("X", 1), O.gate("Z", 1), O.gate("Y", 0)]
            for sel in ([0], [0, 2], [2, 1, 0]):
                want = torch.stack([O.expect(over[i].op({}, 2), psi).real for i in sel], -1)
                given = [m.observable(over[i].block, 2) for i in sel]
                s.eq(m.expectation({"x": xs}, observable=given), want, f"{dm} {k}: given observables {sel}")
            if obs is not None:
                want = torch.stack([O.expect(o.op({}, 2), psi).real for o in ow[:k]], -1)
                s.eq(m.expectation({"x": xs}), want, f"{dm} {k}: own observables")


@obligation(P, "model-conversions", allow_pins=True)
def ob(s):
    """Moving a model to another precision or device keeps circuit, observables and trained values."""
    import qadence as qd

    th = qd.VariationalParameter("cth", value=0.3)
    t = O.chain(g("RX", 0, p=O.A(th, lambda e: e["cth"])), g("RY", 1, p=O.A(qd.FeatureParameter("x"), lambda e: e["x"])), O.gate("CNOT", 0, 1))
    ow = [O.gate("Z", 0), O.kronb(O.gate("X", 0), O.gate("Y", 1))]
    x = s.angle("x", 2)
    env = {"x": x, "cth": torch.tensor([0.625], dtype=torch.float64)}
    psi = t.act(env, 2, O.zero_state(2))
    for nobs in (0, 1, 2):
        m = qd.QuantumModel(qd.QuantumCircuit(2, t.block), observable=[o.block for o in ow[:nobs]] or None)
        m.reset_vparams([0.625])
        want = torch.stack([O.expect(o.op({}, 2), psi).real for o in ow[:nobs]], -1) if nobs else None
        for lab, args, kw, dt in (("device", (), dict(device="cpu"), torch.float64), ("single", (), dict(dtype=torch.complex64), torch.float32), ("double", (), dict(dtype=torch.complex128), torch.float64), ("positional", (torch.complex64,), {}, torch.float32)):
            r = m.to(*args, **kw)
            s.fact(r is m and m.device == torch.device("cpu"), f"{nobs} {lab}: itself")
            s.fact(m._circuit.native.dtype == (torch.complex64 if dt == torch.float32 else torch.complex128), f"{nobs} {lab}: circuit's precision")
            s.fact(all(p.dtype == dt for p in m.parameters()) and sorted(m.vparams) == ["cth"], f"{nobs} {lab}: parameters' precision")
            s.eq(m.vals_vparams.double(), torch.tensor([0.625], dtype=torch.float64), f"{nobs} {lab}: trained value", tol=1e-6)
            xx = x.to(dt)
            s.eq(m.run({"x": xx}).to(O.CD), psi, f"{nobs} {lab}: run", tol=1e-4)
            if nobs:
                s.fact(all(o.native.dtype == m._circuit.native.dtype for o in m._observable), f"{nobs} {lab}: observables' precision")
                s.eq(m.expectation({"x": xx}).double(), want, f"{nobs} {lab}: expectation", tol=1e-4)


@obligation(P, "changed-configuration")
def ob(s):
    """change_config and from_dict set exactly the named options and refuse unknown ones."""
    import qadence as qd

    t = O.chain(O.gate("RX", 0, params=["x"]), O.gate("CNOT", 0, 1))
    x = s.angle("x", 2)
    o = O.gate("Z", 1)
    want = O.expect(o.op({}, 2), t.act({"x": x}, 2, O.zero_state(2))).real.reshape(-1, 1)
    for cfg in ({}, {"loop_expectation": True}, {"use_sparse_observable": True}, {"use_single_qubit_composition": True}, {"n_steps_hevo": 7, "loop_expectation": True}):
        m = qd.QuantumModel(qd.QuantumCircuit(2, t.block), observable=o.block, configuration=dict(cfg))
        c = m.backend.backend.config
        d = qd.QuantumModel(qd.QuantumCircuit(2, t.block), observable=o.block).backend.backend.config
        names = [k for k in vars(d) if k != "transpilation_passes"]
        s.fact(all(getattr(c, k) == cfg.get(k, getattr(d, k)) for k in names), f"{cfg}: exactly these options")
        s.eq(m.expectation({"x": x}), want, f"expectation {cfg}")
        m2 = qd.QuantumModel(qd.QuantumCircuit(2, t.block), observable=o.block)
        m2.change_config(dict(cfg))
        c2 = m2.backend.backend.config
        s.fact(all(getattr(c2, k) == cfg.get(k, getattr(d, k)) for k in names), f"{cfg}: change exactly these options")
        s.eq(m2.expectation({"x": x}), want, f"expectation changed {cfg}")
        s.fact(all(k in m2.show_config for k in cfg), "options are shown")
    s.raises(lambda: m2.change_config({"nonsense": 1}), ValueError, "unknown option")
    s.raises(lambda: qd.QuantumModel(qd.QuantumCircuit(2, t.block), configuration={"nonsense": 1}), (TypeError, ValueError), "unknown option at construction")
