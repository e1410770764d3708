"""C19: noise acts where it was put, as the documented channel, and nowhere else."""
import torch

from symq.runner import obligation
from checks import oracle as O

P = "C19"


def dm(psi):
    return psi.unsqueeze(2) * psi.conj().unsqueeze(1)


def conj(m, sup, n, rho):
    """m rho m^dagger with m on the qubits sup."""
    f = O.embed(O.bat(m), tuple(sup), n)
    return torch.matmul(torch.matmul(f, rho), O.adj(f))


def c2(rows):
    return torch.stack([torch.stack([torch.as_tensor(x).to(O.CD).reshape(()) for x in r]) for r in rows])


def channel(kind, p, q, n, rho):
    X, Y, Z = (conj(m, (q,), n, rho) for m in (O.X2, O.Y2, O.Z2))
    if kind == "BITFLIP":
        return (1 - p) * rho + p * X
    if kind == "PHASEFLIP":
        return (1 - p) * rho + p * Z
    if kind == "DEPOLARIZING":
        return (1 - p) * rho + p / 3 * (X + Y + Z)
    if kind == "PAULI_CHANNEL":
        return (1 - p[0] - p[1] - p[2]) * rho + p[0] * X + p[1] * Y + p[2] * Z
    damp = lambda r: (c2([[1.0, 0.0], [0.0, torch.sqrt(1 - r)]]), c2([[0.0, torch.sqrt(r)], [0.0, 0.0]]))
    if kind == "AMPLITUDE_DAMPING":
        return sum(conj(k, (q,), n, rho) for k in damp(p))
    if kind == "PHASE_DAMPING":
        ks = (damp(p)[0], c2([[0.0, 0.0], [0.0, torch.sqrt(p)]]))
        return sum(conj(k, (q,), n, rho) for k in ks)
    if kind == "GENERALIZED_AMPLITUDE_DAMPING":
        up = (c2([[torch.sqrt(1 - p[1]), 0.0], [0.0, 1.0]]), c2([[0.0, 0.0], [torch.sqrt(p[1]), 0.0]]))
        return p[0] * sum(conj(k, (q,), n, rho) for k in damp(p[1])) + (1 - p[0]) * sum(conj(k, (q,), n, rho) for k in up)
    raise KeyError(kind)


KINDS = ("BITFLIP", "PHASEFLIP", "DEPOLARIZING", "PAULI_CHANNEL", "AMPLITUDE_DAMPING", "PHASE_DAMPING", "GENERALIZED_AMPLITUDE_DAMPING")


def prob(s, name, kind):
    """The symbolic error probability of a protocol, as its options expect it."""
    if kind == "PAULI_CHANNEL":
        return tuple(s.real(f"{name}{i}", 1, 0.02, 0.3)[0] for i in range(3))
    if kind == "GENERALIZED_AMPLITUDE_DAMPING":
        return tuple(s.real(f"{name}{i}", 1, 0.05, 0.95)[0] for i in range(2))
    return s.real(name, 1, 0.05, 0.95)[0]


def handler(*kps):
    """NoiseHandler of (kind, probability) pairs."""
    import qadence as qd

    prot = [getattr(qd.NoiseProtocol.DIGITAL, k) for k, _ in kps]
    opts = [{"error_probability": p} for _, p in kps]
    return qd.NoiseHandler(prot, opts) if len(kps) > 1 else qd.NoiseHandler(prot[0], opts[0])


def noisy(t, env, n, rho, target, *kps):
    """The gate t, then its channels in order on its target."""
    rho = conj(t.op(env, n), range(n), n, rho)
    for k, p in kps:
        rho = channel(k, p, target, n, rho)
    return rho


# ------------------------------------------------------------------------------------------------ every gate
GATES = {  # name: (support with the controls first, number of parameters, the qubit the noise acts on, qubits)
    "I": ((1,), 0, 1, 2), "X": ((1,), 0, 1, 2), "Y": ((0,), 0, 0, 2), "Z": ((1,), 0, 1, 2), "H": ((1,), 0, 1, 2), "S": ((0,), 0, 0, 2), "SDagger": ((1,), 0, 1, 2),
    "T": ((0,), 0, 0, 2), "N": ((1,), 0, 1, 2), "RX": ((1,), 1, 1, 2), "RY": ((0,), 1, 0, 2), "RZ": ((1,), 1, 1, 2), "PHASE": ((0,), 1, 0, 2), "U": ((1,), 3, 1, 2),
    "CNOT": ((1, 0), 0, 0, 2), "CZ": ((0, 1), 0, 1, 2), "CRX": ((1, 0), 1, 0, 2), "CRY": ((0, 1), 1, 1, 2), "CRZ": ((1, 0), 1, 0, 2), "CPHASE": ((1, 0), 1, 0, 2),
    "SWAP": ((1, 0), 0, 1, 2), "Toffoli": ((2, 0, 1), 0, 1, 3), "MCZ": ((1, 2, 0), 0, 0, 3), "MCRX": ((0, 2, 1), 1, 1, 3), "MCRY": ((1, 0, 2), 1, 2, 3), "MCRZ": ((2, 1, 0), 1, 0, 3), "MCPHASE": ((0, 1, 2), 1, 2, 3),
    "CSWAP": ((1, 0, 2), 0, 1, 3),
}


def build(name, nz, sup, ps):
    """The gate with its noise given to the constructor."""
    import qadence.operations as o

    op = getattr(o, name)
    if name.startswith("MC") or name == "Toffoli":
        return op(tuple(sup[:-1]), sup[-1], *ps, noise=nz)
    return op(*sup, *ps, noise=nz)


for name, (sup, np_, tg, n) in GATES.items():
    @obligation(P, f"gate-{name}", timeout=240)
    def ob(s, name=name, sup=sup, np_=np_, tg=tg, n=n):
        """rho -> U rho U^dagger, then the channel on the target of the gate; other qubits are untouched."""
        import qadence as qd

        psi = s.state("psi", n)
        env = {f"a{i}": s.angle(f"a{i}", 1) for i in range(np_)}
        t = O.gate(name, *sup, params=[f"a{i}" for i in range(np_)])
        for kind in ("BITFLIP", "AMPLITUDE_DAMPING"):
            p = prob(s, "p" + kind, kind)
            want = noisy(t, env, n, dm(psi), tg, (kind, p))
            got = qd.run(n, build(name, handler((kind, p)), sup, [f"a{i}" for i in range(np_)]), values=env, state=psi)
            s.eq(got, want, f"{kind} constructor")
            b = O.gate(name, *sup, params=[f"a{i}" for i in range(np_)]).block
            qd.set_noise(b, handler((kind, p)))
            s.eq(qd.run(n, b, values=env, state=psi), want, f"{kind} set_noise")


@obligation(P, "gate-matrix-projector")
def ob(s):
    import qadence as qd
    from qadence.blocks import MatrixBlock

    psi = s.state("psi", 2)
    p = prob(s, "p", "AMPLITUDE_DAMPING")
    nz = handler(("AMPLITUDE_DAMPING", p))
    m = O.mm(O.bat(O.S2), O.bat(O.H2))[0]
    s.eq(qd.run(2, MatrixBlock(m, (1,), noise=nz), state=psi), channel("AMPLITUDE_DAMPING", p, 1, 2, conj(m, (1,), 2, dm(psi))), "matrix")
    pr = O.projector("1", "0", 0)
    s.eq(qd.run(2, qd.Projector("1", "0", 0, noise=nz), state=psi), channel("AMPLITUDE_DAMPING", p, 0, 2, conj(pr.op({}, 2), (0, 1), 2, dm(psi))), "projector")


# ------------------------------------------------------------------------------------------------ every protocol
for kind in KINDS:
    @obligation(P, f"channel-{kind}", timeout=240)
    def ob(s, kind=kind):
        """Every protocol is the documented channel for every probability, on parametric and controlled gates, and by its fluent method."""
        import qadence as qd

        psi = s.state("psi", 2)
        env = {"x": s.angle("x", 1)}
        p = prob(s, "p", kind)
        q = prob(s, "q", "PHASEFLIP")
        nz = handler((kind, p))
        s.eq(qd.run(2, qd.RY(1, "x", noise=nz), values=env, state=psi), noisy(O.gate("RY", 1, params=["x"]), env, 2, dm(psi), 1, (kind, p)), "RY")
        s.eq(qd.run(2, qd.CNOT(1, 0, noise=nz), state=psi), noisy(O.gate("CNOT", 1, 0), env, 2, dm(psi), 0, (kind, p)), "CNOT")
        f = {"DEPOLARIZING": "digital_depolarizing"}.get(kind, kind.lower())
        h = getattr(handler(("PHASEFLIP", q)), f)({"error_probability": p})
        s.eq(qd.run(2, qd.X(0, noise=h), state=psi), noisy(O.gate("X", 0), env, 2, dm(psi), 0, ("PHASEFLIP", q), (kind, p)), "fluent")


@obligation(P, "channels-in-order", timeout=240)
def ob(s):
    """Several protocols on a gate act one after another, however the handler was made."""
    import qadence as qd

    psi = s.state("psi", 1)
    env = {"x": s.angle("x", 1)}
    ks = ("AMPLITUDE_DAMPING", "BITFLIP", "GENERALIZED_AMPLITUDE_DAMPING", "PHASEFLIP")
    kp = [(k, prob(s, f"p{i}", k)) for i, k in enumerate(ks)]
    t = O.gate("RX", 0, params=["x"])
    run = lambda h: qd.run(qd.RX(0, "x", noise=h), values=env, state=psi)
    s.eq(run(handler(*kp)), noisy(t, env, 1, dm(psi), 0, *kp), "list")
    s.eq(run(handler(*kp[::-1])), noisy(t, env, 1, dm(psi), 0, *kp[::-1]), "reversed list")
    h = handler(kp[0])
    h.append(handler(*kp[1:3]))
    h.append([handler(kp[3]), handler(kp[0])])
    s.eq(run(h), noisy(t, env, 1, dm(psi), 0, *kp, kp[0]), "appended")
    same = qd.NoiseHandler([qd.NoiseProtocol.DIGITAL.BITFLIP, qd.NoiseProtocol.DIGITAL.AMPLITUDE_DAMPING], {"error_probability": kp[1][1]})
    s.eq(run(same), noisy(t, env, 1, dm(psi), 0, ("BITFLIP", kp[1][1]), ("AMPLITUDE_DAMPING", kp[1][1])), "one option for all")


# ------------------------------------------------------------------------------------------------ circuits
def program(env):
    """(gate, target, noise slot) in order."""
    g = lambda n, *q, p=(): O.gate(n, *q, params=list(p))
    return [(g("RX", 0, p=["x"]), 0), (g("H", 1), 1), (g("CNOT", 0, 1), 1), (g("CRY", 1, 0, p=["y"]), 0), (g("S", 0), 0), (g("RZ", 1, p=["x"]), 1)]


def compose(prog):
    import qadence as qd

    b = [t.block for t, _ in prog]
    return qd.chain(qd.kron(b[0], b[1]), qd.chain(b[2], qd.chain(b[3])), qd.kron(b[4], b[5]))


def evolve(prog, env, rho, kp, which):
    for i, (t, q) in enumerate(prog):
        rho = noisy(t, env, 2, rho, q, *((kp,) if which(i) else ()))
    return rho


@obligation(P, "placement", timeout=240)
def ob(s):
    """Noise acts after the gates that carry it and after no other gate."""
    import qadence as qd

    psi = s.state("psi", 2)
    env = {"x": s.angle("x", 1), "y": s.angle("y", 1)}
    kp = ("AMPLITUDE_DAMPING", prob(s, "p", "AMPLITUDE_DAMPING"))
    for k in range(6):
        prog = program(env)
        b = compose(prog)
        prog[k][0].block._noise = handler(kp)
        s.eq(qd.run(2, b, values=env, state=psi), evolve(prog, env, dm(psi), kp, lambda i: i == k), f"gate {k}")


CLASSES = {"RX": (0,), "CNOT": (2,), "H": (1,), "CRY": (3,), "S": (4,), "RZ": (5,)}


@obligation(P, "set-noise", timeout=300)
def ob(s):
    """set_noise reaches every gate of blocks and circuits, or those of a class; None takes it away."""
    import qadence as qd
    import qadence.operations as o

    psi = s.state("psi", 2)
    env = {"x": s.angle("x", 1), "y": s.angle("y", 1)}
    kp = ("BITFLIP", prob(s, "p", "BITFLIP"))
    prog = program(env)
    b = compose(prog)
    run = lambda c: qd.run(c, values=env, state=psi)
    r = qd.set_noise(b, handler(kp))
    s.fact(r is b, "in place")
    s.eq(run(b), evolve(prog, env, dm(psi), kp, lambda i: True), "every gate")
    qd.set_noise(b, None)
    pure = psi
    for t, _ in prog:
        pure = t.act(env, 2, pure)
    s.eq(run(b), pure, "taken away")
    c = qd.QuantumCircuit(2, b)
    qd.set_noise(c, handler(kp), target_class=o.RX)
    s.eq(run(c), evolve(prog, env, dm(psi), kp, lambda i: i == 0), "class in a circuit")
    for k, (cl, idx) in enumerate(CLASSES.items()):
        prog = program(env)
        b = compose(prog)
        qd.set_noise(b, handler(kp), target_class=getattr(o, cl))
        s.eq(run(b), evolve(prog, env, dm(psi), kp, lambda i: i in idx), f"class {cl}")


@obligation(P, "density-input", timeout=240)
def ob(s):
    """Noisy circuits on mixed states, in batches and in both endiannesses."""
    import qadence as qd

    a, b = s.state("a", 2), s.state("b", 2)
    w = s.real("w", 1, 0.1, 0.9)[0]
    from pyqtorch.utils import DensityMatrix

    rho = w * dm(a) + (1 - w) * dm(b)
    env = {"x": s.angle("x", 2)}
    kp = ("PHASE_DAMPING", prob(s, "p", "PHASE_DAMPING"))
    t = O.gate("RX", 1, params=["x"])
    blk = qd.chain(qd.RX(1, "x", noise=handler(kp)), qd.CNOT(1, 0))
    want = conj(O.gate("CNOT", 1, 0).op({}, 2), (0, 1), 2, noisy(t, env, 2, rho, 1, kp))
    st = DensityMatrix(rho.expand(2, -1, -1))
    s.eq(qd.run(2, blk, values=env, state=st), want, "mixed")
    got = qd.run(2, blk, values=env, state=a, endianness=qd.Endianness.LITTLE)
    big = conj(O.gate("CNOT", 1, 0).op({}, 2), (0, 1), 2, noisy(t, env, 2, dm(a), 1, kp))
    s.eq(got, O.bit_reverse(O.bit_reverse(big, 2, 1), 2, 2), "little endian")


# ------------------------------------------------------------------------------------------------ expectations
def observables():
    g = O.gate
    return [
        O.add(g("Z", 0), O.scale(g("X", 1), 0.5)),
        O.add(O.scale(O.kronb(g("X", 0), g("Y", 1)), -1.5), g("N", 1)),
    ]


def tr(m, rho):
    return torch.matmul(m, rho).diagonal(dim1=1, dim2=2).sum(-1).real


for way in ("gates", "call", "model", "model-call", "configuration", "backend"):
    for loop in (False, True):
        @obligation(P, f"expectation-{way}{'-looped' if loop else ''}", timeout=300)
        def ob(s, way=way, loop=loop):
            """tr(rho O), rho the output of the noisy circuit, wherever the noise was given."""
            import qadence as qd

            B = 2
            env = {"x": s.angle("x", B), "y": s.angle("y", B)}
            kp = ("AMPLITUDE_DAMPING", prob(s, "p", "AMPLITUDE_DAMPING"))
            prog = program(env)
            c = qd.QuantumCircuit(2, compose(prog))
            obs = observables()
            ob_ = [t.block for t in obs]
            nz = handler(kp)
            conf = {"loop_expectation": loop}
            if way == "gates":
                qd.set_noise(c, nz)
                got = qd.expectation(c, ob_, values=env, configuration=conf)
            elif way == "call":
                got = qd.expectation(c, ob_, values=env, noise=nz, configuration=conf)
            elif way == "model":
                got = qd.QuantumModel(c, ob_, noise=nz, configuration=conf).expectation(env)
            elif way == "model-call":
                got = qd.QuantumModel(c, ob_, configuration=conf).expectation(env, noise=nz)
            elif way == "configuration":
                got = qd.QuantumModel(c, ob_, configuration={**conf, "noise": nz}).expectation(env)
            else:
                bk = qd.backend_factory("pyqtorch", "ad", configuration=conf)
                cc, oo, emb, par = bk.convert(c, ob_)
                got = bk.expectation(cc, oo, emb(par, env), noise=nz)
            rho = evolve(prog, env, dm(O.zero_state(2)).expand(B, -1, -1), kp, lambda i: True)
            s.eq(got, torch.stack([tr(t.op({}, 2), rho) for t in obs], 1), "expectation")


@obligation(P, "calls-leave-no-noise", timeout=300)
def ob(s):
    """The noise of a call is that of this call: blocks, circuits and models stay as they were."""
    import qadence as qd

    env = {"x": s.angle("x", 1), "y": s.angle("y", 1)}
    nz = handler(("BITFLIP", prob(s, "p", "BITFLIP")))
    obs = observables()[0]

    def fresh():
        prog = program(env)
        return prog, qd.QuantumCircuit(2, compose(prog))

    def clean(prog, m, lab):
        psi = O.zero_state(2)
        for t, _ in prog:
            psi = t.act(env, 2, psi)
        s.eq(m.expectation(env), O.expect(obs.op({}, 2), psi).real.reshape(-1, 1), lab)

    new = lambda c: qd.QuantumModel(c, obs.block)
    prog, c = fresh()
    qd.expectation(c, obs.block, values=env, noise=nz)
    clean(prog, new(c), "circuit after an expectation")
    prog, c = fresh()
    with O.draws([1, 0, 0, 0]):
        qd.sample(c, values=env, n_shots=1, noise=nz)
    clean(prog, new(c), "circuit after a sample")
    prog, c = fresh()
    m = new(c)
    with O.draws([1, 0, 0, 0]):
        m.sample(env, n_shots=1, noise=nz)
    clean(prog, m, "model after its sample")
    prog, c = fresh()
    qd.QuantumModel(c, obs.block, configuration={"noise": nz})
    clean(prog, new(c), "circuit after a noisy configuration")
    prog, c = fresh()
    m = new(c)
    m.expectation(env)
    qd.QuantumModel(fresh()[1], obs.block, noise=nz).expectation(env)
    clean(prog, m, "model after other noisy models")
    clean(prog, new(c), "circuit after other noisy models")


@obligation(P, "parameters-survive-noise", timeout=240)
def ob(s):
    """Noise given in a call leaves the values of variational parameters alone."""
    import qadence as qd

    nz = handler(("PHASEFLIP", prob(s, "p", "PHASEFLIP")))
    v = qd.VariationalParameter("nv", value=0.37)
    w = qd.VariationalParameter("nw", value=-1.3)
    c = qd.QuantumCircuit(1, qd.chain(qd.RX(0, v), qd.RY(0, 2 * w)))
    a, b = (torch.tensor([x], dtype=torch.float64) for x in (0.37, -2.6))
    psi = O.apply(O.rot(O.Y2, b), (0,), 1, O.apply(O.rot(O.X2, a), (0,), 1, O.zero_state(1)))
    m = qd.QuantumModel(c, qd.X(0))
    m.expectation(noise=nz)
    qd.set_noise(c, None)
    s.eq(qd.run(c), psi, "circuit")
    s.eq(qd.QuantumModel(c, qd.X(0)).run(), psi, "new model")
    s.fact(sorted(float(v) for v in m.vparams.values()) == [-1.3, 0.37], "values of the model")


# ------------------------------------------------------------------------------------------------ gradients
for mode in ("ad", "gpsr"):
    @obligation(P, f"gradient-{mode}", timeout=300)
    def ob(s, mode=mode):
        """Derivatives of noisy expectations."""
        import qadence as qd

        x, y = s.angle("x", 1), s.angle("y", 1)
        kp = ("AMPLITUDE_DAMPING", prob(s, "p", "AMPLITUDE_DAMPING"))
        prog = program({})
        c = qd.QuantumCircuit(2, compose(prog))
        obs = observables()[1]
        m = qd.QuantumModel(c, obs.block, noise=handler(kp), diff_mode=mode)

        def f(env):
            return tr(obs.op({}, 2), evolve(prog, env, dm(O.zero_state(2)), kp, lambda i: True)).sum()

        env = {"x": x.detach().requires_grad_(), "y": y.detach().requires_grad_()}
        e = m.expectation(env)
        gx, gy = torch.autograd.grad(e.sum(), [env["x"], env["y"]])
        s.eq(e.reshape(()), f({"x": x, "y": y}), "value")
        s.eq(gx, s.grad(f, {"x": x, "y": y}, "x"), "d/dx")
        s.eq(gy, s.grad(f, {"x": x, "y": y}, "y"), "d/dy")


# ------------------------------------------------------------------------------------------------ transformations
@obligation(P, "transformations-keep-noise", timeout=300)
def ob(s):
    """Mirrored, flattened, moved, copied and merged circuits carry the same noise on the same gates."""
    import copy

    import qadence as qd
    from qadence.transpile import chain_single_qubit_ops, flatten, invert_endianness, reassign

    psi = s.state("psi", 2)
    env = {"x": s.angle("x", 1), "y": s.angle("y", 1)}
    kp = ("AMPLITUDE_DAMPING", prob(s, "p", "AMPLITUDE_DAMPING"))
    prog = program(env)
    b = compose(prog)
    for i in (0, 2, 3, 5):
        prog[i][0].block._noise = handler(kp)
    want = evolve(prog, env, dm(psi), kp, lambda i: i in (0, 2, 3, 5))
    run = lambda c, p=psi: qd.run(2, c, values=env, state=p)
    s.eq(run(flatten(b)), want, "flatten")
    s.eq(run(copy.deepcopy(b)), want, "deepcopy")
    s.eq(run(chain_single_qubit_ops(b)), want, "chain_single_qubit_ops")
    mir = lambda r: O.bit_reverse(O.bit_reverse(r, 2, 1), 2, 2)
    s.eq(mir(run(invert_endianness(b), O.bit_reverse(psi, 2))), want, "invert_endianness")
    s.eq(mir(run(reassign(b, {0: 1, 1: 0}), O.bit_reverse(psi, 2))), want, "reassign")
    bk = qd.backend_factory("pyqtorch", "ad", configuration={"use_single_qubit_composition": True})
    cc, _, emb, par = bk.convert(qd.QuantumCircuit(2, b))
    s.eq(bk.run(cc, emb(par, env), state=psi), want, "composition of single-qubit gates")
    s.eq(run(b), want, "the block itself")


DAG = {"X": "X", "H": "H", "S": "SDagger", "SDagger": "S", "T": "TDagger", "RX": "RX", "PHASE": "PHASE", "U": "U", "CNOT": "CNOT", "CRZ": "CRZ", "MCRX": "MCRX", "MCZ": "MCZ", "SWAP": "SWAP", "CPHASE": "CPHASE", "TDagger": "T"}


@obligation(P, "dagger-keeps-noise")
def ob(s):
    """The dagger of a noisy gate is the inverse gate with the same noise."""
    import qadence as qd

    p = prob(s, "p", "BITFLIP")
    kp = ("BITFLIP", p)
    for name in DAG:
        sup, np_, tg, n = GATES.get(name, ((0,), 0, 0, 1))
        ps = [f"a{i}" for i in range(np_)]
        env = {f"a{i}": s.angle(f"a{i}", 1) for i in range(np_)}
        b = build(name, handler(kp), sup, ps).dagger()
        s.fact(b.noise is not None and b.noise == handler(kp), f"{name}: noise kept")
        if name == "T":
            continue  # the simulator has no TDagger
        psi = s.state(f"psi{n}", n)
        t = O.gate(name, *sup, params=ps)
        s.eq(qd.run(n, b, values=env, state=psi), channel(*kp, tg, n, conj(O.adj(O.bat(t.op(env, n))), range(n), n, dm(psi))), f"{name}")


# ------------------------------------------------------------------------------------------------ readout
def flips(n, m):
    """T[out, in] of independent confusion matrices m[q][out][in]."""
    out = m[0]
    for q in range(1, n):
        out = (out.unsqueeze(1).unsqueeze(3) * m[q].unsqueeze(0).unsqueeze(2)).reshape(out.shape[0] * 2, out.shape[1] * 2)
    return out


def confusion(s, name, n):
    e = s.real(name, (n, 2), 0.01, 0.4)
    return torch.stack([torch.stack([torch.stack([1 - e[q, 0], e[q, 1]]), torch.stack([e[q, 0], 1 - e[q, 1]])]) for q in range(n)])


def readout(kind, **opt):
    import qadence as qd

    return qd.NoiseHandler(getattr(qd.NoiseProtocol.READOUT, kind), opt)


for n in (1, 2, 3):
    @obligation(P, f"readout-{n}", timeout=240)
    def ob(s, n=n):
        """Samples are drawn from T p: T of independent flips, or the given matrix; with and without gate noise; in both endiannesses."""
        import copy

        import qadence as qd

        env = {"x": s.angle("x", 1), "y": s.angle("y", 1)}
        ts = [O.gate("RX", 0, params=["x"]), O.gate("RY", n - 1, params=["y"])] + [O.gate("CNOT", i, i + 1) for i in range(n - 1)]
        t = O.chain(*ts)
        mk = lambda: qd.QuantumCircuit(n, O.chain(*[type(g)(copy.deepcopy(g.block), g.support, lambda env: None) for g in ts]).block)
        psi = t.act(env, n, O.zero_state(n))
        pr = (psi.conj() * psi).real[0]
        conf = confusion(s, "e", n)
        corr = s.real("c", (2**n, 2**n), 0.01, 0.9)
        counts = [2 + 3 * k for k in range(2**n)]
        bits = lambda k: format(k, f"0{n}b")

        def check(lab, fn, weights, f=lambda b: b):
            with O.draws(counts) as rec:
                got = fn()
            s.fact(len(rec) == 1, f"{lab}: one draw")
            s.eq(rec[0].reshape(-1), weights, lab)
            s.fact([dict(g) for g in got] == [{f(bits(k)): counts[k] for k in range(2**n)}], f"{lab}: bit strings")

        k = dict(values=env, n_shots=sum(counts))
        ind, cor = readout("INDEPENDENT", error_probability=conf, seed=0), readout("CORRELATED", confusion_matrix=corr)
        check("independent", lambda: qd.sample(mk(), noise=ind, **k), torch.matmul(flips(n, conf), pr))
        check("correlated", lambda: qd.sample(mk(), noise=cor, **k), torch.matmul(corr, pr))
        check("little endian", lambda: qd.sample(mk(), noise=ind, endianness=qd.Endianness.LITTLE, **k), torch.matmul(flips(n, conf), pr), lambda b: b[::-1])
        m = qd.QuantumModel(mk())
        check("model call", lambda: m.sample(env, n_shots=sum(counts), noise=ind), torch.matmul(flips(n, conf), pr))
        check("model", lambda: qd.QuantumModel(mk(), noise=cor).sample(env, n_shots=sum(counts)), torch.matmul(corr, pr))
        check("configuration", lambda: qd.QuantumModel(mk(), configuration={"noise": ind}).sample(env, n_shots=sum(counts)), torch.matmul(flips(n, conf), pr))
        p = prob(s, "p", "AMPLITUDE_DAMPING")
        both = handler(("AMPLITUDE_DAMPING", p)).readout_independent({"error_probability": conf, "seed": 0})
        rho = dm(O.zero_state(n))
        for g in ts:
            rho = noisy(g, env, n, rho, g.support[-1], ("AMPLITUDE_DAMPING", p))
        check("gates and readout", lambda: qd.sample(mk(), noise=both, **k), torch.matmul(flips(n, conf), rho[0].diagonal().real))


# ------------------------------------------------------------------------------------------------ handlers
@obligation(P, "handlers")
def ob(s):
    """What may be combined; a failed append changes nothing; filter keeps order and options."""
    import qadence as qd
    from qadence.types import NoiseProtocol as NP

    e = {"error_probability": 0.1}
    H = qd.NoiseHandler
    dig, ana, rd = H(NP.DIGITAL.BITFLIP, e), H(NP.ANALOG.DEPOLARIZING, {"noise_probs": 0.1}), H(NP.READOUT.INDEPENDENT, {"seed": 0})
    bad = {
        "digital and analog": ([NP.DIGITAL.BITFLIP, NP.ANALOG.DEPHASING], [e, {"noise_probs": 0.1}]),
        "readout and analog": ([NP.ANALOG.DEPHASING, NP.READOUT.INDEPENDENT], [{"noise_probs": 0.1}, {}]),
        "two analog": ([NP.ANALOG.DEPHASING, NP.ANALOG.DEPOLARIZING], [{"noise_probs": 0.1}] * 2),
        "two readouts": ([NP.READOUT.INDEPENDENT, NP.READOUT.CORRELATED], [{}, {}]),
        "readout first": ([NP.READOUT.INDEPENDENT, NP.DIGITAL.BITFLIP], [{}, e]),
        "lengths": ([NP.DIGITAL.BITFLIP, NP.DIGITAL.PHASEFLIP], [e]),
        "empty": ([], []),
    }
    for lab, (p, o) in bad.items():
        s.raises(lambda: H(p, o), ValueError, lab)
    s.raises(lambda: H(NP.DIGITAL.BITFLIP, {"noise_probs": 0.1}), KeyError, "digital without a probability")
    s.raises(lambda: H(NP.ANALOG.DEPHASING, e), KeyError, "analog without a probability")
    for lab, x, y in (("analog to digital", dig, ana), ("readout to analog", ana, rd), ("digital to readout", rd, dig), ("list", dig, [rd, dig])):
        before = (list(x.protocol), list(x.options))
        s.raises(lambda: x.append(y), ValueError, lab)
        s.fact((x.protocol, x.options) == before, f"{lab}: unchanged")
    a = H([NP.DIGITAL.BITFLIP, NP.DIGITAL.PHASEFLIP, NP.READOUT.INDEPENDENT], [{"error_probability": 0.1}, {"error_probability": 0.2}, {"seed": 3}])
    f = a.filter(NP.DIGITAL)
    s.fact(f.protocol == [NP.DIGITAL.BITFLIP, NP.DIGITAL.PHASEFLIP] and [o["error_probability"] for o in f.options] == [0.1, 0.2], "filter digital")
    f = a.filter(NP.READOUT)
    s.fact(f.protocol == [NP.READOUT.INDEPENDENT] and f.options == [{"seed": 3}], "filter readout")
    s.fact(a.filter(NP.ANALOG) is None and len(a.protocol) == 3, "filter analog")
    other = H(NP.DIGITAL.DEPOLARIZING, {"error_probability": 0.3})
    x = H(NP.DIGITAL.BITFLIP, e)
    x.append(other)
    s.fact(len(other.protocol) == 1 and len(x.protocol) == 2, "append leaves the argument alone")
    s.fact(x == H([NP.DIGITAL.BITFLIP, NP.DIGITAL.DEPOLARIZING], [e, {"error_probability": 0.3}]), "equal")
    s.fact(x != H([NP.DIGITAL.BITFLIP, NP.DIGITAL.DEPOLARIZING], [e, {"error_probability": 0.4}]), "other probability")
    s.fact(x != H([NP.DIGITAL.DEPOLARIZING, NP.DIGITAL.BITFLIP], [e, {"error_probability": 0.3}]), "other order")
    y = qd.RX(0, "x", noise=x)
    x2 = H._from_dict(x._to_dict())
    s.fact(x2 == x and y.noise == x, "dict")
