"""C10: blocks and circuits that compare equal mean the same; the same construction compares equal."""
import torch

from symq.runner import obligation
from checks import oracle as O

P = "C10"


def families():
    """Groups of similar programs: inside a group every pair is compared."""
    import qadence as qd

    x, y = qd.FeatureParameter("p0"), qd.FeatureParameter("p1")
    X, Y = O.A(x, lambda e: e["p0"]), O.A(y, lambda e: e["p1"])
    g = lambda n, *q, p=(): O.gate(n, *q, params=[p] if not isinstance(p, (list, tuple)) else list(p))
    ex = {
        "x": X, "y": Y, "x+1": O.A(x + 1, lambda e: e["p0"] + 1), "1+x": O.A(1 + x, lambda e: e["p0"] + 1), "2x": O.A(2 * x, lambda e: 2 * e["p0"]), "-x": O.A(-x, lambda e: -e["p0"]),
        "x*y": O.A(x * y, lambda e: e["p0"] * e["p1"]), "x+y": O.A(x + y, lambda e: e["p0"] + e["p1"]), "0.5": 0.5, "0.6": 0.6, "-0.5": -0.5, "2": 2, "x**2": O.A(x**2, lambda e: e["p0"] ** 2),
    }
    r = {}
    r["fixed"] = {f"{n}{q}": (lambda n=n, q=q: g(n, q)) for n in ("I", "X", "Y", "Z", "N", "H", "S", "SDagger", "T") for q in (0, 1)}
    r["two-qubit"] = {f"{n}{a}{b}": (lambda n=n, a=a, b=b: g(n, a, b)) for n in ("CNOT", "CZ", "SWAP") for a, b in ((0, 1), (1, 0), (0, 2))}
    r["three-qubit"] = {f"{n}{a}{b}{c}": (lambda n=n, a=a, b=b, c=c: g(n, a, b, c)) for n in ("Toffoli", "CSWAP", "MCZ") for a, b, c in ((0, 1, 2), (1, 0, 2), (2, 1, 0))}
    r["rotation"] = {f"{n}{q}({k})": (lambda n=n, q=q, k=k: g(n, q, p=ex[k])) for n in ("RX", "RZ", "PHASE") for q in (0, 1) for k in ex if q == 0 or k in ("x", "0.5")}
    r["controlled-rotation"] = {f"{n}{c}{t}({k})": (lambda n=n, c=c, t=t, k=k: g(n, c, t, p=ex[k])) for n in ("CRX", "CRY", "CPHASE") for c, t in ((0, 1), (1, 0)) for k in ("x", "x+1", "2x", "0.5", "0.6")}
    r["multi-controlled"] = {f"{n}{q}({k})": (lambda n=n, q=q, k=k: g(n, *q, p=ex[k])) for n in ("MCRX", "MCRZ", "MCPHASE") for q in ((0, 1, 2), (0, 2, 1), (2, 1, 0)) for k in ("x", "x+1", "0.5")}
    r["U"] = {f"U({a},{b},{c})": (lambda a=a, b=b, c=c: g("U", 0, p=[ex[a], ex[b], ex[c]])) for a in ("x", "0.5") for b in ("x", "0.5", "y") for c in ("x", "0.6")}
    r["scale"] = {f"{k}*{b}": (lambda k=k, b=b: O.scale(g(b, 0), ex[k])) for k in ex for b in ("X", "Y") if b == "X" or k in ("x", "0.5")}
    r["scale"] |= {"X": lambda: g("X", 0), "2*(X+Z)": lambda: O.scale(O.add(g("X", 0), g("Z", 1)), 2), "2*(X+Z)'": lambda: O.scale(O.add(g("X", 0), g("Z", 0)), 2)}
    k = lambda *a: O.kronb(*a)
    r["kron"] = {
        "XZ": lambda: k(g("X", 0), g("Z", 1)), "ZX": lambda: k(g("Z", 0), g("X", 1)), "Z1X0": lambda: k(g("Z", 1), g("X", 0)), "XX": lambda: k(g("X", 0), g("X", 1)),
        "chainXH,X": lambda: k(O.chain(g("X", 0), g("H", 0)), g("X", 1)), "chainHX,X": lambda: k(O.chain(g("H", 0), g("X", 0)), g("X", 1)), "XZ-": lambda: k(g("X", 0), g("Z", 2)),
        "XZI": lambda: k(g("X", 0), g("Z", 1), g("I", 2)), "X(ZI)": lambda: k(g("X", 0), k(g("Z", 1), g("Y", 2))), "RXRY": lambda: k(g("RX", 0, p=X), g("RY", 1, p=Y)), "RYRX": lambda: k(g("RX", 0, p=Y), g("RY", 1, p=X)),
        "2X,Z": lambda: k(O.scale(g("X", 0), 2), g("Z", 1)), "X,2Z": lambda: k(g("X", 0), O.scale(g("Z", 1), 2)), "2X,2Z": lambda: k(O.scale(g("X", 0), 2), O.scale(g("Z", 1), 2)),
        "X+Z,X": lambda: k(O.add(g("X", 0), g("Z", 0)), g("X", 1)), "scaled X+Z,X": lambda: k(O.scale(O.add(g("X", 0), g("Z", 0)), 2), g("X", 1)),
    }
    ad = lambda *a: O.add(*a)
    r["add"] = {
        "XXZ": lambda: ad(g("X", 0), g("X", 0), g("Z", 1)), "XZZ": lambda: ad(g("X", 0), g("Z", 1), g("Z", 1)), "ZXX": lambda: ad(g("Z", 1), g("X", 0), g("X", 0)), "XZ": lambda: ad(g("X", 0), g("Z", 1)),
        "XZXZ": lambda: ad(g("X", 0), g("Z", 1), g("X", 0), g("Z", 1)), "X(XZ)": lambda: ad(g("X", 0), k(g("X", 0), g("Z", 1))), "Z(XZ)": lambda: ad(g("Z", 1), k(g("X", 0), g("Z", 1))), "2X,Z": lambda: ad(O.scale(g("X", 0), 2), g("Z", 1)),
        "2X,2Z": lambda: ad(O.scale(g("X", 0), 2), O.scale(g("Z", 1), 2)), "xX,Z": lambda: ad(O.scale(g("X", 0), X), g("Z", 1)), "(x+1)X,Z": lambda: ad(O.scale(g("X", 0), ex["x+1"]), g("Z", 1)), "xX,xX": lambda: ad(O.scale(g("X", 0), X), O.scale(g("X", 0), X)),
        "xX,yX": lambda: ad(O.scale(g("X", 0), X), O.scale(g("X", 0), Y)), "(chain XZ) Z": lambda: ad(O.chain(g("X", 0), g("Z", 1)), g("Z", 1)), "(chain ZX) Z": lambda: ad(O.chain(g("X", 0), g("Z", 0)), g("X", 0)), "(chain XZ)0": lambda: ad(O.chain(g("Z", 0), g("X", 0)), g("Z", 0)),
    }
    r["chain"] = {
        "XZ": lambda: O.chain(g("X", 0), g("Z", 0)), "ZX": lambda: O.chain(g("Z", 0), g("X", 0)), "XZX": lambda: O.chain(g("X", 0), g("Z", 0), g("X", 0)), "XXZ": lambda: O.chain(g("X", 0), g("X", 0), g("Z", 0)), "XXZZ": lambda: O.chain(g("X", 0), g("X", 0), g("Z", 0), g("Z", 0)),
        "XZ as product": lambda: k(g("X", 0), g("Z", 1)), "XZ as sum": lambda: ad(g("X", 0), g("Z", 0)), "XZ01": lambda: O.chain(g("X", 0), g("Z", 1)), "RX RY": lambda: O.chain(g("RX", 0, p=X), g("RY", 0, p=Y)), "RY RX": lambda: O.chain(g("RX", 0, p=Y), g("RY", 0, p=X)),
        "nested": lambda: O.chain(O.chain(g("X", 0), g("H", 0)), g("Z", 0)), "nested2": lambda: O.chain(g("X", 0), O.chain(g("H", 0), g("Z", 0))), "nested3": lambda: O.chain(O.chain(g("H", 0), g("X", 0)), g("Z", 0)), "X": lambda: O.chain(g("X", 0)),
    }
    r["evolution"] = {f"{n}-{kk}": (lambda h=h, kk=kk: O.ham_evo(h(), ex[kk])) for n, h in (("X", lambda: g("X", 0)), ("Y", lambda: g("Y", 0)), ("Z1", lambda: g("Z", 1)), ("XX", lambda: k(g("X", 0), g("X", 1))), ("XZ", lambda: k(g("X", 0), g("Z", 1)))) for kk in ("x", "x+1", "2x", "0.5", "0.6")}
    r["evolution-sum"] = {f"{i}-{kk}": (lambda c=c, kk=kk: O.ham_evo_sum([(c[0], g("Z", 0)), (c[1], k(g("Z", 0), g("Z", 1)))], ex[kk])) for i, c in enumerate(((0.5, 1.5), (1.5, 0.5), (0.5, 0.5))) for kk in ("x", "x+1")}
    r["projector"] = {f"{a}{b}{s_}": (lambda a=a, b=b, s_=s_: O.projector(a, b, s_)) for a, b in (("10", "10"), ("01", "01"), ("10", "01"), ("01", "10"), ("11", "11")) for s_ in ((0, 1), (1, 0))}
    return r


def equal(a, b):
    """The verdict of ==, which may only be refused for kinds of blocks that have no comparison."""
    return bool(a == b)


for fam in ("fixed", "two-qubit", "three-qubit", "rotation", "controlled-rotation", "multi-controlled", "U", "scale", "kron", "add", "chain", "evolution", "evolution-sum", "projector"):
    @obligation(P, f"pairs-{fam}")
    def ob(s, fam=fam):
        """Every pair of a family: reported equal only if the operators agree for all parameter values."""
        import qadence as qd

        env = {f"p{i}": s.angle(f"p{i}") for i in range(2)}
        ts = {k: f() for k, f in families()[fam].items()}
        again = {k: f() for k, f in families()[fam].items()}
        n = 3
        ops = {}
        op = lambda k: ops.setdefault(k, ts[k].op(env, n))
        for k in ts:
            s.fact(equal(ts[k].block, again[k].block), f"{k} equals its reconstruction", k)
            s.fact(equal(qd.QuantumCircuit(n, ts[k].block), qd.QuantumCircuit(n, again[k].block)), f"circuit of {k} equals its reconstruction", k)
        ks = list(ts)
        for i, a in enumerate(ks):
            for b in ks[i + 1 :]:
                e1, e2 = equal(ts[a].block, again[b].block), equal(again[b].block, ts[a].block)
                if e1 or e2:
                    s.eq(op(a), op(b), f"{a} == {b}")
                if i < 6 and equal(qd.QuantumCircuit(n, ts[a].block), qd.QuantumCircuit(n, again[b].block)):
                    s.eq(op(a), op(b), f"circuits {a} == {b}")
                if e1 != (not (ts[a].block != again[b].block)):
                    s.fact(False, f"{a} and {b}: == and != disagree", a)
        # reordered products and sums are the same program
        if fam == "kron":
            s.fact(equal(ts["XZ"].block, ts["Z1X0"].block), "products compare equal in any order")
        if fam == "add":
            s.fact(equal(ts["XXZ"].block, ts["ZXX"].block), "sums compare equal in any order")
        if fam == "rotation":
            s.fact(equal(ts["RX0(x+1)"].block, ts["RX0(1+x)"].block), "expressions compare by value")


@obligation(P, "cross-kind")
def ob(s):
    """Programs of different kinds are not reported equal unless they agree."""
    env = {f"p{i}": s.angle(f"p{i}") for i in range(2)}
    ts = {}
    for fam, d in families().items():
        for k in list(d)[:4]:
            ts[f"{fam}:{k}"] = d[k]()
    ks, ops = list(ts), {}
    op = lambda k: ops.setdefault(k, ts[k].op(env, 3))
    for a in ks:
        for b in ks:
            if a != b and equal(ts[a].block, ts[b].block):
                s.eq(op(a), op(b), f"{a} == {b}")
    s.fact(True, f"{len(ks)} programs compared")


@obligation(P, "matrix-blocks")
def ob(s):
    import qadence as qd
    from qadence.blocks import MatrixBlock

    ms = [O.X2, O.Y2, O.Z2, O.H2, O.S2]
    bl = [MatrixBlock(m, (q,)) for m in ms for q in (0, 1)]
    ops = [O.embed(m, (q,), 2) for m in ms for q in (0, 1)]
    for i in range(len(bl)):
        s.fact(equal(bl[i], MatrixBlock(ms[i // 2].clone(), (i % 2,))), f"matrix {i} equals itself")
        for j in range(len(bl)):
            if i != j and equal(bl[i], bl[j]):
                s.eq(ops[i], ops[j], f"matrix {i} == {j}")
    hs = [qd.HamEvo(m, qd.FeatureParameter("p0"), (0,)) for m in ms[:4]]
    t = s.angle("p0")
    for i in range(4):
        for j in range(4):
            if i != j and equal(hs[i], hs[j]):
                s.eq(O.expm_hermitian_involution(ms[i], t), O.expm_hermitian_involution(ms[j], t), f"evolution {i} == {j}")


@obligation(P, "circuits-registers")
def ob(s):
    """Circuits differ when their registers have other coordinates, connections or sizes."""
    import qadence as qd

    b = lambda: qd.chain(qd.X(0), qd.CNOT(0, 1))
    regs = {
        "3": lambda: qd.Register(3), "4": lambda: qd.Register(4), "line": lambda: qd.Register.line(3), "line2": lambda: qd.Register.line(3, spacing=2.0), "circle": lambda: qd.Register.circle(3), "coords": lambda: qd.Register.from_coordinates([(0, 0), (1, 0), (2, 0)]),
    }
    for k, f in regs.items():
        s.fact(equal(f(), f()) and equal(qd.QuantumCircuit(f(), b()), qd.QuantumCircuit(f(), b())), f"{k} equals itself")
        for k2, f2 in regs.items():
            if k == k2:
                continue
            r1, r2 = f(), f2()
            norm = lambda e: sorted(tuple(sorted(z)) for z in e)
            same = r1.n_qubits == r2.n_qubits and {q: tuple(v) for q, v in r1.coords.items()} == {q: tuple(v) for q, v in r2.coords.items()} and norm(r1.edges) == norm(r2.edges)
            if not same:
                s.fact(not equal(r1, r2) and not equal(qd.QuantumCircuit(r1, b()), qd.QuantumCircuit(r2, b())), f"{k} differs from {k2}")
