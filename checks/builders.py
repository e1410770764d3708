"""Independent descriptions of what the constructors build: feature maps and ansatz as rotation angles and lists of gates."""
import itertools
import math

import torch

from checks import oracle as O

PI = math.pi
DEF = {"Fourier": (0.0, 2 * PI), "Chebyshev": (-1.0, 1.0)}
SC = {"Constant": lambda i: 1.0, "Tower": lambda i: float(i + 1), "Exponential": lambda i: float(2**i)}


def op(name):
    return {"RX": lambda a: O.rot(O.X2, a), "RY": lambda a: O.rot(O.Y2, a), "RZ": lambda a: O.rot(O.Z2, a), "PHASE": O.phase}[name]


def rescale(x, basis, fr=None, tr=None):
    """The affine map that takes feature_range to target_range."""
    d = DEF.get(basis, (0.0, 1.0))
    fr, tr = fr or d, tr or d
    k = (max(tr) - min(tr)) / (max(fr) - min(fr))
    return k * (x - min(fr)) + min(tr)


def angles(x, n, basis="Fourier", scaling="Constant", fr=None, tr=None, mult=1.0, w=None):
    z = rescale(x, basis, fr, tr)
    f = (lambda v: v) if basis == "Fourier" else torch.acos
    sc = SC[scaling] if isinstance(scaling, str) else scaling
    return [mult * sc(i) * f(z if w is None else w[i] * z) for i in range(n)]


def act(opn, sup, ang, n, psi):
    for q, a in zip(sup, ang):
        psi = O.apply(op(opn)(a), (q,), n, psi)
    return psi


def feature(s, name, basis, B=2, fr=None):
    """A symbolic feature inside its range (Chebyshev: strictly inside, where acos is smooth)."""
    lo, hi = (fr or DEF.get(basis, (0.0, 1.0)))
    lo, hi = min(lo, hi), max(lo, hi)
    e = 0.05 * (hi - lo) if basis == "Chebyshev" else 0.0
    return s.real(name, B, lo + e, hi - e)


def circuit(gates):
    """gates: list of (name, qubits, param or None) -> action on a state."""

    def act(env, n, psi):
        for name, q, p in gates:
            v = None if p is None else (env[p] if isinstance(p, str) else p)
            if name in O.FIXED:
                m = O.FIXED[name]
            elif name in O.ROTS:
                m = O.rot(O.ROTS[name], v)
            elif name in ("CNOT", "CZ"):
                m = O.ctrl(O.X2 if name == "CNOT" else O.Z2, 1)
            elif name in ("CRX", "CRY", "CRZ"):
                m = O.ctrl(O.rot(O.ROTS[name[1:]], v), 1)
            elif name == "CPHASE":
                m = O.ctrl(O.phase(v), 1)
            elif name == "PHASE":
                m = O.phase(v)
            elif name == "SWAP":
                m = O.SWAP4
            elif name == "NN":  # exp(-i t sum_{i<j} N_i N_j) on all given qubits
                d = torch.tensor([sum(b) * (sum(b) - 1) / 2 for b in itertools.product((0, 1), repeat=len(q))], dtype=torch.float64)
                ph = d.reshape(1, -1) * O.col(v).reshape(-1, 1)
                m = torch.diag_embed(torch.complex(torch.cos(ph), -torch.sin(ph)))
            else:
                raise KeyError(name)
            psi = O.apply(m, q, n, psi)
        return psi

    return act


def names(gates):
    return {p for _, _, p in gates if isinstance(p, str)}


def hea_gates(n, depth=1, pre="theta", sup=None, ops=("RX", "RY", "RX"), ent="CNOT", periodic=False, analog=False):
    sup = sup or tuple(range(n))
    g, k, e = [], itertools.count(), itertools.count()
    for d in range(depth):
        for o in ops:
            g += [(o, (sup[i],), f"{pre}_{next(k)}") for i in range(n)]
        if analog:
            g.append(("NN", tuple(range(n)), f"{pre}_t_{d}"))
            continue
        pairs = [(i, i + 1) for i in range(0, n - 1, 2)] + [(i, i + 1) for i in range(1, n - 1, 2)]
        if periodic and n > 2:
            pairs.append((n - 1, 0))
        for a, b in pairs:
            j = next(e)
            g.append((ent, (sup[a], sup[b]), f"{pre}_ent_{j}" if ent[1] == "R" or ent == "CPHASE" else None))
    return g


def ala_gates(n, m, depth=1, pre="theta", sup=None, ops=("RX", "RY"), ent="CNOT"):
    sup = sup or tuple(range(n))
    g, k = [], itertools.count()
    e = itertools.count()
    for d in range(depth):
        for o in ops:
            g += [(o, (sup[i],), f"{pre}_{next(k)}") for i in range(n)]
        first = 0 if d % 2 == 0 else -((m + 1) // 2)
        blocks = [range(a, a + m) for a in range(first, n, m)]
        for par in (0, 1):
            for j in range(par, m - 1, 2):
                for b in blocks:
                    x, y = b[j], b[j] + 1
                    if 0 <= x and y < n:
                        t = next(e)
                        g.append((ent, (sup[x], sup[y]), f"{pre}_ent_ent_{t}" if ent[1] == "R" or ent == "CPHASE" else None))
    return g


def iia_gates(n, depth, pre="iia", ops=("RX", "RY"), ent="CNOT", periodic=False, sdaqc=False):
    g = []
    for d in range(depth):
        for k, o in enumerate(ops):
            g += [(o, (i,), f"{pre}_α_{d}{i + n * k}") for i in range(n)]
        if sdaqc:
            e = [("NN", tuple(range(n)), f"{pre}_ent_t_{d}")]
        else:
            e = [(ent, (i, (i + 1) % n), f"{pre}_θ_ent__{d}{i}" if ent[1] == "R" or ent == "CPHASE" else None) for i in range(n if periodic else n - 1)]
        g += e + [("RX", (i,), f"{pre}_γ_{d}{i}") for i in range(n)] + e[::-1]
        for k in reversed(range(len(ops))):
            g += [(ops[k], (i,), f"{pre}_β_{d}{i + n * k}") for i in range(n)]
    return g
