"""C12: state constructors and functions of states and density matrices compute what they are named after."""
import itertools
import math
from unittest import mock

import torch

from symq.runner import obligation
from checks import oracle as O

P = "C12"


def bits(n):
    return ["".join(b) for b in itertools.product("01", repeat=n)]


def basis(bs):
    v = torch.zeros((1, 2 ** len(bs)), dtype=O.CD)
    v[0, int(bs, 2)] = 1
    return v


@obligation(P, "constructors")
def ob(s):
    import qadence as qd

    for n in (1, 2, 3, 4):
        for b in (1, 3):
            s.eq(qd.zero_state(n, b), basis("0" * n).repeat(b, 1), f"zero {n}x{b}")
            s.eq(qd.one_state(n, b), basis("1" * n).repeat(b, 1), f"one {n}x{b}")
            s.eq(qd.uniform_state(n, b), torch.full((b, 2**n), 2 ** (-n / 2), dtype=O.CD), f"uniform {n}x{b}", tol=1e-6)
            s.eq(qd.ghz_state(n, b), (basis("0" * n) + basis("1" * n)).repeat(b, 1) / math.sqrt(2), f"ghz {n}x{b}", tol=1e-6)
        for bs in bits(n):
            s.eq(qd.product_state(bs), basis(bs), f"product {bs}")
            s.eq(qd.product_state(bs, endianness=qd.Endianness.LITTLE), basis(bs[::-1]), f"little-endian product {bs}")
        s.eq(qd.product_state(bits(n)), torch.eye(2**n, dtype=O.CD), f"list of bit strings {n}")


@obligation(P, "blocks")
def ob(s):
    """The preparing blocks applied to an arbitrary state."""
    import qadence as qd
    from qadence.states import product_block, zero_block, one_block, uniform_block, ghz_block

    for n in (1, 2, 3):
        psi = s.state(f"psi{n}", n)
        flip = lambda bs, v: v[:, [i ^ int(bs, 2) for i in range(2**n)]]
        for bs in bits(n):
            s.eq(qd.run(n, product_block(bs), state=psi), flip(bs, psi), f"product_block {bs}")
        s.eq(qd.run(n, zero_block(n), state=psi), psi, f"zero_block {n}")
        s.eq(qd.run(n, one_block(n), state=psi), flip("1" * n, psi), f"one_block {n}")
        s.eq(qd.run(n, uniform_block(n), state=psi), O.apply(O.kron(*[O.H2] * n), range(n), n, psi), f"uniform_block {n}")
        if n > 1:
            v = O.apply(O.H2, (0,), n, psi)
            for i in range(1, n):
                v = O.apply(O.ctrl(O.X2, 1), (i - 1, i), n, v)
            s.eq(qd.run(n, ghz_block(n), state=psi), v, f"ghz_block {n}")
            s.eq(qd.run(n, ghz_block(n)), (basis("0" * n) + basis("1" * n)) / math.sqrt(2), f"ghz_block {n} from zero")


@obligation(P, "density-matrix")
def ob(s):
    import qadence as qd
    from qadence.states import density_mat

    for n, b in ((1, 1), (2, 1), (2, 3)):
        a = s.state(f"a{n}{b}", n, b)
        rho = density_mat(a)
        s.eq(rho, a.unsqueeze(2) * a.conj().unsqueeze(1), f"density {n}x{b}")
        s.eq(density_mat(rho), rho, "idempotent")


def traced(rho, keep, n):
    """Reduced matrix, keep gives the order of the remaining qubits."""
    B = rho.shape[0]
    rest = [q for q in range(n) if q not in keep]
    t = rho.reshape([B] + [2] * (2 * n))
    perm = [0] + [1 + q for q in keep] + [1 + q for q in rest] + [1 + n + q for q in keep] + [1 + n + q for q in rest]
    k, r = 2 ** len(keep), 2 ** len(rest)
    t = t.permute(perm).reshape(B, k, r, k, r)
    out = 0
    for i in range(r):
        out = out + t[:, :, i, :, i]
    return out


@obligation(P, "partial-trace")
def ob(s):
    from pyqtorch.utils import DensityMatrix
    from qadence.states import partial_trace

    for n, b in ((2, 2), (3, 1)):
        rho = s.cplx(f"rho{n}", (b, 2**n, 2**n))
        for k in range(1, n + 1):
            for keep in itertools.permutations(range(n), k):
                s.eq(partial_trace(DensityMatrix(rho.clone()), list(keep)), traced(rho, keep, n), f"keep {keep} of {n}")


@obligation(P, "normalize")
def ob(s):
    import qadence as qd
    from qadence.states import normalize, is_normalized

    for n, b in ((1, 1), (2, 2)):
        a = s.state(f"a{n}", n, b)
        nn = (a.real**2 + a.imag**2).sum(1)
        for i in range(b):
            s.assume(nn[i] > 0.01)
        r = normalize(a)
        s.eq(r * torch.sqrt(nn).unsqueeze(1), a, f"direction {n}")
        s.eq((r.real**2 + r.imag**2).sum(1), torch.ones(b), f"norm {n}")
        r1 = normalize(a[0])
        s.eq(r1 * torch.sqrt(nn[0]), a[0], f"single vector {n}")


@obligation(P, "is-normalized", max_paths=40)
def ob(s):
    """True exactly when every vector of the batch has norm one within the tolerance."""
    from qadence.states import is_normalized

    for b in (1, 2):
        a = s.real(f"a{b}", (b, 2), -1.0, 1.0)
        nn = (a**2).sum(1)
        got = is_normalized(torch.complex(a, torch.zeros_like(a)), atol=1e-3)
        dev = torch.abs(nn - 1)
        if got:
            s.fact(bool(torch.all(dev <= 1.01e-3)), f"accepted batch of {b}")
        else:
            s.fact(bool(torch.any(dev >= 0.99e-3)), f"rejected batch of {b}")


@obligation(P, "equivalent-state", max_paths=40)
def ob(s):
    from qadence.states import equivalent_state

    a, b = s.real("a", (2, 2), -1, 1), s.real("b", (2, 2), -1, 1)
    z = torch.zeros_like(a)
    got = equivalent_state(torch.complex(a, z), torch.complex(b, z), atol=1e-3)
    f = (a * b).sum(1) ** 2
    dev = torch.abs(f - 1)
    if got:
        s.fact(bool(torch.all(dev <= 1.01e-3)), "equivalent")
    else:
        s.fact(bool(torch.any(dev >= 0.99e-3)), "different")


@obligation(P, "pmf")
def ob(s):
    """The probabilities are the squared moduli, normalised."""
    from qadence.states import pmf

    r, th = s.real("r", (2, 4), 0.1, 1.0), s.real("th", (2, 4), -4, 4)
    a = torch.complex(r * torch.cos(th), r * torch.sin(th))
    s.eq(pmf(a).probs * (r**2).sum(1, keepdim=True), r**2, "probabilities")


VECS = {
    1: {"computational": torch.eye(2, dtype=O.CD), "hadamard": O.H2, "complex": torch.tensor([[0.6, 0.8j], [0.8j, 0.6]], dtype=O.CD)},
}


def unitary(n, kind):
    if kind == "computational":
        return torch.eye(2**n, dtype=O.CD)
    m = VECS[1][kind]
    return O.kron(*[m if i % 2 == 0 else O.H2 for i in range(n)])[0]


def mixed(lam, n, kind):
    """sum_i lam_i |v_i><v_i| with the columns of a fixed unitary."""
    u = unitary(n, kind)
    return torch.matmul(u.unsqueeze(0) * lam.unsqueeze(1).to(O.CD), u.conj().t().unsqueeze(0))


for kind in ("computational", "hadamard", "complex"):
    for n, b in ((1, 2), (2, 1)):
        @obligation(P, f"purity-{kind}-{n}", max_paths=40)
        def ob(s, kind=kind, n=n, b=b):
            from pyqtorch.utils import DensityMatrix
            from qadence.states import purity

            lam = s.real("lam", (b, 2**n), 0.0, 1.0)
            rho = DensityMatrix(mixed(lam, n, kind))
            s.eq(purity(rho), (lam**2).sum(1), "order 2")
            s.eq(purity(rho, 3), (lam**3).sum(1), "order 3")
            s.eq(purity(rho, 1), lam.sum(1), "order 1")

        @obligation(P, f"fidelity-{kind}-{n}", max_paths=40)
        def ob(s, kind=kind, n=n, b=b):
            """Commuting states: the classical fidelity of the spectra."""
            from pyqtorch.utils import DensityMatrix
            from qadence.states import fidelity

            lam, mu = s.real("lam", (b, 2**n), 0.05, 1.0), s.real("mu", (b, 2**n), 0.05, 1.0)
            s.eq(fidelity(DensityMatrix(mixed(lam, n, kind)), DensityMatrix(mixed(mu, n, kind))), torch.sqrt(lam * mu).sum(1), "fidelity")

        @obligation(P, f"entropy-{kind}-{n}", max_paths=40)
        def ob(s, kind=kind, n=n, b=b):
            from pyqtorch.utils import DensityMatrix
            from qadence.states import von_neumann_entropy

            lam = s.real("lam", (b, 2**n), 0.05, 1.0)
            pr = lam / lam.sum(1, keepdim=True)
            s.eq(von_neumann_entropy(DensityMatrix(mixed(lam, n, kind))), -(pr * torch.log(pr) / math.log(2)).sum(1), "entropy", tol=1e-6)


@obligation(P, "purity-general")
def ob(s):
    """Any hermitian 2x2 matrix: trace of its square."""
    from pyqtorch.utils import DensityMatrix
    from qadence.states import purity

    d = s.real("d", (2, 2), 0, 1)
    o = s.cplx("o", (2,))
    m = torch.zeros((2, 2, 2), dtype=O.CD)
    m[:, 0, 0], m[:, 1, 1] = d[:, 0].to(O.CD), d[:, 1].to(O.CD)
    m[:, 0, 1], m[:, 1, 0] = o, o.conj()
    s.eq(purity(DensityMatrix(m)), d[:, 0] ** 2 + d[:, 1] ** 2 + 2 * (o.real**2 + o.imag**2), "purity")


@obligation(P, "random-states")
def ob(s):
    """Random states are normalised whatever the random numbers are."""
    import qadence as qd
    from qadence.states import rand_product_state, rand_bitstring, random_state, StateGeneratorType

    for n in (1, 2):
        for b in (1, 2):
            k = itertools.count()
            draw = lambda *shape, **kw: s.real(f"u{n}{b}{next(k)}", shape, 0.01, 0.99)
            with mock.patch("torch.rand", draw):
                r = random_state(n, b)
            s.eq((r.real**2 + r.imag**2).sum(1), torch.ones(b), f"norm {n}x{b}", tol=1e-5)
    s.fact(all(len(rand_bitstring(k)) == k and set(rand_bitstring(k)) <= {"0", "1"} for k in (1, 2, 5)), "bit strings")
    r = rand_product_state(3, 4)
    s.fact(r.shape == (4, 8) and bool(((r != 0).sum(1) == 1).all()), "one basis state each")


@obligation(P, "haar-columns")
def ob(s):
    """The slow Haar sampler returns the normalised first column of the Gaussian matrix, whatever the Gaussian numbers are."""
    from qadence.states import random_state, StateGeneratorType

    k = itertools.count()
    drawn = []

    def normal_(self, *a, **kw):
        z = s.cplx(f"g{next(k)}", tuple(self.shape)) + (0.1 + 0.2j)
        drawn.append(z)
        return z

    with mock.patch("torch.Tensor.normal_", normal_):
        r = random_state(1, 2, type=StateGeneratorType.HAAR_MEASURE_SLOW)
    want = []
    for a, b in zip(drawn[::2], drawn[1::2]):
        c = (a + 1j * b)[:, 0]
        want.append(c / torch.sqrt((c.real**2 + c.imag**2).sum()))
    s.eq(r, torch.stack(want), "first column")


@obligation(P, "haar-fast")
def ob(s):
    """The fast sampler: exponentially distributed probabilities, normalised, with uniform phases."""
    from qadence.states import random_state

    for n, b in ((1, 1), (1, 3), (2, 2)):
        k = itertools.count()
        drawn = []

        def draw(*shape, **kw):
            drawn.append(s.real(f"u{n}{b}{next(k)}", shape, 0.05, 0.95))
            return drawn[-1]

        with mock.patch("torch.rand", draw):
            r = random_state(n, b)
        s.fact(r.shape == (b, 2**n), f"shape {n}x{b}")
        for i, (u, v) in enumerate(zip(drawn[::2], drawn[1::2])):
            p = -torch.log(u)
            s.eq(r[i].real ** 2 + r[i].imag ** 2, p / p.sum(), f"probabilities {n}x{b}", tol=1e-5)
            ph = torch.exp(2j * math.pi * v)
            s.eq((r[i] * ph.conj()).imag, torch.zeros(2**n), f"phases {n}x{b}", tol=1e-5)


@obligation(P, "random-rotations")
def ob(s):
    """Random rotations: one rotation per qubit and per element of the batch, from the drawn numbers."""
    import random as rnd
    from qadence.states import random_state, StateGeneratorType

    for n, b in ((1, 1), (2, 1), (2, 3)):
        rot, ang = [], []
        rr, ru = rnd.randrange, rnd.uniform

        def randrange(*a):
            rot.append(rr(*a))
            return rot[-1]

        def uniform(*a):
            ang.append(ru(*a))
            return ang[-1]

        rnd.seed(5 + n + b)
        with mock.patch("random.randrange", randrange), mock.patch("random.uniform", uniform):
            r = random_state(n, b, type=StateGeneratorType.RANDOM_ROTATIONS)
        want = []
        for i in range(b):
            v = torch.ones(1, dtype=torch.cdouble)
            for q in range(n):
                a, g = ang[i * n + q], rot[i * n + q]
                c, sn = math.cos(a / 2), math.sin(a / 2)
                col = [[c, -1j * sn], [c, sn], [complex(c, -sn), 0]][g]
                v = torch.kron(v, torch.tensor(col, dtype=torch.cdouble))
            want.append(v)
        s.eq(r, torch.stack(want), f"rotations {n}x{b}")
        s.fact(len(ang) == n * b and all(-2 <= a <= 2 for a in ang), f"angles {n}x{b}")
