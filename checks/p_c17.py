"""C17: registers: topology, spacing, coordinates, distances, independence of copies."""
import itertools
import math

import torch

from symq.runner import obligation

P = "C17"


def ring(n):
    return {frozenset((i, (i + 1) % n)) for i in range(n)} - {frozenset((0,))}


def square(k):
    """Corners and sides of a square, walked around."""
    p = [(0.0, 0.0)]
    for d in ((0, 1), (-1, 0), (0, -1), (1, 0)):
        for _ in range(k - 1):
            p.append((p[-1][0] + d[0], p[-1][1] + d[1]))
    return p[:-1]


def polygon(n):
    return [(math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n)) for i in range(n)]


def grid(r, c):
    return [(float(i), float(j)) for i in range(c) for j in range(r)]


def near(pts):
    """Pairs at the smallest distance."""
    d = {(i, j): math.dist(pts[i], pts[j]) for i, j in itertools.combinations(range(len(pts)), 2)}
    m = min(d.values(), default=0)
    return {frozenset(k) for k, v in d.items() if v < m + 1e-6}


TOL = 5e-5  # circular layouts are computed by networkx in single precision; spacings up to 30
CASES = {}
for n in (1, 2, 3, 5):
    CASES[f"line-{n}"] = (lambda R, n=n, **k: R.line(n, **k), [(float(i), 0.0) for i in range(n)], {frozenset((i, i + 1)) for i in range(n - 1)})
for n in (2, 3, 4, 5, 6):
    CASES[f"circle-{n}"] = (lambda R, n=n, **k: R.circle(n, **k), polygon(n), ring(n))
for n in (2, 3, 4):
    CASES[f"square-{n}"] = (lambda R, n=n, **k: R.square(n, **k), square(n), ring(4 * (n - 1)))
for r, c in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)):
    CASES[f"rectangular-{r}-{c}"] = (lambda R, r=r, c=c, **k: R.rectangular_lattice(r, c, **k), grid(r, c), near(grid(r, c)))


def lengths(s, R, mk, spacing, unit, edges, label):
    """All distances are those of the unit shape, scaled so that the smallest is the spacing; edges as described."""
    reg = mk(R, **({} if spacing is None else {"spacing": spacing}))
    sp = 1.0 if spacing is None else spacing
    n = len(unit)
    s.fact(reg.n_qubits == n and set(reg.support) == set(range(n)), f"{label}: qubits")
    s.fact({frozenset(e) for e in reg.edges} == edges, f"{label}: edges")
    s.fact(sorted(reg.all_node_pairs) == list(itertools.combinations(range(n), 2)), f"{label}: pairs")
    d = reg.distances
    s.fact(sorted(d) == list(itertools.combinations(range(n), 2)), f"{label}: keys of the distances")
    s.fact({frozenset(e) for e in reg.edge_distances} == edges, f"{label}: keys of the edge distances")
    if n < 2:
        return reg
    want = {(i, j): math.dist(unit[i], unit[j]) for i, j in d}
    m = min(want.values())
    c = reg.coords
    for (i, j), v in d.items():
        s.eq(v, sp * (want[i, j] / m) * torch.ones((), dtype=torch.float64), f"{label} distance {i},{j}", tol=TOL)
        s.eq(v * v, sum((torch.as_tensor(a) - torch.as_tensor(b)) ** 2 for a, b in zip(c[i], c[j])), f"{label} coordinates {i},{j}")
    for e, v in reg.edge_distances.items():
        s.eq(v, d[tuple(sorted(e))], f"{label} edge {e}")
    s.eq(reg.min_distance, sp * torch.ones((), dtype=torch.float64), f"{label} smallest distance", tol=TOL)
    return reg


for nm, (mk, unit, edges) in CASES.items():
    @obligation(P, nm, max_paths=60)
    def ob(s, mk=mk, unit=unit, edges=edges):
        from qadence import Register

        z = s.real("spacing", (), 0.2, 30.0)
        s.eq(z, z, "-")
        lengths(s, Register, mk, None, unit, edges, "default spacing")
        lengths(s, Register, mk, z, unit, edges, "spacing")


HEX = {(1, 1): 6, (1, 2): 10, (2, 1): 10, (2, 2): 16}
for kind, sizes in (("triangular_lattice", ((1, 1), (1, 2), (2, 2), (2, 3))), ("honeycomb_lattice", ((1, 1), (1, 2)))):
    for r, c in sizes:
        @obligation(P, f"{kind}-{r}-{c}", max_paths=60)
        def ob(s, kind=kind, r=r, c=c):
            """All cells are regular: every edge has the length of the spacing, no other pair is closer, every cell is closed."""
            from qadence import Register

            z = s.real("spacing", (), 0.2, 30.0)
            for sp in (None, z):
                reg = getattr(Register, kind)(r, c, **({} if sp is None else {"spacing": sp}))
                one = torch.ones((), dtype=torch.float64) * (1.0 if sp is None else sp)
                d = reg.distances
                e = {frozenset(x) for x in reg.edges}
                n = reg.n_qubits
                for (i, j), v in d.items():
                    if frozenset((i, j)) in e:
                        s.eq(v, one, f"edge {i},{j}")
                    else:
                        s.fact(bool(v > 1.4 * one), f"pair {i},{j} without an edge is further apart")
                s.eq(reg.min_distance, one, "smallest distance")
                if kind == "honeycomb_lattice":
                    s.fact(n == HEX[r, c], "number of qubits")
                    faces, side = r * c, 6
                else:
                    faces, side = r * c, 3
                # Euler: edges - nodes + 1 bounded faces
                s.fact(len(e) - n + 1 == faces, f"{len(e)} edges and {n} qubits for {faces} cells of {side} qubits")


@obligation(P, "all-to-all", max_paths=60)
def ob(s):
    from qadence import Register

    z = s.real("spacing", (), 0.2, 30.0)
    for n in (1, 2, 3, 4, 5):
        for mk in (lambda n, **k: Register.all_to_all(n, **k), lambda n, **k: Register(n, **k)):
            reg = mk(n, spacing=z)
            pairs = list(itertools.combinations(range(n), 2))
            s.fact({frozenset(e) for e in reg.edges} == {frozenset(p) for p in pairs}, f"{n}: edges")
            s.fact(reg.n_qubits == n, f"{n}: qubits")
            if n > 1:
                s.eq(reg.min_distance, z, f"{n} spacing")
            unit = mk(n).distances
            for p, v in reg.distances.items():
                s.eq(v, unit[p] * z, f"{n} {p}")
    s.eq(z, z, "-")


@obligation(P, "coordinates", max_paths=60)
def ob(s):
    """Given coordinates are kept; without a spacing unscaled, with a spacing scaled by one factor."""
    from qadence import Register

    pts = [tuple(s.real(f"p{i}{k}", (), a - 0.4, a + 0.4) for k, a in enumerate(c)) for i, c in enumerate([(0.0, 0.0), (2.0, 0.5)])]
    z = s.real("spacing", (), 0.2, 30.0)
    reg = Register.from_coordinates(pts)
    s.fact(len(reg.edges) == 0 and reg.n_qubits == 2, "no edges")
    for i in range(2):
        for k in range(2):
            s.eq(reg.coords[i][k], pts[i][k], f"{i}{k}")
    d2 = sum((pts[0][k] - pts[1][k]) ** 2 for k in range(2))
    s.eq(reg.distances[0, 1] ** 2, d2, "distance")
    reg = Register.from_coordinates(pts, spacing=z)
    for i in range(2):
        for k in range(2):
            s.eq(reg.coords[i][k] ** 2 * d2, (z * pts[i][k]) ** 2, f"scaled {i}{k}", tol=1e-6)
    c = reg.coords
    s.eq(sum((c[0][k] - c[1][k]) ** 2 for k in range(2)) * d2, z * z * d2, "scaled distance", tol=1e-6)


@obligation(P, "coordinates-3", max_paths=60)
def ob(s):
    """Whichever pair is the closest, the closest pair gets the spacing and all ratios stay."""
    from qadence import Register

    x, y = s.real("x", (), 0.2, 3.0), s.real("y", (), 0.2, 3.0)
    z = s.real("spacing", (), 0.2, 30.0)
    reg = Register.from_coordinates([(0.0, 0.0), (x, 0.0), (x, y)], spacing=z)
    c = reg.coords
    m = x if bool(x < y) else y
    one = torch.ones((), dtype=torch.float64)
    for i, (a, b) in enumerate([(0.0 * x, 0.0 * x), (x, 0.0 * x), (x, y)]):
        s.eq(c[i][0] * m, z * a * one, f"x {i}", tol=1e-6)
        s.eq(c[i][1] * m, z * b * one, f"y {i}", tol=1e-6)


@obligation(P, "rescale", max_paths=60)
def ob(s):
    from qadence import Register

    k = s.real("k", (), -3.0, 3.0)
    pts = [tuple(s.real(f"p{i}{j}", (), -2, 2) for j in range(2)) for i in range(3)]
    for nm, reg in (("coords", Register.from_coordinates(pts)), ("circle", Register.circle(4, spacing=2.0)), ("grid", Register.rectangular_lattice(2, 3, spacing=1.5))):
        before = {i: tuple(v) for i, v in reg.coords.items()}
        new = reg.rescale_coords(k)
        s.fact({frozenset(e) for e in new.edges} == {frozenset(e) for e in reg.edges} and new.device_specs == reg.device_specs, f"{nm}: edges and device kept")
        for i, v in before.items():
            for j in range(2):
                s.eq(new.coords[i][j], v[j] * k, f"{nm} {i}{j}")
                s.eq(torch.as_tensor(reg.coords[i][j], dtype=torch.float64), torch.as_tensor(v[j], dtype=torch.float64), f"{nm} original {i}{j}")


@obligation(P, "independence")
def ob(s):
    """Registers built from one graph do not influence each other or the graph."""
    import networkx as nx
    from qadence import Register

    a, b = s.real("a", (), 0.5, 5.0), s.real("b", (), 0.5, 5.0)
    g = nx.Graph()
    for i, p in enumerate([(0.0, 0.0), (2.0, 0.0), (2.0, 2.0)]):
        g.add_node(i, pos=p)
    g.add_edge(0, 2)
    r1, r2, r3 = Register(g, spacing=a), Register(g, spacing=b), Register(g, spacing=None)
    one = torch.ones((), dtype=torch.float64)
    for nm, r, k in (("first", r1, a / 2), ("second", r2, b / 2), ("unscaled", r3, one)):
        s.fact([set(e) for e in r.edges] == [{0, 2}], f"{nm}: edges")
        for i, p in enumerate([(0.0, 0.0), (2.0, 0.0), (2.0, 2.0)]):
            for j in range(2):
                s.eq(torch.as_tensor(r.coords[i][j], dtype=torch.float64), k * p[j], f"{nm} {i}{j}")
    r1.rescale_coords(3.0)
    r1.graph.add_edge(0, 1)
    s.fact(len(r2.edges) == 1 and len(g.edges) == 1, "edges added to one register stay there")
    s.fact([g.nodes[i]["pos"] for i in range(3)] == [(0.0, 0.0), (2.0, 0.0), (2.0, 2.0)], "the graph is as before")


@obligation(P, "equality")
def ob(s):
    """Equal registers have the same qubits, coordinates, edges and device."""
    import networkx as nx
    import qadence as qd
    from qadence import Register

    z = s.real("dummy", (), 0, 1)
    s.eq(z, z, "-")

    def mk(edges, pts=((0.0, 0.0), (1.0, 0.0), (0.0, 1.0)), **k):
        g = nx.Graph()
        for i, p in enumerate(pts):
            g.add_node(i, pos=p)
        g.add_edges_from(edges)
        return Register(g, spacing=None, **k)

    base = mk([(0, 1), (1, 2)])
    s.fact(base == mk([(0, 1), (1, 2)]), "same")
    s.fact(base == mk([(2, 1), (1, 0)]), "order of the edges does not matter")
    s.fact(not base == mk([(0, 1), (0, 2)]), "other edges")
    s.fact(not base == mk([(0, 1)]), "missing edge")
    s.fact(not base == mk([(0, 1), (1, 2)], ((0.0, 0.0), (1.0, 0.0), (0.0, 1.5))), "other coordinates")
    s.fact(not base == mk([(0, 1)], ((0.0, 0.0), (1.0, 0.0))), "other number of qubits")
    s.fact(not base == mk([(0, 1), (1, 2)], device_specs=qd.RydbergDevice(interaction=qd.Interaction.XY)), "other device")
    c = lambda r: qd.QuantumCircuit(r, qd.X(0))
    s.fact(c(base) == c(mk([(0, 1), (1, 2)])) and not c(base) == c(mk([(0, 1), (0, 2)])), "circuits")
    s.fact(Register.line(3) == Register.line(3) and not Register.line(3) == Register.line(3, spacing=2.0) and not Register.line(3) == Register.circle(3), "constructors")
