"""C06: one bit-order convention everywhere; little-endian requests mirror the qubit order and nothing else."""
import torch

from symq.runner import obligation
from checks import oracle as O

P = "C06"


def params(s, k, batch):
    return {f"p{i}": s.angle(f"p{i}", batch) for i in range(k)}


def circ(n):
    g = lambda *a, p=None: O.gate(*a, params=[p] if p else [])
    ts = [g("RX", 0, p="p0"), g("RY", n - 1, p="p1")]
    if n > 1:
        ts += [g("CRY", n - 1, 0, p="p0"), g("RZ", 1, p="p1"), g("CNOT", 0, n - 1)]
    return O.chain(*ts)


for n in (1, 2, 3):
    for B in (1, 2, 3):
        @obligation(P, f"run-{n}-b{B}")
        def ob(s, n=n, B=B):
            """Little-endian amplitudes are the big-endian ones with the bits of the index reversed."""
            import qadence as qd

            env = params(s, 2, B)
            t = circ(n)
            psi = s.state("psi", n)
            c = qd.QuantumCircuit(n, t.block)
            m = qd.QuantumModel(c)
            for lab, st, ref in (("zero", None, O.zero_state(n)), ("state", psi, psi)):
                want = t.act(env, n, ref).expand(B, -1)
                s.eq(qd.run(c, values=env, state=st), want, f"big {lab}")
                s.eq(qd.run(c, values=env, state=st, endianness=qd.Endianness.LITTLE), O.bit_reverse(want, n), f"little {lab}")
                s.eq(qd.run(n, t.block, values=env, state=st, endianness=qd.Endianness.LITTLE), O.bit_reverse(want, n), f"little block {lab}")
                s.eq(m.run(env, state=st, endianness=qd.Endianness.LITTLE), O.bit_reverse(want, n), f"little model {lab}")

        @obligation(P, f"expectation-{n}-b{B}")
        def ob(s, n=n, B=B):
            """Expectation values do not depend on the bit order."""
            import qadence as qd

            env = params(s, 2, B)
            t = circ(n)
            o = O.add(O.gate("Z", 0), O.scale(O.gate("X", n - 1), 0.5)) if n == 1 else O.add(O.kronb(O.gate("Z", 0), O.gate("X", 1)), O.scale(O.gate("Y", n - 1), 2.0))
            want = O.expect(o.op({}, n), t.act(env, n, O.zero_state(n))).expand(B).reshape(-1, 1)
            for e in (qd.Endianness.BIG, qd.Endianness.LITTLE):
                s.eq(qd.expectation(n, t.block, o.block, values=env, endianness=e), want, f"expectation {e}")
                s.eq(qd.QuantumModel(qd.QuantumCircuit(n, t.block), observable=o.block).expectation(env, endianness=e), want, f"model {e}")


def bits(k, n):
    return format(k, f"0{n}b")


for n in (1, 2, 3):
    @obligation(P, f"bitstrings-{n}")
    def ob(s, n=n):
        """Integers, bit strings, basis states and samples agree on which bit is which qubit."""
        import qadence as qd
        from qadence.utils import basis_to_int, int_to_basis, nqubits_to_basis, samples_to_integers
        from qadence.types import ResultType
        from qadence.transpile import invert_endianness
        from collections import Counter

        BIG, LIT = qd.Endianness.BIG, qd.Endianness.LITTLE
        for k in range(2**n):
            b = bits(k, n)
            s.fact(basis_to_int(b, BIG) == k and basis_to_int(b[::-1], LIT) == k, f"basis_to_int {b}")
            s.fact(int_to_basis(k, n, BIG) == b and int_to_basis(k, n, LIT) == b[::-1], f"int_to_basis {b}")
            v = torch.zeros(1, 2**n, dtype=torch.cdouble)
            v[0, k] = 1
            s.eq(qd.product_state(b), v, f"product_state {b}")
            s.eq(qd.product_state(b, endianness=LIT), O.bit_reverse(v, n), f"product_state little {b}")
            s.eq(qd.run(qd.product_block(b)), v, f"product_block {b}")
        for e, f in ((BIG, lambda b: b), (LIT, lambda b: b[::-1])):
            want = [f(bits(k, n)) for k in range(2**n)]
            s.fact(nqubits_to_basis(n, ResultType.STRING, e) == want, f"nqubits_to_basis {e}")
            s.fact(nqubits_to_basis(n, ResultType.TORCH, e).int().tolist() == [[int(c) for c in w] for w in want], f"torch basis {e}")
            s.fact(nqubits_to_basis(n, ResultType.NUMPY, e).tolist() == [[int(c) for c in w] for w in want], f"numpy basis {e}")
            cnt = Counter({bits(k, n): 7 * k + 1 for k in range(2**n)})
            s.fact(samples_to_integers(cnt, e) == Counter({int(f(b), 2): v for b, v in cnt.items()}), f"samples_to_integers {e}")
        inv = invert_endianness(cnt)
        s.fact(inv == Counter({b[::-1]: v for b, v in cnt.items()}), "counter inverted")
        s.fact(invert_endianness([cnt, inv]) == [inv, cnt], "list of counters")
        psi = s.state("psi", n, 2)
        s.eq(invert_endianness(psi), O.bit_reverse(psi, n), "amplitudes inverted")
        s.eq(invert_endianness(invert_endianness(psi)), psi, "twice")


for n in (1, 2, 3):
    for B in (1, 2):
        @obligation(P, f"samples-{n}-b{B}")
        def ob(s, n=n, B=B):
            """Bit i of a sampled string is the outcome of qubit i; little-endian strings are reversed."""
            import qadence as qd

            env = params(s, 2, B)
            t = circ(n)
            c = qd.QuantumCircuit(n, t.block)
            counts = [3 + 2 * k for k in range(2**n)]
            for e, f in ((qd.Endianness.BIG, lambda b: b), (qd.Endianness.LITTLE, lambda b: b[::-1])):
                for lab, fn in (
                    ("sample", lambda: qd.sample(c, values=env, n_shots=sum(counts), endianness=e)),
                    ("model", lambda: qd.QuantumModel(c).sample(env, n_shots=sum(counts), endianness=e)),
                ):
                    with O.draws(counts) as rec:
                        got = fn()
                    s.fact(len(got) == B and len(rec) == B, f"{lab} {e}: one counter and one draw per batch element")
                    want = {f(bits(k, n)): counts[k] for k in range(2**n)}
                    s.fact(all(dict(g) == want for g in got), f"{lab} {e}: outcome k is the bit string of k")
                    probs = t.act(env, n, O.zero_state(n)).expand(B, -1)
                    for i, w in enumerate(rec):
                        s.eq(w.reshape(-1), (probs[i].conj() * probs[i]).real, f"{lab} {e} weights {i}")


for n in (1, 2, 3):
    @obligation(P, f"density-{n}", tier="thorough" if n == 3 else "quick", timeout=300)
    def ob(s, n=n):
        """Mixed states: both indices of the density matrix are mirrored."""
        import qadence as qd
        from qadence.transpile import invert_endianness

        psi = s.state("psi", n, 2)
        rho = qd.density_mat(psi)
        r = O.bit_reverse(psi, n)
        s.eq(invert_endianness(rho), r.unsqueeze(2) * r.conj().unsqueeze(1), "invert")
        env = params(s, 2, 2)
        t = circ(n)
        out = O.bit_reverse(t.act(env, n, psi), n)
        got = qd.run(n, t.block, values=env, state=rho, endianness=qd.Endianness.LITTLE)
        s.eq(got, out.unsqueeze(2) * out.conj().unsqueeze(1), "run little")


@obligation(P, "sample-entry-points")
def ob(s):
    """sample() of circuits, of blocks on a register, a number of qubits or nothing: same qubits, order, number of shots and initial state."""
    import qadence as qd

    n = 3
    env = params(s, 2, 2)
    t = circ(n)
    psi = s.state("psi", n, 1)
    counts = [3 + 2 * k for k in range(2**n)]
    plain = O.chain(O.gate("RX", 0, params=[0.7]), O.gate("CNOT", 0, 2), O.gate("H", 1))
    BIG, LIT = qd.Endianness.BIG, qd.Endianness.LITTLE
    entries = (
        ("circuit", lambda t, **k: qd.sample(qd.QuantumCircuit(n, t.block), **k)),
        ("qubits", lambda t, **k: qd.sample(n, t.block, **k)),
        ("register", lambda t, **k: qd.sample(qd.Register.line(n), t.block, **k)),
        ("block", lambda t, **k: qd.sample(t.block, **k)),
    )
    for e, f in ((BIG, lambda b: b), (LIT, lambda b: b[::-1])):
        want = {f(bits(k, n)): counts[k] for k in range(2**n)}
        for lab, fn in entries:
            for tag, tt, vals, st in (("values", t, env, None), ("state", t, env, psi), ("none", plain, None, None)):
                with O.draws(counts) as rec:
                    got = fn(tt, values=vals, state=st, n_shots=sum(counts), endianness=e)
                B = 2 if vals else 1
                s.fact(len(got) == B and all(dict(g) == want for g in got), f"{lab} {tag} {e}: outcomes")
                out = tt.act(vals or {}, n, O.zero_state(n) if st is None else st).expand(B, -1)
                for i, w in enumerate(rec):
                    s.eq(w.reshape(-1), (out[i].conj() * out[i]).real, f"{lab} {tag} {e} weights {i}")
    for lab, fn in entries:
        got = fn(plain)
        s.fact(len(got) == 1 and sum(got[0].values()) == 100, f"{lab}: 100 shots by default")
        got = fn(plain, n_shots=7)
        s.fact(len(got) == 1 and sum(got[0].values()) == 7, f"{lab}: the requested number of shots")
    got = qd.QuantumModel(qd.QuantumCircuit(n, plain.block)).sample(n_shots=9)
    s.fact(len(got) == 1 and sum(got[0].values()) == 9, "model: the requested number of shots")
    s.raises(lambda: qd.sample("circuit"), ValueError, "nothing to sample")
    s.raises(lambda: qd.run("circuit"), ValueError, "nothing to run")
    s.raises(lambda: qd.expectation("circuit", qd.Z(0)), ValueError, "nothing to measure")
