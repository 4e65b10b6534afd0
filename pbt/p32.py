"""P32: samples of noisy memory experiments follow the configured errors."""
import numpy as np
import plaquette
from hypothesis import strategies as st
from plaquette.circuit.generator import generate_qec_circuit
from plaquette.device import Device

from . import circ, codes, p13, qec
from .harness import Prop, require

PROP = Prop(
    "P32",
    "noisy memory experiments of built-in and random codes, 1-4 rounds, all kinds of "
    "errors at certain, large and small rates, both simulators; parities of syndrome "
    "bits, logical outcomes and erasures of up to 5000 shots, also between shots; "
    "non-trivial: some parities are neither certain nor even; oracle: exact expectation "
    "values from an own propagation of every configured error to the outcomes",
    ["the order of gates is the one of the error-free circuit (P12, P29)",
     "binomial tests, false-alarm probability below 1e-11 each"],
)
ALPHA = 1e-11
PAULI = ["I", "X", "Y", "Z"]


class Marks:
    """Which detectors an error flips, walking through a circuit from its end."""

    def __init__(self):
        self.x, self.z = {}, {}

    def of(self, chars, qubits):
        m = 0
        for p, t in zip(chars, qubits):
            m ^= self.x.get(t, 0) if p in "XY" else 0
            m ^= self.z.get(t, 0) if p in "ZY" else 0
        return m

    def back(self, name, qubits, mark):
        x, z = self.x, self.z
        if name == "M":
            x[qubits[0]] = x.get(qubits[0], 0) ^ mark
        elif name == "R":
            x[qubits[0]] = z[qubits[0]] = 0
        elif name == "H":
            t = qubits[0]
            x[t], z[t] = z.get(t, 0), x.get(t, 0)
        elif name == "CX":
            a, b = qubits
            x[a] = x.get(a, 0) ^ x.get(b, 0)
            z[b] = z.get(b, 0) ^ z.get(a, 0)
        elif name == "CZ":
            a, b = qubits
            x[a] = x.get(a, 0) ^ z.get(b, 0)
            x[b] = x.get(b, 0) ^ z.get(a, 0)
        else:
            raise AssertionError(name)


def detectors(c, ops, ancilla):
    """Marks of the outcomes in the order of the record, number of detectors."""
    weights = [1 if ancilla else len(o) - o.count("I") for o in ops]
    r, s = c.n_rounds, c.n_stabgens
    logical = [1 << (r * s + i) for i, w in enumerate(weights) for _ in range(w)]
    stab = [(1 << t * s + j if t < r else 0) ^ (1 << (t - 1) * s + j if t else 0)
            for t in range(r + 1) for j in range(s)]
    return logical + stab + logical, r * s + len(ops)


def channels(gates, marks, first_flag):
    """Every error as [(probability, flipped detectors)]; number of erasure flags."""
    left = list(marks)
    flags = sum(g[0] == "E_ERASE" for g in gates)
    flag = first_flag + flags
    m, out = Marks(), []
    for g in reversed(gates):
        if g[0] == "E_PAULI":
            out.append([(p, m.of(o, g[4:])) for p, o in zip(g[1:4], "XYZ")])
        elif g[0] == "E_PAULI2":
            both = [a + b for a in PAULI for b in PAULI][1:]
            out.append([(p, m.of(o, g[16:])) for p, o in zip(g[1:16], both)])
        elif g[0] == "E_ERASE":
            flag -= 1
            out.append([(g[1] / 4, m.of(o, g[2:]) | 1 << flag) for o in PAULI])
        elif g[0] == "ERROR":
            out.append([(g[1], m.of(g[2], g[3:]))])
        else:
            m.back(g[0], g[1:], left.pop() if g[0] == "M" else 0)
    assert not left and flag == first_flag
    return out, flags


def mean(chs, s):
    """Expectation value of (-1)**(parity of the detectors in s)."""
    v = 1.0
    for ch in chs:
        v *= 1 - 2 * sum(p for p, mask in ch if (mask & s).bit_count() % 2)
    return v


def scaled(pool, f):
    out = {}
    for k, d in pool.items():
        out[k] = dict(d, entries=[{x: p * f for x, p in e.items()} for e in d["entries"]])
    return out


@st.composite
def cases(draw):
    d = draw(p13.specs(5, (3, 4)))
    backend = draw(st.sampled_from(["stim", "stim", "clifford"]))
    rates = [1.0, 0.3, 0.1, 0.03] if backend == "stim" else [1.0, 1.0, 0.3]
    d["pool"] = scaled(d["pool"], draw(st.sampled_from(rates)))
    d |= dict(backend=backend,
              batch=draw(st.sampled_from([None, 1, 5, 64, 1000])),
              seed=draw(st.integers(0, 2**20)),
              masks=draw(st.lists(st.integers(1, 2**40), min_size=4, max_size=12)))
    return d


def shots_of(case, made, n):
    kw = dict(batch_size=case["batch"]) if case["backend"] == "stim" and case["batch"] else {}
    dev = Device(case["backend"], **kw)
    records, erasures = [], []
    for _ in range(n):
        dev.run(made)
        raw, erased = dev.get_sample()
        records.append(np.array(raw, dtype=bool))
        erasures.append(np.array([] if erased is None else erased, dtype=bool))
    return np.array(records), np.array(erasures)


@PROP.part("samples", cases(), 60, shards=6, thorough=15)
def samples(case):
    c = codes.make(case["code"])
    ops, anc = case["ops"], case["ancilla"]
    if not anc and not qec.qubitwise(qec.chosen(c, ops)):
        return False
    qubit, gate = p13.dictionaries(c, case["pool"])
    clean = p13.expand(qec.gates(generate_qec_circuit(c, {}, {}, ops, anc)))
    gates = p13.expected(c, clean, qubit, gate)
    marks, nd = detectors(c, qec.chosen(c, ops), anc)
    chs, flags = channels(gates, marks, nd)
    plaquette.rng = np.random.default_rng(case["seed"])
    made = generate_qec_circuit(c, qubit, gate, ops, anc)
    n = 5000 if case["backend"] == "stim" else max(20, min(1000, 60000 // len(gates)))
    rec, er = shots_of(case, made, n)
    require(rec.shape[1:] == (len(marks),), "number of outcomes", rec.shape)
    require(er.shape[1:] == (flags,), "number of erasure flags", er.shape)
    bits = np.zeros((n, nd + flags), dtype=bool)
    for column, m in zip(rec.T, marks):
        for i in range(nd):
            if m >> i & 1:
                bits[:, i] ^= column
    bits[:, nd:] = er
    total, some = nd + flags, 0

    def parity(s):
        return bits[:, [i for i in range(total) if s >> i & 1]].sum(axis=1) % 2

    def describe(s):
        r, k = c.n_rounds, c.n_stabgens
        return [f"syndrome {i // k},{i % k}" if i < r * k else
                f"logical {i - r * k}" if i < nd else f"erasure {i - nd}"
                for i in range(total) if s >> i & 1]

    def test(odd, shots, v, *what):
        p = min(1.0, max(0.0, (1 - v) / 2))
        require(circ.tail(odd, shots, p) >= ALPHA, odd, "of", shots,
                "instead of", f"{p:.5f}", "for", *what)

    tried = {1 << i for i in range(total)}
    tried |= {m for ch in chs for p, m in ch if p and m} if total < 60 else set()
    for i, k in enumerate(case["masks"]):  # few, nearby, many
        a, b = k % total, k // total % total
        tried |= {1 << a | 1 << b, 3 << a & (1 << total) - 1, k % (1 << total) or 1}
        if chs:
            x = chs[k % len(chs)]
            tried.add(x[k // 7 % len(x)][1] or 1)
    for s in sorted(tried - {0})[:400]:
        v, odd = mean(chs, s), parity(s)
        test(int(odd.sum()), n, v, "the parity of", describe(s))
        some += 1e-3 < abs(v) < 1 - 1e-3
        for lag in (1, case["batch"] or 0):
            if lag and n > 2 * lag:  # disjoint pairs of shots
                t = np.arange(n - n % (2 * lag)).reshape(-1, 2, lag)
                both = odd[t[:, 0].ravel()] ^ odd[t[:, 1].ravel()]
                test(int(both.sum()), len(both), v * v, describe(s),
                     "flipping between shots", lag, "apart")
    return dict(nt=some > 0, labels=[case["code"]["kind"], case["backend"], *case["pool"],
                                     f"flags {bool(flags)}", f"ancilla {anc}"])
