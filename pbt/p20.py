"""P20: the verdict on a decoded experiment."""
import numpy as np
import plaquette
from hypothesis import strategies as st
from plaquette.circuit.generator import generate_qec_circuit
from plaquette.decoders import decoderbase
from plaquette.device import Device, MeasurementSample

from . import circ, codes, q, qec
from .harness import Prop, require
from .p13 import expand
from .p14 import ambiguous
from .p15 import inject

PROP = Prop(
    "P20",
    "built-in and random codes, 1-12 rounds, any choice of logical operators, with and "
    "without ancillas; random Pauli and measurement errors put into the circuit, which "
    "runs on both backends; corrections that are the error times random stabilisers and "
    "logical operators; non-trivial: a correction with a logical operator or an error; "
    "oracle: commutators symbol by symbol",
)


@st.composite
def specs(draw, size=4, rounds=(3, 12)):
    code = draw(codes.code(size, rounds, max_n=7, css=True))
    ops = draw(qec.bases(code))
    if draw(st.booleans()):
        ops = qec.reordered(draw, ops)
    return dict(code=code, seed=draw(st.integers(0, 10**6)), ops=ops,
                ancilla=draw(st.booleans()), errors=draw(st.integers(0, 5)),
                flips=draw(st.integers(0, 3)),
                logical=draw(st.sampled_from([0, 0, 1, 2])))


def product(rows, picks, n):
    out = ("I" * n, 0)
    for s, b in zip(rows, picks):
        if b:
            out = q.pmul(out, (s, 0))
    return out[0]


def setting(case):
    c = codes.make(case["code"])
    rng = np.random.default_rng(case["seed"])
    r, n, ns = c.n_rounds, c.n_data_qubits, c.n_stabgens
    data = [[int(rng.integers(r)), int(rng.integers(n)), str(rng.choice(list("XYZ")))]
            for _ in range(case["errors"])]
    meas = [[int(rng.integers(1, r)), int(rng.integers(ns))]
            for _ in range(case["flips"] if r > 1 else 0)]
    error = ("I" * n, 0)
    for _, i, x in data:
        error = q.pmul(error, (q.single(x, i, n), 0))
    return c, rng, data, meas, error[0]


@PROP.part("verdict", specs(), 110, shards=4, thorough=15)
def verdict(case):
    """Experiments run on the backends of plaquette."""
    c, rng, data, meas, error = setting(case)
    ops, n = qec.chosen(c, case["ops"]), c.n_data_qubits
    stabs, logs = codes.strings(c.stabilisers), codes.strings(c.logical_ops)
    if any("Y" in s for s in stabs + ops) or not (
            case["ancilla"] or qec.qubitwise(ops)):
        return False
    size = [n - o.count("I") for o in ops]
    if qec.unordered(c, case) or not case["ancilla"] and ambiguous(c, sum(size)) > 1:
        return dict(nt=False, labels=["ambiguous"])
    clean = generate_qec_circuit(c, {}, {}, case["ops"], case["ancilla"])
    made = circ.build(inject(c, expand(qec.gates(clean)), data, meas))
    plaquette.rng = np.random.default_rng(case["seed"])
    dev = Device(["clifford", "stim"][case["seed"] % 2])
    dev.run(made)
    raw, _ = dev.get_sample()
    m = MeasurementSample.from_code_and_raw_results(c, raw,
                                                    logical_ancilla=case["ancilla"])
    want = [q.anticommute(error, s) for s in stabs]
    have = np.logical_xor.reduce(np.asarray(m.syndrome, bool), axis=0)
    require(list(have) == want, "the error", error, "has the total syndrome", have)
    sel = case["ops"]
    seen = set()
    for j in range(4):
        stab = product(stabs, rng.integers(0, 2, len(stabs)), n)
        log = product(logs, rng.random(len(logs)) < (0, 0.3, 0.5)[case["logical"]], n)
        fix = q.pmul(q.pmul((error, 0), (stab, 0)), (log, 0))[0]
        good = not any(q.anticommute(log, o) for o in ops)
        got = decoderbase.check_success(c, q.row(fix, int(rng.integers(2))),
                                        m.logical_op_toggle, sel)
        require(bool(got) == good, "error", error, "corrected by", fix,
                "which differ by a stabiliser and", log, "counts as success:", got)
        seen.add(good)
    return dict(nt=bool(data) or len(seen) > 1, labels=[
        case["code"]["kind"], f"ancilla {case['ancilla']}",
        *(f"success {x}" for x in seen)])


@PROP.part("big", codes.enlarged(specs()), 4, shards=1, thorough=10)
def big(case):
    """Hundreds of qubits or rounds."""
    return verdict(case)


@PROP.part("operators", st.tuples(codes.code(4, 2, max_n=8), st.integers(0, 10**6),
                                  st.booleans()).map(list), 250, shards=2, thorough=15)
def operators(case):
    """All logical operators at once; stabilisers and logical operators as corrections."""
    code, seed, some = case
    c = codes.make(code)
    n, k = c.n_data_qubits, c.n_logical_qubits
    rng = np.random.default_rng(seed)
    stabs, logs = codes.strings(c.stabilisers), codes.strings(c.logical_ops)
    idx = [int(2 * i + rng.integers(2)) for i in rng.permutation(k)] if some else None
    ops = [logs[i] for i in idx] if some else logs
    fix = "".join(rng.choice(list("IXYZ"), n))
    right = np.array([q.anticommute(fix, o) for o in ops], bool)

    def check(p, toggle):
        args = (c, q.row(p), toggle) + ((idx,) if some else ())
        return bool(decoderbase.check_success(*args))

    require(check(fix, right) and check(fix, right.astype(int)), "the right correction",
            fix, "counts as failure")
    for i in range(len(ops)):
        wrong = right.copy()
        wrong[i] ^= True
        require(not check(fix, wrong), "a wrong outcome", i, "counts as success")
    for s in stabs:
        p = q.pmul((fix, 0), (s, 0))[0]
        require(check(p, right), "the stabiliser", s, "changes the verdict")
    for o in logs:
        p = q.pmul((fix, 0), (o, 0))[0]
        flips = np.array([q.anticommute(o, x) for x in ops], bool)
        require(check(p, right) == (not flips.any()), "logical operator", o)
        require(check(p, right ^ flips), "logical operator", o, "and its outcome")
    return dict(nt=n > 2, labels=[code["kind"], f"selected {some}"])


@PROP.part("arguments", st.tuples(codes.code(3, 1, max_n=5), st.integers(0, 10**6),
                                  st.sampled_from(["toggle", "text", "long", "index",
                                                   "size"])).map(list), 150)
def arguments(case):
    """Selections and outcomes that do not fit the code are refused."""
    code, seed, what = case
    c = codes.make(code)
    n, k = c.n_data_qubits, c.n_logical_qubits
    fix, toggle, sel = q.row("I" * n), np.zeros(k, bool), "X" * k
    if what == "toggle":
        toggle = np.zeros(k + 1 + seed % 3, bool)
    elif what == "text":
        sel = "X" * (k - 1) + "YIxW"[seed % 4]
    elif what == "long":
        sel = "X" * (k + 1)
    elif what == "index":
        sel = [0] * (k - 1) + [2 * k + seed % 3, -1 - seed % 3][seed % 2 : seed % 2 + 1]
    else:
        fix = q.row("I" * (n + 1 + seed % 3))
    try:
        decoderbase.check_success(c, fix, toggle, sel)
    except (ValueError, AssertionError):
        return True
    require(False, "accepted:", what, sel)
