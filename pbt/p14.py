"""P14: unpacking of raw measurement records."""
import itertools
import warnings

import numpy as np
from hypothesis import strategies as st
from plaquette.codes.latticebase import NoLogicalOperatorError
from plaquette.device import MeasurementSample

from . import codes, qec
from .harness import Prop, require

PROP = Prop(
    "P14",
    "random records (and records of error circuits simulated on both backends) of built-in, "
    "random and defective planar codes, 1-25 rounds, all logical bases, both ancilla "
    "modes, several number types, wrong lengths; non-trivial: at least two rounds and a "
    "record with both values; oracle: positions of every bit counted from the code's "
    "operators",
    ["the order of the record is that of the generated circuit (P12)"],
)


@st.composite
def specs(draw, defects=True):
    code = draw(codes.code(4, rounds=(5, 25), max_n=7))
    d = dict(code=code, ops=draw(qec.bases(code)), ancilla=draw(st.booleans()),
             seed=draw(st.integers(0, 10**6)), erasure=draw(st.booleans()),
             type=draw(st.sampled_from(["int64", "uint8", "bool", "int8"])))
    if code["kind"] == "planar" and defects:
        d["faulty"] = draw(st.lists(st.integers(0, 99), max_size=2))
    return d


def make(case):
    warnings.simplefilter("ignore")
    c = codes.make(case["code"])
    if case.get("faulty"):
        try:
            c.apply_fabrication_errors(
                faulty_qubits=[i % c.n_data_qubits for i in case["faulty"]])
        except NoLogicalOperatorError:
            c = codes.make(case["code"])
        if not len(c.lattice.stabgens):
            c = codes.make(case["code"])
    return c


def weights(c, bases):
    logs = codes.strings(c.logical_ops)
    return [len(o) - o.count("I") for o in
            (logs[2 * i + "XZ".index(b)] for i, b in enumerate(bases))]


def ambiguous(c, total):
    """Several choices of logical operators fit a record of this length."""
    k = c.n_logical_qubits
    sets = {tuple(weights(c, b)) for b in itertools.product("XZ", repeat=k)}
    return sum(sum(s) == total for s in sets)


@PROP.part("random", specs(), 500, shards=2, thorough=15)
def random(case):
    c = make(case)
    k, r, ns, n = c.n_logical_qubits, c.n_rounds, c.n_stabgens, c.n_data_qubits
    ops = qec.chosen(c, case["ops"])
    w = [1] * k if case["ancilla"] else weights(c, case["ops"])
    rng = np.random.default_rng(case["seed"])
    raw = rng.integers(0, 2, 2 * sum(w) + (r + 1) * ns).astype(case["type"])
    era = rng.integers(0, 2, r * n).astype(case["type"]) if case["erasure"] else None
    return compare(c, raw, era, case, ops, sum(w))


@PROP.part("big", codes.enlarged(specs()), 16, shards=1, thorough=10)
def big(case):
    """Hundreds of qubits or rounds."""
    return random(case)


def compare(c, raw, era, case, ops, total):
    before = raw.copy(), None if era is None else era.copy()
    args = (c, raw) if era is None else (c, raw, era)
    try:
        m = MeasurementSample.from_code_and_raw_results(
            *args, logical_ancilla=case["ancilla"])
    except ValueError as e:
        require(not case["ancilla"] and ambiguous(c, total) > 1,
                "a right record is refused:", repr(e))
        return dict(nt=False, labels=["ambiguous"])
    init, stab, final = qec.split(c, raw, ops, case["ancilla"])
    require([int(x) for x in m.logical_op_initial] == init, "initial outcomes are",
            m.logical_op_initial, "instead of", init)
    require([int(x) for x in m.logical_op_final] == final, "final outcomes are",
            m.logical_op_final, "instead of", final)
    require([int(x) for x in m.logical_op_toggle] == [a ^ b for a, b in zip(init, final)],
            "toggles are", m.logical_op_toggle)
    got = np.asarray(m.stabilizer_gen).astype(int)
    require(got.shape == stab.shape and (got == stab).all(), "stabilisers are", got)
    syn = np.asarray(m.syndrome).astype(int)
    require(syn.shape == (c.n_rounds, c.n_stabgens) and
            (syn == (stab[1:] ^ stab[:-1])).all(), "syndrome is", syn)
    if era is None:
        require(m.erased_qubits is None, "erased qubits", m.erased_qubits)
    else:
        e = np.asarray(m.erased_qubits).astype(int)
        require(e.shape == (c.n_rounds, c.n_data_qubits) and
                (e.ravel() == before[1].astype(int)).all(), "erased qubits are", e)
        require((era == before[1]).all(), "the erasures were modified")
    require((raw == before[0]).all(), "the record was modified")
    return dict(nt=c.n_rounds > 1 and len(set(stab.ravel())) > 1,
                labels=[case["code"]["kind"], f"ancilla {case['ancilla']}",
                        f"logical {c.n_logical_qubits}", f"erasure {era is not None}"])


@PROP.part("length", st.tuples(specs(), st.integers(-12, 12), st.booleans()).map(list),
           300)
def length(case):
    """Records of a length that fits no choice of operators are refused."""
    case, delta, erasure = case
    c = make(case)
    k, r, ns, n = c.n_logical_qubits, c.n_rounds, c.n_stabgens, c.n_data_qubits
    total = k if case["ancilla"] else sum(weights(c, case["ops"]))
    rng = np.random.default_rng(case["seed"])
    size = 2 * total + (r + 1) * ns
    era = None
    if erasure:
        era = rng.integers(0, 2, max(0, r * n + delta))
        bad = delta != 0
    else:
        size = max(0, size + delta)
        rest = size - (r + 1) * ns
        if case["ancilla"]:
            bad = rest != 2 * k
        else:
            bad = rest % 2 or ambiguous(c, rest // 2) == 0
    try:
        MeasurementSample.from_code_and_raw_results(
            c, rng.integers(0, 2, size), era, logical_ancilla=case["ancilla"])
    except ValueError:
        return dict(nt=bool(bad), labels=["refused"])
    require(not bad, "a record of", size, "bits", "with wrong erasures" * erasure,
            "is accepted")
    return dict(nt=False, labels=["accepted"])


@PROP.part("simulated", specs(False), 60, shards=2)
def simulated(case):
    """Records of error circuits; one certain error shows in its own round only."""
    import plaquette
    from plaquette.circuit.generator import generate_qec_circuit
    from plaquette.device import Device

    from .q import anticommute, single

    c = codes.make(case["code"])
    ops = qec.chosen(c, case["ops"])
    n, r, ns = c.n_data_qubits, c.n_rounds, c.n_stabgens
    stabs = codes.strings(c.stabilisers)
    if any("Y" in s for s in stabs + ops) or not (
        case["ancilla"] or qec.qubitwise(ops)
    ):
        return False
    i, x = case["seed"] % n, "xyz"[case["seed"] % 3]
    era = {j: dict(p=float((case["seed"] >> j % 20) & 1)) for j in range(n)}
    qubit = dict(pauli={i: {x: 1.0}})
    if case["erasure"]:
        qubit["erasure"] = era
    plaquette.rng = np.random.default_rng(case["seed"])
    made = generate_qec_circuit(c, qubit, {}, case["ops"], case["ancilla"])
    dev = Device(["clifford", "stim"][case["seed"] // 7 % 2])
    dev.run(made)
    raw, erased = dev.get_sample()
    total = len(ops) if case["ancilla"] else sum(weights(c, case["ops"]))
    if not case["erasure"]:
        erased = None
    res = compare(c, np.asarray(raw), erased, case, ops, total)
    if "ambiguous" in res["labels"]:
        return res
    m = MeasurementSample.from_code_and_raw_results(c, raw, erased,
                                                    logical_ancilla=case["ancilla"])
    if case["erasure"]:
        want = [[era[j]["p"] for j in range(n)]] * r
        require((np.asarray(m.erased_qubits) == want).all(), "erased qubits are",
                m.erased_qubits, "instead of", want)
    else:
        e = single(x.upper(), i, n)
        want = [[anticommute(e, s) for s in stabs]] * r
        require((np.asarray(m.syndrome) == want).all(), "syndrome of", e, "is",
                m.syndrome, "instead of", want)
        require(list(m.logical_op_toggle) == [r * anticommute(e, o) % 2 for o in ops],
                "logical toggles of", e, "are", m.logical_op_toggle)
    return res
