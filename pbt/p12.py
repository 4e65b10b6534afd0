"""P12: error-free memory experiments."""
import numpy as np
from hypothesis import strategies as st
from plaquette.circuit.generator import QECCircuitGenerator, generate_qec_circuit

from . import circ, codes, q, qec
from .harness import Prop, require

PROP = Prop(
    "P12",
    "generated error-free circuits of built-in codes (sizes 2-7) and random valid codes, "
    "1-14 rounds, all logical bases, with and without ancillas, on random Clifford states "
    "of the data qubits or on prepared code states with random signs; non-trivial: "
    "at least two rounds or two logical qubits; oracle: Stim's tableau simulator runs "
    "the circuit and evaluates stabilisers and logical operators after every round",
    ["Stim's tableau simulator is right"],
)


@st.composite
def specs(draw, size=6, rounds=(4, 14)):
    c = draw(codes.code(size, rounds=rounds, max_n=8))
    n = c.get("n") or {"five_qubit": 5, "shor": 9}.get(c["kind"])
    d = dict(code=c, ops=draw(qec.bases(c)), ancilla=draw(st.booleans()),
             seed=draw(st.integers(0, 10**6)))
    if draw(st.booleans()):
        d["ops"] = qec.reordered(draw, d["ops"])
    if draw(st.booleans()):
        d["signs"] = draw(st.integers(0, 2**16 - 1))
    else:
        d["prefix"] = draw(qec.prefixes(n or 4))
    return d


def circuit(c, case):
    """The generated circuit, or None if the code is refused as documented."""
    ops = case["ops"]
    strings = qec.chosen(c, case["ops"])
    y = any("Y" in s for s in codes.strings(c.stabilisers) + strings)
    unclear = not case["ancilla"] and not qec.qubitwise(strings)
    try:
        out = generate_qec_circuit(c, {}, {}, ops, case["ancilla"])
    except (ValueError, NotImplementedError) as e:
        require(y or unclear, "a valid code is refused:", repr(e))
        return None
    require(not unclear, "logical operators", strings, "cannot be measured this way")
    other = QECCircuitGenerator(c, {}, {}, case["ancilla"]).get_circuit(ops)
    require(str(other) == str(out), "the class generates another circuit")
    return out


EVERY = [
    dict(code=dict(kind=k, rounds=2, **(dict(size=s) if s else {}), **x), ops=b * m,
         ancilla=a, seed=s, signs=s)
    for k, m, sizes in (("planar", 1, (2, 3, 4, 5)), ("toric", 2, (2, 3, 4)),
                        ("rotated", 1, (2, 3, 4, 5)), ("repetition", 1, (3, 5)),
                        ("shor", 1, (0,)), ("five_qubit", 1, (0,)))
    for s in sizes for x in ({}, {"xzzx": True})[: 1 + (k == "rotated")]
    for b in "XZ" for a in (False, True)
]


@PROP.part("memory", specs(), 160, shards=4, thorough=15, examples=EVERY)
def memory(case):
    c = codes.make(case["code"])
    made = circuit(c, case)
    if made is None:
        return dict(nt=False, labels=["refused"])
    return run_memory(c, made, case)


@PROP.part("big", codes.enlarged(specs()), 10, shards=1, thorough=10)
def big(case):
    """Hundreds of qubits or rounds."""
    return memory(case)


def run_memory(c, made, case):
    """Run the circuit and compare everything it measures."""
    ancilla, r = case["ancilla"], c.n_rounds
    ops = qec.chosen(c, case["ops"])
    stabs = codes.strings(c.stabilisers)
    n, ns, k = c.n_data_qubits, len(stabs), len(ops)
    gates = qec.gates(made)
    used = {a for g in gates for a in g[1:]}
    anc = {n + ns + i for i in qec.indices(case["ops"])}
    data = {i for s in stabs + ops for i, x in enumerate(s) if x != "I"}
    require(used == data | set(range(n, n + ns)) | (anc if ancilla else set()),
            "the circuit uses the qubits", sorted(used))
    per = k if ancilla else sum(len(o) - o.count("I") for o in ops)
    total = 2 * per + (r + 1) * ns
    bits = sum(len(g) - 1 for g in gates if g[0] == "M")
    require(bits == total, "the circuit has",
            bits, "measurements instead of", total)
    run = qec.Run(c.n_ext_qubits, case["seed"])
    signs = None
    if "signs" in case:
        # redundant generators (toric code) cannot have independent signs
        signs = [case["signs"] >> (i % 16) & 1 for i in range(k)]
        qec.prepare(run, ops, signs)
    else:
        run.do([[g, *[t % n for t in a]] for g, *a in case["prefix"]
                if g in "HS" or len({t % n for t in a}) == len(a)])
    # dirty ancillas make no difference
    run.do([["X", a] for a in range(n, c.n_ext_qubits) if a % 3 == case["seed"] % 3])
    seen = 0
    for g in gates:
        run.do([g])
        if g[0] != "M" or (len(run.record) - per) % ns:
            continue
        j = (len(run.record) - per) // ns - 1
        if seen <= j <= r and len(run.record) <= per + (r + 1) * ns:
            # a round is complete: the state has the recorded values
            seen = j + 1
            got = run.record[per + j * ns :]
            for s, b in zip(stabs, got):
                v = run.peek(s)
                require(v == b, "after round", j, "stabiliser", s, "has value", v,
                        "but", b, "was recorded")
            init = qec.split(c, run.record + [0] * (total - len(run.record)), ops,
                             ancilla)[0]
            for o, b in zip(ops, init):
                require(run.peek(o) == b, "after round", j, "logical operator", o,
                        "has value", run.peek(o), "but", b, "was recorded")
    require(seen == r + 1, "not all rounds were found")
    init, stab, final = qec.split(c, run.record, ops, ancilla)
    require((stab == stab[0]).all(), "rounds differ:", stab.tolist())
    require(init == final, "logical outcomes", init, "become", final)
    if signs is not None:
        require(init == signs, "logical operators had", signs, "but were measured as",
                init)
    return dict(nt=r > 1 or k > 1, labels=[
        case["code"]["kind"], f"ancilla {ancilla}",
        "prepared" if signs is not None else "random"])


@PROP.part("code_state", specs(), 60, shards=2)
def code_state(case):
    """On a code state with known signs every outcome is the known one."""
    c = codes.make(case["code"])
    case = dict(case, ancilla=True)
    made = circuit(c, case)
    if made is None:
        return dict(nt=False, labels=["refused"])
    ops, stabs = qec.chosen(c, case["ops"]), codes.strings(c.stabilisers)
    run = qec.Run(c.n_ext_qubits, case["seed"])
    rng = np.random.default_rng(case["seed"])
    qec.prepare(run, stabs + ops, [0] * (len(stabs) + len(ops)))
    e = "".join("IXYZ"[i] for i in rng.integers(0, 4, c.n_data_qubits))
    run.do([[x, i] for i, x in enumerate(e) if x != "I"])
    run.do(qec.gates(made))
    init, stab, final = qec.split(c, run.record, ops, True)
    want = [q.anticommute(e, s) for s in stabs]
    logical = [q.anticommute(e, o) for o in ops]
    require(all(list(row) == want for row in stab), "stabilisers are", stab.tolist(),
            "instead of", want)
    require(init == final == logical, "logical outcomes", init, final, "instead of",
            logical)
    return dict(labels=[case["code"]["kind"]])


@PROP.part("anticommuting", st.fixed_dictionaries(dict(
    code=codes.code(3), pick=st.lists(st.integers(0, 5), min_size=3, max_size=3),
    ancilla=st.booleans())), 120)
def anticommuting(case):
    """Logical operators that do not commute are not measured together."""
    c = codes.make(case["code"])
    logs = codes.strings(c.logical_ops)
    k = len(logs) // 2
    idx = [i % (2 * k) for i in case["pick"][:k]]
    ops = [logs[i] for i in idx]
    bad = any(q.anticommute(a, b) for a in ops for b in ops)
    unclear = not case["ancilla"] and not qec.qubitwise(ops)
    y = any("Y" in s for s in codes.strings(c.stabilisers) + ops)
    try:
        made = generate_qec_circuit(c, {}, {}, idx, case["ancilla"])
    except (ValueError, NotImplementedError) as e:
        require(bad or unclear or y, "a valid selection is refused:", repr(e))
        return dict(nt=bad, labels=["refused"])
    require(not bad and not unclear, "measuring", ops, "is accepted")
    run = qec.Run(c.n_ext_qubits, 1)
    run.do([["H", *range(c.n_data_qubits)]])
    run.do(qec.gates(made))
    init, stab, final = qec.split(c, run.record, ops, case["ancilla"])
    require(init == final and (stab == stab[0]).all(), "outcomes change in time")
    return dict(nt=k > 1, labels=["accepted"])


@PROP.part("devices", specs(4, 3), 60, shards=2)
def devices(case):
    """The same on plaquette's own backends."""
    import plaquette
    from plaquette.device import Device, MeasurementSample

    c = codes.make(case["code"])
    made = circuit(c, case)
    if made is None:
        return dict(nt=False, labels=["refused"])
    plaquette.rng = np.random.default_rng(case["seed"])
    ops = qec.chosen(c, case["ops"])
    dev = Device(["clifford", "stim"][case["seed"] % 2])
    for _ in range(3):
        dev.run(made)
        raw, erasure = dev.get_sample()
        init, stab, final = qec.split(c, raw, ops, case["ancilla"])
        require((stab == stab[0]).all(), "rounds differ:", stab.tolist())
        require(init == final, "logical outcomes", init, "become", final)
        require(erasure is None or not np.any(erasure), "erasures", erasure)
        if qec.unordered(c, case):
            continue
        try:
            m = MeasurementSample.from_code_and_raw_results(
                c, raw, logical_ancilla=case["ancilla"])
        except ValueError:
            continue
        require(not m.syndrome.any() and not m.logical_op_toggle.any(), "sample", m)
    return dict(labels=[case["code"]["kind"]])
