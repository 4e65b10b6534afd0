"""P08: OpenQASM export against the meaning of the circuit."""
import re

from hypothesis import strategies as st
from plaquette.circuit.openqasm import GateNotSupportedError, convert_to_openqasm

from . import circ
from .harness import Prop, known, require

PROP = Prop(
    "P08",
    "circuits of gates, resets, measurements (multi-target, repeated) and error "
    "instructions, exported from objects and text; non-trivial: at least one "
    "two-qubit gate or two measurements; oracle: Qiskit's parser and an own parser "
    "read the program, which must have the same operations on every qubit in order "
    "or else the same exact distribution of classical bits",
    ["Qiskit's qasm2 parser decides validity of the program text"],
)
UNSUPPORTED = {"DEPOLARIZE", "ERROR", "ERROR_CONTINUE", "ERROR_ELSE", "E_ERASE",
               "E_PAULI", "E_PAULI2"}
NAMES = {"h": "H", "x": "X", "y": "Y", "z": "Z", "cx": "CX", "CX": "CX", "cz": "CZ",
         "reset": "R"}


def parse(text):
    """(qubits, bits, operations) of an OpenQASM 2 program in the exported subset."""
    text = re.sub("//.*", "", text)
    stmts = [re.sub(r"\s+", " ", s).strip() for s in text.split(";")]
    require(stmts[-1] == "", "the program does not end with ';'")
    require(stmts[0] == "OPENQASM 2.0", "the program starts with", stmts[0])
    n = m = None
    qreg = creg = None
    ops = []
    for s in stmts[1:-1]:
        if s.startswith("include"):
            continue
        if r := re.fullmatch(r"(qreg|creg) (\w+) ?\[(\d+)\]", s):
            if r[1] == "qreg":
                require(n is None, "two quantum registers")
                qreg, n = r[2], int(r[3])
            else:
                require(m is None, "two classical registers")
                creg, m = r[2], int(r[3])
        elif r := re.fullmatch(r"measure (\w+)\[(\d+)\] ?-> ?(\w+)\[(\d+)\]", s):
            require((r[1], r[3]) == (qreg, creg), "unknown register in", s)
            ops.append(["M", int(r[2]), int(r[4])])
        elif s.startswith("barrier"):
            continue
        else:
            r = re.fullmatch(r"(\w+) (.*)", s)
            require(r and r[1] in NAMES, "statement", repr(s))
            t = re.findall(r"(\w+)\[(\d+)\]", r[2])
            require(t and all(v[0] == qreg for v in t), "statement", repr(s))
            ops.append([NAMES[r[1]], *[int(v[1]) for v in t]])
    require(n is not None, "no quantum register")
    return n, m or 0, ops


def expand(gates, drop=()):
    """Single operations with the classical bit of each measurement."""
    out, k = [], 0
    for x in gates:
        name, args = x[0], x[1:]
        if name in UNSUPPORTED or name in drop:
            continue
        if name in ("CX", "CZ"):
            out += [[name, a, b] for a, b in zip(args[::2], args[1::2])]
        elif name == "M":
            for t in args:
                out.append(["M", t, k])
                k += 1
        else:
            out += [[name, t] for t in args]
    return out


def trace(ops):
    """Operations per qubit: equal exactly for programs that differ only in the
    order of operations on different qubits."""
    d = {}
    for x in ops:
        y = ["CZ", *sorted(x[1:])] if x[0] == "CZ" else x
        for t in x[1:2] if x[0] == "M" else x[1:]:
            d.setdefault(t, []).append(y)
    return d


def bits(ops, n):
    """Exact distribution of the classical bits."""
    gates, where = [], []
    for x in ops:
        if x[0] == "M":
            gates.append(["M", x[1]])
            where.append(x[2])
        else:
            gates.append(x)
    d = {}
    for (r, _), w in circ.distribution(gates, n).items():
        k = tuple(sorted(dict(zip(where, r)).items()))
        d[k] = d.get(k, 0) + w
    return {k: w for k, w in d.items() if w > 1e-9}


def same(got, want, n):
    if trace(got) == trace(want):
        return True
    if n > 6:
        return False
    a, b = bits(got, n), bits(want, n)
    return set(a) == set(b) and all(abs(a[k] - b[k]) < 1e-6 for k in a)


def check(text, gates, n, qiskit):
    labels = []
    got_n, got_m, ops = parse(text)
    require(got_n == n, "the program has", got_n, "qubits instead of", n)
    m = sum(len(x) - 1 for x in gates if x[0] == "M")
    require(got_m == m, "the program has", got_m, "classical bits instead of", m)
    for x in ops:
        qs = x[1:2] if x[0] == "M" else x[1:]
        require(len(set(qs)) == len(qs) and max(qs) < n, "operation", x)
    dest = [x[2] for x in ops if x[0] == "M"]
    require(sorted(dest) == list(range(m)), "measurements go to bits", dest)
    if qiskit:
        from qiskit import qasm2

        try:
            c = qasm2.loads(text)
        except qasm2.QASM2ParseError as e:
            require(False, "the program is not valid:", e, text)
        require(c.num_qubits == n and c.num_clbits == m, "Qiskit reads", c.num_qubits,
                "qubits and", c.num_clbits, "bits")
    if not same(ops, expand(gates), n):
        dropped = expand(gates, drop=("R",))
        require(any(x[0] == "R" for x in gates) and trace(ops) == trace(dropped),
                "the program has operations", ops, "instead of", expand(gates))
        labels = known("P08-reset", "resets are missing in the exported program")
    return labels


@st.composite
def programs(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 25]))
    g = draw(circ.circuits(n, 14, meas=8 if n < 9 else 40, errors=(), resets=draw(
        st.sampled_from([False, False, True]))))
    return g


@PROP.part("program", st.fixed_dictionaries(dict(
    g=programs(), text=st.booleans(), ignore=st.booleans(),
    qiskit=st.integers(0, 7).map(lambda k: k == 0))), 900, shards=2)
def program(case):
    g = case["g"]
    c = circ.build(g)
    before = list(c.gates)
    out = convert_to_openqasm(str(c) if case["text"] else c,
                              ignore_unsupported=case["ignore"])
    require(c.gates == before, "the circuit was modified")
    labels = check(out, g, circ.n_qubits(g), case["qiskit"])
    names = [x[0] for x in g]
    return dict(nt="CX" in names or "CZ" in names or names.count("M") > 1,
                labels=labels + sorted(set(names)))


@PROP.part("unsupported", st.integers(1, 4).flatmap(
    lambda n: st.fixed_dictionaries(dict(
        g=circ.circuits(n, 10), text=st.booleans()))), 400)
def unsupported(case):
    """Error instructions are refused, or left out on request."""
    g = case["g"]
    c = circ.build(g)
    arg = str(c) if case["text"] else c
    bad = [x[0] for x in g if x[0] in UNSUPPORTED]
    try:
        convert_to_openqasm(arg)
    except GateNotSupportedError as e:
        require(bad, "a supported circuit is refused:", e)
        require(e.gate in bad, "the error names", e.gate)
    else:
        require(not bad, bad, "are exported")
    out = convert_to_openqasm(arg, ignore_unsupported=True)
    labels = check(out, g, circ.n_qubits(g), False)
    return dict(nt=bool(bad), labels=labels)
