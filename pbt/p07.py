"""P07: circuits, their text form and the validation of instructions."""
from hypothesis import strategies as st
from plaquette.circuit import Circuit, CircuitBuilder
from plaquette.circuit.generator import generate_qec_circuit

from . import circ, codes
from .harness import Prop, require

PROP = Prop(
    "P07",
    "circuits over all instructions built by append, text (with comments, blank "
    "lines and white space), builder and concatenation; instruction lines made by "
    "editing valid ones and from random tokens; non-trivial: three different "
    "instructions, or a refused line; oracle: the generated instruction list and a "
    "reference parser of the documented grammar",
)
ERRORS = {"E_ERASE", "E_PAULI", "E_PAULI2", "ERROR", "ERROR_ELSE", "ERROR_CONTINUE"}
PLAIN = {"X", "Y", "Z", "H", "CX", "CZ", "M", "R", "DEPOLARIZE"}


@st.composite
def anything(draw):
    """Any valid instruction list, targets up to 10000."""
    n = draw(st.sampled_from([2, 5, 30, 10000]))
    g = draw(circ.circuits(n, 12, meas=50))
    for i, x in enumerate(g):
        if x[0] == "ERROR" and draw(st.booleans()):
            g[i] = ["ERROR", draw(st.floats(0, 1)), *x[2:]]
        if x[0] == "E_PAULI" and draw(st.booleans()):
            g[i] = ["E_PAULI", *[draw(st.floats(0, 0.25)) for _ in range(3)], x[4]]
    return g


def plain_gates(c):
    return [[name, *args] for name, args in c.gates]


def check_circuit(c, g, what):
    got = plain_gates(c)
    require(got == g, what, "gives", got, "instead of", g)
    for x in got:
        for a, b in zip(x, [y for y in g if y == x][0]):
            require(type(a) is type(b), what, "changes the type of", b, "to", type(a))
    n = circ.n_qubits(g)
    require(c.number_of_qubits == n and c.n_q == n, what, "has number of qubits",
            c.number_of_qubits, "instead of", n)
    m = sum(len(x) - 1 for x in g if x[0] == "M")
    require(c.number_measured_qubits == m, what, "has number of measured qubits",
            c.number_measured_qubits, "instead of", m)


def lines(g):
    return [" ".join(map(str, x)) for x in g]


def via_builder(b, x):
    name, args = x[0], x[1:]
    f = {"DEPOLARIZE": b.depolarize, "E_ERASE": b.e_erase, "E_PAULI": b.e_pauli,
         "E_PAULI2": b.e_pauli2, "ERROR": b.error, "ERROR_CONTINUE": b.error_continue,
         "ERROR_ELSE": b.error_else}.get(name) or getattr(b, name)
    f(*args)


@PROP.part("forms", st.fixed_dictionaries(dict(
    g=anything(), split=st.integers(0, 12), noise=st.lists(st.sampled_from(
        ["", "  ", "# X 0", "\t", "#", " # M 1 # H 0"]), max_size=6),
    tail=st.sampled_from(["", " # comment", "#c", "  ", "\t", " # a # b", "\r"]),
    sep=st.sampled_from([" ", "  ", "\t", " \t "]))), 700)
def forms(case):
    g, k = case["g"], case["split"]
    by_append = circ.build(g)
    check_circuit(by_append, g, "append")
    text = str(by_append)
    require(text.split("\n") == lines(g), "the text form is", repr(text))
    check_circuit(Circuit.from_str(text), g, "the text form read back")
    require(str(Circuit.from_str(text)) == text, "text changes when it is read")
    out = []
    for i, line in enumerate(lines(g)):
        out += case["noise"][i : i + 1]
        out.append(case["sep"] + line.replace(" ", case["sep"]) + case["tail"])
    noisy = "\n".join(out + case["noise"])
    check_circuit(Circuit.from_str(noisy), g, f"text {noisy!r}")
    c = Circuit.from_str("\n".join(lines(g[:k])))
    check_circuit(c, g[:k], "the first piece of the text")
    c.append_from_str("\n".join(lines(g[k:])))
    check_circuit(c, g, "text in two pieces")
    c = Circuit()
    b = CircuitBuilder(c)
    for x in g:
        via_builder(b, x)
        if len(c.gates) == k:
            check_circuit(c, g[:k], "the builder so far")
    check_circuit(c, g, "the builder")
    check_circuit(b.circ, g, "the builder's circuit")
    c = Circuit.from_str("\n".join(lines(g[:k])))
    for x in g[k:]:  # arguments as text
        c.append(x[0], *map(str, x[1:]))
    check_circuit(c, g, "append with text arguments")
    return dict(nt=len({x[0] for x in g}) > 2, labels=sorted({x[0] for x in g}))


def parse(tokens):
    """Reference parser of one line; None if it is invalid."""
    name, args = tokens[0], tokens[1:]
    try:
        if name in ("ERROR", "ERROR_ELSE"):
            p = float(args[0])
            if not 0 <= p <= 1 or args[1] not in ERRORS | PLAIN:
                return None
            return [name, p, args[1], *map(int, args[2:])]
        if name == "ERROR_CONTINUE":
            if args[0] not in ERRORS | PLAIN:
                return None
            return [name, args[0], *map(int, args[1:])]
        k = dict(E_ERASE=(1, 1), E_PAULI=(3, 1), E_PAULI2=(15, 2)).get(name)
        if k:
            if len(args) != sum(k):
                return None
            return [name, *map(float, args[: k[0]]), *map(int, args[k[0] :])]
        if name in PLAIN:
            return [name, *map(int, args)]
    except (ValueError, IndexError, OverflowError):
        pass
    return None


RATES = st.sampled_from(["nan", "-nan", "inf", "-inf", "1.5", "-0.1", "1.0000001",
                         "-1e-9", "0.0", "1", "-0.0", "0.25"])


@st.composite
def bad_line(draw):
    if not draw(st.integers(0, 7)):  # all right except perhaps for the rate
        g = draw(st.sampled_from(sorted(PLAIN)))
        return [draw(st.sampled_from(["ERROR", "ERROR_ELSE"])), draw(RATES), g,
                *["0", "1", "2", "3"][: 2 if g in ("CX", "CZ") else 1]]
    toks = draw(st.one_of(
        anything().map(lambda g: lines(g)[-1].split()),
        st.lists(st.sampled_from(sorted(ERRORS | PLAIN) + [
            "0", "1", "0.5", "1.5", "-0.1", "nan", "inf", "S", "x", "1e-3", "0x1", "q1",
            "X0", "1.0", "2", "7"]), min_size=1, max_size=6)))
    for _ in range(draw(st.integers(0, 2))):
        i = draw(st.integers(0, len(toks) - 1))
        how = draw(st.sampled_from(["drop", "add", "replace", "swap", "name", "rate"]))
        tok = draw(st.sampled_from(["0", "3", "0.5", "1.5", "-0.1", "nan", "X", "M",
                                    "a", "1.0", "cx", "ERROR", "1e-2", "E_PAULI", "-"]))
        if how == "drop" and len(toks) > 1:
            del toks[i]
        elif how == "add":
            toks.insert(i + 1, tok)
        elif how == "replace":
            toks[i] = tok
        elif how == "rate" and len(toks) > 1:
            toks[0] = draw(st.sampled_from([toks[0], "ERROR", "ERROR_ELSE"]))
            toks[1] = draw(RATES)
        elif how == "name":
            toks[0] = draw(st.sampled_from(
                sorted(ERRORS | PLAIN) + ["S", "CY", "x", "error", "E_PAULI1", "T"]))
        else:
            j = draw(st.integers(0, len(toks) - 1))
            toks[i], toks[j] = toks[j], toks[i]
    return toks


@PROP.part("lines", st.fixed_dictionaries(dict(
    pre=st.one_of(st.just([]), anything()), t=bad_line(), text=st.booleans())), 2500,
    shards=2)
def line(case):
    """A line is accepted exactly when the grammar allows it."""
    t, pre = case["t"], case["pre"]
    want = parse(t)
    if want and any(a != a for a in want):
        return False  # "not a number" as rate of an error channel
    c = circ.build(pre)
    try:
        if case["text"]:
            c.append_from_str(" ".join(t))
        else:
            c.append(*t)
    except Exception as e:
        require(want is None, t, "is refused:", repr(e))
        require(plain_gates(c) == pre, "the circuit changed")
        return dict(nt=True, labels=["refused", f"refused {t[0]}"])
    require(want is not None, t, "is accepted as", plain_gates(c)[-1:])
    check_circuit(c, pre + [want], f"line {t}")
    return dict(nt=False, labels=["accepted"])


@PROP.part("names", st.fixed_dictionaries(dict(t=st.one_of(
    st.text(min_size=1, max_size=8), st.sampled_from(sorted(ERRORS | PLAIN))))), 300)
def names(case):
    """Known instructions are the documented ones, inside and outside of ERROR."""
    t, c = case["t"], Circuit()
    require(set(c.error_gates) == ERRORS, "error gates:", c.error_gates)
    require(set(c.deterministic_gates) == PLAIN, "gates:", c.deterministic_gates)
    require(set(c.allowed_gates) == ERRORS | PLAIN, "gates:", c.allowed_gates)
    for call in (lambda: c.append("ERROR", 0.5, t, 0),
                 lambda: c.append("ERROR_ELSE", 0.5, t, 0),
                 lambda: c.append("ERROR_CONTINUE", t, 0)) + (
                     () if t in ERRORS else (lambda: c.append(t, 0),)):
        n = len(c.gates)
        try:
            call()
        except Exception:
            require(t not in ERRORS | PLAIN, t, "is refused")
            require(len(c.gates) == n, "the circuit changed")
        else:
            require(t in ERRORS | PLAIN, t, "is accepted")
    return t not in ERRORS | PLAIN


@PROP.part("generated", st.fixed_dictionaries(dict(
    code=codes.builtin(4), seed=st.integers(0, 3),
    p=st.floats(0, 0.3), anc=st.booleans())), 60)
def generated(case):
    """Circuits of the circuit generator survive their text form."""
    code = codes.make(case["code"])
    p = case["p"]
    data = {i: dict(x=p, y=p / 3, z=p / 7) for i in range(code.n_data_qubits)}
    c = generate_qec_circuit(
        code, dict(pauli=data, erasure={i: dict(p=p / 5)
                                        for i in range(code.n_data_qubits)}),
        {}, "X" * code.n_logical_qubits, logical_ancilla=case["anc"])
    d = Circuit.from_str(str(c))
    require(d.gates == c.gates, "the circuit changes when it is read back")
    require((d.number_of_qubits, d.number_measured_qubits) == (
        c.number_of_qubits, c.number_measured_qubits), "counts change")
    return True
