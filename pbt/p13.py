"""P13: configured errors in generated circuits."""
import copy

from hypothesis import strategies as st
from plaquette.circuit.generator import QECCircuitGenerator, generate_qec_circuit

from . import circ, codes, qec
from .harness import Prop, require

PROP = Prop(
    "P13",
    "error dictionaries with random entries (any kinds, any subset of qubits and gates, "
    "zero and missing Pauli components) on built-in and random codes, 1-10 rounds, both "
    "ancilla modes; non-trivial: at least two error kinds and two rounds; oracle: the "
    "error-free circuit with the errors inserted by an own model, compared qubit by "
    "qubit up to the order of commuting errors",
    ["the error-free circuit is checked by P12"],
)
PAIRS = [a + b for a in "ixyz" for b in "ixyz"][1:]
KINDS = ["pauli", "erasure", "measurement", "CX", "CZ", "H", "M", "R"]


@st.composite
def channel(draw, names):
    some = draw(st.lists(st.sampled_from(names), unique=True, min_size=1,
                         max_size=draw(st.sampled_from([1, 2, 4, 15]))))
    ps = draw(circ.simplex(len(some)))
    return dict(zip(some, ps))


@st.composite
def specs(draw, size=4, rounds=(4, 10)):
    code = draw(codes.code(size, rounds=rounds, max_n=6, css=True))
    kinds = draw(st.lists(st.sampled_from(KINDS), unique=True,
                          min_size=draw(st.sampled_from([0, 1, 2, 4])), max_size=8))
    pool = {}
    for k in kinds:  # a few different entries, assigned to locations by number
        if k in ("erasure", "measurement"):
            e = [dict(p=p) for p in draw(st.lists(circ.probs(), min_size=1, max_size=3))]
        else:
            e = draw(st.lists(channel(PAIRS if k in ("CX", "CZ") else list("xyz")),
                              min_size=1, max_size=3))
        pool[k] = dict(entries=e, mod=draw(st.integers(1, 5)), off=draw(
            st.integers(0, 4)), rev=draw(st.booleans()))
    ops = draw(qec.bases(code))
    if draw(st.booleans()):
        ops = qec.reordered(draw, ops)
    return dict(code=code, pool=pool, ops=ops, ancilla=draw(st.booleans()))


def dictionaries(c, pool):
    n, ns = c.n_data_qubits, c.n_stabgens
    places = {k: list(range(n)) for k in ("pauli", "erasure")}
    places |= {k: list(range(n, n + ns)) for k in ("measurement", "H", "M", "R")}
    stabs = codes.strings(c.stabilisers)
    for k, o in (("CX", "X"), ("CZ", "Z")):
        places[k] = [(n + j, i) for j, s in enumerate(stabs)
                     for i, x in enumerate(s) if x == o]
    qubit, gate = {}, {}
    for k, d in pool.items():
        where = places[k][d["off"] :: d["mod"]]
        if d["rev"]:
            where.reverse()
        e = {w: dict(d["entries"][i % len(d["entries"])]) for i, w in enumerate(where)}
        (gate if k in ("CX", "CZ", "H", "M", "R") else qubit)[k] = e
    return qubit, gate


def expand(gates):
    """Instructions with single targets."""
    out = []
    for name, *args in gates:
        if name in ("H", "R", "M", "X", "Y", "Z"):
            out += [[name, t] for t in args]
        elif name in ("CX", "CZ"):
            out += [[name, a, b] for a, b in zip(args[::2], args[1::2])]
        else:
            out.append([name, *args])
    return out


def expected(c, clean, qubit, gate):
    """The circuit with errors, made from the error-free one."""
    n, ns, r = c.n_data_qubits, c.n_stabgens, c.n_rounds
    out, done, begun = [], 0, -1
    for g in clean:
        rnd = done // ns
        ours = any(n <= t < n + ns for t in g[1:])
        if ours and begun < rnd:
            begun = rnd
            if rnd >= 1:
                for i in range(n):
                    if p := qubit.get("pauli", {}).get(i):
                        out.append(["E_PAULI", *(p.get(x, 0.0) for x in "xyz"), i])
                    if p := qubit.get("erasure", {}).get(i):
                        out.append(["E_ERASE", p["p"], i])
        noisy = ours and 1 <= rnd < r
        if noisy and g[0] == "M" and (p := qubit.get("measurement", {}).get(g[1])):
            out.append(["ERROR", p["p"], "X", g[1]])
        out.append(g)
        if ours and g[0] == "M":
            done += 1
        if noisy:
            if g[0] in ("CX", "CZ"):
                if p := gate.get(g[0], {}).get((g[1], g[2])):
                    out.append(["E_PAULI2", *(p.get(x, 0.0) for x in PAIRS), *g[1:]])
            elif p := gate.get(g[0], {}).get(g[1]):
                out.append(["E_PAULI", *(p.get(x, 0.0) for x in "xyz"), g[1]])
    return out


def token(g):
    """(is an error, hashable form without null effects, qubits)"""
    if g[0] == "E_PAULI":
        return True, ("1", *(round(x, 12) for x in g[1:4])), g[4:]
    if g[0] == "E_PAULI2":
        return True, ("2", *(round(x, 12) for x in g[1:16]), *g[16:]), g[16:]
    if g[0] == "E_ERASE":
        return True, ("e", round(g[1], 12)), g[2:]
    if g[0].startswith("ERROR"):
        name, p, *inner = g
        if name == "ERROR" and inner[0] in ("X", "Y", "Z"):
            x = [0.0, 0.0, 0.0]
            x["XYZ".index(inner[0])] = round(p, 12)
            return True, ("1", *x), inner[1:]
        return True, tuple(g), inner[1:]
    return False, tuple(g), g[1:]


def timelines(gates):
    """Per qubit: list of gates with the sorted errors between them."""
    d = {}
    for g in gates:
        err, tok, qs = token(g)
        if err and tok[0] in ("1", "2") and not any(tok[1:4] + tok[4:16]):
            continue  # errors that never happen
        for t in qs:
            line = d.setdefault(t, [[]])
            if err:
                line[-1] = sorted(line[-1] + [tok], key=repr)
            else:
                line += [tok, []]
    return d


def records(gates):
    return [g[0][-1:] + str(g[-1]) for g in gates if g[0] in ("M", "E_ERASE")]


@PROP.part("errors", specs(), 250, shards=4, thorough=15)
def errors(case):
    c = codes.make(case["code"])
    ops, anc = case["ops"], case["ancilla"]
    if not anc and not qec.qubitwise(qec.chosen(c, ops)):
        return False
    qubit, gate = dictionaries(c, case["pool"])
    saved = copy.deepcopy((qubit, gate))
    clean = expand(qec.gates(generate_qec_circuit(c, {}, {}, ops, anc)))
    made = generate_qec_circuit(c, qubit, gate, ops, anc)
    require((qubit, gate) == saved, "the dictionaries were modified")
    got = expand(qec.gates(made))
    require([g for g in got if not token(g)[0]] == clean,
            "without its errors the circuit is not the error-free one")
    want = expected(c, clean, qubit, gate)
    a, b = timelines(got), timelines(want)
    for t in sorted({*a, *b}):
        x, y = a.get(t, [[]]), b.get(t, [[]])
        if x != y:
            i = next((i for i, (u, v) in enumerate(zip(x, y)) if u != v), None)
            require(False, "qubit", t, "after",
                    [u for u in y[: i or 0] if isinstance(u, tuple)][-3:], "has",
                    x[i] if i is not None else x, "instead of",
                    y[i] if i is not None else y)
    require(records(got) == records(want), "order of measurements and erasures:",
            records(got))
    again = QECCircuitGenerator(c, qubit, gate, anc).get_circuit(ops)
    require(str(again) == str(made), "the same errors give another circuit")
    k = sum(bool(v) for v in (qubit | gate).values())
    return dict(nt=k > 1 and c.n_rounds > 1,
                labels=[case["code"]["kind"], f"kinds {k}", *case["pool"]])


@PROP.part("big", codes.enlarged(specs()), 10, shards=1, thorough=10)
def big(case):
    """Hundreds of qubits or rounds."""
    return errors(case)


@PROP.part("reused", st.tuples(specs(3, (2, 4)), st.lists(st.text(
    "XZ", min_size=1, max_size=2), min_size=1, max_size=4)).map(list), 100)
def reused(case):
    """One generator makes a circuit for each selection, independent of earlier ones."""
    case, selections = case
    c = codes.make(case["code"])
    qubit, gate = dictionaries(c, case["pool"])
    gen = QECCircuitGenerator(c, qubit, gate, case["ancilla"])
    made, n = [], 0
    for ops in [case["ops"], *selections, case["ops"]]:
        try:
            want = str(generate_qec_circuit(c, qubit, gate, ops, case["ancilla"]))
        except ValueError:
            try:
                gen.get_circuit(ops)
            except ValueError:
                continue
            require(False, "the selection", ops, "is accepted later")
        made.append((ops, gen.get_circuit(ops), want))
        n += 1
        for o, got, want in made:
            require(str(got) == want, "circuit", n, "of a generator: the one of", o,
                    "is another one")
    return dict(nt=n > 1, labels=[f"circuits {n}"])


@PROP.part("unknown", st.fixed_dictionaries(dict(
    code=codes.builtin(3), key=st.sampled_from(
        ["Pauli", "X", "cx", "fabrication", "CY", "S", ""]), gate=st.booleans())), 60)
def unknown(case):
    """Errors that do not exist are refused."""
    c = codes.make(case["code"])
    d = {case["key"]: {0: dict(p=0.1)}}
    try:
        generate_qec_circuit(c, {} if case["gate"] else d, d if case["gate"] else {},
                             "X" * c.n_logical_qubits)
    except (KeyError, ValueError):
        return True
    require(False, "errors", d, "are accepted")


@PROP.part("placement", st.fixed_dictionaries(dict(
    code=codes.builtin(3, rounds=3), kind=st.sampled_from(KINDS),
    a=st.integers(0, 999), bad=st.sampled_from(["range", "type", "value", "key"]))), 200)
def placement(case):
    """Errors on qubits of the wrong kind or with wrong values are refused."""
    c = codes.make(case["code"])
    n, ns, k = c.n_data_qubits, c.n_stabgens, case["kind"]
    two, data = k in ("CX", "CZ"), k in ("pauli", "erasure")
    good = n + case["a"] % ns
    if data:
        good = case["a"] % n
    par = {dict(CX="xz", CZ="xz", erasure="p", measurement="p").get(k, "x"): 0.25}
    if case["bad"] == "range":
        good = n + ns + 2 * c.n_logical_qubits + case["a"] % 5
        good = -1 - case["a"] % 9 if case["a"] % 2 else good
    elif case["bad"] == "type":
        good = n + case["a"] % (ns + 2) if data else case["a"] % n
    elif case["bad"] == "value":
        par = {x: -0.25 if case["a"] % 2 else 1.25 for x in par}
    else:
        par["w"] = 0.25
    key = (good, case["a"] % n) if two else good
    d = {k: {key: par}}
    gate = k in ("CX", "CZ", "H", "M", "R")
    try:
        generate_qec_circuit(c, {} if gate else d, d if gate else {},
                             "X" * c.n_logical_qubits)
    except (KeyError, ValueError):
        return True
    require(False, "errors", d, "are accepted")
