"""Simulation of generated memory circuits with Stim's tableau simulator."""
import numpy as np
import stim
from hypothesis import strategies as st

from . import circ, codes

NAMES = {"R": "R", "H": "H", "X": "X", "Y": "Y", "Z": "Z", "CX": "CX", "CZ": "CZ",
         "M": "M"}


def gates(circuit):
    """Instructions of a circuit as lists [name, *args]."""
    return [[name, *args] for name, args in circuit.gates]


def bases(c):
    """Random choice of one logical operator per logical qubit, as text."""
    k = dict(toric=2, custom=len(c.get("logs", ())) // 2).get(c["kind"], 1)
    return st.text("XZ", min_size=k, max_size=k)


def indices(ops):
    """Indices of selected logical operators (text like ``XZ``, or indices)."""
    return [o if isinstance(o, int) else 2 * i + "XZ".index(o)
            for i, o in enumerate(ops)]


def reordered(draw, ops):
    """The same selection as indices in any order."""
    return list(draw(st.permutations(indices(ops))))


def unordered(c, case):
    """The record of this selection cannot be told from one with the logical qubits
    in their usual order: operators of different weight in another order."""
    size = {len(o) - o.count("I") for o in chosen(c, case["ops"])}
    idx = indices(case["ops"])
    return not case["ancilla"] and len(size) > 1 and sorted(idx) != idx


def has_y(c):
    return any("Y" in s for s in codes.strings([*c.stabilisers, *c.logical_ops]))


def chosen(c, ops):
    """The measured logical operators as strings."""
    logs = codes.strings(c.logical_ops)
    return [logs[i] for i in indices(ops)]


def qubitwise(ops):
    """No qubit carries different factors in two of the operators."""
    return all(len({o[i] for o in ops} - {"I"}) < 2 for i in range(len(ops[0])))


class Run:
    """Runs gates on data qubits prepared by ``prefix``; keeps the record."""

    def __init__(self, n, seed, prefix=()):
        self.sim = stim.TableauSimulator(seed=seed)
        self.n = n
        self.sim.set_num_qubits(n)
        self.record = []
        self.do(prefix)

    def do(self, instructions):
        for g in instructions:
            self.gate(g[0], g[1:])

    def gate(self, name, args):
        if name == "M":
            for t in args:
                self.record.append(int(self.sim.measure(t)))
        elif name == "H":
            self.sim.h(*args)
        elif name == "R":
            self.sim.reset(*args)
        elif name == "CX":
            self.sim.cx(*args)
        elif name == "CZ":
            self.sim.cz(*args)
        elif name in "XYZ":
            getattr(self.sim, name.lower())(*args)
        elif name == "S":
            self.sim.s(*args)
        else:
            raise AssertionError(name)

    def peek(self, chars):
        """0/1 if the operator has a certain value, else None."""
        p = stim.PauliString(chars + "I" * (self.n - len(chars)))
        return {1: 0, -1: 1, 0: None}[self.sim.peek_observable_expectation(p)]


def prepare(run, ops, bits):
    """Put the first qubits into a common eigenstate of the operators."""
    paulis = [stim.PauliString(("-" if b else "+") + o) for o, b in zip(ops, bits)]
    t = stim.Tableau.from_stabilizers(paulis, allow_underconstrained=True,
                                      allow_redundant=True)
    run.sim.do_tableau(t, list(range(len(t))))


@st.composite
def prefixes(draw, n, steps=12):
    out = []
    for _ in range(draw(st.integers(0, steps))):
        g = draw(st.sampled_from(["H", "H", "S", "CX", "CZ"] if n > 1 else ["H", "S"]))
        out.append([g, *draw(circ.targets(n, 2 if g in ("CX", "CZ") else 1))])
    return out


def split(c, record, ops, ancilla):
    """(initial logical outcomes, stabilisers[round][index], final outcomes)"""
    weights = [1 if ancilla else len(o) - o.count("I") for o in ops]
    total = sum(weights)
    record = np.array(record, dtype=int)
    n = (c.n_rounds + 1) * c.n_stabgens
    assert len(record) == 2 * total + n

    def parities(bits):
        return [int(x.sum() % 2) for x in np.split(bits, np.cumsum(weights)[:-1])]

    return (parities(record[:total]),
            record[total : total + n].reshape(c.n_rounds + 1, c.n_stabgens),
            parities(record[total + n :]))
