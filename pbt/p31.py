"""P31: calls leave alone what they are given and what earlier calls returned."""
import copy

import numpy as np
import pandas as pd
import plaquette
from hypothesis import strategies as st
from plaquette import decoders, pauli, syngraph
from plaquette.circuit import Circuit
from plaquette.circuit.generator import QECCircuitGenerator, generate_qec_circuit
from plaquette.circuit.openqasm import convert_to_openqasm
from plaquette.codes import LatticeCode, StabilizerCode
from plaquette.codes.latticebase import CodeLattice
from plaquette.decoders.decoderbase import check_success
from plaquette.device import Device, MeasurementSample, QuantumState
from plaquette.errors import ErrorData
from plaquette.frontend import ExperimentConfig
from plaquette.syngraph.weights import WeightComputation

from . import codes, configs, q, qec, tables
from .harness import Prop, Violation, require
from .p13 import channel, dictionaries

PROP = Prop(
    "P31",
    "random sessions: operators and states, codes, error dictionaries and tables, "
    "circuits, devices, decoders, graphs and configurations, each call with objects from "
    "earlier calls; everything passed in or returned is compared with its copy after "
    "every call; non-trivial: at least five calls succeed; oracle: deep copies",
    ["objects are compared by contents (arrays, dictionaries, tables, instructions, "
     "operators, vertices and edges), not by internal caches"],
)


def digest(x):
    """The contents of an object as a comparable value."""
    if isinstance(x, np.ndarray):
        return ("array", x.dtype.str, x.shape, x.tolist())
    if isinstance(x, dict):
        return ("dict", [(k, digest(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [digest(v) for v in x])
    if isinstance(x, pd.DataFrame):
        return ("table", list(x.columns), [repr(i) for i in x.index],
                [[repr(v) for v in x[k]] for k in x.columns])
    if isinstance(x, Circuit):
        return ("circuit", str(x), digest(x.gates), x.number_of_qubits)
    if isinstance(x, StabilizerCode):
        return ("code", digest(np.array(x.stabilisers)), digest(np.array(x.logical_ops)),
                getattr(x, "n_rounds", 0), digest(getattr(x, "lattice", None)))
    if isinstance(x, CodeLattice):
        return ("lattice", [vertex(v) for v in (*x.dataqubits, *x.stabgens, *x.logical_ops)],
                [len(x.equbits)])
    if isinstance(x, MeasurementSample):
        return ("sample", digest(vars(x)))
    if isinstance(x, QuantumState):
        return ("state", digest(x.tableau))
    return ("value", repr(x))


def vertex(v):
    return (type(v).__name__, repr(v.pos), v.equbit_idx, sorted(
        (e.data.equbit_idx, e.op.equbit_idx, int(e.factor), repr(getattr(e, "order", 0)))
        for e in v.edges))


class Keeper:
    """Remembers objects and their contents."""

    def __init__(self):
        self.kept = []

    def keep(self, *objects):
        for x in objects:
            if x is not None and not any(x is y for y, _, _ in self.kept):
                self.kept.append((x, digest(x), len(self.kept)))

    def drop(self, x):
        """The object is one that a call is documented to change."""
        self.kept = [k for k in self.kept if k[0] is not x]

    def check(self, what):
        for x, d, i in self.kept:
            now = digest(x)
            require(now == d, what, "changes", d, "to", now)


def attempt(f):
    """(result, error); plaquette refuses some of the generated arguments."""
    try:
        return f(), None
    except Violation:
        raise
    except Exception as e:
        return None, e


# Operators and states
ints = st.integers(0, 2**20)
READ = ["commutator_sign", "multiply", "tensor_product", "pad_operator", "count", "dict",
        "text", "state_text", "from_dict", "unpack"]
# The state is documented to be changed, operators and lists of qubits are not
CHANGE = ["apply_operator", "x", "y", "z", "hadamard", "phase_gate", "cx", "cz", "insert",
          "append", "scratch", "measure", "measure_x", "measure_z", "reset", "self"]
PAULI = READ + CHANGE


@st.composite
def sessions(draw):
    n = draw(st.integers(1, 4))
    gates = draw(st.lists(st.tuples(st.sampled_from("HSC"), ints).map(list), max_size=8))
    ops = draw(st.lists(st.text("IXYZ", min_size=n, max_size=n), min_size=1, max_size=3))
    calls = draw(st.lists(st.tuples(st.sampled_from(PAULI), ints, ints, ints).map(list),
                          min_size=2, max_size=12))
    return dict(n=n, gates=gates, ops=ops, calls=calls)


@PROP.part("pauli", sessions(), 700, shards=2)
def operators(case):
    n = case["n"]
    plaquette.rng = np.random.default_rng(len(case["calls"]))
    state = pauli.zero_state(n)
    for g, k in case["gates"]:
        a, b = k % n, (k // n % max(n - 1, 1) + k % n + 1) % n
        state = (pauli.hadamard(state, a) if g == "H" else pauli.phase_gate(state, a)
                 if g == "S" or n == 1 else pauli.cx(state, a, b))
    keep = Keeper()
    states, ops = [state], [q.row(s, i % 2) for i, s in enumerate(case["ops"])]
    ops.append(np.array([q.row(s) for s in case["ops"]]))
    keep.keep(*states, *ops)
    done, labels = 0, set()
    for name, a, b, k in case["calls"]:
        s, o, p = states[a % len(states)], ops[a % len(ops)], ops[b % len(ops)]
        m = s.shape[0] // 2
        t = [k % m] if k & 1 or m == 1 else [k % m, (k + 1 + k // m % (m - 1)) % m]
        if k & 2:
            t = np.array(t)
        f = FUNCTIONS[name]
        keep.keep(t)
        s = s.copy() if name in CHANGE else s
        res, err = attempt(lambda: f(s, o, p, t, k))
        keep.check(name)
        labels.add(name + (" fails" if err else ""))
        done += err is None
        for r in res if isinstance(res, tuple) else [res]:
            if isinstance(r, np.ndarray) and r.dtype != object and r.ndim:
                keep.keep(r)
                if r.ndim == 2 and r.shape[1] == r.shape[0] + 1 and len(r) % 2 == 0 and (
                        2 <= len(r) <= 12):
                    states.append(r)
                elif r.shape[-1] % 2 and r.ndim == 1 and len(r) < 20:
                    ops.append(r)
            elif isinstance(r, (list, dict)):
                keep.keep(r)
    return dict(nt=done >= 5, labels=sorted(labels))


def pairs(t):
    return list(t)[:1], list(t)[1:] or [0]


def rebuild(s, k):
    """The methods of :class:`QuantumState` replace the tableau."""
    x = QuantumState(s.shape[0] // 2)
    x.tableau = s
    x.hadamard(k % x.n_q)
    x.x([k % x.n_q])
    x.z(k // 3 % x.n_q)
    x.reset_qubits_to_eigenstate("XZ"[k % 2], [k % x.n_q])
    return x.tableau


FUNCTIONS = dict(
    commutator_sign=lambda s, o, p, t, k: pauli.commutator_sign(o, p),
    multiply=lambda s, o, p, t, k: pauli.multiply(o, p),
    tensor_product=lambda s, o, p, t, k: pauli.tensor_product(o, p),
    pad_operator=lambda s, o, p, t, k: pauli.pad_operator(o, 4 + k % 3),
    apply_operator=lambda s, o, p, t, k: pauli.apply_operator(o, s),
    x=lambda s, o, p, t, k: pauli.x(s, t), y=lambda s, o, p, t, k: pauli.y(s, t),
    z=lambda s, o, p, t, k: pauli.z(s, t),
    hadamard=lambda s, o, p, t, k: pauli.hadamard(s, t),
    phase_gate=lambda s, o, p, t, k: pauli.phase_gate(s, t),
    cx=lambda s, o, p, t, k: pauli.cx(s, *pairs(t)),
    cz=lambda s, o, p, t, k: pauli.cz(s, *pairs(t)),
    insert=lambda s, o, p, t, k: pauli.insert_qubit_at(s, t),
    append=lambda s, o, p, t, k: pauli.append_qubit(s),
    scratch=lambda s, o, p, t, k: pauli.append_scratch(s),
    measure=lambda s, o, p, t, k: pauli.measure(s, o),
    measure_x=lambda s, o, p, t, k: pauli.measure_x_base(
        s, t, destructive=bool(k & 4), forced_outcomes=t if k & 8 else None),
    measure_z=lambda s, o, p, t, k: pauli.measure_z_base(
        s, t, destructive=bool(k & 4), forced_outcomes=t if k & 8 else None),
    reset=lambda s, o, p, t, k: pauli.reset_qubits_to_eigenstate(s, "XZ"[k // 4 % 2], t),
    count=lambda s, o, p, t, k: pauli.count_qubits(o, include_identities=bool(k & 4)),
    dict=lambda s, o, p, t, k: pauli.pauli_to_dict(o),
    text=lambda s, o, p, t, k: pauli.pauli_to_string(o, bool(k & 4)),
    state_text=lambda s, o, p, t, k: pauli.state_to_stabiliser_string(s, bool(k & 4)),
    from_dict=lambda s, o, p, t, k: pauli.dict_to_pauli(pauli.pauli_to_dict(o), 5),
    unpack=lambda s, o, p, t, k: pauli.unpack_tableau(s) and None,
    self=lambda s, o, p, t, k: rebuild(s, k),
)


# Codes, errors, circuits, devices and decoders
KINDS = ["pauli", "erasure", "measurement", "CX", "CZ", "H", "M", "R"]
CALLS = ["circuit", "circuit", "generator", "run", "run", "run", "run", "unpack", "decoder",
         "decoder", "decode", "decode", "decode", "success", "random", "check", "qasm",
         "copy", "graph", "weights", "lattice", "edit", "scribble", "scribble"]


@st.composite
def experiments(draw):
    code = draw(codes.matchable(3, rounds=3))
    kinds = draw(st.lists(st.sampled_from(KINDS), unique=True, max_size=5))
    rate = st.sampled_from([0.0, 0.01, 0.1, 0.3])
    pool = {}
    for k in kinds:
        if k in ("erasure", "measurement"):
            e = [dict(p=p) for p in draw(st.lists(rate, min_size=1, max_size=3))]
        elif k == "pauli":
            e = [dict(zip(draw(st.permutations("xyz")), ps)) for ps in draw(st.lists(
                st.lists(st.sampled_from([0.0, 0.01, 0.1]), min_size=1, max_size=3),
                min_size=1, max_size=3))]
        else:
            e = draw(st.lists(channel([x + y for x in "ixyz" for y in "ixyz"][1:]
                                      if k in ("CX", "CZ") else list("xyz")),
                              min_size=1, max_size=3))
        pool[k] = dict(entries=e, mod=draw(st.integers(1, 5)), off=draw(
            st.integers(0, 4)), rev=draw(st.booleans()))
        if k == "erasure":  # a record has one flag for each qubit
            pool[k].update(mod=1, off=0)
    calls = draw(st.lists(st.tuples(st.sampled_from(CALLS), ints, ints).map(list),
                          min_size=3, max_size=16))
    ready = [["circuit", 0, 0], ["run", 0, draw(ints)], ["unpack", 0, 0], ["random", 1, 0],
             ["decoder", draw(ints), draw(ints)]]
    calls = ready[:draw(st.sampled_from([2, 4, 5, 5, 5]))] + calls
    return dict(code=code, pool=pool, calls=calls, ops=draw(qec.bases(code)),
                seed=draw(ints))


class Session:
    def __init__(self, case):
        plaquette.rng = np.random.default_rng(case["seed"])
        self.case, self.c = case, codes.make(case["code"])
        self.qubit, self.gate = dictionaries(self.c, case["pool"])
        self.all = {**self.qubit, **self.gate}
        self.k = Keeper()
        self.circuits, self.samples, self.records, self.decoders = [], [], [], []
        self.fixes, self.devices, self.generator = [], {}, None
        self.syndromes, self.returned, self.decoded = [], {}, {}
        self.ops = qec.indices(case["ops"]) if case["seed"] % 3 else case["ops"]
        self.k.keep(self.c, self.qubit, self.gate, self.all, self.ops)

    def pick(self, pool, a, make=None):
        if not pool:
            make(a, a // 4)
        return pool[a % len(pool)]

    def circuit(self, a, b):
        self.circuits.append(generate_qec_circuit(self.c, self.qubit, self.gate, self.ops,
                                                  bool(a % 2)))
        return self.circuits[-1]

    def generator_(self, a, b):
        if self.generator is None:
            self.generator = QECCircuitGenerator(self.c, self.qubit, self.gate, False)
        self.circuits.append(self.generator.get_circuit(self.ops))
        return self.circuits[-1]

    def run(self, a, b):
        c = self.pick(self.circuits, a, self.circuit)
        name = ["clifford", "stim"][b % 2]
        if name not in self.devices:
            self.devices[name] = Device(name, **(dict(batch_size=3) if b % 4 == 3 else {}))
        dev = self.devices[name]
        dev.run(c)
        s = dev.get_sample()
        self.records.append(s)
        return s

    def unpack(self, a, b):
        raw, erased = self.pick(self.records, a, self.run)
        s = MeasurementSample.from_code_and_raw_results(self.c, raw, erased, bool(b % 2))
        self.samples.append(s)
        return s

    def decoder(self, a, b):
        name = self.pick(["UnionFindDecoder", "PyMatchingDecoder", "FusionBlossomDecoder",
                          "UnionFindNoWeights"], a)
        cls = getattr(decoders, name)
        if b % 3 == 0:
            v = [1.0, 2.0, 1 / 3, np.pi][b // 3 % 4]
            w = {k: np.full(self.c.n_stabgens if k == "measurement" else
                            self.c.n_data_qubits, v)
                 for k in ("pauli_x", "pauli_z", "measurement")}
            self.k.keep(w)
            d = cls.from_code(self.c, None, weights=w)
        elif b % 3 == 1:
            d = cls.from_code(self.c, self.all if b & 8 else self.qubit)
        else:
            d = cls.from_code(self.c, self.qubit, weighted=False)
        self.decoders.append(d)

    def random(self, a, b):
        """A made-up syndrome with erasures; the latter maybe without."""
        rng = np.random.default_rng(a)
        syn = rng.random((self.c.n_rounds, self.c.n_stabgens)) < 0.2
        er = rng.random((self.c.n_rounds, self.c.n_data_qubits)) < 0.2 if b % 2 else None
        self.syndromes.append((er, syn))
        return er, syn

    def decode(self, a, b):
        s = self.pick([(x.erased_qubits, x.syndrome) for x in self.samples]
                      + self.syndromes or [self.random(a, b)], a)
        d = self.pick(self.decoders, b, self.decoder)
        fix = d.decode(*s)
        before = self.decoded.setdefault((id(d), digest(s).__repr__()), digest(fix))
        require(digest(fix) == before, "the same decoder corrects the same syndrome by",
                fix, "and by", before)
        self.fixes.append(fix)
        return fix

    def scribble(self, a, b):
        """The caller changes an array or dictionary that was returned."""
        if b % 4 == 0:
            c = self.pick(self.circuits, a, self.circuit)
            self.k.drop(c)
            c.append("X", 0)
            return
        if b % 4 == 1:  # samples may refer to parts of the record
            self.samples.clear()
            self.k.kept = [x for x in self.k.kept if not isinstance(
                x[0], MeasurementSample)]
            own = [x for r in self.records for x in r if x is not None]
        else:
            own = self.fixes or list(self.returned.values())
        x = self.pick(own, a, lambda *_: own.append(self.decode(a, b)))
        self.k.drop(x)
        spoil(x)

    def success(self, a, b):
        s = self.pick(self.samples, a, self.unpack)
        return check_success(self.c, self.pick(self.fixes, b, self.decode), s.logical_op_toggle,
                             self.ops)

    def check(self, a, b):
        self.c.check(rank=bool(a % 2))
        self.c.logical_ops_to_indices(self.ops)
        d = [self.qubit, self.gate, self.all][b % 3]
        ErrorData().check_against_code(self.c, d)
        x, z = self.c.logical_x, self.c.logical_z
        return x, z

    def qasm(self, a, b):
        c = self.pick(self.circuits, a, self.circuit)
        return convert_to_openqasm(c, *([True] if b % 2 else []))

    def copy_(self, a, b):
        c = Circuit.from_str(str(self.pick(self.circuits, a, self.circuit)))
        c.append("H", 0)
        d = Circuit()
        d.append_from_str(str(c))
        return d

    def graph(self, a, b):
        if b % 2:
            m = syngraph.SyndromeGraphManager(self.c, self.qubit, weighted=bool(b & 2))
            for er, syn in self.syndromes[-2:]:
                m.update_for_decoding(er, syn)
            m.sgraph.update_decoder_results()
            return m.sgraph.result_as_error_op_selection()
        rng = np.random.default_rng(b)
        w = {k: rng.exponential(1.0, self.c.n_stabgens if k == "measurement" else
                                self.c.n_data_qubits) if (b >> i + 3) % 4 else 1 / 3
             for i, k in enumerate(["pauli_x", "pauli_z", "measurement"])}
        self.k.keep(w)
        g = syngraph.SyndromeGraph.from_code(self.c, w)
        for er, syn in self.syndromes[-2:]:
            g.set_erasure(er)
            g.set_syndrome(syn)
        g.update_decoder_results()
        self.k.keep(g.result_as_error_op_selection(), g.result_as_pauli_frame())
        return g.get_statistics()

    def weights(self, a, b):
        w = WeightComputation(self.c, self.all if b % 2 else self.qubit)
        return w.get_edge_probab(), w.get_edge_weights()

    def lattice(self, a, b):
        s = StabilizerCode.from_codelattice(self.c.lattice)
        t = LatticeCode(self.c.lattice, 1 + a % 3)
        u = LatticeCode.from_operators(self.c.stabilisers, self.c.logical_ops, n_rounds=2)
        ed = ErrorData.from_lattice(self.c.lattice)
        return s, t, u, ed.qubit_errors_dict, ed.error_data_dict

    def edit(self, a, b):
        """Another code made the same way is edited."""
        c = codes.make(self.case["code"])
        c.stabilisers[0][...] = 0
        c.lattice.remove_edge(c.lattice.stabgens[0].edges[0])
        qs = c.lattice.dataqubits
        c.lattice.remove_dataqubit(qs[a % len(qs)])


@PROP.part("experiment", experiments(), 300, shards=4)
def experiment(case):
    tables.quiet()
    s = Session(case)
    done, labels = 0, set()
    for name, a, b in case["calls"]:
        f = getattr(s, name + "_" if name in ("generator", "copy") else name)
        res, err = attempt(lambda: f(a, b))
        s.k.check(name)
        keep_all(s.k, res)
        for pool in (s.circuits, s.samples, s.fixes, *s.records, *s.syndromes):
            keep_all(s.k, pool)
        if name in ("weights", "lattice") and err is None:
            s.returned |= {id(r): r for r in res if isinstance(r, dict)}
        labels.add(name + (" fails" if err else ""))
        done += err is None
    return dict(nt=done >= 5, labels=sorted(labels))


def keep_all(k, res):
    for r in res if isinstance(res, (tuple, list)) else [res]:
        if isinstance(r, (np.ndarray, dict, Circuit, StabilizerCode, MeasurementSample,
                          pd.DataFrame, list)):
            k.keep(r)


def spoil(x):
    """Change all entries."""
    if isinstance(x, dict):
        for v in x.values():
            if isinstance(v, (dict, np.ndarray)):
                spoil(v)
        for k in list(x):
            if not isinstance(x[k], dict):
                x[k] = 0.77
        x["spoiled"] = 1
    elif x.dtype == bool:
        np.logical_not(x, out=x)
    else:
        x += 1


# Tables of errors
TABLE = ["add", "update", "add_gate", "frame", "gates", "dicts", "dicts", "new", "check",
         "save", "configured", "configured", "disable"]


@st.composite
def tabled(draw):
    calls = draw(st.lists(st.tuples(st.sampled_from(TABLE), ints, ints).map(list),
                          min_size=3, max_size=14))
    return dict(code=draw(codes.builtin(3)), calls=calls)


def rows(c, a):
    """A few errors of gates."""
    _, stab, two = tables.places(c)
    out = []
    for i in range(1 + a % 3):
        if (a >> i) % 2 and two:
            g = ["CX", "CZ"][(a >> i + 1) % 2]
            out.append([g, list(two[a % len(two)]), ["XY", "ZI"], [0.1, 0.02]])
        else:
            out.append([["H", "R", "M"][a % 3], [stab[a % len(stab)]], ["X"],
                        [0.01 * (a % 5)]])
    return out


@PROP.part("tables", tabled(), 250, shards=3)
def tabled_errors(case):
    tables.quiet()
    c = codes.make(case["code"])
    n = c.n_data_qubits + c.n_stabgens
    k = Keeper()
    k.keep(c)
    eds = [ErrorData.from_lattice(c.lattice)]
    done, labels = 0, set()

    def call(ed, name, a, b):
        ids = [i for i in range(n) if (a >> i) % 2] or [a % n]
        ids = np.array(ids) if a % 3 == 0 else ids
        p = [0.01 * ((b + i) % 20) for i in range(len(ids))]
        p = np.array(p) if b % 3 == 0 else p
        k.keep(ids, p)
        kind = ["X", "Y", "Z", "erasure", "measurement"][b % 5]
        if name == "add":
            ed.add_qubit_error(ids, kind, p)
        elif name == "update":
            ed.update_qubit_error(ids, kind, p)
        elif name == "add_gate":
            r = rows(c, a)[0]
            k.keep(r, *r)
            ed.add_gate_error(*r)
        elif name == "frame":
            t = {kind: [0.001 * ((b + i) % 50) for i in range(n)]}
            f = tables.frame(c, t, list(range(a % 3, n, 1 + a % 2)))
            k.keep(f)
            ed.update(f, overwrite=bool(a & 4))
        elif name == "gates":
            f = tables.gate_frame(rows(c, a))
            k.keep(f)
            ed.update(gate_errors=f, overwrite=bool(b & 4))
        elif name == "dicts":
            d = [ed.qubit_errors_dict, ed.gate_errors_dict, ed.error_data_dict]
            k.keep(*d)
            return None
        elif name == "new":
            f = tables.frame(c, {kind: [0.01] * n})
            g = tables.gate_frame(rows(c, b))
            k.keep(f, g)
            eds.append(ErrorData(qubit_errors=f, gate_errors=g))
        elif name == "check":
            d = ed.error_data_dict
            k.keep(d)
            ed.check_against_code(c, d)
            generate_qec_circuit(c, ed.qubit_errors_dict, ed.gate_errors_dict,
                                 "X" * c.n_logical_qubits)
        elif name == "save":
            ed.save_to_csv("q31.csv", "g31.csv")
            eds.append(ErrorData.from_csv("q31.csv", "g31.csv"))
        elif name == "configured":
            q = {x: [None, ["constant", 0.1], ["gaussian", 0.1, 0.01], ["user"], ()][
                (b >> i) % 5] for i, x in enumerate(["X", "Z", kind])}
            g = {x: [["user"], [["constant", "XZ" if x[0] == "C" else "X", 0.1]],
                     [["gaussian", "ZI" if x[0] == "C" else "Y", 0.1, 0.01]]][(a >> i) % 3]
                 for i, x in enumerate(["CX", "H", "M"]) if (b >> i) % 4}
            k.keep(q, g)
            eds.append(ErrorData.from_lattice(
                c.lattice, (q, "q31.csv"), (g, "g31.csv") if a % 5 else None))
        else:
            ed.enabled_qubit_errors = {kind}
        return None

    for name, a, b in case["calls"]:
        me = eds[b % len(eds)]
        others = [(e, digest(e.qubit_errors), digest(e.gate_errors)) for e in eds
                  if e is not me]
        _, err = attempt(lambda: call(me, name, a, b))
        k.check(name)
        for e, x, y in others:
            require(digest(e.qubit_errors) == x and digest(e.gate_errors) == y, name,
                    "changes the tables of another object")
        labels.add(name + (" fails" if err else ""))
        done += err is None
    return dict(nt=done >= 5, labels=sorted(labels))


# Configurations
@PROP.part("configuration", st.tuples(configs.configs(), configs.configs(), st.lists(
    st.tuples(st.sampled_from(["new", "dict", "update", "dump", "build"]), ints).map(list),
    min_size=2, max_size=8)).map(list), 150, shards=2)
def configuration(case):
    from .p23 import prepare

    prepare()
    k = Keeper()
    ds = copy.deepcopy(case[:2])
    k.keep(*ds)
    made, done, labels = [ExperimentConfig.from_dict(ds[0])], 0, set()

    def call(conf, name, a):
        if name == "new":
            made.append(ExperimentConfig.from_dict(ds[a % 2]))
        elif name == "dict":
            return conf.as_dict()
        elif name == "update":
            e = configs.expected(case[a % 2])
            k.keep(e)
            conf.code_conf.update(**e["code"])
            conf.device_conf.update(**e["device"])
            conf.decoder_conf.update(**e["decoder"])
            conf.errors_conf.qubit_errors.update(**e["errors"]["qubit_errors"])
        elif name == "dump":
            (conf.dump_toml if a % 2 else conf.dump_json)("out31.txt")
        else:
            conf.build()
            return [conf.code, conf.circuit]
        return None

    for name, a in case[2]:
        res, err = attempt(lambda: call(made[a // 2 % len(made)], name, a))
        k.check(name)
        keep_all(k, res)
        labels.add(name + (" fails" if err else ""))
        done += err is None
    return dict(nt=done >= 3, labels=sorted(labels))
