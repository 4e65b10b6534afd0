"""P29: schedules of stabiliser measurements."""
import itertools

import stim
from hypothesis import strategies as st
from plaquette.circuit.generator import generate_qec_circuit
from plaquette.codes import LatticeCode, latticeinstances

from . import codes, p12, q, qec
from .harness import Prop, require

PROP = Prop(
    "P29",
    "planar, rotated planar (also XZZX) and toric codes with every order of the four "
    "directions, and with their own order, each with errors on all gates, resets, "
    "measurements and data qubits; non-trivial: size above 2; oracle: directions computed "
    "from positions, crossings of neighbouring stabilisers, Stim's tableau simulator, and "
    "the least number of errors with a logical effect but no syndrome, found from Stim's "
    "list of the effects of single errors by complete enumeration of combinations",
    ["Stim computes the effects of single errors correctly"],
)
CLASSES = dict(planar=latticeinstances.PlanarCodeLattice,
               toric=latticeinstances.ToricCodeLattice,
               rotated=latticeinstances.RotatedPlanarCodeLattice)
STRAIGHT = [(0, 1), (-1, 0), (1, 0), (0, -1)]
DIAGONAL = [(1, 1), (-1, 1), (1, -1), (-1, -1)]


def directions(kind):
    return DIAGONAL if kind == "rotated" else STRAIGHT


def lattice(d, order=None):
    kw = dict(edge_order=order) if order else {}
    if d["kind"] == "rotated":
        kw["xzzx"] = d.get("xzzx", False)
    return CLASSES[d["kind"]](d["size"], **kw)


@st.composite
def kinds(draw, most=5):
    d = dict(kind=draw(st.sampled_from(sorted(CLASSES))))
    d["size"] = draw(st.integers(2, most - (d["kind"] == "toric")))
    if d["kind"] == "rotated":
        d["xzzx"] = draw(st.booleans())
    return d


def step(kind, size, stab, data, order):
    """The time step of a gate, from the positions of its qubits."""
    d = [b - a for a, b in zip(stab.pos, data.pos)]
    if kind == "toric":  # positions are modulo twice the size
        d = [(x + 1) % (2 * size) - 1 for x in d]
    t = order.index(tuple(d))
    # tiles of one colour exchange the directions in the middle
    if kind == "rotated" and sum(stab.pos) % 4 == 0:
        t = [0, 2, 1, 3][t]
    return t


@st.composite
def schedules(draw):
    d = draw(kinds())
    d["order"] = list(map(list, draw(st.permutations(directions(d["kind"])))))
    if d["kind"] != "rotated":  # directions nothing lies in leave steps empty
        for x in draw(st.lists(st.sampled_from(DIAGONAL), unique=True, max_size=2)):
            d["order"].insert(draw(st.integers(0, len(d["order"]))), list(x))
    d["ops"] = draw(st.text("XZ", min_size=1 + (d["kind"] == "toric"),
                            max_size=1 + (d["kind"] == "toric")))
    return d | dict(rounds=draw(st.integers(1, 3)), ancilla=draw(st.booleans()),
                    seed=draw(st.integers(0, 10**6)), signs=draw(st.integers(0, 3)))


def consistent(stabs, steps):
    """Neighbouring stabilisers do not disturb each other: of the qubits on which their
    factors differ, an even number is reached first by each of them, and no qubit takes
    part in two gates at a time."""
    if len({(t, i) for (_, i), t in steps.items()}) < len(steps):
        return False
    for a, b in itertools.combinations(range(len(stabs)), 2):
        both = [i for i, (x, y) in enumerate(zip(stabs[a], stabs[b]))
                if q.anticommute(x, y)]
        if sum(steps[a, i] < steps[b, i] for i in both) % 2:
            return False
    return True


@PROP.part("order", schedules(), 120, shards=3, thorough=15)
def order(case):
    """Gates come in the given order of directions."""
    kind, size = case["kind"], case["size"]
    want = [tuple(x) for x in case["order"]]
    given = [tuple(x) for x in want]
    lat = lattice(case, given)
    require(given == want, "the given order is changed to", given)
    c = LatticeCode(lat, case["rounds"])
    require(lat.n_time_steps == len(want), "the schedule has", lat.n_time_steps, "steps")
    steps = {}
    for a, s in enumerate(lat.stabgens):
        for e in s.edges:
            t = step(kind, size, s, e.data, want)
            require(e.measurement_time_step == t, "time step of", s.pos, e.data.pos, "is",
                    e.measurement_time_step, "instead of", t)
            steps[a, e.data.dataqubit_idx] = t
    stabs, n = codes.strings(c.stabilisers), c.n_data_qubits
    made = generate_qec_circuit(c, {}, {}, case["ops"], case["ancilla"])
    last, seen, rounds = -1, set(), 0
    for name, *args in qec.gates(made):
        if name not in ("CX", "CZ"):
            if last >= 0:
                rounds += 1
                require(len(seen) == len(steps), "gates of a round are", sorted(seen))
            last, seen = -1, set()
            continue
        require(len(args) == 2, "gate", name, args)
        a, i = args[0] - n, args[1]
        if a >= len(stabs):
            continue  # a logical operator
        require((a, i) in steps and (a, i) not in seen, "gate", name, args)
        require(name == "C" + stabs[a][i], "gate", name, args, "for", stabs[a][i])
        t = steps[a, i]
        require(t >= last, "gate", name, args, "comes too late")
        last = t
        seen.add((a, i))
    require(rounds == case["rounds"] + 1, "the circuit has", rounds, "rounds")
    ok = consistent(stabs, steps)
    if ok:
        p12.run_memory(c, made, dict(code=dict(kind=kind), ops=case["ops"],
                                     ancilla=case["ancilla"], seed=case["seed"],
                                     signs=case["signs"]))
    return dict(nt=size > 2, labels=[kind, f"consistent {ok}"])


@PROP.part("incomplete", st.tuples(kinds(4), st.permutations(range(4)), st.integers(1, 3)
                                   ).map(list), 60, thorough=10)
def incomplete(case):
    """An order without one of the directions is refused."""
    d, perm, k = case
    given = [directions(d["kind"])[i] for i in perm[:k]]
    try:
        lattice(d, given)
    except (ValueError, KeyError, IndexError):
        return dict(nt=d["size"] > 2, labels=[d["kind"]])
    require(False, "the order", given, "is accepted")


PAIRS = [a + b for a in "ixyz" for b in "ixyz"][1:]


def noisy(d, rate, without=()):
    """A memory circuit in which every error of the model has a small probability, and
    the number of measurements at the beginning and end that belong to logical
    operators."""
    c = LatticeCode(lattice(d), d["rounds"])
    data, ns = range(c.n_data_qubits), range(c.n_data_qubits,
                                             c.n_data_qubits + c.n_stabgens)
    one = {x: rate / 3 for x in "xyz"}
    two = {x: rate / 15 for x in PAIRS}
    qubit = {"pauli": {i: dict(one) for i in data},
             "measurement": {i: dict(p=rate) for i in ns}}
    gate = {x: {i: dict(one) for i in ns} for x in "HRM"}
    for x in ("CX", "CZ"):
        gate[x] = {(s.equbit_idx, e.data.equbit_idx): dict(two)
                   for s in c.lattice.stabgens for e in s.edges}
    qubit = {k: v for k, v in qubit.items() if k not in without}
    gate = {k: v for k, v in gate.items() if k not in without}
    return c, generate_qec_circuit(c, qubit, gate, d["ops"])


def to_stim(c, circuit, ops):
    """The circuit with detectors (changes of stabilisers from a round to the next) and
    the change of every logical operator."""
    s, rec = stim.Circuit(), []
    for name, *args in qec.gates(circuit):
        if name == "E_PAULI":
            s.append("PAULI_CHANNEL_1", args[3:], args[:3])
        elif name == "E_PAULI2":
            s.append("PAULI_CHANNEL_2", args[15:], args[:15])
        elif name == "ERROR":
            s.append({"X": "X_ERROR", "Z": "Z_ERROR", "Y": "Y_ERROR"}[args[1]], args[2:],
                     args[0])
        else:
            s.append(name, args)
            if name == "M":
                rec += args
    strings = qec.chosen(c, ops)
    per = sum(len(o) - o.count("I") for o in strings)
    ns, r = c.n_stabgens, c.n_rounds
    require(len(rec) == 2 * per + (r + 1) * ns, "number of measurements", len(rec))

    def target(i):
        return stim.target_rec(i - len(rec))

    for j in range(r):
        for i in range(ns):
            a = per + j * ns + i
            s.append("DETECTOR", [target(a), target(a + ns)])
    first = 0
    for k, o in enumerate(strings):
        w = len(o) - o.count("I")
        idx = [*range(first, first + w),
               *range(len(rec) - per + first, len(rec) - per + first + w)]
        s.append("OBSERVABLE_INCLUDE", [target(i) for i in idx], k)
        first += w
    return s


def effects(s):
    """The distinct effects of single errors as (syndrome, logical) bit masks."""
    out = set()
    for inst in s.detector_error_model(approximate_disjoint_errors=True).flattened():
        if inst.type == "error":
            syn = log = 0
            for t in inst.targets_copy():
                if t.is_relative_detector_id():
                    syn ^= 1 << t.val
                elif t.is_logical_observable_id():
                    log ^= 1 << t.val
            out.add((syn, log))
    return sorted(out)


def least(single, most):
    """The least number (at most 4, or ``most``) of errors without syndrome but with a
    logical effect; None if there are none."""
    if any(not s and x for s, x in single):
        return 1
    one, two = {}, {}
    for s, x in single:
        one.setdefault(s, set()).add(x)
    if any(len(v) > 1 for v in one.values()):
        return 2 if most >= 2 else None
    if most < 3:
        return None
    for (s, x), (t, y) in itertools.combinations(single, 2):
        two.setdefault(s ^ t, set()).add(x ^ y)
    if any(v - one[s] for s, v in two.items() if s in one):
        return 3
    if most >= 4 and any(len(v) > 1 for v in two.values()):
        return 4
    return None


@st.composite
def fault_cases(draw):
    d = draw(kinds(5))
    d["rounds"] = draw(st.integers(2, 4 if d["size"] < 4 else 2))
    k = 1 + (d["kind"] == "toric")
    d["ops"] = draw(st.text("XZ", min_size=k, max_size=k))
    d["without"] = sorted(draw(st.sets(st.sampled_from(
        ["pauli", "measurement", "H", "R", "M"]), max_size=3)))
    return d


EVERY = [dict(kind=k, size=s, rounds=r, ops=o * (1 + (k == "toric")), without=[], **x)
         for k, sizes in (("planar", (2, 3, 4)), ("toric", (2, 3)),
                          ("rotated", (2, 3, 4, 5)))
         for s in sizes for r in ((2, 3) if s < 4 else (2,)) for o in "XZ"
         for x in ({}, {"xzzx": True})[: 1 + (k == "rotated")]]


@PROP.part("faults", fault_cases(), 20, shards=4, thorough=10, examples=EVERY)
def faults(case):
    """Fewer errors than the distance, wherever they happen in the circuit, do not lead
    to a logical error without a syndrome."""
    c, circuit = noisy(case, 1e-3, case["without"])
    single = effects(to_stim(c, circuit, case["ops"]))
    d = case["size"]
    got = least(single, 4 if len(single) < 1500 else 3)
    require(got is None or got >= d, got, "errors in the circuit of a code of distance",
            d, "have a logical effect without any syndrome")
    if "pauli" not in case["without"] and d <= 3:
        require(got == d, "no", d, "errors have a logical effect without a syndrome")
    return dict(nt=d > 2, labels=[case["kind"], f"distance {d}", f"least {got}",
                                  f"effects {len(single) // 250 * 250}"])
