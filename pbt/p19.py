"""P19: guaranteed correction."""
import itertools

import numpy as np
from hypothesis import strategies as st
from plaquette.decoders import decoderbase

from . import codes, dec, q
from .harness import Prop, require
from .p15 import simulate, structure
from .p17 import operator, run, syndrome_of

PROP = Prop(
    "P19",
    "built-in codes with distances 3-7, relabelled ones, and codes of random graphs "
    "whose shortest cycle was computed, 1-6 rounds; up to (d-1)/2 random data (X, Y, Z) "
    "and measurement errors, up to d-1 erased qubits, or both with 2t+e<d; non-trivial: "
    "as many errors as the guarantee covers; oracle: errors and correction together "
    "commute with all logical operators",
)
UNIFORM = [None, dict(pauli_x=2.5, pauli_z=2.5, measurement=2.5)]


def girth(c, letters="XZ"):
    """Length of the shortest cycle (through the boundary) of the decoding graph."""
    best = 99
    flat = [frozenset(v for t, v in ends) for (x, t, _), ends in structure(c).items()
            if x != "M" and t == 0 and ends]
    for j, e in enumerate(flat):
        a, b = (*e, None)[:2]
        dist, todo = {a: 0}, [a]
        for v in todo:
            for i, f in enumerate(flat):
                if i == j or (v not in f if v is not None else len(f) > 1):
                    continue
                u = next(iter(f - {v}), None)
                if u not in dist:
                    dist[u] = dist[v] + 1
                    todo.append(u)
        best = min(best, dist.get(b, 99) + 1)
    return best


def cover_distance(c):
    """Least number of X (or Z) errors without a syndrome but with a logical effect."""
    best = 99
    logs = codes.strings(c.logical_ops)
    for x in "XZ":
        edges = []
        for (k, t, i), ends in structure(c).items():
            if k == x and t == 0:
                e = q.single(x, i, c.n_data_qubits)
                edges.append(((*sorted(v for t, v in ends), None, None)[:2],
                              tuple(q.anticommute(e, o) for o in logs)))
        for j in range(len(logs)):
            for start in {v for (a, b), _ in edges for v in (a, b)}:
                dist, todo = {(start, 0): 0}, [(start, 0)]
                for v, p in todo:
                    for (a, b), flips in edges:
                        if v in (a, b):
                            u = (b if v == a else a), p ^ int(flips[j])
                            if u not in dist:
                                dist[u] = dist[v, p] + 1
                                todo.append(u)
                best = min(best, dist.get((start, 1), 99))
    return best


def guaranteed(case, c):
    """(distance, letters for which it holds)"""
    d = case.get("origin", case)
    if d["kind"] == "defects":
        return cover_distance(c), "XYZ"
    if d["kind"] in ("planar", "rotated", "toric"):
        return d["size"], "XYZ"
    if d["kind"] == "shor":
        return 3, "XYZ"
    if d["kind"] == "repetition":
        return d["size"], None
    return None, None


@st.composite
def specs(draw):
    kind = draw(st.integers(0, 6))
    if kind < 3:
        code = draw(codes.builtin(6, ("planar", "toric", "rotated", "repetition", "shor"),
                                  5))
        if code["kind"] in ("planar", "toric", "rotated"):
            code["size"] = max(3, code["size"])
    elif kind == 3:
        code = draw(codes.relabelled(4, 4))
    elif kind == 4:
        code = draw(codes.defective(5, 4))
    else:  # sparse graphs have long cycles
        code = draw(codes.graphs(10, 12, 4))
    return dict(code=code, seed=draw(st.integers(0, 10**6)),
                fewer=draw(st.sampled_from([0, 0, 0, 1])),
                how=draw(st.sampled_from(["errors", "erasure", "both", "simulated"])))


def errors(c, case):
    """Random errors and erasures within the guarantee: (locations, erased, d, used)"""
    d, letters = guaranteed(case["code"], c)
    rng = np.random.default_rng(case["seed"])
    n, ns, r = c.n_data_qubits, c.n_stabgens, c.n_rounds
    if d is None:
        d = girth(c)
        if d > 90:
            return None
    seen = {k for k, ends in structure(c).items() if ends and k[0] != "M"}
    data = {(t, i) for _, t, i in seen}
    erased = np.zeros((r, n), bool)
    e = 0
    if case["how"] in ("erasure", "both"):
        e = d - 1 if case["how"] == "erasure" else int(rng.integers(0, d))
        e = max(0, e - case["fewer"])
        places = sorted(data)
        for j in rng.permutation(len(places))[:e]:
            erased[places[j]] = True
        e = int(erased.sum())
    t = max(0, (d - 1 - e) // 2 - (case["fewer"] if case["how"] == "errors" else 0))
    if case["how"] == "erasure":
        t = 0
    out = set()

    def flip(x, s, i):
        for y in dict(X="X", Z="Z", Y="XZ")[x]:
            if letters or (y, s, i) in seen:
                out.symmetric_difference_update({(y, s, i)})

    for s, i in np.argwhere(erased):
        x = rng.choice(list("IXYZ"))
        if x != "I":
            flip(x, int(s), int(i))
    # errors close to each other are the difficult ones
    where = [("D", *x) for x in sorted(data)] + [
        ("M", s, i) for s in range(1, r) for i in range(ns)]
    if rng.random() < 0.6:
        where = cluster(c, where, rng, 3 * d)
    for j in rng.permutation(len(where))[:t]:
        kind, s, i = where[j]
        if kind == "M":
            out.symmetric_difference_update({("M", s, i)})
        else:
            flip(rng.choice(list("XYZ" if letters else "Y")), s, i)
    return out, erased, d, t, e


def cluster(c, where, rng, size):
    """Locations connected with each other."""
    ends = structure(c)
    touch = {}
    for w in where:
        k, s, i = w
        vs = ends[w] if k == "M" else ends["X", s, i] | ends["Z", s, i]
        for v in vs:
            touch.setdefault(v, set()).add(w)
    w = where[int(rng.integers(len(where)))]
    out, todo = [w], [w]
    while todo and len(out) < size:
        k, s, i = todo.pop(int(rng.integers(len(todo))))
        vs = ends[k, s, i] if k == "M" else ends["X", s, i] | ends["Z", s, i]
        for u in sorted(set().union(*(touch[v] for v in vs))):
            if u not in out:
                out.append(u)
                todo.append(u)
    return out


def verdict(c, error, got):
    both = q.pmul((operator(c, error), 0), (got, 0))[0]
    return [int(q.anticommute(both, o)) for o in codes.strings(c.logical_ops)]


def decode_all(c, error, erased, labels, uniform):
    syn = syndrome_of(c, error)
    logs = codes.strings(c.logical_ops)
    toggle = np.array([q.anticommute(operator(c, error), o) for o in logs])
    for name in dec.NAMES:
        if name == dec.NAMES[0] and erased.any():
            continue
        d = dec.create(name, c, uniform, True)
        got, _ = run(d, c, erased if erased.any() else None, syn, name)
        bad = verdict(c, error, got)
        require(not any(bad), name, "answers", got, "to the error", sorted(error),
                "with erasures", np.argwhere(erased).tolist(),
                "which changes the logical operators", bad)
        out = d.decode(erased if erased.any() else None, syn)
        require(decoderbase.check_success(c, out, toggle), name, "verdict")
        labels.append(name)


@PROP.part("correct", specs(), 120, shards=6, thorough=15)
def correct(case):
    c = codes.make(case["code"])
    res = errors(c, case)
    if res is None:
        return False
    error, erased, d, t, e = res
    labels = [f"d {min(d, 9)}", case["how"], case["code"]["kind"]]
    if case["how"] == "simulated":
        simulated(c, error, case)
    decode_all(c, error, erased, labels, UNIFORM[case["seed"] % 2])
    return dict(nt=t + e > 0 and not case["fewer"], labels=labels)


@PROP.part("big", codes.enlarged(specs(), 0.6), 6, shards=1, thorough=10)
def big(case):
    """Hundreds of qubits or rounds."""
    return correct(case)


def ambiguous(c, edges):
    """Whether errors on these edges can have a logical effect without a syndrome."""
    ends = structure(c)
    logs = codes.strings(c.logical_ops)
    number, pivots = {}, {}
    for e in edges:
        v = 0
        for d in ends[e]:
            v ^= 1 << len(logs) + number.setdefault(d, len(number))
        for j, o in enumerate(logs):
            v ^= q.anticommute(operator(c, {e}), o) << j
        while v >> len(logs) and v.bit_length() in pivots:
            v ^= pivots[v.bit_length()]
        if v >> len(logs):
            pivots[v.bit_length()] = v
        elif v:
            return True
    return False


@PROP.part("erased", st.tuples(
    codes.matchable(7, 4), st.sampled_from([0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.7]),
    st.sampled_from(["flat", "mild"]), st.integers(0, 10**6)).map(list), 60, shards=3)
def erased_only(case):
    """Errors on erased qubits are corrected unless their effect is ambiguous."""
    code, p, weights, seed = case
    c = codes.make(code)
    rng = np.random.default_rng(seed)
    ends = {k: v for k, v in structure(c).items() if v and k[0] != "M"}
    places = sorted({(t, i) for _, t, i in ends})
    erased = np.zeros((c.n_rounds, c.n_data_qubits), bool)
    edges = []
    for t, i in rng.permutation(places).tolist():
        more = [(x, t, i) for x in "XZ" if (x, t, i) in ends]
        if rng.random() < p and not ambiguous(c, edges + more):
            edges += more  # as many as possible without a logical effect
            erased[t, i] = True
    error = {e for e in edges if rng.random() < 0.5}
    ws = None if weights == "flat" else dict(
        pauli_x=list(rng.uniform(0.7, 2, c.n_data_qubits)),
        pauli_z=list(rng.uniform(0.7, 2, c.n_data_qubits)),
        measurement=list(rng.uniform(0.7, 2, c.n_stabgens)))
    labels = [weights, code["kind"], f"p {p}"]
    decode_all(c, error, erased, labels, ws)
    return dict(nt=len(error) > 1, labels=labels)


def simulated(c, error, case):
    """The same with the syndrome and the logical outcomes of the circuit."""
    k = c.n_logical_qubits
    ops = "".join("XZ"[case["seed"] >> i & 1] for i in range(k))
    data = [[t, i, x] for x, t, i in error if x != "M"]
    meas = [[t, i] for x, t, i in error if x == "M"]
    m = simulate(c, data, meas, ops, case["seed"])
    require((m.syndrome == syndrome_of(c, error)).all(), "syndrome of the circuit")
    for name in dec.NAMES:
        d = dec.create(name, c, None)
        out = d.decode(None, np.asarray(m.syndrome, bool))
        require(decoderbase.check_success(c, out, m.logical_op_toggle, ops), name,
                "fails to correct", sorted(error), "when measuring", ops)


SMALL = [dict(kind="planar", size=3), dict(kind="rotated", size=3),
         dict(kind="rotated", size=3, xzzx=True), dict(kind="toric", size=3),
         dict(kind="repetition", size=5), dict(kind="shor"),
         dict(kind="repetition", size=3), dict(kind="rotated", size=4),
         dict(kind="planar", size=4)]


@PROP.part("single", st.tuples(st.sampled_from(SMALL), st.integers(1, 4),
                               st.integers(0, 5)).map(list), 14, shards=2, thorough=6,
           examples=[[c, 2, i] for i, c in enumerate(SMALL)])
def single(case):
    """Every single error, and every erasure of one or two qubits in one round."""
    code, r, uniform = case
    c = codes.make(dict(code, rounds=r))
    ws = UNIFORM[uniform % 2]
    ends = structure(c)
    decs = {name: dec.create(name, c, ws, True) for name in dec.NAMES}
    data = sorted({(t, i) for (x, t, i), v in ends.items() if x != "M" and v})
    count = 0

    def check(error, erased, name):
        got, _ = run(decs[name], c, erased, syndrome_of(c, error), name)
        bad = verdict(c, error, got)
        require(not any(bad), name, "answers", got, "to the error", sorted(error),
                "with erasures", erased is not None and np.argwhere(erased).tolist(),
                "which changes the logical operators", bad)

    single = [{("M", t, s)} for t in range(1, r) for s in range(c.n_stabgens)]
    for t, i in data:
        a, b = ("X", t, i), ("Z", t, i)
        single += [{x} for x in (a, b) if ends[x]]
        single += [{x for x in (a, b) if ends[x]}]
    for e in single:
        for name in dec.NAMES:
            check(e, None, name)
            count += 1
    rng = np.random.default_rng(uniform)
    pairs = list(itertools.combinations(data, 2)) + [(x,) for x in data]
    for j in rng.permutation(len(pairs))[:60]:
        erased = np.zeros((r, c.n_data_qubits), bool)
        error = set()
        for t, i in pairs[j]:
            erased[t, i] = True
            error |= {x for x in (("X", t, i), ("Z", t, i)) if ends[x]
                      and rng.random() < 0.6}
        for name in dec.ERASING:
            check(error, erased, name)
    return dict(labels=[code["kind"]])
