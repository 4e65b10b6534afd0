"""P18: matching decoders minimise the total weight."""
import math

import numpy as np
from hypothesis import strategies as st
from plaquette.decoders import fusionblossom, matching

from . import codes, dec
from .harness import Prop, require
from .p15 import structure
from .p17 import run

PROP = Prop(
    "P18",
    "as P17, with PyMatching and Fusion-Blossom decoders; non-trivial: a lit syndrome "
    "with at least two lit bits; oracle: an own exact solver (Dijkstra and dynamic "
    "programming over the lit bits), and on small graphs exhaustive enumeration of all "
    "error sets",
)
MATCHING = ["PyMatchingDecoder", "FusionBlossomDecoder"]


def total(c, cost, erased, picked):
    """(weight, number of counted locations); locations next to erased ones are free."""
    ends = structure(c)
    free = set()
    if erased is not None:
        free = {frozenset(v) for (x, t, i), v in ends.items()
                if x != "M" and erased[t, i]}
    paid = [cost[k] for k in picked if frozenset(ends[k]) not in free]
    return math.fsum(paid), len(paid)


def allowed(name, c, cost, best, count):
    """Rounding: PyMatching resolves 2**-14 of the largest weight, Fusion Blossom 1 %."""
    top = max((w for w in cost.values() if w < math.inf), default=0)
    unit = top / (100 if name == MATCHING[1] else 4000)
    return best + unit * count + 1e-6 * top


def compare(name, c, ws, erased, syn):
    cost = dec.costs(c, ws)
    best = dec.minimum(c, cost, erased, syn)
    if best is None:
        return None
    d = dec.create(name, c, ws)
    picked = run(d, c, erased, syn, name)[1]
    got, count = total(c, cost, erased, picked)
    require(got <= allowed(name, c, cost, best, count), name, "selects",
            sorted(picked), "of weight", got, "but the least weight is", best)
    require(got >= best - 1e-9 * (1 + best), "the own solver is wrong:", got, best)
    return best


@PROP.part("minimal", dec.problems(), 130, shards=6, thorough=15)
def minimal(case):
    c = codes.make(case["code"])
    nt, labels = False, []
    for name in MATCHING:
        for s in case["samples"]:
            s = dict(s, e=0) if name == MATCHING[0] else s
            erased, syn, _ = dec.sample(c, s)
            best = compare(name, c, case["weights"], erased, syn)
            nt |= bool(best) and syn.sum() > 1
            labels.append(f"{name} " + ("skipped" if best is None else
                                        "erasures" if erased is not None else "plain"))
    return dict(nt=bool(nt), labels=labels + [case["code"]["kind"]])


@PROP.part("large", st.tuples(codes.large(0.45), st.integers(1, 4), st.booleans(),
                              st.booleans(), st.integers(0, 10**6)).map(list), 6,
           thorough=15)
def large(case):
    """Few errors (next to each other or not) on large codes."""
    code, k, weighted, near, seed = case
    c = codes.make(code)
    rng = np.random.default_rng(seed)
    ws = None
    if weighted:
        ws = dict(pauli_x=list(rng.uniform(0.3, 5, c.n_data_qubits)),
                  pauli_z=list(rng.uniform(0.3, 5, c.n_data_qubits)),
                  measurement=list(rng.uniform(0.3, 5, c.n_stabgens)))
    ends = structure(c)
    keys = [e for e in sorted(ends) if ends[e]]
    start = int(rng.integers(len(keys)))
    syn = np.zeros((c.n_rounds, c.n_stabgens), bool)
    erased = np.zeros((c.n_rounds, c.n_data_qubits), bool)
    for _ in range(k):
        e = keys[(start + int(rng.integers(20))) % len(keys) if near else
                 int(rng.integers(len(keys)))]
        for v in ends[e]:
            syn[v] ^= True
        if e[0] != "M":
            erased[e[1], e[2]] = rng.random() < 0.3
    for name in MATCHING:
        compare(name, c, ws, erased if name == MATCHING[1] and erased.any() else None,
                syn)
    return dict(nt=bool(syn.sum() > (code["kind"] != "custom")),
                labels=[code["kind"], f"weighted {weighted}"])


@PROP.part("bundled", st.tuples(codes.bundled(), st.integers(1, 4), st.booleans(),
                                st.booleans(), st.integers(0, 10**6)).map(list), 30,
           thorough=15)
def bundled(case):
    """Dozens of edges at a vertex."""
    code, k, _, near, seed = case
    return large([code, k, seed % 3 > 0, near, seed])


@st.composite
def tiny(draw):
    code = draw(codes.graphs(4, 7, 2))
    if code["rounds"] * code["n"] > 9:
        code["rounds"] = 1
    c = codes.make(code)
    return dict(code=code, weights=draw(dec.weight_sets(c.n_data_qubits, c.n_stabgens)),
                bits=draw(st.integers(0, 2**14 - 1)), erased=draw(st.integers(0, 2**9)))


@PROP.part("enumerated", tiny(), 150, shards=3, thorough=15)
def enumerated(case):
    """All error sets of small graphs are tried: this also tests the own solver."""
    c = codes.make(case["code"])
    cost, ends = dec.costs(c, case["weights"]), structure(c)
    keys = [k for k in sorted(ends) if ends[k]]
    syn = np.zeros((c.n_rounds, c.n_stabgens), bool)
    for j, k in enumerate(keys):
        if case["bits"] >> (j % 14) & 1:
            for v in ends[k]:
                syn[v] ^= True
    erased = np.array([case["erased"] >> (j % 10) & 1 for j in
                       range(c.n_rounds * c.n_data_qubits)], bool)
    erased = erased.reshape(c.n_rounds, -1)
    if len(keys) > 14:
        return False
    for name, e in zip(MATCHING, (None, erased)):
        state = {(0,) * syn.size: 0.0}
        for k in keys:
            w = 0.0 if e is not None and k[0] != "M" and e[k[1], k[2]] else cost[k]
            new = dict(state)
            for s, x in state.items():
                s = list(s)
                for t, j in ends[k]:
                    s[t * c.n_stabgens + j] ^= 1
                s = tuple(s)
                new[s] = min(new.get(s, math.inf), x + w)
            state = new
        want = state[tuple(syn.ravel().astype(int))]
        best = compare(name, c, case["weights"], e, syn)
        require(best is None or abs(best - want) <= 1e-9 * (1 + want),
                "the own solver is wrong:", best, want)
    return dict(nt=bool(syn.sum() > 1), labels=[f"lit {min(int(syn.sum()), 4)}"])


BACKENDS = dict(PyMatchingDecoder=matching.PyMatchingDecoder,
                FusionBlossomDecoder=fusionblossom.FusionBlossomDecoder)


@PROP.part("components", dec.components(), 200, shards=2, thorough=15)
def on_components(case):
    """The backends on bare graphs: several boundary edges may meet in a vertex."""
    m = len(case["edges"])
    cost = case["weights"] or [1.0] * m
    masks = [sum(1 << i for i in e) for e in case["edges"]]
    syndromes = [0]
    for b in masks:
        syndromes += [s ^ b for s in syndromes]
    nt = False
    for name, cls in BACKENDS.items():
        graph, d = dec.component(case), cls()
        d.set_syngraph(graph)
        for errors in case["errors"]:
            free = case["erased"] if name == MATCHING[1] else [False] * m
            got, syndrome = dec.explain(case, d, graph, errors, free)
            lit = syndrome(errors)
            nt |= lit.sum() > 0
            paid = [0.0 if f else w for f, w in zip(free, cost)]
            bits = sum(1 << i for i in np.flatnonzero(lit).tolist())
            least = min(sum(w for k, w in enumerate(paid) if sel >> k & 1)
                        for sel, s in enumerate(syndromes) if s == bits)
            have = sum(w for on, w in zip(got, paid) if on)
            unit = max(cost) / (100 if name == MATCHING[1] else 4000)
            require(have <= least + unit * sum(got) + 1e-6, name, "selects",
                    got.tolist(), "of weight", have, "but the least weight is", least)
    many = max(case["edges"].count([i]) for i in range(case["v"]))
    return dict(nt=bool(nt), labels=[f"boundary edges at a vertex {min(many, 3)}"])
