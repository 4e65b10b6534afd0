"""P17: corrections have the given syndrome."""
import numpy as np
from hypothesis import strategies as st
from plaquette.decoders import unionfind_interfaces as ufi

from . import codes, dec, q, qec  # noqa: F401
from .harness import Prop, require
from .p15 import structure

PROP = Prop(
    "P17",
    "built-in codes up to size 5, relabelled ones and codes of random multigraphs, 1-5 "
    "rounds, unit, random and error-derived weights, histories of 1-4 samples of random "
    "errors and erasures (also arbitrary syndromes) for each of the four decoders; "
    "non-trivial: a lit syndrome bit; oracle: the syndrome of the correction, symbol by "
    "symbol and location by location",
)


def names():
    """Decoders, all with the same frequency (Hypothesis prefers the first one)."""
    return st.integers(0, 10**4).map(lambda i: dec.NAMES[i * 2654435761 // 997 % 4])


def syndrome_of(c, locations):
    out = np.zeros((c.n_rounds, c.n_stabgens), dtype=bool)
    ends = structure(c)
    for k in locations:
        for v in ends[k]:
            out[v] ^= True
    return out


def operator(c, locations):
    """Product of the data errors as a string."""
    n = c.n_data_qubits
    odd = {}
    for x, _, i in locations:
        if x != "M":
            odd[x, i] = odd.get((x, i), False) ^ True
    return "".join("IXZY"[odd.get(("X", i), 0) + 2 * odd.get(("Z", i), 0)]
                   for i in range(n))


def run(d, c, erased, syn, name):
    """Decode and check the answer; returns (correction, selected locations)."""
    keep = None if erased is None else erased.copy(), syn.copy()
    out = d.decode(erased, syn)
    require((erased is None or (erased == keep[0]).all()) and (syn == keep[1]).all(),
            name, "modifies its input")
    n = c.n_data_qubits
    require(np.shape(out) == (2 * n + 1,), name, "shape of the correction")
    got = codes.strings([out])[0]
    want = [bool(b) for b in np.logical_xor.reduce(syn, axis=0)]
    have = [q.anticommute(got, s) for s in codes.strings(c.stabilisers)]
    require(have == want, name, "answers", got, "with syndrome", have, "instead of", want)
    picked = dec.solution(d)
    require((syndrome_of(c, picked) == syn).all(), name, "selects", sorted(picked),
            "which do not explain", syn.astype(int).tolist())
    return got, picked


@PROP.part("valid", st.tuples(dec.problems(zero=True), st.booleans()).map(list), 80, shards=6,
           thorough=15)
def valid(case):
    """Each decoder, on a history of samples."""
    res = [one(*case, name) for name in dec.NAMES]
    return dict(nt=res[0]["nt"], labels=sum((r["labels"] for r in res), []))


def one(case, alone, name):
    c = codes.make(case["code"])
    ws = case["weights"]
    d = dec.create(name, c, ws, alone)
    lit = erasures = 0
    for s in case["samples"]:
        erased, syn, _ = dec.sample(c, s)
        if name == "PyMatchingDecoder" and erased is not None:
            if erased.any() and covers(d):
                try:
                    d.decode(erased, syn)
                except ValueError:
                    pass
                else:
                    require(False, "erasures are ignored")
            erased = None
        got, picked = run(d, c, erased, syn, name)
        fresh = dec.create(name, c, ws, alone)
        again = run(fresh, c, erased, syn, name)
        require((got, picked) == again, name, "answers", got, "but a new decoder",
                again[0])
        lit += bool(syn.any())
        erasures += erased is not None
    return dict(nt=lit > 0, labels=[
        f"{name} {case['code']['kind']}", f"history {len(case['samples']) > 1}",
        f"erasures {erasures > 0}"])


def covers(d):
    """Every error flips something, so that erasures cannot be irrelevant."""
    return all(e.vertices for e in d.synmgr.sgraph.edges)


@PROP.part("types", st.tuples(dec.problems(3, 3), names()).map(list), 80, shards=2)
def types(case):
    """Samples may be given as bits or booleans; fixed syndromes repeat."""
    case, name = case
    c = codes.make(case["code"])
    d = dec.create(name, c, case["weights"])
    e, syn, _ = dec.sample(c, case["samples"][0])
    if name == "PyMatchingDecoder":
        e = None
    a = run(d, c, e, syn, name)
    b = run(d, c, None if e is None else e.astype("u1"), syn.astype("u1"), name)
    require(a == b, name, "distinguishes bits from booleans")
    z = run(d, c, None, np.zeros_like(syn), name)
    require(set(z[0]) == {"I"} and not z[1], name, "corrects nothing with", z[0])
    if e is not None:
        z = run(d, c, e, np.zeros_like(syn), name)
        require(all(x != "M" and any(
            e[t2, i2] for (x2, t2, i2), v in structure(c).items()
            if x2 != "M" and v == structure(c)[x, t, i]) for x, t, i in z[1]),
            name, "corrects", z[0], "outside of the erasures", "without syndrome")
        require(run(d, c, e, syn, name) == a, name, "answers differently later")
    return dict(nt=bool(syn.any()), labels=[name])


@PROP.part("odd", st.tuples(codes.matchable(4, 3), names(),
                            st.integers(0, 10**6)).map(list), 150, shards=2)
def odd(case):
    """Syndromes that no error has are refused, all others are explained."""
    code, name, seed = case
    c = codes.make(code)
    d = dec.create(name, c, None)
    rng = np.random.default_rng(seed)
    syn = rng.random((c.n_rounds, c.n_stabgens)) < rng.choice([0.1, 0.3, 0.5])
    possible = feasible(c, syn)
    try:
        run(d, c, None, syn, name)
    except ValueError as e:
        require(not possible, name, "refuses a possible syndrome:", repr(e))
        return dict(nt=True, labels=["refused", name])
    require(possible, name, "explains the impossible")
    return dict(nt=bool(syn.any()), labels=["accepted", name])


def feasible(c, syn):
    root = {v: v for v in np.ndindex(*syn.shape)}
    root[None] = None

    def find(v):
        while root[v] != v:
            v = root[v]
        return v

    for ends in structure(c).values():
        a = [find(v) for v in ends]
        if len(a) == 1:
            root[a[0]] = None
        elif a and a[0] is None:
            root[a[1]] = None
        elif a:
            root[a[0]] = a[1]
    parity = {}
    for v in np.ndindex(*syn.shape):
        f = find(v)
        parity[f] = parity.get(f, False) ^ bool(syn[v])
    return not any(p for f, p in parity.items() if f is not None)


@PROP.part("large", st.tuples(
    st.sampled_from(["planar", "rotated", "toric", "repetition", "long", "pieces", "tail"]), st.integers(5, 9),
    st.integers(1, 8), names(), st.integers(0, 10**6),
    st.booleans()).map(list), 12, shards=4, thorough=20)
def large(case):
    """Bigger codes with many errors, weighted or not."""
    kind, size, rounds, name, seed, weighted = case
    if kind == "repetition":
        size = 2 * size + 1
    elif kind == "toric":
        size -= 1
    elif kind == "long":
        kind, size, rounds = "repetition", 3, 15 * rounds * size
    d = dict(kind=kind, size=size, rounds=rounds)
    if kind == "pieces":  # many components of two data qubits or a few more
        ends = [[v] for v in range(4 * size)] + [
            [v] if (v + seed) % 5 else [v, (v + 1) % (4 * size)] for v in range(4 * size)]
        d = codes.graph_code(ends, 4 * size, rounds=rounds)
    elif kind == "tail":  # the only boundary is at the last data qubit
        v = 2 * size + 1
        ends = [[i, i + 1] for i in range(v - 1)] + [
            [i, (i * seed + 7) % v] for i in range(v) if (i * seed + 7) % v != i]
        d = codes.graph_code(ends + [[seed % v]], v, rounds=min(rounds, 2))
    c = codes.make(d)
    rng = np.random.default_rng(seed)
    ws = None
    if weighted:
        ws = dict(pauli_x=list(rng.uniform(0.2, 5, c.n_data_qubits)),
                  pauli_z=list(rng.uniform(0.2, 5, c.n_data_qubits)),
                  measurement=list(rng.uniform(0.2, 5, c.n_stabgens)))
    d = dec.create(name, c, ws)
    for i in range(2):
        e = float(rng.choice([0, 0.05, 0.3])) if name != "PyMatchingDecoder" else 0
        erased, syn, _ = dec.sample(c, dict(seed=seed + i, e=e,
                                            p=float(rng.choice([0.02, 0.08, 0.3]))))
        run(d, c, erased, syn, name)
    return dict(nt=True, labels=[name, kind])


@PROP.part("components", dec.components(9, 13, True), 150, shards=2)
def on_components(case):
    """Union find on bare graphs with parallel edges, against a new one each time."""
    nt = False
    for cls in (ufi.UnionFindDecoder, ufi.UnionFindNoWeights):
        if cls is ufi.UnionFindNoWeights:
            case = dict(case, weights=None)

        def make(case=case, cls=cls):
            graph, d = dec.component(case), cls()
            d.set_syngraph(graph)
            return d, graph

        d, graph = make()
        for errors in case["errors"]:
            got, syndrome = dec.explain(case, d, graph, errors, case["erased"])
            again, _ = dec.explain(case, *make(), errors, case["erased"])
            require((got == again).all(), "depends on earlier samples")
            nt |= bool(syndrome(errors).any())
    return dict(nt=nt, labels=[f"erased {min(sum(case['erased']), 2)}"])
