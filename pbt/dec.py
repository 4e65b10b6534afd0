"""Generated decoding problems and an own minimum-weight solver."""
import heapq
import math

import numpy as np
from hypothesis import strategies as st
from plaquette import decoders, syngraph

from . import codes
from .harness import require
from .p15 import key, structure

ERASING = ["FusionBlossomDecoder", "UnionFindDecoder", "UnionFindNoWeights"]
NAMES = ["PyMatchingDecoder", *ERASING]
KINDS = dict(X="pauli_x", Z="pauli_z", M="measurement")


@st.composite
def weight_sets(draw, n, ns, zero=False):
    """Arguments that give all errors a weight; None for unit weights."""
    how = draw(st.sampled_from(["unit", "const", "kinds", "each", "rates"]))
    if how == "unit":
        return None
    if how == "const":
        return {k: draw(st.sampled_from([0.1, 1.0, 7.5])) for k in KINDS.values()}
    w = st.sampled_from([0.3, 0.5, 1.0, 1.0, 1.5, 2.0, 4.0, 9.0] + [0.0] * zero)
    if how == "kinds":
        return {k: draw(w) for k in KINDS.values()}
    if how == "each":
        w = st.one_of(w, st.floats(0.05, 10))
        m = dict(pauli_x=n, pauli_z=n, measurement=ns)
        return {k: draw(st.lists(w, min_size=m[k], max_size=m[k])) for k in m}
    p = st.sampled_from([1e-4, 0.01, 0.03, 0.1, 0.2, 0.3])
    per = draw(st.booleans())
    return dict(
        rates=dict(pauli=[draw(st.lists(p, min_size=3, max_size=3))
                          for _ in range(n if per else 1)],
                   measurement=[draw(p) for _ in range(ns if per else 1)]))


def create(name, c, ws, how=None):
    """The decoder with these weights."""
    cls = getattr(decoders, name)
    if name == "UnionFindNoWeights":
        return cls.from_code(c, None, weighted=False)
    if ws is None:
        if how:
            one = dict.fromkeys(KINDS.values(), 1.0)
            return cls.from_code(c, None, weights=one)
        return cls.from_code(c, None, weighted=False)
    if "rates" in ws:
        return cls.from_code(c, rates_data(c, ws["rates"]))
    return cls.from_code(c, None, weights={
        k: np.array(v) if isinstance(v, list) else v for k, v in ws.items()})


def rates_data(c, r):
    n, ns = c.n_data_qubits, c.n_stabgens
    at = lambda v, i: v[i % len(v)]  # noqa: E731
    return dict(
        pauli={i: {x: p / 3 for x, p in zip("xyz", at(r["pauli"], i))}
               for i in range(n)},
        measurement={n + i: dict(p=at(r["measurement"], i)) for i in range(ns)})


def costs(c, ws):
    """Weight of every error location (kind, time, index)."""
    n, out = c.n_data_qubits, {}
    data = rates_data(c, ws["rates"]) if ws and "rates" in ws else None
    for k in structure(c):
        x, t, i = k
        if ws is None:
            w = 1.0
        elif data:
            if x == "M":
                p = data["measurement"][n + i]["p"]
            else:
                p = data["pauli"][i][x.lower()] + data["pauli"][i]["y"]
            w = -math.log(p / (1 - p))
        else:
            w = ws[KINDS[x]]
            w = w[i] if isinstance(w, list) else w
        out[k] = float(w)
    return out


@st.composite
def problems(draw, size=4, rounds=(4, 10), max_e=10, zero=False, erasure=True):
    """A code with weights and a history of errors and erasures (see ``sample``)."""
    code = draw(codes.matchable(size, rounds, max_e))
    c = codes.make(code)
    some = st.fixed_dictionaries(dict(
        seed=st.integers(0, 10**6), p=st.sampled_from([0.02, 0.05, 0.1, 0.2, 0.5]),
        e=st.sampled_from([0, 0.05, 0.2, 0.5, 1] if erasure else [0])))
    return dict(code=code, weights=draw(weight_sets(c.n_data_qubits, c.n_stabgens, zero)),
                samples=draw(st.lists(some, min_size=1, max_size=4)))


def sample(c, s):
    """(erasures, syndrome, error) of a random error; erased qubits err half the time."""
    rng = np.random.default_rng(s["seed"])
    r, n, ns = c.n_rounds, c.n_data_qubits, c.n_stabgens
    erased = rng.random((r, n)) < s["e"]
    locs = structure(c)
    syn = np.zeros((r, ns), dtype=bool)
    error = set()
    for k, ends in sorted(locs.items()):
        x, t, i = k
        p = 0.5 if x != "M" and erased[t, i] else s["p"]
        if rng.random() < p:
            error.add(k)
            for v in ends:
                syn[v] ^= True
    return (erased if s["e"] else None), syn, error


def solution(dec):
    """Locations that the decoder selected: edges with a positive result."""
    return {key(e) for e in dec.synmgr.sgraph.edges if e.decoder_result}


def minimum(c, cost, erased, syn):
    """Least total weight of errors with this syndrome, and the cheapest edges."""
    r, ns = c.n_rounds, c.n_stabgens
    best = {}  # endpoints -> cheapest weight
    for (x, t, i), ends in structure(c).items():
        if not ends:
            continue
        w = 0.0 if x != "M" and erased is not None and erased[t, i] else cost[x, t, i]
        f = frozenset(ends)
        best[f] = min(best.get(f, math.inf), w)
    near = {(t, s): [] for t in range(r) for s in range(ns)}
    for f, w in best.items():
        a, b = (*f, None)[:2]  # None is the boundary
        near[a].append((b, w))
        if b is not None:
            near[b].append((a, w))
    lit = [v for v in near if syn[v]]
    if len(lit) > 13:
        return None
    dist = []
    for a in lit:
        d, heap, border = {a: 0.0}, [(0.0, a)], math.inf
        while heap:
            x, v = heapq.heappop(heap)
            if x > d[v]:
                continue
            for u, w in near[v]:
                if u is None:
                    border = min(border, x + w)
                elif x + w < d.get(u, math.inf):
                    d[u] = x + w
                    heapq.heappush(heap, (x + w, u))
        dist.append([*(d.get(b, math.inf) for b in lit), border])
    m = len(lit)
    table = [math.inf] * (1 << m)
    table[0] = 0.0
    for s in range(1 << m):
        if table[s] == math.inf or s == (1 << m) - 1:
            continue
        a = next(i for i in range(m) if not s >> i & 1)
        table[s | 1 << a] = min(table[s | 1 << a], table[s] + dist[a][m])
        for b in range(a + 1, m):
            if not s >> b & 1:
                u = s | 1 << a | 1 << b
                table[u] = min(table[u], table[s] + dist[a][b])
    return table[-1]


@st.composite
def components(draw, max_v=6, max_e=9, parallel=False):
    """A connected graph of any shape with weights and a history of errors."""
    v = draw(st.integers(1, max_v))
    edges = [[draw(st.integers(0, i - 1)), i] for i in range(1, v)]
    for _ in range(draw(st.integers(v == 1, max_e - len(edges)))):
        k = min(v, draw(st.sampled_from([2, 1, 1])))
        e = sorted(draw(st.lists(st.integers(0, v - 1), min_size=k, max_size=k,
                                 unique=True)))
        if parallel or k == 1 or e not in edges:
            edges.append(e)
    m = len(edges)
    w = st.sampled_from([0.3, 0.5, 1.0, 1.5, 2.0, 4.0, 9.0])
    first = draw(st.integers(0, 5))  # vertices and edges have any numbers outside
    return dict(v=v, edges=edges, first=first, step=draw(st.integers(1, 3)),
                weights=draw(st.none() | st.lists(w, min_size=m, max_size=m)),
                errors=draw(st.lists(st.lists(st.booleans(), min_size=m, max_size=m),
                                     min_size=1, max_size=3)),
                erased=draw(st.lists(st.booleans(), min_size=m, max_size=m)))


def component(case):
    """The component of a decoding graph."""
    at = lambda i: case["first"] + case["step"] * i  # noqa: E731
    vs = [syngraph.Vertex(vertex_idx=at(i), stabgen_idx=i, time_step=0)
          for i in range(case["v"])]
    es = [syngraph.Edge(edge_idx=at(j), vertices=tuple(vs[i] for i in e))
          for j, e in enumerate(case["edges"])]
    m, w = len(es), case["weights"]
    return syngraph.SyndromeGraphComponent(
        vs, es, np.full(m, np.nan) if w is None else np.array(w, float))


def explain(case, backend, graph, errors, erased=None):
    """Edges that a backend selects, checked to have the syndrome of the errors."""
    def syndrome(sel):
        out = np.zeros(case["v"], bool)
        for on, e in zip(sel, case["edges"]):
            for i in e * bool(on):
                out[i] ^= True
        return out

    want = syndrome(errors)
    graph.set_syndrome(want.copy())
    graph.set_erasure(np.array(erased if erased else [False] * len(errors), bool))
    backend.decode()
    got = graph.edge_decoder_result
    require(got.dtype == bool and got.shape == (len(errors),), "result", got)
    require((syndrome(got) == want).all(), type(backend).__name__, "selects",
            got.tolist(), "with another syndrome than", want.tolist())
    return got, syndrome
