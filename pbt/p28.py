"""P28: decoders follow announced updates of weights and of the graph."""
import numpy as np
from hypothesis import strategies as st
from plaquette import decoders, syngraph
from plaquette.decoders import decoderbase, fusionblossom, matching, unionfind_interfaces

from . import codes, dec
from .harness import Prop, require
from .p15 import key, structure
from .p17 import names, run
from .p27 import refused

PROP = Prop(
    "P28",
    "built-in codes up to size 4, relabelled ones and codes of random multigraphs, "
    "histories of 2-6 decoding runs each announcing no update, new weights or a new "
    "graph (also between weighted and unweighted ones); non-trivial: an update is "
    "announced and a syndrome bit is lit; oracle: a decoder that is created with the "
    "present graph and weights, the syndrome of the correction and an own minimum-weight "
    "solver",
)
BACKENDS = dict(PyMatchingDecoder=matching.PyMatchingDecoder,
                FusionBlossomDecoder=fusionblossom.FusionBlossomDecoder,
                UnionFindDecoder=unionfind_interfaces.UnionFindDecoder,
                UnionFindNoWeights=unionfind_interfaces.UnionFindNoWeights)
U = syngraph.SyndromeGraphUpdate


@st.composite
def histories(draw, name=names):
    code = draw(codes.matchable(4, (3, 6), 10))
    c = codes.make(code)
    ws = dec.weight_sets(c.n_data_qubits, c.n_stabgens)
    steps = draw(st.lists(st.fixed_dictionaries(dict(
        update=st.sampled_from(["none", "weights", "weights", "graph"]), weights=ws,
        seed=st.integers(0, 10**6), p=st.sampled_from([0.05, 0.1, 0.2, 0.5]),
        e=st.sampled_from([0, 0, 0.1, 0.4]))), min_size=1, max_size=6))
    return dict(code=code, weights=draw(ws), steps=steps, name=draw(name()))


def arguments(c, ws):
    """Weights of the syndrome graph."""
    if ws is None:
        return None
    if "rates" in ws:
        cost = dec.costs(c, ws)
        ws = {v: [cost.get((k, 1 if k == "M" else 0, i), 1.0) for i in
                  range(c.n_stabgens if k == "M" else c.n_data_qubits)]
              for k, v in dec.KINDS.items()}
    return {k: np.array(v) if isinstance(v, list) else v for k, v in ws.items()}


def put(c, graph, ws):
    """Give the components of a graph new weights."""
    cost = dec.costs(c, ws)
    for comp in graph.components_with_edges:
        w = [np.nan if ws is None else cost[key(graph.edges[i])]
             for i in comp.parent_edge_idx]
        comp.set_edge_weights(np.array(w, dtype=float))


class Manager(syngraph.SyndromeGraphManager):
    """Announces what it is told to."""

    def plan(self, step, base):
        self.step, self.base = step, base

    def update_for_decoding(self, erasure, syndrome):
        self.seen = erasure, syndrome
        s, c = self.step, self.code
        if s["update"] == "none":
            return U.Nothing
        if s["update"] == "graph":
            self.sgraph = syngraph.SyndromeGraph.from_code(c, arguments(c, self.base))
            return U.GraphAndWeights
        put(c, self.sgraph, s["weights"])
        return U.Weights


@PROP.part("updates", histories(), 250, shards=6, thorough=20)
def updates(case):
    c, name = codes.make(case["code"]), case["name"]
    cls = getattr(decoders, name)
    loose = name == "UnionFindNoWeights"

    def manager(ws):
        return Manager(c, None, weights=arguments(c, ws))

    base = now = None if loose else case["weights"]
    d = cls(manager(base))
    updated = lit = 0
    labels = {name}
    for s in case["steps"]:
        e, syn, _ = dec.sample(c, s)
        if name == "PyMatchingDecoder":
            e = None
        if loose:
            s = dict(s, weights=None)
        if s["update"] != "none":
            labels.add(f"{s['update']} {kind(now)} to {kind(s['weights'])}")
            now = s["weights"]
            updated += 1
            if s["update"] == "graph":
                base = now
        d.synmgr.plan(s, base)
        got = run(d, c, e, syn, name)
        a, b = d.synmgr.seen
        require((a is None) == (e is None) and (e is None or np.array_equal(a, e)) and
                np.array_equal(b, syn), "the sample given to the manager")
        m = manager(base)
        put(c, m.sgraph, now)
        m.plan(dict(update="none"), None)
        fresh = run(cls(m), c, e, syn, name)
        require(got == fresh, name, "decodes", got, "but a new decoder", fresh,
                "after", s["update"])
        if name == "PyMatchingDecoder":
            minimal(c, m.sgraph, dec.costs(c, now), syn, got[1])
        lit += bool(syn.any())
    return dict(nt=updated > 0 and lit > 0, labels=sorted(labels))


def kind(ws):
    return "unit" if ws is None else "weights"


def minimal(c, graph, cost, syn, picked):
    """The selection has the least weight among the enabled edges."""
    allowed = {key(e) for e in graph.edges if e.enabled}
    some = {k: w if k in allowed else np.inf for k, w in cost.items()}
    best = dec.minimum(c, some, None, syn)
    if best is not None:
        have = sum(cost[k] for k in picked)
        require(abs(have - best) <= 1e-6 * max(1, best), "weight", have,
                "instead of", best)


# ----------------------------------------------------------------- refused use
def weights(graph):
    return [float(np.ravel(e.weight)[0]) for e in graph.edges]


@PROP.part("refused", st.tuples(codes.matchable(3, 3), names(), st.integers(0, 99),
                                st.integers(0, 99)).map(list), 60, shards=2)
def refusals(case):
    """Use without a graph and updates that graph or decoder cannot take."""
    code, name, i, j = case
    c = codes.make(code)
    empty = decoderbase.ComponentDecoder(BACKENDS[name])
    syn = np.zeros((c.n_rounds, c.n_stabgens), dtype=bool)
    refused("an update without graph", empty.update_weights, kinds=ValueError)
    refused("decoding without graph", empty.decode, None, syn, kinds=ValueError)
    one = dict(pauli_x=1.0, pauli_z=2.0, measurement=3.0)
    bare = i % 2 or name == "UnionFindNoWeights"
    graph = syngraph.SyndromeGraph.from_code(c, None if bare else one)
    before = weights(graph)
    refused("changed weights of a complete graph", graph.set_edge_weights,
            kinds=ValueError, **one)
    require(np.array_equal(before, weights(graph), equal_nan=True),
            "refused weights are set")
    if not graph.components_with_edges:
        return dict(nt=False, labels=["no edges"])
    comp = graph.components_with_edges[i % len(graph.components_with_edges)]
    w = comp.edge_weights.copy()
    n = len(w)
    refused("too many weights", comp.set_edge_weights, np.ones(n + 1),
            kinds=(AssertionError, ValueError))
    refused("integer weights", comp.set_edge_weights, np.ones(n, dtype=int),
            kinds=(AssertionError, ValueError, TypeError))
    require(np.array_equal(w, comp.edge_weights, equal_nan=True), "weights changed")
    be = BACKENDS[name]()
    be.set_syngraph(comp)
    labels = [name]
    bad = np.ones(n)
    bad[j % n] = -1.0
    comp.set_edge_weights(bad)
    refused("negative weights", be.update_weights, kinds=ValueError)
    refused("negative weights", BACKENDS[name]().set_syngraph, comp, kinds=ValueError)
    if n > 1:
        bad[j % n] = np.nan
        comp.set_edge_weights(bad)
        refused("some missing weights", be.update_weights, kinds=ValueError)
        refused("some missing weights", BACKENDS[name]().set_syngraph, comp,
                kinds=ValueError)
    if name == "UnionFindNoWeights":
        comp.set_edge_weights(np.ones(n))
        refused("weights", be.update_weights, kinds=ValueError)
    comp.set_edge_weights(np.full(n, np.nan))
    be.update_weights()
    return labels


@PROP.part("combine", st.tuples(codes.matchable(4, 3), st.integers(0, 10**6)).map(list),
           150, shards=2)
def combine(case):
    """Selections of the components are combined edge by edge."""
    code, seed = case
    c = codes.make(code)
    rng = np.random.default_rng(seed)
    graph = syngraph.SyndromeGraph.from_code(c, None)
    parts = [rng.random(len(x.edges)) < 0.5 for x in graph.components_with_edges]
    out = graph.combine_decoding_results([p.copy() for p in parts])
    want = {int(i): bool(b) for x, p in zip(graph.components_with_edges, parts)
            for i, b in zip(x.parent_edge_idx, p)}
    require(out.shape == (len(graph.edges),) and [bool(b) for b in out] ==
            [want.get(i, False) for i in range(len(graph.edges))], "combined selection")
    refused("too few selections", graph.combine_decoding_results, parts[1:] if parts
            else [np.zeros(0, dtype=bool)], kinds=(AssertionError, ValueError, IndexError))
    for x, p in zip(graph.components_with_edges, parts):
        x.set_edge_decoder_results(p)
    refused("results that were not taken over", graph.result_as_error_op_selection,
            kinds=ValueError) if parts else None
    graph.update_decoder_results()
    require([bool(e.decoder_result) for e in graph.edges] == [bool(b) for b in out],
            "results of the edges")
    n, odd = c.n_data_qubits, {}
    for i, e in enumerate(graph.edges):
        k = key(e)
        if k[0] != "M" and out[i]:
            odd[k[0], k[2]] = odd.get((k[0], k[2]), False) ^ True
    want = [odd.get((x, i), False) for x in "XZ" for i in range(n)]
    require([bool(b) for b in graph.result_as_error_op_selection()] == want,
            "selection of error operators")
    require([bool(b) for b in graph.result_as_pauli_frame()[:-1]] == want, "Pauli frame")
    require(structure(c) is not None, "")
    return dict(nt=any(p.any() for p in parts), labels=[f"components {len(parts)}"])
