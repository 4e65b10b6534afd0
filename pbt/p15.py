"""P15: structure of decoding graphs."""
import numpy as np
from hypothesis import strategies as st
from plaquette.circuit.generator import generate_qec_circuit
from plaquette.device import MeasurementSample
from plaquette.syngraph import (
    QubitErrorEdge,
    StabilizerErrorEdge,
    SyndromeGraph,
    SyndromeGraphManager,
)

from . import codes, q, qec
from .harness import Prop, require
from .p13 import expand

PROP = Prop(
    "P15",
    "built-in codes, relabelled ones and codes of random multigraphs, 1-14 rounds, with "
    "default and random weights; random sets of data and measurement errors at random "
    "times are put into the generated circuit, which Stim simulates; non-trivial: at "
    "least two rounds and one error or mark; oracle: commutators symbol by symbol and "
    "the simulated syndrome",
    ["Stim's tableau simulator is right"],
)


def weights(draw, n, ns, inf=True):
    """None or a dictionary of weights for all edges."""
    if not draw(st.booleans()):
        return None
    some = ["inf"] * draw(st.sampled_from([0, 1, 1, 6])) if inf else []
    w = st.sampled_from([0.25, 0.5, 1.0, 1.0, 2.0, 3.5] + some)
    if draw(st.booleans()):
        return {k: draw(w) for k in ("pauli_x", "pauli_z", "measurement")}
    size = dict(pauli_x=n, pauli_z=n, measurement=ns)
    return {k: draw(st.lists(w, min_size=m, max_size=m)) for k, m in size.items()}


def numeric(ws):
    return ws and {k: np.array(v, dtype=float) if isinstance(v, list) else float(v)
                   for k, v in ws.items()}


@st.composite
def specs(draw, size=4, rounds=(4, 14)):
    code = draw(codes.matchable(size, rounds))
    c = codes.make(code)
    n, ns, r = c.n_data_qubits, c.n_stabgens, c.n_rounds
    some = st.lists(st.tuples(st.integers(0, r - 1), st.integers(0, n - 1),
                              st.sampled_from("XYZ")).map(list), max_size=8)
    meas = st.lists(st.tuples(st.integers(1, max(1, r - 1)),
                              st.integers(0, ns - 1)).map(list), max_size=6)
    return dict(code=code, data=draw(some), meas=draw(meas) if r > 1 else [],
                weights=weights(draw, n, ns), seed=draw(st.integers(0, 10**6)))


def key(e):
    if isinstance(e, QubitErrorEdge):
        return e.pauli_str, int(e.time_step), int(np.asarray(e.qubit_idx).item())
    return "M", int(e.time_step), int(e.stabgen_idx)


def structure(c):
    """Expected edges: (kind, time, index) -> joined (time, stabiliser) vertices."""
    stabs, n = codes.strings(c.stabilisers), c.n_data_qubits
    out = {}
    for t in range(c.n_rounds):
        for i in range(n):
            for x in "XZ":
                e = q.single(x, i, n)
                out[x, t, i] = {(t, s) for s, o in enumerate(stabs)
                                if q.anticommute(o, e)}
        for s in range(c.n_stabgens):
            if t:
                out["M", t, s] = {(t - 1, s), (t, s)}
    return out


def graph(c, ws, how=0):
    if how % 2:
        return SyndromeGraph.from_code(c, numeric(ws))
    return SyndromeGraphManager(c, None, weights=numeric(ws)).sgraph


def compare(c, g):
    """The graph has exactly the expected vertices and edges; returns the edges."""
    want = structure(c)
    places = [(v.time_step, v.stabgen_idx) for v in g.vertices]
    require(sorted(places) == [(t, s) for t in range(c.n_rounds)
                               for s in range(c.n_stabgens)], "vertices are", places)
    for t, row in enumerate(g.vertices_at_time):
        require([(v.time_step, v.stabgen_idx) for v in row]
                == [(t, s) for s in range(c.n_stabgens)], "vertices at time", t)
        require(all(v is g.vertices[v.vertex_idx] for v in row), "vertex numbers")
    got = {}
    for j, e in enumerate(g.edges):
        k = key(e)
        require(k not in got, "two edges for", k)
        require(e.edge_idx == j, "edge", j, "has number", e.edge_idx)
        got[k] = e
        vs = [(v.time_step, v.stabgen_idx) for v in e.vertices]
        require(len(set(vs)) == len(vs), "edge", k, "is a loop")
        require(set(vs) == want.get(k), "error", k, "joins", vs, "instead of",
                want.get(k))
        if k[0] != "M":
            op = codes.strings([g.error_ops[e.error_op_idx]])[0]
            require(op == q.single(k[0], k[2], c.n_data_qubits), "operator of", k,
                    "is", op)
    require(set(got) == set(want), "edges missing:", set(want) - set(got))
    for v in g.vertices:
        mine = [key(e) for e in v.all_edges]
        here = (v.time_step, v.stabgen_idx)
        require(sorted(mine) == sorted(k for k, x in want.items() if here in x),
                "edges at", here, "are", mine)
        near = [(key(e), (u.time_step, u.stabgen_idx)) for e, u in v.all_neighbours]
        require(sorted(near) == sorted(
            (k, u) for k, x in want.items() if here in x for u in x - {here}),
            "neighbours of", here, "are", near)
        require([e for e in v.all_edges if e.enabled] == list(v.edges),
                "enabled edges of", here)
    return got


@PROP.part("edges", specs(), 200, shards=3, thorough=15)
def edges(case):
    c = codes.make(case["code"])
    ws, r = case["weights"], c.n_rounds
    g = graph(c, ws, case["seed"])
    got = compare(c, g)
    # one enabled edge, of least weight, for each set of joined vertices
    weight = {}
    for (x, t, i), e in got.items():
        w = np.nan
        if ws is not None:
            w = numeric(ws)[dict(X="pauli_x", Z="pauli_z", M="measurement")[x]]
            w = float(w[i] if np.ndim(w) else w)
        weight[x, t, i] = w
        require(np.array_equal(float(np.asarray(e.weight).item()), w, equal_nan=True),
                "weight of", (x, t, i), "is", e.weight, "instead of", w)
    groups = {}
    for k, e in got.items():
        ends = frozenset(v.vertex_idx for v in e.vertices)
        if ends:
            groups.setdefault(ends, []).append(k)
    alive = set()
    for ks in groups.values():
        on = [k for k in ks if got[k].enabled]
        least = min(weight[k] for k in ks) if ws is not None else np.nan
        if least == np.inf:
            require(not on, "impossible errors", on, "are enabled")
            continue
        require(len(on) == 1, "enabled parallel edges:", on, "of", ks)
        require(ws is None or weight[on[0]] == least, "edge", on, "is not the lightest")
        alive |= set(on)
    components(c, g, got, alive, weight)
    stat = g.get_statistics()
    sizes = [len(e.vertices) for e in g.edges]
    nq = 2 * c.n_data_qubits * r
    parts = [x for x in g.components if x.edges]
    require(stat == dict(
        n_vertices=r * c.n_stabgens, n_edges=len(got), n_2_edges=sizes.count(2),
        n_1_edges=sizes.count(1), n_0_edges=sizes.count(0), n_edges_qubit=nq,
        n_edges_stab=(r - 1) * c.n_stabgens,
        n_edges_disabled=sum(not e.enabled for e in g.edges),
        n_vertices_in_comp=[x.n_vertices for x in parts],
        n_edges_in_comp=[len(x.edges) for x in parts], n_comp=len(g.components),
        n_comp_nontrivial=len(parts), n_comp_trivial=len(g.components) - len(parts)),
        "statistics are", stat)
    text = g.format_statistics()
    require(all(str(v) in text for v in stat.values()), "statistics text", text)
    return dict(nt=r > 1, labels=[
        case["code"]["kind"], f"weights {ws is not None}",
        f"components {min(len(parts), 3)}", f"single {bool(stat['n_comp_trivial'])}"])


def components(c, g, got, alive, weight):
    """The components are the connected parts made of the enabled edges."""
    root = list(range(len(g.vertices)))

    def find(i):
        while root[i] != i:
            i = root[i]
        return i

    for k in alive:
        ends = [v.vertex_idx for v in got[k].vertices]
        root[find(ends[0])] = find(ends[-1])
    want = {}
    for i in range(len(root)):
        want.setdefault(find(i), set()).add(i)
    have = [sorted(int(i) for i in x.parent_vertex_idx) for x in g.components]
    require(sorted(have) == sorted(map(sorted, want.values())), "components are", have)
    require([x for x in g.components if len(x.edges)] == list(g.components_with_edges),
            "components with edges")
    names = {e.edge_idx: k for k, e in got.items()}
    used = []
    for x in g.components:
        require(x.n_vertices == len(x.parent_vertex_idx), "size of a component")
        mine = [names[int(i)] for i in x.parent_edge_idx]
        used += mine
        require(len(mine) == len(x.edges), "edges of a component")
        for k, ends in zip(mine, x.edges):
            want = [int(x.parent_vertex_idx[i]) for i in ends]
            require(want == [v.vertex_idx for v in got[k].vertices], "edge", k,
                    "joins", want, "in its component")
        require(bool(x.has_dangling_edges) == any(len(e) == 1 for e in x.edges),
                "a component has dangling edges:", x.has_dangling_edges)
        require(np.array_equal(np.asarray(x.edge_weights, dtype=float),
                               [weight[k] for k in mine], equal_nan=True),
                "weights of a component")
    require(sorted(used) == sorted(alive), "edges of the components are",
            sorted(used), "instead of", sorted(alive))


def inject(c, clean, data, meas):
    """Insert errors into the error-free circuit."""
    n, ns, r = c.n_data_qubits, c.n_stabgens, c.n_rounds
    out, done, begun = [], 0, -1
    for g in clean:
        rnd = done // ns
        ours = any(n <= t < n + ns for t in g[1:])
        if ours and begun < rnd:
            begun = rnd
            out += [[x, i] for t, i, x in data if t == rnd - 1]
        if ours and g[0] == "M":
            out += [["X", g[1]] for t, s in meas if t == rnd and n + s == g[1]]
            done += 1
        out.append(g)
    return out


def predicted(c, g, data, meas):
    """Syndrome of the errors according to the graph."""
    by = {key(e): e for e in g.edges}
    out = np.zeros((c.n_rounds, c.n_stabgens), dtype=int)
    for t, i, x in data:
        for y in dict(X="X", Z="Z", Y="XZ")[x]:
            for v in by[y, t, i].vertices:
                out[v.time_step, v.stabgen_idx] ^= 1
    for t, s in meas:
        for v in by["M", t, s].vertices:
            out[v.time_step, v.stabgen_idx] ^= 1
    return out


def simulate(c, data, meas, ops, seed):
    """Sample of the memory circuit with the given errors (always with ancillas)."""
    clean = expand(qec.gates(generate_qec_circuit(c, {}, {}, ops, True)))
    run = qec.Run(c.n_ext_qubits, seed)
    run.do(inject(c, clean, data, meas))
    return MeasurementSample.from_code_and_raw_results(
        c, np.array(run.record, "u1"), logical_ancilla=True)


@PROP.part("syndrome", specs(), 150, shards=3, thorough=15)
def syndrome(case):
    """The graph predicts the syndrome that the circuit shows."""
    c = codes.make(case["code"])
    data, meas = case["data"], case["meas"]
    g = graph(c, case["weights"], case["seed"])
    ops = "XZ"[case["seed"] % 2] * c.n_logical_qubits
    m = simulate(c, data, meas, ops, case["seed"])
    want = np.asarray(m.syndrome).astype(int)
    got = predicted(c, g, data, meas)
    require((got == want).all(), "the graph predicts", got.tolist(), "the circuit shows",
            want.tolist())
    # each error alone, on the original code
    return dict(nt=c.n_rounds > 1 and bool(data or meas),
                labels=[case["code"]["kind"], f"lit {bool(want.any())}",
                        f"meas {bool(meas)}"])


@PROP.part("big", codes.enlarged(specs()), 10, shards=1, thorough=10)
def big(case):
    """Hundreds of qubits or rounds."""
    c = codes.make(case["code"])
    n, ns, r = c.n_data_qubits, c.n_stabgens, c.n_rounds
    data = [[t % r, (q * 37 + 11) % n, p] for t, q, p in case["data"]]
    meas = [[1 + t % (r - 1), (s * 31 + 7) % ns] for t, s in case["meas"] if r > 1]
    return syndrome(dict(case, data=data, meas=meas, weights=None))


@PROP.part("marks", st.tuples(specs(), st.lists(st.tuples(
    st.sampled_from(["erasure", "syndrome", "none"]), st.integers(0, 10**6),
    st.sampled_from(["bool", "u1"]), st.sampled_from([0.0, 0.2, 0.5, 1.0])).map(list),
    min_size=1, max_size=6)).map(list), 150, shards=2)
def marks(case):
    """A history of samples is loaded into one graph."""
    case, steps = case
    c = codes.make(case["code"])
    g = graph(c, case["weights"], case["seed"])
    n, ns, r = c.n_data_qubits, c.n_stabgens, c.n_rounds
    erased, syn = np.zeros((r, n), bool), np.zeros((r, ns), bool)
    g.set_erasure(None)
    g.set_syndrome(None)
    for what, seed, typ, p in steps:
        rng = np.random.default_rng(seed)
        if what == "erasure":
            erased = rng.random((r, n)) < p
            arg = erased.astype(typ)
            g.set_erasure(arg)
            require((arg == erased).all(), "the erasures were modified")
        elif what == "syndrome":
            syn = rng.random((r, ns)) < p
            arg = syn.astype(typ)
            g.set_syndrome(arg)
            require((arg == syn).all(), "the syndrome was modified")
        elif p < 0.5:
            erased = np.zeros((r, n), bool)
            g.set_erasure(None)
        else:
            syn = np.zeros((r, ns), bool)
            g.set_syndrome(None)
        free = set()
        for e in g.edges:
            x, t, i = key(e)
            want = x != "M" and erased[t, i]
            require(bool(e.erased) == want, "edge", (x, t, i), "is erased:", e.erased)
            if want:
                free.add(tuple(v.vertex_idx for v in e.vertices))
        for v in g.vertices:
            require(bool(v.syndrome) == syn[v.time_step, v.stabgen_idx], "vertex",
                    (v.time_step, v.stabgen_idx), "has syndrome", v.syndrome)
        for x in g.components:
            want = [syn[g.vertices[i].time_step, g.vertices[i].stabgen_idx]
                    for i in x.parent_vertex_idx]
            require(np.array_equal(x.syndrome, want), "syndrome of a component is",
                    x.syndrome, "instead of", want)
        for x in g.components_with_edges:
            want = [tuple(v.vertex_idx for v in g.edges[i].vertices) in free
                    for i in x.parent_edge_idx]
            require(np.array_equal(x.edge_erased, want),
                    "erasures of a component are", x.edge_erased, "instead of", want)
    return dict(nt=len(steps) > 1, labels=[s[0] for s in steps])


@PROP.part("refused", codes.code(4, max_n=6), 150)
def refused(code):
    """Errors that flip more than two stabilisers have no graph."""
    c = codes.make(code)
    bad = any(len(v) > 2 for v in structure(c).values())
    try:
        g = SyndromeGraph.from_code(c, None)
    except ValueError:
        require(bad, "a code with a decoding graph is refused")
        return dict(nt=True, labels=["refused"])
    require(not bad, "a code without decoding graph is accepted")
    compare(c, g)
    return dict(nt=code["kind"] == "custom", labels=["accepted", code["kind"]])
