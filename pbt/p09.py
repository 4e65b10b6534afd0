"""P09: built-in codes are valid codes of the promised size and distance."""
import collections

import numpy as np
from hypothesis import strategies as st
from plaquette.codes import LatticeCode

from . import codes, q
from .harness import Prop, require

PROP = Prop(
    "P09",
    "all built-in codes, sizes up to 26 (every size up to 18 once), round "
    "numbers up to 50, and invalid sizes; non-trivial: size at least 3; oracle: "
    "commutators symbol by symbol, ranks over GF(2), counts from the literature, "
    "distance by shortest paths in the graph of single-qubit errors (up to 260 qubits) and by brute "
    "force over all Pauli operators for up to 13 qubits",
    ["n_rounds does not influence the operators of a code"],
)
KINDS = ["planar", "toric", "rotated", "repetition", "five_qubit", "shor"]


def expected(d):
    """(data qubits, generators, logical qubits, distance)"""
    s = d.get("size")
    return dict(
        planar=lambda: (s * s + (s - 1) ** 2, 2 * s * (s - 1), 1, s),
        toric=lambda: (2 * s * s, 2 * s * s, 2, s),
        rotated=lambda: (s * s, s * s - 1, 1, s),
        repetition=lambda: (s, s - 1, 1, 1),
        five_qubit=lambda: (5, 4, 1, 3),
        shor=lambda: (9, 8, 1, 3),
    )[d["kind"]]()


def symp(c):
    """Bits of a Pauli string as an integer."""
    return int("".join(str(int(o in "XY")) for o in c)
               + "".join(str(int(o in "ZY")) for o in c), 2)


def anticommuting(ops, others):
    """Matrix of commutators (0/1) of two lists of strings."""
    def bits(strings, letters):
        return np.array([[o in letters for o in s] for s in strings], dtype=np.float32)

    return np.rint(bits(ops, "XY") @ bits(others, "ZY").T
                   + bits(ops, "ZY") @ bits(others, "XY").T).astype(int) % 2


def check_group(stabs, logs, n, k):
    """Commutation relations and rank of a code's operators (strings)."""
    for a, b in np.argwhere(anticommuting(stabs, stabs)):
        require(False, "stabilisers", stabs[a], stabs[b], "anticommute")
    for a, b in np.argwhere(anticommuting(stabs, logs)):
        require(False, "stabiliser", stabs[a], "and logical operator", logs[b],
                "anticommute")
    for i, a in enumerate(logs):
        for j, b in enumerate(logs):
            want = int(i // 2 == j // 2 and i != j)
            require(q.anticommute(a, b) == want, "logical operators", i, "and", j,
                    "do not" if want else "do", "anticommute")
    require(len(logs) == 2 * k, "there are", len(logs), "logical operators")
    r = q.rank2([symp(c) for c in stabs])
    require(r == n - k, "stabilisers have rank", r, "instead of", n - k)


def path_distance(stabs, logs, only=None):
    """Least number of single-qubit X/Z factors of a logical operator, where each
    factor flips at most two stabilisers (else None)."""
    n = len(stabs[0])
    edges = collections.defaultdict(list)
    touching = [[j for j, s in enumerate(stabs) if s[i] != "I"] for i in range(n)]
    for i in range(n):
        for o in only or "XZ":
            flips = [j for j in touching[i] if stabs[j][i] != o]
            if len(flips) > 2:
                return None
            lab = sum((lg[i] not in (o, "I")) << j for j, lg in enumerate(logs))
            a, b = (flips + [-1, -1])[:2]
            edges[a].append((b, lab))
            edges[b].append((a, lab))
    best = None
    for start in list(edges):
        dist, todo = {(start, 0): 0}, collections.deque([(start, 0)])
        while todo:
            u = todo.popleft()
            if best is not None and dist[u] >= best:
                break
            for v, lab in edges[u[0]]:
                w = (v, u[1] ^ lab)
                if w not in dist:
                    dist[w] = dist[u] + 1
                    if v == start and w[1]:
                        best = min(best or 10**9, dist[w])
                    todo.append(w)
    return best


@st.composite
def specs(draw, sizes):
    kind = draw(st.sampled_from(KINDS))
    d = dict(kind=kind, rounds=draw(st.integers(1, 50)))
    if kind not in codes.FIXED:
        d["size"] = draw(st.integers(2, sizes))
    if kind == "repetition":
        d["size"] = 2 * draw(st.integers(1, sizes)) + 1
    if kind == "rotated":
        d["xzzx"] = draw(st.booleans())
    return d


EVERY = [dict(kind=k, rounds=2, size=s, **x) for s in range(2, 19)
         for k, x in (("planar", {}), ("toric", {}), ("rotated", {"xzzx": False}),
                      ("rotated", {"xzzx": True}))]
EVERY += [dict(kind="repetition", rounds=1, size=s) for s in (3, 5, 7, 9, 25, 61)]
EVERY += [dict(kind=k, rounds=1) for k in codes.FIXED]


@PROP.part("code", specs(26), 60, shards=4, examples=EVERY)
def code(case):
    c = codes.make(case)
    n, m, k, dist = expected(case)
    stabs, logs = codes.strings(c.stabilisers), codes.strings(c.logical_ops)
    require(c.n_data_qubits == n, "there are", c.n_data_qubits, "data qubits")
    require(c.n_stabgens == len(stabs) == m, "there are", len(stabs), "stabilisers")
    require(c.n_logical_qubits == k and c.n_logical_ops == 2 * k,
            "there are", c.n_logical_qubits, "logical qubits")
    require(c.n_ext_qubits == n + m + 2 * k, "there are", c.n_ext_qubits, "qubits")
    require(c.n_rounds == case["rounds"], "the code has", c.n_rounds, "rounds")
    for r in [*c.stabilisers, *c.logical_ops]:
        require(len(r) == 2 * n + 1 and not r[-1], "operator", r)
    require(codes.strings(c.logical_x) == logs[::2] and
            codes.strings(c.logical_z) == logs[1::2], "logical X and Z operators")
    check_group(stabs, logs, n, k)
    c.check()
    if case["kind"] == "repetition":
        require(path_distance(stabs, logs, "X") == case["size"],
                "distance for bit flips is", path_distance(stabs, logs, "X"))
    elif case["kind"] != "five_qubit" and n <= 260:
        got = path_distance(stabs, logs)
        if case["kind"] == "shor":
            got = codes.distance(stabs, logs)
        require(got == dist, "distance is", got, "instead of", dist)
    if n <= 13 and case["kind"] != "repetition":
        got = codes.distance(stabs, logs, 3)
        require(got == dist, "distance is", got, "instead of", dist)
    layout(c, stabs, logs)
    return dict(nt=case.get("size", 3) > 2, labels=[case["kind"]])


def layout(c, stabs, logs):
    """The lattice describes the same operators and numbers all qubits."""
    lat = c.lattice
    require([v.equbit_idx for v in lat.equbits] == list(range(c.n_ext_qubits)),
            "the qubits are numbered", [v.equbit_idx for v in lat.equbits])
    require(list(lat.equbits) == [*lat.dataqubits, *lat.stabgens, *lat.logical_ops],
            "the qubits are not in the order data, stabilisers, logical operators")
    for kind, vs, index in (("data", lat.dataqubits, "dataqubit_idx"),
                            ("stab", lat.stabgens, "stabgen_idx"),
                            ("log", lat.logical_ops, "logical_idx")):
        require(all(v.type.name == kind for v in vs), kind, "vertices have the types",
                [v.type for v in vs])
        require([getattr(v, index) for v in vs] == list(range(len(vs))), kind,
                "vertices have the numbers", [getattr(v, index) for v in vs])
    pos = [v.pos for v in lat.equbits]
    require(len(set(pos)) == len(pos), "several qubits at one position")
    for v in lat.equbits:
        require(lat.get_vertex_at_pos(v.pos) is v, "position of", v)
    for ops, vertices in ((stabs, lat.stabgens), (logs, lat.logical_ops)):
        require(len(ops) == len(vertices), "the lattice has other operators")
        for op, v in zip(ops, vertices):
            got = ["I"] * c.n_data_qubits
            for e in v.edges:
                require(e.op is v and e in e.data.edges, "edge", e)
                got[e.data.dataqubit_idx] = e.factor.name
            require("".join(got) == op, "lattice has", "".join(got), "for", op)
    if lat.n_time_steps is not None:
        seen = set()
        for v in lat.stabgens:
            for e in v.edges:
                t = e.measurement_time_step
                require(t is not None and 0 <= t < lat.n_time_steps, "time step", t)
                for qubit in (e.data.equbit_idx, v.equbit_idx):
                    require((t, qubit) not in seen, "qubit", qubit, "takes part in two "
                            "gates of time step", t)
                    seen.add((t, qubit))


@PROP.part("sizes", st.fixed_dictionaries(dict(
    kind=st.sampled_from(["planar", "toric", "rotated_planar", "repetition"]),
    size=st.integers(-6, 9))), 60)
def sizes(case):
    """Codes of sizes that do not exist are refused."""
    kind, size = case["kind"], case["size"]
    valid = size >= 3 and size % 2 == 1 if kind == "repetition" else size >= 2
    try:
        c = getattr(LatticeCode, f"make_{kind}")(2, size)
    except Exception as e:
        require(not valid, kind, size, "is refused:", repr(e))
        return True
    require(valid, kind, size, "is accepted with", c.n_data_qubits, "data qubits")
    return False


@PROP.part("fresh", specs(5), 60)
def fresh(case):
    """Two codes of one kind are equal and share nothing."""
    a, b = codes.make(case), codes.make(case)
    require(a == b, "two equal codes differ")
    a.stabilisers[0][0] ^= 1
    require(a != b, "different codes are equal")
    require(codes.make(case) == b, "codes share their operators")
    np.testing.assert_equal(len(b.stabilisers), b.n_stabgens)
    return True
