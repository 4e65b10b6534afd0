"""P27: code lattices that are built and edited by hand."""
import numpy as np
from hypothesis import strategies as st
from plaquette.codes import LatticeCode, StabilizerCode
from plaquette.codes import latticebase as lb

from . import codes
from .harness import Prop, require

PROP = Prop(
    "P27",
    "histories of 4-40 edits of a lattice with 2-4 rows and columns (or three "
    "dimensions), some of them invalid; non-trivial: at least one operator with a "
    "factor is left and an edit after it was made; oracle: a model made of dictionaries "
    "that follows each edit, and multiplication of Pauli factors",
)
MULT = {("X", "X"): "I", ("Y", "Y"): "I", ("Z", "Z"): "I"}


@st.composite
def histories(draw, most=40):
    shape = draw(st.sampled_from([[3, 3], [2, 4], [4, 4], [2, 2, 3], [5, 3], [12]]))
    n = int(np.prod(shape))
    ops, cells = [], draw(st.permutations(range(n)))
    if draw(st.booleans()):
        return based(draw, most)
    kinds = draw(st.sampled_from(["dds", "ddss", "ddssl", "dsl", "ddddsssll"]))
    pos = iter(cells)
    for _ in range(draw(st.integers(1, max(1, n - 1)))):
        ops.append([draw(st.sampled_from(kinds)), next(pos), 0, 0])
    small = st.integers(0, 30)
    for _ in range(draw(st.integers(3, most))):
        ops.append([draw(st.sampled_from(EDITS)), draw(small), draw(small),
                    draw(st.integers(0, 3))])
    if draw(st.integers(0, 4)) == 0:  # edits are made while vertices are added
        ops = draw(st.permutations(ops))
    return dict(shape=shape, ops=ops, order=draw(st.integers(0, 23)))


BASES = [
    (["XXXX", "ZZZZ"], ["XXII", "ZIZI", "XIXI", "ZZII"]),
    (["XZZXI", "IXZZX", "XIXZZ", "ZXIXZ"], ["XXXXX", "ZZZZZ"]),
    (["IIIXXXX", "IXXIIXX", "XIXIXIX", "IIIZZZZ", "IZZIIZZ", "ZIZIZIZ"],
     ["XXXXXXX", "ZZZZZZZ"]),
    (["ZZI", "IZZ", "ZIZ"], ["XXX", "ZII"]),
    (["YYI", "IYY"], ["XXX", "YII"]),
    (["XXIXXIIII", "IIIIXXIXX", "IIXIIXIII", "IIIXIIXII", "IZZIZZIII", "IIIZZIZZI",
      "ZZIIIIIII", "IIIIIIIZZ"], ["XIIXIIXII", "ZZZIIIIII"]),
]


def based(draw, most):
    """Edits of a lattice that holds a code."""
    stabs, logs = draw(st.sampled_from(BASES))
    n, s, k = len(stabs[0]), len(stabs), len(logs)
    shape = draw(st.sampled_from([[n + s + k], [n + s + k + 2], [5, 5], [3, 4, 2]]))
    cells = draw(st.permutations(range(int(np.prod(shape)))))[:n + s + k + 1]
    ops = [[name, p, 0, 0] for name, p in zip(
        "d" * n + "s" * s + "l" * k, cells)]
    ops += [["edge", d, o, "XYZ".index(f)] for o, op in enumerate(stabs + logs)
            for d, f in enumerate(op) if f != "I"]
    small = st.integers(0, 30)
    kinds = draw(st.sampled_from([SAFE, SAFE, SAFE + EDITS]))
    for _ in range(draw(st.integers(0, most // 2))):
        ops.append([draw(st.sampled_from(kinds)), draw(small), draw(small),
                    draw(st.integers(0, 3))])
    return dict(shape=shape, ops=ops, order=draw(st.integers(0, 23)))


SAFE = ["multiply", "multiply", "code", "index", "look", "check", "delstab", "super",
        "superedge"]
EDITS = ["edge"] * 24 + ["d", "s", "l"] + ["cut"] * 4 + ["drop"] * 3 + [
    "super"] * 3 + ["superedge"] * 2 + ["multiply"] * 5 + ["delstab"] * 2 + [
    "index"] * 3 + ["look"] * 3 + ["check"] * 2 + ["code"] * 3


class Model:
    """The lattice as lists of positions and a dictionary of Pauli factors."""

    def __init__(self, shape):
        self.shape = shape
        self.kind = {}
        self.lists = dict(d=[], s=[], l=[])
        self.names = {}
        self.factors = {}  # (operator, data qubit) -> factor
        self.edges = []  # in order of creation
        self.index = None

    def row(self, op):
        return {d: f for (o, d), f in self.factors.items() if o == op}

    def toggle(self, op, data, f):
        """Multiply a factor; False if this is not possible."""
        if (op, data) in self.factors:
            if self.factors[op, data] != f:
                return False
            self.cut(op, data)
        else:
            self.factors[op, data] = f
            self.edges.append((op, data))
        return True

    def cut(self, op, data):
        del self.factors[op, data]
        self.edges.remove((op, data))

    def drop(self, v):
        kind = self.kind.pop(v)
        self.lists[kind].remove(v)
        if self.index is not None and v in self.index:
            self.index.remove(v)

    def string(self, op):
        row = self.row(op)
        return "".join(row.get(d, "I") for d in self.lists["d"])


def refused(what, f, *args, kinds=(AssertionError, ValueError, TypeError), **kw):
    try:
        f(*args, **kw)
    except kinds:
        return
    require(False, what, "is not refused")


@PROP.part("edits", histories(), 700, shards=4, thorough=30)
def edits(case):
    lat, m = lb.CodeLattice(case["shape"]), Model(case["shape"])
    labels, made, late = set(), 0, 0
    cells = [tuple(int(i) for i in p) for p in np.ndindex(*case["shape"])]

    def vertex(p):
        return lat.get_vertex_at_pos(p, allow_empty=False)

    def pick(kind, i):
        ps = m.lists[kind]
        return ps[i % len(ps)] if ps else None

    def op_at(i):
        ps = m.lists["s"] + m.lists["l"]
        return ps[i % len(ps)] if ps else None

    def edge_of(key):
        e = [e for e in vertex(key[0]).edges if e.data.pos == key[1]]
        require(len(e) == 1, "edges of", key, e)
        return e[0]

    for name, a, b, c in case["ops"]:
        if name in "dsl":
            p = cells[a % len(cells)]
            add = dict(d=lambda: lat.add_data(p),
                       s=lambda: lat.add_stabgen(p, lb.StabGroup(c % 3)),
                       l=lambda: lat.add_logical(p, f"L{a}"))[name]
            if p in m.kind:
                refused("a second vertex at one position", add)
                labels.add("occupied")
            else:
                r = add()
                m.kind[p] = name
                m.lists[name].append(p)
                v = vertex(p)
                require(r is None or r is v, "returned vertex")
                m.names[p] = dict(s=lb.StabGroup(c % 3), l=f"L{a}").get(name)
        elif name == "edge":
            d, o = pick("d", a), op_at(b)
            if d is None or o is None:
                continue
            f = "XYZX"[c]
            if (o, d) in m.factors:
                refused("a second factor on one qubit", lat.add_edge, vertex(d),
                        vertex(o), lb.Pauli[f])
                labels.add("second factor")
            else:
                lat.add_edge(vertex(d), vertex(o), lb.Pauli[f])
                m.toggle(o, d, f)
                made += 1
                continue
        elif name == "cut":
            if not m.edges:
                continue
            key = m.edges[a % len(m.edges)]
            e = edge_of(key)
            lat.remove_edge(e)
            m.cut(*key)
            refused("removing an edge twice", lat.remove_edge, e)
        elif name == "drop":
            ps = [*m.kind]
            if not ps:
                continue
            p = ps[a % len(ps)]
            v = vertex(p)
            if any(p in k for k in m.edges):
                refused("removing a vertex with edges", lat.remove_vertex, v)
                labels.add("connected")
            else:
                lat.remove_vertex(v)
                m.drop(p)
                require(lat.get_vertex_at_pos(p) is None, "removed vertex stays", p)
        elif name in ("super", "superedge"):
            keep, rem = pick("s", a), pick("s", b)
            if keep is None or keep == rem:
                continue
            rows = m.row(keep), m.row(rem)
            fit = all(rows[0].get(d, f) == f for d, f in rows[1].items())
            if name == "superedge":
                if not all(rows):
                    continue
                es = [edge_of((p, sorted(r)[c % len(r)])) for p, r in
                      zip((keep, rem), rows)]
                args = lat.create_superstab_from_edges, es
            else:
                args = lat.create_superstab, vertex(keep), vertex(rem)
            if not fit:
                refused("a product with a different factor", *args)
                return dict(nt=made > 0, labels=[*labels, "product refused"])
            args[0](*args[1:])
            for d, f in rows[1].items():
                m.cut(rem, d)
                m.toggle(keep, d, f)
            m.drop(rem)
            labels.add("superstabiliser")
        elif name == "multiply":
            log, s = pick("l", a), pick("s", b)
            if log is None or s is None:
                continue
            rows = m.row(log), m.row(s)
            if not all(rows[0].get(d, f) == f for d, f in rows[1].items()):
                refused("a product with a different factor",
                        lat.multiply_logical_with_stab, vertex(log), vertex(s))
                return dict(nt=made > 0, labels=[*labels, "product refused"])
            lat.multiply_logical_with_stab(vertex(log), vertex(s))
            for d, f in rows[1].items():
                m.toggle(log, d, f)
            labels.add("logical times stabiliser")
        elif name == "delstab":
            s = pick("s", a)
            if s is None:
                continue
            lat.remove_stabilizer(vertex(s))
            for d in m.row(s):
                m.cut(s, d)
            m.drop(s)
        elif name == "index":
            lat.assign_indices()
            m.index = m.lists["d"] + m.lists["s"] + m.lists["l"]
            indices(lat, m)
        elif name == "look":
            look(lat, m, cells, a, b)
        elif name == "check":
            lat.assign_indices()
            m.index = m.lists["d"] + m.lists["s"] + m.lists["l"]
            checks(lat, m, a, b)
        elif name == "code":
            labels.add(code(lat, m))
        late += made > 0
        same(lat, m, cells)
    same(lat, m, cells)
    labels.add(code(lat, m))
    if len(case["shape"]) == 2:
        labels.add(steps(lat, m, case["order"]))
    return dict(nt=bool(m.factors) and late > 0, labels=sorted(labels))


def same(lat, m, cells):
    """The lattice has the vertices and edges of the model, seen from all sides."""
    for k, vs, cls in (("d", lat.dataqubits, lb.DataVertex), ("s", lat.stabgens,
                       lb.StabGenVertex), ("l", lat.logical_ops, lb.LogicalVertex)):
        require([v.pos for v in vs] == m.lists[k], "vertices of kind", k,
                [v.pos for v in vs], m.lists[k])
        for v in vs:
            require(type(v) is cls and v is lat.get_vertex_at_pos(v.pos), v)
            if k == "s":
                require(v.group == m.names[v.pos], "group of", v)
            if k == "l":
                require(v.name == m.names[v.pos], "name of", v)
            require(sorted(n.pos for n in v.neighbours) == sorted(
                (e.op if k == "d" else e.data).pos for e in v.edges), "neighbours", v)
            for e in v.edges:
                require((e.data if k == "d" else e.op) is v, "edge of", v, e)
                require(any(e is x for x in lat.edges), "edge not in the lattice")
            have = sorted((e.op.pos, e.data.pos) for e in v.edges)
            require(have == sorted(x for x in m.edges if v.pos in x), "edges of", v,
                    have)
    require(sorted(v.pos for v in lat.vertices) == sorted(m.kind), "vertices")
    require(len({id(v) for v in lat.vertices}) == len(m.kind), "vertices twice")
    got = {(e.op.pos, e.data.pos): e.factor.name for e in lat.edges}
    require(len(lat.edges) == len(got) and got == m.factors, "edges", got, m.factors)
    require([v.pos for v in lat.equbits] == (m.index or []), "extended qubits",
            lat.equbits)
    for p in cells:
        require((lat.get_vertex_at_pos(p) is None) == (p not in m.kind), "cell", p)


def indices(lat, m):
    require([v.pos for v in lat.equbits] == m.index, "extended qubits", lat.equbits)
    require([v.equbit_idx for v in lat.equbits] == [*range(len(m.index))], "indices")
    require([v.dataqubit_idx for v in lat.dataqubits] == [*range(len(m.lists["d"]))] and
            [v.stabgen_idx for v in lat.stabgens] == [*range(len(m.lists["s"]))] and
            [v.logical_idx for v in lat.logical_ops] == [*range(len(m.lists["l"]))],
            "indices of kinds")


def look(lat, m, cells, a, b):
    p = cells[a % len(cells)]
    v = lat.get_vertex_at_pos(p)
    if p in m.kind:
        require(v is lat.get_vertex_at_pos(p, allow_empty=False) and v.pos == p, p)
    else:
        require(v is None, "an empty position has", v)
        refused("an empty position", lat.get_vertex_at_pos, p, allow_empty=False,
                kinds=ValueError)
    out = list(p)
    out[b % len(out)] = m.shape[b % len(out)] + a
    refused("a position outside", lat.get_vertex_at_pos, tuple(out), kinds=IndexError)


def checks(lat, m, a, b):
    n = len(m.index)
    i = [a % (n + 3), a, -1 - a % 4, float(a), str(a), None][b % 6]
    for f, k in ((lat.check_equbit_is_data, "d"), (lat.check_equbit_is_stabgen, "s")):
        if isinstance(i, int) and 0 <= i < n and m.kind[m.index[i]] == k:
            f(i, name="a")
            f(i)
        else:
            refused(f"index {i!r} of kind {k}", f, i, name="a", kinds=ValueError)


def code(lat, m):
    """Operators of the lattice and of the codes made of it."""
    lat.assign_indices()
    m.index = m.lists["d"] + m.lists["s"] + m.lists["l"]
    indices(lat, m)
    stabs, logs = [m.string(p) for p in m.lists["s"]], [m.string(p) for p in m.lists["l"]]
    if not all(s.strip("I") for s in stabs + logs):
        for have, get in ((stabs, lambda: lat.stabilisers), (
                logs, lambda: lat.logical_operators)):
            try:
                got = codes.strings(get())
            except ValueError:  # an operator without factors
                require(not all(s.strip("I") for s in have), "refused operators", have)
            else:
                require(got == have, "operators", got, have)
        return "no factor"
    require(codes.strings(lat.stabilisers) == stabs, "stabilisers", stabs,
            codes.strings(lat.stabilisers))
    require(codes.strings(lat.logical_operators) == logs, "logical operators", logs)
    if not stabs or not logs or len(logs) % 2:
        return "no code"
    ok = codes_valid(stabs, logs)
    for c in (StabilizerCode.from_codelattice(lat), LatticeCode(lat, 2)):
        require(codes.strings(c.stabilisers) == stabs and
                codes.strings(c.logical_ops) == logs, "operators of the code")
        require((c.n_data_qubits, c.n_stabgens, c.n_logical_ops, c.n_ext_qubits) ==
                (len(m.lists["d"]), len(stabs), len(logs), len(m.index)), "counts")
        try:
            c.check()
        except AssertionError as e:
            require(not ok, "a valid code is refused:", e, stabs, logs)
        else:
            require(ok, "an invalid code is accepted", stabs, logs)
    return f"code {'valid' if ok else 'invalid'}"


def anti(a, b):
    return sum(x != y and "I" not in (x, y) for x, y in zip(a, b)) % 2


def codes_valid(stabs, logs):
    return not any(anti(s, t) for s in stabs for t in stabs + logs) and all(
        anti(x, y) == (i ^ 1 == j) for i, x in enumerate(logs)
        for j, y in enumerate(logs))


def steps(lat, m, k):
    """Order of the controlled gates given by directions."""
    near = [[-1, 0], [0, 1], [0, -1], [1, 0]]
    order = [tuple(near[(k // f + i * (1 + k % 2 * 2)) % 4]) for f, i in
             zip((1, 1, 1, 1), range(4))]
    want = {}
    for (o, d) in m.edges:
        if m.kind[o] != "s":
            want[o, d] = None
            continue
        diff = [y - x for x, y in zip(o, d)]
        diff = tuple(x if abs(x) <= 1 else -1 if x > 0 else 1 for x in diff)
        if diff not in order:
            refused(f"direction {diff}", lat.assign_stab_edge_order, order)
            return "direction refused"
        want[o, d] = order.index(diff)
    lat.assign_stab_edge_order(order)
    require(lat.n_time_steps == 4, "number of time steps", lat.n_time_steps)
    got = {(e.op.pos, e.data.pos): e.measurement_time_step for e in lat.edges}
    require(got == want, "time steps", got, want)
    return "time steps" if m.edges else "no edges"


# ------------------------------------------------------------ operators as text
@st.composite
def texts(draw):
    n = draw(st.integers(1, 7))
    word = st.text("IXYZ", min_size=n, max_size=n)
    free = draw(st.booleans())
    logs, stabs = [], draw(st.lists(word, min_size=1, max_size=6))
    if not free:  # a code made of products of a valid one
        k = draw(st.integers(1, n))
        logs = ["I" * i + p + "I" * (n - 1 - i) for i in range(k) for p in "XZ"]
        stabs = ["I" * i + "Z" + "I" * (n - 1 - i) for i in range(k, n)] or ["I" * n]
    else:
        logs = draw(st.lists(word, min_size=2, max_size=6))
        logs = logs[:len(logs) // 2 * 2]
    signs = draw(st.lists(st.sampled_from(["", "", "+", "-"]),
                          min_size=len(stabs) + len(logs)))
    bad = draw(st.sampled_from([None] * 4 + ["short", "long"]))
    return dict(n=n, stabs=stabs, logs=logs, signs=signs, how=draw(st.integers(0, 7)),
                bad=[bad, draw(st.integers(0, 99))])


@PROP.part("text", texts(), 700, shards=2, thorough=30)
def text(case):
    n, stabs, logs = case["n"], case["stabs"], case["logs"]
    signed = [g + s for g, s in zip(case["signs"], stabs + logs)]
    kind, i = case["bad"]
    if kind:
        i %= len(signed)
        signed[i] = signed[i][:-1] if kind == "short" else signed[i] + "I"
    given = dict(n_data_qubits=n, def_stabgens=signed[:len(stabs)],
                 def_logical_ops=signed[len(stabs):])
    attrs = {k: v for j, (k, v) in enumerate(given.items()) if case["how"] >> j & 1}
    cls = type("Custom", (lb.CodeLatticeFromStab,), attrs) if attrs else \
        lb.CodeLatticeFromStab
    args = {k: v for k, v in given.items() if k not in attrs}
    for k in args:
        refused(f"missing {k}", cls, **{a: b for a, b in args.items() if a != k},
                kinds=TypeError)
    if kind:
        refused(f"an operator that is too {kind}", cls, **args,
                kinds=(AssertionError, ValueError, IndexError))
        return [kind]
    lat = cls(**args)
    require([len(x) for x in (lat.dataqubits, lat.stabgens, lat.logical_ops)] ==
            [n, len(stabs), len(logs)], "numbers of vertices")
    require([v.name for v in lat.logical_ops] ==
            [f"{'XZ'[j % 2]}{j // 2}" for j in range(len(logs))], "names")
    want = {}
    for k, ops in (("s", stabs), ("l", logs)):
        for j, s in enumerate(ops):
            want.update({(k, j, x): f for x, f in enumerate(s) if f != "I"})
    got = {("l" if e.op in lat.logical_ops else "s", e.op.logical_idx if
            isinstance(e.op, lb.LogicalVertex) else e.op.stabgen_idx,
            e.data.dataqubit_idx): e.factor.name for e in lat.edges}
    require(got == want, "factors", got, want)
    if all(s.strip("I") for s in stabs + logs):
        c = StabilizerCode.from_codelattice(lat)
        require(codes.strings(c.stabilisers) == stabs and
                codes.strings(c.logical_ops) == logs, "operators of the code")
        try:
            LatticeCode(lat, 1).check()
        except AssertionError as e:
            require(not codes_valid(stabs, logs), "a valid code is refused:", e)
        else:
            require(codes_valid(stabs, logs), "an invalid code is accepted", signed)
    return [f"qubits {n}", "signed" if "-" in "".join(signed) else "unsigned"]
