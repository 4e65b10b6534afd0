"""P03: Clifford gates act on tableaux as conjugation."""
import itertools

import numpy as np
from hypothesis import strategies as st
from plaquette import pauli

from . import q
from .harness import Prop, require

PROP = Prop(
    "P03",
    "tableaux of 1-12 arbitrary signed operators on 1-40 qubits and gate sequences "
    "with targets as numbers, lists, tuples and arrays; non-trivial: a gate changes "
    "an operator other than by a sign; oracle: conjugation tables computed from "
    "the gates' unitary matrices",
)
CXM = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], dtype=complex)
CZM = np.diag([1, 1, 1, -1]).astype(complex)


def conj_table(u, k):
    """{string: (string, sign)} for conjugation with a k-qubit unitary."""
    out = {}
    strings = ["".join(c) for c in itertools.product("IXYZ", repeat=k)]
    for s in strings:
        m = u @ q.dense(s) @ u.conj().T
        for t in strings:
            v = np.trace(m @ q.dense(t)) / 2**k
            if abs(v) > 0.5:
                out[s] = (t, int(v.real < 0))
    return out


TABLE = {g: conj_table(u, 1) for g, u in q.GATES1.items()}
TABLE["CX"], TABLE["CZ"] = conj_table(CXM, 2), conj_table(CZM, 2)
INVERSE = {"S": ["S"] * 3}


def conjugate(op, gate, qs):
    """Reference: a signed string after a gate that is broadcast over targets."""
    c, s = list(op[0]), op[1]
    k = 2 if gate in ("CX", "CZ") else 1
    for i in range(0, len(qs), k):
        t = qs[i : i + k]
        r, d = TABLE[gate]["".join(c[j] for j in t)]
        for j, o in zip(t, r):
            c[j] = o
        s ^= d
    return ["".join(c), s]


FUN = {"H": ("hadamard", "h"), "S": ("phase_gate",), "X": ("x",), "Y": ("y",),
       "Z": ("z",), "CX": ("control_not_gate", "cx"),
       "CZ": ("control_phase_gate", "cz")}


def fmt(qs, form):
    if form == "int" and len(qs) == 1:
        return qs[0]
    return {"tuple": tuple, "array": np.array}.get(form, list)(qs)


def call(state, gate, qs, form, alias=0):
    f = getattr(pauli, FUN[gate][alias % len(FUN[gate])])
    if gate in ("CX", "CZ"):
        return f(state, fmt(qs[::2], form), fmt(qs[1::2], form))
    if gate in "HXYZ" and form == "iter":
        return f(state, iter(qs))
    return f(state, fmt(qs, form))


@st.composite
def gates(draw, n, lo=1, hi=6):
    out = []
    for _ in range(draw(st.integers(lo, hi))):
        names = ["H", "S", "X", "Y", "Z"] + (["CX", "CZ"] * 2 if n > 1 else [])
        g = draw(st.sampled_from(names))
        if g in ("CX", "CZ"):
            qs = draw(st.lists(st.integers(0, n - 1), min_size=2,
                               max_size=min(n, 6), unique=True))
            qs = qs[: len(qs) // 2 * 2]
            if draw(st.booleans()) and n > 2:  # pairs that share a qubit
                qs += [qs[1], draw(st.sampled_from([k for k in range(n)
                                                    if k != qs[1]]))]
        else:
            qs = draw(st.lists(st.integers(0, n - 1), min_size=0 if g == "H" else 1,
                               max_size=min(n, draw(st.sampled_from([5] * 6 + [30]))),
                               unique=draw(st.booleans())))
        out.append([g, qs, draw(st.sampled_from(["int", "list", "tuple", "array", "iter"])),
                    draw(st.integers(0, 1))])
    return out


sizes = st.one_of(st.integers(1, 3), st.integers(2, 8), st.integers(9, 40))


@st.composite
def tables(draw):
    n = draw(sizes)
    one = st.tuples(st.text("IXYZ", min_size=n, max_size=n), st.integers(0, 1))
    rows = draw(st.lists(one.map(list), min_size=1, max_size=6))
    return dict(n=n, rows=rows, gates=draw(gates(n)))


@PROP.part("conjugation", tables(), 1600, shards=2)
def conjugation(case):
    rows = [list(r) for r in case["rows"]]
    state = np.array([q.row(*r) for r in rows])
    changed = False
    for g, qs, form, alias in case["gates"]:
        state = call(state, g, qs, form, alias)
        new = [conjugate(r, g, qs) for r in rows]
        changed |= any(a[0] != b[0] for a, b in zip(new, rows))
        rows = new
        want = np.array([q.row(*r) for r in rows])
        require(isinstance(state, np.ndarray) and state.shape == want.shape,
                g, qs, "returns", state)
        require((state == want).all(), g, qs, "gives", state.tolist(),
                "instead of", want.tolist())
    return dict(nt=changed, labels=sorted({g[0] for g in case["gates"]}))


@PROP.part("inverse", tables(), 400)
def inverse(case):
    state = np.array([q.row(*r) for r in case["rows"]])
    before = state.copy()
    for g, qs, form, alias in case["gates"]:
        state = call(state, g, qs, form, alias)
    moved = bool((state != before).any())
    for g, qs, form, alias in reversed(case["gates"]):
        if g in ("CX", "CZ"):
            qs = [v for p in reversed(list(zip(qs[::2], qs[1::2]))) for v in p]
        for h in INVERSE.get(g, [g]):
            state = call(state, h, qs, form, alias)
    require((state == before).all(), "inverse gates give", state.tolist(),
            "instead of", before.tolist())
    return dict(nt=moved)


@st.composite
def runs(draw):
    n = draw(st.integers(1, 6))
    return dict(n=n, gates=draw(gates(n, 1, 25)))


@PROP.part("state", runs(), 500)
def state_vector(case):
    """Gates on |0...0>: the tableau stays valid and stabilises the state vector."""
    n = case["n"]
    state, v = pauli.zero_state(n), q.zero(n)
    require(state.shape == (2 * n, 2 * n + 1), "zero state has shape", state.shape)
    for g, qs, form, alias in [["X", [], "list", 0]] + case["gates"]:
        if qs:
            state = call(state, g, qs, form, alias)
            v = q.apgate(v, g, qs)
        bad = q.check_tableau(state)
        require(bad is None, "after", g, qs, "the tableau is invalid:", bad)
    for r in state[n:]:
        c, s = q.unrow(r)
        require(q.stabilised(v, c, s), "-" * s + c, "does not stabilise the state")
    return dict(nt=len({g[0] for g in case["gates"]} & {"CX", "CZ"}) > 0)


@PROP.part("range", st.fixed_dictionaries(dict(
    n=st.integers(1, 6), g=st.sampled_from("XYZ"), over=st.integers(0, 3))), 60)
def target_range(case):
    state = pauli.zero_state(case["n"])
    try:
        call(state, case["g"], [case["n"] + case["over"]], "list")
    except IndexError:
        require((state == pauli.zero_state(case["n"])).all(), "the state changed")
        return True
    require(False, "a target beyond the last qubit is accepted")
