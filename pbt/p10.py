"""P10: codes built from given operators."""
import itertools

import numpy as np
from hypothesis import strategies as st
from plaquette import pauli
from plaquette.codes import LatticeCode, StabilizerCode
from plaquette.codes import latticebase as lb

from . import codes, q
from .harness import Prop, require
from .p09 import layout, symp

PROP = Prop(
    "P10",
    "random valid codes (images of trivial ones under random Clifford gates, also with "
    "redundant stabilisers) with up to two operators spoiled or replaced by random "
    "ones, built in every documented way; non-trivial: at least two qubits and two "
    "stabilisers or a spoiled code; oracle: commutators symbol by symbol and rank over "
    "GF(2)",
    ["stabilisers have positive signs: lattices do not keep signs"],
)


@st.composite
def specs(draw, max_n=8):
    d = draw(codes.custom(max_n))
    n = d["n"]
    some = st.text("IXYZ", min_size=n, max_size=n)
    rows = [*d["stabs"], *d["logs"]]
    ns = len(d["stabs"])
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2, 2]))):
        i = draw(st.integers(0, len(rows) - 1))
        old = (rows[:], ns)
        how = draw(st.sampled_from(["one", "random", "swap", "logical", "sum", "drop"]))
        if how == "one":
            j = draw(st.integers(0, n - 1))
            rows[i] = rows[i][:j] + draw(st.sampled_from("IXYZ")) + rows[i][j + 1 :]
        elif how == "random":
            rows[i] = draw(some)
        elif how == "swap":
            j = draw(st.integers(0, len(rows) - 1))
            rows[i], rows[j] = rows[j], rows[i]
        elif how == "logical":  # multiply with another operator
            j = draw(st.integers(0, len(rows) - 1))
            rows[i] = q.pmul((rows[i], 0), (rows[j], 0))[0]
        elif how == "sum":  # a redundant stabiliser
            j = draw(st.integers(0, ns - 1))
            rows.insert(ns, q.pmul((rows[0], 0), (rows[j], 0))[0])
            ns += 1
        elif how == "drop" and ns > 1:
            rows.pop(0)
            ns -= 1
        if any(set(r) == {"I"} for r in rows):
            rows, ns = old  # the identity is no operator of a code
    d.update(signs=draw(st.integers(0, 2**40)), stabs=rows[:ns], logs=rows[ns:], via=draw(st.sampled_from(
        ["operators", "tableaux", "lattice", "dicts", "latticecode"])))
    return d


def verdict(stabs, logs):
    """(commutation relations hold, rank is right)"""
    n = len(stabs[0])
    ok = not any(q.anticommute(a, b) for a, b in itertools.combinations(stabs, 2))
    ok &= not any(q.anticommute(a, b) for a in stabs for b in logs)
    ok &= all(
        q.anticommute(logs[i], logs[j]) == (i // 2 == j // 2 and i != j)
        for i in range(len(logs)) for j in range(len(logs)))
    rank = q.rank2([symp(c) for c in stabs])
    return ok, rank == n - len(logs) // 2


def build(case):
    n, r = len(case["stabs"][0]), case["rounds"]
    to = {
        "dicts": lambda s: pauli.dict_to_pauli(
            {i: c for i, c in enumerate(s) if c != "I"} or {0: "I"}, n),
    }.get(case["via"], lambda s: pauli.string_to_pauli(s, n))
    if case["via"] in ("lattice", "latticecode"):
        lat = lb.CodeLatticeFromStab(n, case["stabs"], case["logs"])
        if case["via"] == "lattice":
            return StabilizerCode.from_codelattice(lat)
        return LatticeCode(lat, r)
    rows = [[q.row(s) for s in x] if case["via"] == "tableaux" else [to(s) for s in x]
            for x in (case["stabs"], case["logs"])]
    return LatticeCode.from_operators(*rows, n_rounds=r)


def passes(f, **kw):
    try:
        f(**kw)
    except AssertionError:
        return False
    return True


@PROP.part("build", specs(), 500, shards=2, thorough=15)
def one(case):
    stabs, logs = case["stabs"], case["logs"]
    n, k = len(stabs[0]), len(logs) // 2
    c = build(case)
    require(codes.strings(c.stabilisers) == stabs, "stabilisers are",
            codes.strings(c.stabilisers))
    require(codes.strings(c.logical_ops) == logs, "logical operators are",
            codes.strings(c.logical_ops))
    require(codes.strings(c.logical_x) == logs[::2] and
            codes.strings(c.logical_z) == logs[1::2], "logical X and Z operators")
    require((c.n_data_qubits, c.n_stabgens, c.n_logical_qubits, c.n_logical_ops,
             c.n_ext_qubits) == (n, len(stabs), k, 2 * k, n + len(stabs) + 2 * k),
            "numbers of qubits and operators")
    if isinstance(c, LatticeCode):
        require(c.n_rounds == case["rounds"], "the code has", c.n_rounds, "rounds")
        layout(c, stabs, logs)
    ok, rank = verdict(stabs, logs)
    require(passes(c.check) == ok, "the check", "fails" if ok else "passes")
    require(passes(c.check, rank=True) == (ok and rank), "the check with rank",
            "fails" if ok and rank else "passes")
    # an operator set by hand is seen by the check
    c2 = StabilizerCode([q.row(s) for s in stabs], [q.row(s) for s in logs])
    require(passes(c2.check) == ok and passes(c2.check, rank=True) == (ok and rank),
            "the checks of equal codes differ")
    require(c == c2 and c2 == c, "codes with the same operators differ")
    # neither commutation nor the rank depend on signs
    bits = case["signs"]
    c3 = StabilizerCode([q.row(s, bits >> i & 1) for i, s in enumerate(stabs)],
                        [q.row(s, bits >> i + 20 & 1) for i, s in enumerate(logs)])
    require(passes(c3.check) == ok and passes(c3.check, rank=True) == (ok and rank),
            "the checks of operators with signs differ")
    return dict(nt=n > 1 and (len(stabs) > 1 or not ok),
                labels=[f"valid {ok}", f"rank {rank}", case["via"], f"k {k}"])


@PROP.part("equal", st.tuples(specs(4), specs(4), st.integers(0, 999)).map(list), 300)
def equal(case):
    """Codes are equal exactly when their operators are."""
    a, b, k = case
    x = build(a)
    near = dict(a, stabs=list(a["stabs"]), logs=list(a["logs"]))
    ops = near["stabs"] if k % 2 else near["logs"]
    i = k // 2 % len(ops)
    j = k // 4 % len(ops[0])
    ops[i] = ops[i][:j] + "XYZ"[k % 3] + ops[i][j + 1 :]
    perm = dict(a, stabs=a["stabs"][::-1])
    more = dict(a, stabs=a["stabs"] + [a["stabs"][0]])
    others = [a, b, near, perm, more, dict(a, rounds=a["rounds"] + 1),
              dict(a, logs=a["logs"][::-1])]
    if len(a["stabs"]) > 1:
        others.append(dict(a, stabs=a["stabs"][:-1]))
    if len(a["logs"]) > 2:
        others += [dict(a, logs=a["logs"][:-2]), dict(a, logs=a["logs"][2:])]
    n_equal = 0
    for other in others:
        y = build(other)
        same = (a["stabs"], a["logs"]) == (other["stabs"], other["logs"])
        n_equal += same
        for u, v in ((x, y), (y, x)):
            require((u == v) is same and (u != v) is not same, "codes with operators",
                    a["stabs"], a["logs"], "and", other["stabs"], other["logs"],
                    "are" if u == v else "are not", "equal")
    require(x != "a code" and not x == 1, "the code equals something else")
    rows = [np.array(o) for o in (*x.stabilisers, *x.logical_ops)]
    ns = len(a["stabs"])
    z = StabilizerCode(rows[:ns], rows[ns:])
    require(x == z and z == x, "codes of different classes differ")
    rows[k % len(rows)] = rows[k % len(rows)].copy()
    rows[k % len(rows)][-1] ^= 1
    z = StabilizerCode(rows[:ns], rows[ns:])
    require(x != z and z != x, "operators of opposite signs are equal")
    return dict(labels=[f"{n_equal} equal"])


@st.composite
def selections(draw):
    c = draw(codes.code(4))
    k = dict(toric=2, custom=len(c.get("logs", ())) // 2).get(c["kind"], 1)
    k += draw(st.sampled_from([0, 0, 0, 0, -1, 1]))
    ops = draw(st.one_of(
        st.text("XZ", min_size=k, max_size=k), st.text("XYZIxz0", max_size=3),
        st.lists(st.integers(-1, 2 * k), min_size=k, max_size=k)))
    return dict(code=c, ops=ops)


@PROP.part("indices", selections(), 400)
def indices(case):
    """Selections of logical operators."""
    c = codes.make(case["code"])
    k, ops = c.n_logical_qubits, case["ops"]
    if isinstance(ops, str):
        ok = set(ops) <= set("XZ") and len(ops) == k
        want = [2 * i + "XZ".find(o) for i, o in enumerate(ops)]
    else:
        ok = len(ops) == k and all(0 <= i < 2 * k for i in ops)
        want = ops
    try:
        got = c.logical_ops_to_indices(ops)
    except ValueError as e:
        require(not ok, "valid selection is refused:", e)
        return dict(nt=bool(ops), labels=["refused"])
    require(ok, "invalid selection", ops, "becomes", got)
    require(list(got) == want, "selection", ops, "becomes", got)
    return dict(labels=["accepted"])


@PROP.part("builtin", st.fixed_dictionaries(dict(code=codes.builtin(5))), 60)
def rebuilt(case):
    """A built-in code built again from its operators is the same code."""
    c = codes.make(case["code"])
    d = LatticeCode.from_operators(c.stabilisers, c.logical_ops, c.n_rounds)
    require(c == d, "the code built from the same operators differs")
    require(StabilizerCode.from_codelattice(c.lattice) == c, "from_codelattice")
    np.testing.assert_equal(c.n_ext_qubits, d.n_ext_qubits)
    require(passes(d.check, rank=True), "the check fails")
    layout(d, codes.strings(c.stabilisers), codes.strings(c.logical_ops))
    return True
