"""P01: products, phases and commutators of Pauli operators."""
import numpy as np
from hypothesis import strategies as st
from plaquette import pauli

from . import q
from .harness import Prop, known, require

PROP = Prop(
    "P01",
    "signed Pauli operators (1-40 qubits) and lists of them; non-trivial: the "
    "product has at least two non-identity factors on a common qubit, or the "
    "commutator table has both values; oracle: symbol-by-symbol multiplication "
    "table and dense matrices up to 3 qubits",
    ["numpy's complex arithmetic on units is exact"],
)


def ops(n, lo, hi):
    one = st.tuples(st.text("IXYZ", min_size=n, max_size=n), st.integers(0, 1))
    return st.lists(one.map(list), min_size=lo, max_size=hi)


sizes = st.one_of(st.integers(1, 3), st.integers(1, 12), st.integers(13, 40))


def unit(phase):
    for k in range(4):
        if abs(phase - q.ROOTS[k]) < 1e-9:
            return k
    require(False, "phase", phase, "is no fourth root of unity")


def check_result(res, chars, k, what):
    r, phase = res
    r = np.asarray(r)
    require(r.shape == (2 * len(chars) + 1,), what, "has shape", r.shape)
    got, sign = q.unrow(r)
    require(got == chars, what, "is", got, "instead of", chars)
    require(unit(phase) == k, what, "has phase", phase, "instead of", q.ROOTS[k])
    require(sign == (k >= 2), what, "has sign bit", sign, "for phase", phase)


def overlap(case_ops):
    return any(
        sum(c != "I" for c in col) >= 2 for col in zip(*(o[0] for o in case_ops))
    )


@PROP.part(
    "pair", sizes.flatmap(lambda n: st.fixed_dictionaries(
        dict(ops=ops(n, 2, 2), k=st.integers(0, 3)))), 1500)
def pair(case):
    (a, s), (b, t) = case["ops"]
    rows = [q.row(a, s), q.row(b, t)]
    before = [r.copy() for r in rows]
    kw = {} if case["k"] == 0 else dict(initial_phase=q.ROOTS[case["k"]])
    res = pauli.multiply(*rows, **kw)
    chars, e = q.pmul((a, 2 * s), (b, 2 * t))
    if len(a) <= 3:  # the table itself, against matrices
        m = (-1) ** (s + t) * q.dense(a) @ q.dense(b)
        assert np.allclose(m, q.ROOTS[e] * q.dense(chars))
    check_result(res, chars, (e + case["k"]) % 4, "product")
    for r, r0 in zip(rows, before):
        require((r == r0).all(), "an operand was modified")
    # the reversed product differs by the commutator sign
    back = pauli.multiply(rows[1], rows[0], **kw)
    check_result(back, chars, (e + case["k"] + 2 * q.anticommute(a, b)) % 4,
                 "reversed product")
    comm = np.asarray(pauli.commutator_sign(rows[0], rows[1]))
    require(comm.size == 1 and int(comm) == q.anticommute(a, b), "commutator", comm)
    return dict(nt=overlap(case["ops"]), labels=[f"phase {e}"])


def fold(op_list):
    """The recorded defect: signs of partial products count twice."""
    acc, phase = op_list[-1], None
    for o in reversed(op_list[:-1]):
        chars, e = q.pmul((o[0], 2 * o[1]), (acc[0], 2 * acc[1]))
        phase = (e + (phase or 0)) % 4
        acc = (chars, int(phase >= 2))
    return acc[0], phase


@PROP.part(
    "many", sizes.flatmap(lambda n: st.fixed_dictionaries(dict(ops=ops(n, 3, 7)))),
    800, examples=[dict(ops=[["XY", 0], ["YZ", 0], ["ZX", 0]])])
def many(case):
    rows = [q.row(a, s) for a, s in case["ops"]]
    before = [r.copy() for r in rows]
    r, phase = pauli.multiply(*rows)
    for x, r0 in zip(rows, before):
        require((x == r0).all(), "an operand was modified")
    acc = ("I" * len(case["ops"][0][0]), 0)
    for a, s in case["ops"]:
        acc = q.pmul(acc, (a, 2 * s))
    labels = []
    got = q.unrow(r)
    if (got[0], unit(phase)) == acc and got[1] == (acc[1] >= 2):
        labels.append("right")
    elif (chars_k := fold(case["ops"])) == (got[0], unit(phase)) and got[1] == (
        chars_k[1] >= 2
    ):
        labels += known("P01-partial-signs",
                        f"product {got}, phase {phase} instead of {acc}")
    else:
        check_result((r, phase), acc[0], acc[1], "product")
    return dict(nt=overlap(case["ops"]), labels=labels)


@PROP.part(
    "long", st.integers(1, 8).flatmap(lambda n: st.fixed_dictionaries(
        dict(ops=ops(n, 2, 2), rep=st.integers(20, 90), k=st.integers(0, 3)))), 120)
def long(case):
    return pair(dict(k=case["k"], ops=[[a * case["rep"], s] for a, s in case["ops"]]))


@PROP.part(
    "single", sizes.flatmap(lambda n: st.fixed_dictionaries(dict(ops=ops(n, 1, 1)))),
    150)
def single(case):
    a, s = case["ops"][0]
    check_result(pauli.multiply(q.row(a, s)), a, 2 * s, "product of one")
    return dict(nt=a.count("I") < len(a))


@PROP.part(
    "tables", sizes.flatmap(lambda n: st.fixed_dictionaries(
        dict(a=ops(n, 1, 6), b=ops(n, 1, 6), form=st.integers(0, 3)))), 700)
def tables(case):
    a, b = case["a"], case["b"]
    ra, rb = (np.array([q.row(*o) for o in x]) for x in (a, b))
    args = [ra, rb]
    if case["form"] & 1:
        args[0] = list(ra)
    if case["form"] & 2:
        args[1] = list(rb)
    want = np.array([[q.anticommute(x[0], y[0]) for y in b] for x in a])
    got = np.asarray(pauli.commutator_sign(*args))
    require(got.size == want.size and (got == want.squeeze()).all(),
            "commutators", got.tolist(), "instead of", want.tolist())
    require((ra == [q.row(*o) for o in a]).all(), "first operand modified")
    require((rb == [q.row(*o) for o in b]).all(), "second operand modified")
    if len(a) == 1:
        got = np.asarray(pauli.commutator_sign(ra[0], rb))
        require((got == want.squeeze()).all(), "1D operator", got.tolist())
    if len(a) % 2 == 0 and len(b) % 2 == 0:
        got = np.asarray(pauli.commutator_sign(ra, rb, ignore_destabilisers=True))
        sub = want[len(a) // 2:, len(b) // 2:]
        require(got.size == sub.size and (got == sub.squeeze()).all(),
                "commutators of stabilisers", got.tolist())
    return dict(nt=0 < want.sum() < want.size, labels=[f"forms {case['form']}"])


@PROP.part(
    "apply", sizes.flatmap(lambda n: st.fixed_dictionaries(
        dict(state=ops(n, 1, 6), op=ops(n, 1, 1), rows=st.booleans(),
             more=ops(n, 6, 6)))), 500)
def apply(case):
    state = np.array([q.row(*o) for o in case["state"]])
    if case["rows"]:
        left = case["more"][: len(state)]
        arg = np.array([q.row(*o) for o in left])
    else:
        left = case["op"] * len(state)
        arg = q.row(*case["op"][0])
    before = state.copy(), arg.copy()
    got = pauli.apply_operator(arg, state)
    require(got.shape == state.shape, "shape", got.shape)
    for r, o, s in zip(got, left, case["state"]):
        chars, k = q.pmul((o[0], 2 * o[1]), (s[0], 2 * s[1]))
        require(q.unrow(r) == (chars, int(k >= 2)), "row", q.unrow(r), "instead of",
                chars, k)
    require((state == before[0]).all() and (arg == before[1]).all(),
            "an operand was modified")
    return dict(nt=len(state) > 1, labels=["rows" if case["rows"] else "single"])
