"""P02: conversions between the representations of Pauli operators."""
import io
import re

import numpy as np
from hypothesis import strategies as st
from plaquette import pauli

from . import q
from .harness import Prop, require

PROP = Prop(
    "P02",
    "Pauli operators on 1-60 qubits in all textual, dictionary and binary forms, "
    "padding, tensor products, and malformed strings made by random text and by "
    "editing valid strings; non-trivial: operator with identity and non-identity "
    "factors, or a string which is rejected; oracle: direct construction of bits and "
    "the documented grammar",
)
sizes = st.one_of(st.integers(1, 4), st.integers(1, 14), st.integers(11, 60))
chars = sizes.flatmap(lambda n: st.one_of(
    st.text("IXYZ", min_size=n, max_size=n), st.text("IIIIX", min_size=n, max_size=n),
    st.text("IIIIIZY", min_size=n, max_size=n)))


def mixed(c):
    return 0 < c.count("I") < len(c)


def same(r, c, s, what):
    require(isinstance(r, np.ndarray) and r.ndim == 1, what, "is", r)
    require(r.shape == (2 * len(c) + 1,) and (r == q.row(c, s)).all(), what, "is",
            r.tolist(), "instead of", c, s)


@PROP.part("text", st.fixed_dictionaries(dict(
    c=chars, s=st.sampled_from(["", "+", "-"]), pad=st.integers(0, 5),
    order=st.randoms(use_true_random=False).map(lambda r: r.randrange(10**6)),
    gap=st.integers(0, 2), ids=st.booleans())), 1500)
def text(case):
    c, sgn = case["c"], case["s"]
    s, n = int(sgn == "-"), len(case["c"])
    total = n + case["pad"]
    same(pauli.string_to_pauli(sgn + c), c, s, "canonical text")
    same(pauli.string_to_pauli(sgn + c, total), c + "I" * case["pad"], s,
         "padded canonical text")
    sep = ["", " ", "_"][case["gap"]]
    same(pauli.string_to_pauli(sgn + sep + sep.join(c)), c, s, "spaced text")
    # short form, in any order
    terms = [f"{o}{i}" for i, o in enumerate(c) if o != "I" or case["ids"]]
    rng = np.random.default_rng(case["order"])
    terms = [terms[i] for i in rng.permutation(len(terms))]
    if terms:
        used = max(int(t[1:]) for t in terms) + 1
        short = sgn + sep + sep.join(terms)
        same(pauli.string_to_pauli(short), c[:used], s, f"short text {short!r}")
        same(pauli.string_to_pauli(short, total), c + "I" * case["pad"], s,
             f"padded short text {short!r}")
        if used > 1:
            try:
                r = pauli.string_to_pauli(short, used - 1)
            except ValueError:
                pass
            else:
                require(False, short, "fits on", used - 1, "qubits:", r.tolist())
    # back to text
    out = pauli.pauli_to_string(q.row(c, s))
    require(out == "+-"[s] + c, "text form", out)
    out = pauli.pauli_to_string(q.row(c, s), show_identities=False)
    want = "+-"[s] + "".join(f" {o}{i}" for i, o in enumerate(c) if o != "I")
    require(out == want, "short text form", out, "instead of", want)
    if set(c) != {"I"}:
        same(pauli.string_to_pauli(out, n), c, s, "short text read back")
    return dict(nt=mixed(c), labels=["identity"] if set(c) == {"I"} else [])


@PROP.part("dict", st.fixed_dictionaries(dict(
    c=chars, s=st.integers(0, 1), pad=st.integers(0, 5), order=st.integers(0, 10**6),
    ids=st.booleans())), 1000)
def dicts(case):
    c, n = case["c"], len(case["c"])
    d = {i: o for i, o in enumerate(c) if o != "I"}
    got = pauli.pauli_to_dict(q.row(c, case["s"]))
    require(dict(got) == d, "dictionary", got, "instead of", d)
    full = dict(enumerate(c)) if case["ids"] else d
    keys = list(full)
    rng = np.random.default_rng(case["order"])
    shuffled = {keys[i]: full[keys[i]] for i in rng.permutation(len(keys))}
    copy = dict(shuffled)
    same(pauli.dict_to_pauli(shuffled, n + case["pad"]), c + "I" * case["pad"], 0,
         "operator from dictionary")
    used = max(shuffled, default=-1) + 1
    same(pauli.dict_to_pauli(shuffled), c[:used], 0, "operator from dictionary")
    require(shuffled == copy, "the dictionary was modified")
    for bad in ({-1: "X"}, {0: "x"}, {0: "W"}, {1: "XX"}, {0: ""}):
        try:
            r = pauli.dict_to_pauli(shuffled | bad, n + 3)
        except (ValueError, IndexError, TypeError):
            continue
        require(False, bad, "is accepted as", r.tolist())
    if used:
        try:
            r = pauli.dict_to_pauli(shuffled, used - 1)
        except (ValueError, IndexError):
            pass
        else:
            require(False, shuffled, "fits on", used - 1, "qubits:", r.tolist())
    return dict(nt=mixed(c))


@PROP.part("pad-join", st.fixed_dictionaries(dict(
    ops=st.lists(st.tuples(chars, st.integers(0, 1)).map(list), min_size=1,
                 max_size=4), pad=st.integers(-3, 6))), 700)
def pad_join(case):
    rows = [q.row(*o) for o in case["ops"]]
    before = [r.copy() for r in rows]
    c, s = case["ops"][0]
    same(pauli.pad_operator(rows[0], len(c) + case["pad"]),
         c + "I" * max(0, case["pad"]), s, "padded operator")
    whole = "".join(o[0] for o in case["ops"])
    sign = sum(o[1] for o in case["ops"]) % 2
    same(np.asarray(pauli.tensor_product(*rows)), whole, sign, "tensor product")
    require(all((a == b).all() for a, b in zip(rows, before)), "operand modified")
    xs, zs, r = pauli.unpack_tableau(rows[0])
    require([int(v) for v in xs] == [int(o in "XY") for o in c], "x half", xs)
    require([int(v) for v in zs] == [int(o in "ZY") for o in c], "z half", zs)
    require(int(r) == s, "sign", r)
    require(list(pauli.count_qubits(rows)) == [len(o[0]) for o in case["ops"]],
            "numbers of qubits", pauli.count_qubits(rows))
    got = list(pauli.count_qubits(rows, include_identities=False))
    require(got == [len(o[0]) - o[0].count("I") for o in case["ops"]],
            "numbers of acting qubits", got)
    require(list(pauli.count_qubits(rows[0])) == [len(c)], "number of qubits")
    return dict(nt=len(case["ops"]) > 1 and mixed(whole))


@PROP.part("table", sizes.flatmap(lambda n: st.fixed_dictionaries(dict(
    n=st.just(n), ops=st.lists(st.tuples(st.text("IXYZ", min_size=n, max_size=n),
                                         st.integers(0, 1)).map(list),
                               min_size=2 * min(n, 5), max_size=2 * min(n, 5))))),
    300)
def table(case):
    n = case["n"]
    t = np.array([q.row(*o) for o in case["ops"]])
    xs, zs, r = pauli.unpack_tableau(t)
    for i, (c, s) in enumerate(case["ops"]):
        require([int(v) for v in xs[i]] == [int(o in "XY") for o in c], "x half")
        require([int(v) for v in zs[i]] == [int(o in "ZY") for o in c], "z half")
        require(int(r[i]) == s, "sign")
    for bad in (t[:, :-1], t[0, 1:], t[None], np.array(0, dtype=t.dtype)):
        try:
            pauli.unpack_tableau(bad)
        except ValueError:
            continue
        require(False, "an array of shape", bad.shape, "is split into halves and signs")
    require(list(pauli.count_qubits(t)) == [n], "number of qubits")
    got = [int(v) for v in pauli.count_qubits(t, include_identities=False)]
    require(got == [n - o[0].count("I") for o in case["ops"]], "acting qubits", got)
    if len(t) == 2 * n:
        for ids in (True, False):
            d, s = pauli.state_to_stabiliser_string(t, ids)
            want = [pauli.pauli_to_string(x, ids) for x in t]
            require(list(d) == want[:n] and list(s) == want[n:], "state as text", d, s)
            for both in (True, False):
                out = io.StringIO()
                pauli.pprint_state(t, ids, both, file=out)
                lines = [x for x in out.getvalue().splitlines() if x[:1] in "+-"]
                require(lines == want[n * (not both):], "printed state", lines)
    return dict(nt=len(set(map(tuple, case["ops"]))) > 1)


@PROP.part("single", st.fixed_dictionaries(dict(
    op=st.sampled_from([s + p for s in ("", "+", "-") for p in "XYZ"]),
    n=st.integers(1, 40), i=st.integers(-2, 42))), 300)
def single(case):
    op, n, i = case["op"], case["n"], case["i"]
    try:
        r = pauli.single_qubit_pauli_operator(op, i, n)
    except ValueError:
        require(not 0 <= i < n, "valid single-qubit operator refused")
        return dict(nt=True, labels=["refused"])
    require(0 <= i < n, "qubit", i, "of", n, "accepted")
    same(r, q.single(op[-1], i, n), int(op[0] == "-"), "single-qubit operator")
    return dict(nt=n > 1)


def grammar(text):
    """(string, sign, short) of a text by the documented grammar, else None."""
    t = text.replace(" ", "").replace("_", "")
    m = re.fullmatch("([-+]?)([IXYZ]+)", t)
    if m:
        return m[2], int(m[1] == "-"), False
    m = re.fullmatch("([-+]?)((?:[IXYZ][0-9]+)+)", t)
    if not m:
        return None
    terms = re.findall("([IXYZ])([0-9]+)", m[2])
    idx = [int(i) for _, i in terms]
    if len(set(idx)) < len(idx) or max(idx) > 5000:
        return None
    c = ["I"] * (max(idx) + 1)
    for o, i in terms:
        c[int(i)] = o
    return "".join(c), int(m[1] == "-"), True


@st.composite
def edited(draw):
    c = draw(st.text("IXYZ", min_size=1, max_size=6))
    if draw(st.booleans()):
        terms = [f"{o}{draw(st.integers(0, 12))}" for o in c]
        c = "".join(terms)
    s = list(draw(st.sampled_from(["", "+", "-"])) + c)
    for _ in range(draw(st.integers(0, 2))):
        k = draw(st.integers(0, len(s)))
        ch = draw(st.sampled_from("IXYZ+-0123456789 _xyzi*.,;:#AW\n\té²"))
        if s and draw(st.booleans()):
            s[min(k, len(s) - 1)] = ch
        else:
            s.insert(k, ch)
    return "".join(s)


@PROP.part("malformed", st.fixed_dictionaries(dict(t=st.one_of(
    edited(), st.text("IXYZ+-019 _xW", max_size=7), st.text(max_size=5)))), 3000,
    examples=[dict(t=t) for t in ("", "+", "-", " ", "X1X1", "X1Z", "1X", "X-Z",
                                  "--X", "XYa", "x", "X1.5", "X1\n", "+-X0")])
def malformed(case):
    t = case["t"]
    dense = t.replace(" ", "").replace("_", "")
    if max([int(v) for v in re.findall("[0-9]+", dense)], default=0) > 5000:
        return False
    want = grammar(t)
    try:
        got = pauli.string_to_pauli(t)
    except Exception as e:
        require(want is None, repr(t), "is refused:", repr(e))
        return dict(nt=True, labels=["refused"])
    require(want is not None, repr(t), "is read as", got.tolist())
    same(got, want[0], want[1], repr(t))
    return dict(nt=mixed(want[0]), labels=["accepted"])
