"""Generated error tables (as JSON) and their reading by an own model."""
import warnings

import pandas as pd
from hypothesis import strategies as st
from plaquette.errors import ErrorData

from . import circ, codes
from .p13 import PAIRS

COLUMNS = ["X", "Y", "Z", "erasure", "measurement"]
ONE, TWO = ["H", "M", "R"], ["CX", "CZ"]
PROBS = st.one_of(circ.probs(), st.floats(0, 1), st.floats(0, 1e-3))


def places(c):
    """(data qubits, stabiliser qubits, gates (stabiliser, data))"""
    n, ns = c.n_data_qubits, c.n_stabgens
    pairs = [(n + j, i) for j, s in enumerate(codes.strings(c.stabilisers))
             for i, x in enumerate(s) if x != "I"]
    return list(range(n)), list(range(n, n + ns)), pairs


@st.composite
def gate_rows(draw, c, most=5):
    """Rows [gate, qubits, errors, probabilities]."""
    _, stab, pairs = places(c)
    out = []
    for _ in range(draw(st.integers(0, most))):
        g = draw(st.sampled_from(ONE + TWO))
        names = draw(st.lists(st.sampled_from(
            PAIRS if g in TWO else list("xyz")), unique=True, min_size=1, max_size=4))
        ps = draw(circ.simplex(len(names)))
        if draw(st.booleans()):
            names = [x.upper() for x in names]
        where = draw(st.lists(st.sampled_from(pairs if g in TWO else stab), min_size=1,
                              max_size=4))
        out.append([g, [x for p in where for x in p] if g in TWO else where, names, ps])
    return out


@st.composite
def values(draw, k):
    """k probabilities, made from few different ones."""
    pool = draw(st.lists(PROBS, min_size=1, max_size=4))
    mul, off = draw(st.integers(1, 7)), draw(st.integers(0, 3))
    return [pool[(i * mul + i // 3 + off) % len(pool)] for i in range(k)]


@st.composite
def qubit_table(draw, c, most=5):
    cols = draw(st.lists(st.sampled_from(COLUMNS), unique=True, max_size=most))
    return {x: draw(values(c.n_data_qubits + c.n_stabgens)) for x in cols}


def frame(c, table, rows=None):
    """DataFrame with the columns of the documentation."""
    n, ns = c.n_data_qubits, c.n_stabgens
    rows = range(n + ns) if rows is None else rows
    name = "ancilla" if (n + ns + len(table)) % 3 == 0 else "stab"  # both are known
    d = dict(qubit_id=list(rows),
             qubit_type=["data" if i < n else name for i in rows])
    d |= {k: [v[i] for i in rows] for k, v in table.items()}
    return pd.DataFrame(d)


def gate_frame(rows):
    return pd.DataFrame(rows, columns=["gate", "on_qubits", "induced_errors", "probs"])


def qubit_dict(c, table, enabled):
    data, stab, _ = places(c)
    out = {}
    for k, v in table.items():
        if k not in enabled:
            continue
        if k in "XYZ":
            for i in data:
                out.setdefault("pauli", {}).setdefault(i, {})[k.lower()] = v[i]
        else:
            out[k] = {i: dict(p=v[i]) for i in (data if k == "erasure" else stab)}
    return out


def gate_dict(rows, enabled):
    out = {}
    for g, qs, names, ps in rows:
        if g not in enabled:
            continue
        keys = list(zip(qs[::2], qs[1::2])) if g in TWO else qs
        for k in keys:
            out.setdefault(g, {})[k] = {x.lower(): p for x, p in zip(names, ps)}
    return out


def plain(d):
    """Dictionary with Python numbers."""
    if isinstance(d, dict):
        return {plain(k): plain(v) for k, v in d.items()}
    if isinstance(d, tuple):
        return tuple(plain(x) for x in d)
    return d.item() if hasattr(d, "item") else d


def same(a, b, tol=0.0):
    """Equal dictionaries of numbers (up to a relative tolerance)."""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, float) and isinstance(b, (int, float)):
        return abs(a - b) <= tol * max(abs(a), abs(b))
    return a == b


def quiet():
    warnings.simplefilter("ignore")


def make(c, table, rows, via):
    """Error data entered in one of the documented ways."""
    quiet()
    if via == "frame":
        return ErrorData(qubit_errors=frame(c, table), gate_errors=gate_frame(rows))
    if via == "update":
        ed = ErrorData()
        ed.update(frame(c, table), gate_frame(rows))
        return ed
    ed = ErrorData.from_lattice(c.lattice)
    for k, v in table.items():
        ids = list(range(len(v)))
        if via == "reversed":
            ids.reverse()
        if k in "XYZ":
            ed.update_qubit_error(ids, k, [v[i] for i in ids])
        else:
            ed.add_qubit_error(ids, k, [v[i] for i in ids])
    ed.enabled_qubit_errors = set(table)
    for r in rows:
        ed.add_gate_error(*r)
    return ed
