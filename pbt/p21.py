"""P21: error data and the dictionaries made from it."""
import copy
import math

from hypothesis import strategies as st
from plaquette.errors import ErrorData

from . import codes, tables
from .harness import Prop, canon, known, require, seed_int
from .p13 import PAIRS
from .tables import ONE, TWO, frame, gate_dict, gate_frame, plain, qubit_dict, same

PROP = Prop(
    "P21",
    "tables with random columns, qubits, gates and probabilities (zero, one, tiny ones) "
    "for built-in and random codes, entered by constructor, updates, additions or "
    "configurations, with random kinds disabled; and the same with one entry spoiled; "
    "non-trivial: at least two kinds; oracle: an own reading of the tables",
)


@st.composite
def specs(draw, size=3):
    code = draw(codes.code(size, 2, max_n=6, css=True))
    c = codes.make(code)
    return dict(code=code, table=draw(tables.qubit_table(c)),
                rows=draw(tables.gate_rows(c)),
                off=draw(st.lists(st.sampled_from(tables.COLUMNS + ONE + TWO),
                                  max_size=draw(st.sampled_from([0, 0, 3])))),
                via=draw(st.sampled_from(["frame", "update", "add", "reversed"])))


@PROP.part("kept", specs(), 250, shards=3, thorough=15)
def kept(case):
    c = codes.make(case["code"])
    table, rows, off = case["table"], case["rows"], set(case["off"])
    ed = tables.make(c, table, rows, case["via"])
    require(ed.enabled_qubit_errors == set(table), "enabled qubit errors are",
            ed.enabled_qubit_errors)
    require(ed.enabled_gate_errors == {r[0] for r in rows}, "enabled gate errors are",
            ed.enabled_gate_errors)
    ed.enabled_qubit_errors -= off
    ed.enabled_gate_errors -= off
    q = qubit_dict(c, table, set(table) - off)
    g = gate_dict(rows, {r[0] for r in rows} - off)
    for got, want in ((ed.qubit_errors_dict, q), (ed.gate_errors_dict, g),
                      (ed.error_data_dict, q | g)):
        require(same(plain(got), want), "error dictionary is", plain(got), "instead of",
                want)
    require(same(plain(ed.error_data_dict), q | g), "the dictionary changes")
    try:
        ed.check_against_code(c)
    except Exception as e:
        require(False, "valid errors are refused:", repr(e))
    ErrorData().check_against_code(c, q | g)
    if case["via"] in ("add", "reversed"):
        require(list(ed.qubit_errors["qubit_id"])
                == list(range(c.n_data_qubits + c.n_stabgens)), "qubits of the table")
    return dict(nt=len(q | g) > 1, labels=[case["via"], case["code"]["kind"],
                                           f"kinds {len(q | g)}", f"off {bool(off)}"])


@PROP.part("partial", st.tuples(specs(), st.lists(st.tuples(
    st.integers(0, 99), tables.PROBS).map(list), max_size=6)).map(list), 150)
def partial(case):
    """Entries for some qubits: the others have no error."""
    case, some = case
    tables.quiet()
    c = codes.make(case["code"])
    m = c.n_data_qubits + c.n_stabgens
    ed = ErrorData(qubit_errors=frame(c, {}))
    ids = list(dict.fromkeys(i % m for i, _ in some))
    ps = [p for _, p in some][: len(ids)]
    for name in ("erasure", "X", "measurement"):
        ed.add_qubit_error(ids, name, ps)
    val = dict(zip(ids, ps))
    table = {k: [val.get(i, 0.0) for i in range(m)] for k in ("erasure", "X",
                                                              "measurement")}
    want = qubit_dict(c, table, table)
    require(same(plain(ed.error_data_dict), want), "error dictionary is",
            plain(ed.error_data_dict), "instead of", want)
    for name in ("erasure", "fabrication"):
        try:
            ed.add_qubit_error(ids, name, ps)
        except ValueError:
            continue
        require(False, "adding", name, "again is accepted")
    for args in ((ids, "Y", ps), (ids, "fabrication", ps), (ids, "X", ps + [0.5]),
                 (ids, "X", 0.5), (0, "X", "a")):
        try:
            ed.update_qubit_error(*args)
        except (ValueError, TypeError):
            continue
        require(False, "update with", args, "is accepted")
    require(same(plain(ed.error_data_dict), want), "refused updates change the data")
    return dict(nt=len(ids) > 1, labels=[f"entries {min(len(ids), 3)}"])


@PROP.part("missing", st.tuples(specs(), st.lists(st.integers(0, 10**4),
                                                  max_size=12)).map(list), 120)
def missing(case):
    """Missing values of a table are ignored."""
    case, gone = case
    tables.quiet()
    c = codes.make(case["code"])
    if not case["table"]:
        return False
    table = {k: list(v) for k, v in case["table"].items()}
    names = sorted(table)
    for g in gone:
        v = table[names[g % len(names)]]
        v[g // 7 % len(v)] = None
    ed = ErrorData(qubit_errors=frame(c, table))
    for k in ("X", "Y", "Z", "erasure", "measurement"):
        require(k not in table or k in ed.enabled_qubit_errors, k, "is not enabled")
    want = qubit_dict(c, table, table)
    for kind, entries in want.items():
        for i, d in entries.items():
            entries[i] = {k: v for k, v in d.items() if v is not None}
        want[kind] = {i: d for i, d in entries.items() if d}
    got = plain(ed.qubit_errors_dict)
    got = {k: {i: d for i, d in v.items() if d} for k, v in got.items()}
    require(same(got, want), "error dictionary is", got, "instead of", want)
    ed.check_against_code(c)
    return dict(nt=len(gone) > 1, labels=[f"missing {min(len(gone), 5)}"])


BAD = [-0.1, -1e-9, 1.0000001, 2.0, 17, math.nan, math.inf, -math.inf]


@PROP.part("spoiled", st.tuples(specs(), st.integers(0, 10**6), st.sampled_from(
    ["value", "key", "kind", "qubit", "type"])).map(list), 300, shards=2, thorough=15)
def spoiled(case):
    """One wrong entry in a dictionary is refused."""
    case, s, what = case
    s = seed_int(s, canon(case))
    c = codes.make(case["code"])
    n, ns = c.n_data_qubits, c.n_stabgens
    d = qubit_dict(c, case["table"], case["table"]) | gate_dict(
        case["rows"], ONE + TWO)
    if not d:
        return False
    d = copy.deepcopy(d)
    kind = sorted(d)[s % len(d)]
    entries = d[kind]
    k = sorted(entries)[s // 7 % len(entries)]
    if what == "value":
        x = sorted(entries[k])[s // 3 % len(entries[k])]
        entries[k][x] = BAD[s // 11 % len(BAD)]
    elif what == "key":
        wrong = [x for x in ["p", "x", "ix", "ii", "w", "X", "q", "zz"]
                 if x not in ("p" if kind in ("erasure", "measurement") else
                              PAIRS if kind in TWO else "xyz")]
        entries[k][wrong[s // 5 % len(wrong)]] = 0.0
    elif what == "kind":
        d[["Pauli", "fabrication", "CY", "X", "", "cx"][s // 5 % 6]] = {}
    else:
        data = kind in ("pauli", "erasure")
        bad = [-1, -n - ns, n + ns, n + ns + 2 * c.n_logical_qubits, 10**6][s // 5 % 5]
        if what == "type":
            bad = n + s // 5 % ns if data else s // 5 % n
        if kind in TWO:
            bad = [(bad, k[1]), (k[0], n if what == "type" else bad), k + (k[1],),
                   k[::-1]][s // 3 % 4]
        entries[bad] = entries.pop(k)
    try:
        ErrorData().check_against_code(c, d)
    except (ValueError, KeyError):
        return dict(nt=True, labels=[what, kind])
    require(False, "errors", {kind: d[kind]}, "are accepted")


@PROP.part("tables", st.tuples(specs(), st.integers(0, 10**6), st.sampled_from(
    ["value", "row", "gate", "single"])).map(list), 200)
def spoiled_tables(case):
    """One wrong entry in a table is refused by the check of the table."""
    case, s, what = case
    s = seed_int(s, canon(case))
    tables.quiet()
    c = codes.make(case["code"])
    table, rows = copy.deepcopy(case["table"]), copy.deepcopy(case["rows"])
    n, ns = c.n_data_qubits, c.n_stabgens
    bad = BAD[s // 11 % len(BAD)]
    if what == "value":
        if not table or math.isnan(bad):  # missing values are ignored
            return False
        k = sorted(table)[s % len(table)]
        i = n + s // 7 % ns if k == "measurement" else s // 7 % n
        table[k][i] = bad
    elif what == "single":
        rows.append([TWO[s % 2], [n, 0], ["XYZ"[s // 5 % 3]], [0.1]])
    else:
        if not rows:
            return False
        r = rows[-1]
        if what == "row":
            r[3][s % len(r[3])] = bad
        else:
            r[1][s % len(r[1])] = [-1, n + ns, 10**6][s // 3 % 3]
    try:
        ed = ErrorData(qubit_errors=frame(c, table), gate_errors=gate_frame(rows))
        ed.check_against_code(c)
    except (ValueError, KeyError):
        return dict(nt=True, labels=[what])
    require(False, "tables", table, rows, "are accepted")


@st.composite
def configs(draw):
    code = draw(codes.code(3, 2, max_n=6, css=True))
    q, g = {}, {}
    for k in draw(st.lists(st.sampled_from(tables.COLUMNS), unique=True, max_size=5)):
        q[k] = draw(tables.PROBS)
    for k in draw(st.lists(st.sampled_from(ONE + TWO), unique=True, max_size=5)):
        names = draw(st.lists(st.sampled_from(
            [x.upper() for x in PAIRS] if k in TWO else list("XYZ")), unique=True,
            min_size=1, max_size=draw(st.sampled_from([1, 1, 2, 3]))))
        g[k] = [[x, draw(st.sampled_from([0.0, 0.01, 0.1, 0.3]))] for x in names]
    return dict(code=code, q=q, g=g)


TWICE = dict(code=dict(kind="planar", size=2, rounds=1), q={},
             g=dict(CX=[["XX", 0.1], ["ZI", 0.2]]))


@PROP.part("configured", configs(), 200, shards=2, thorough=15, examples=[TWICE])
def configured(case):
    """Constant errors from a configuration reach every qubit and gate."""
    tables.quiet()
    c = codes.make(case["code"])
    data, stab, pairs = tables.places(c)
    q = {k: ("constant", p) for k, p in case["q"].items()}
    g = {k: [("constant", *x) for x in v] for k, v in case["g"].items()}
    ed = ErrorData.from_lattice(c.lattice, (q, "none.csv"), (g, "none.csv"))
    m = c.n_data_qubits + c.n_stabgens
    want = qubit_dict(c, {k: [p] * m for k, p in case["q"].items()}, case["q"])
    require(same(plain(ed.qubit_errors_dict), want), "qubit errors are",
            plain(ed.qubit_errors_dict), "instead of", want)
    got = plain(ed.gate_errors_dict)
    labels = [f"gates {len(g)}"]
    full, last = {}, {}
    for k, v in case["g"].items():
        where = pairs if k in TWO else stab
        full[k] = {w: {x.lower(): p for x, p in v} for w in where}
        last[k] = {w: {x.lower(): p for x, p in v[-1:]} for w in where}
    if same(got, full):
        return dict(nt=len(full | want) > 1, labels=labels + ["complete"])
    require(same(got, last), "gate errors are", got, "instead of", full)
    labels += known("P21-gate-config", f"of the errors {case['g']} only the last are kept")
    return dict(nt=True, labels=labels)
