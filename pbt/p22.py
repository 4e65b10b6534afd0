"""P22: histories of error tables, files and random tables."""
import copy
import math
import os

import numpy as np
import pandas as pd
import plaquette
from hypothesis import strategies as st
from plaquette import errors
from plaquette.errors import ErrorData
from scipy.special import ndtr

from . import codes, tables
from .harness import Prop, require
from .p13 import PAIRS
from .tables import COLUMNS, ONE, TWO, gate_frame, plain, same

PROP = Prop(
    "P22",
    "histories of additions, updates (single, lists, tables, files; partial, reordered, "
    "with missing values; overwriting or not), saving and loading on tables of built-in "
    "and random codes against a model of the table; tables made from random "
    "configurations, distributions and seeds; non-trivial: a history of at least three "
    "accepted steps, or a distribution with positive width; oracles: dictionary model, "
    "file round trip, distribution function of the truncated normal distribution",
    ["distributions: false-alarm probability below 1e-9 for each generated table "
     "(Dvoretzky-Kiefer-Wolfowitz bound)"],
)
TOL = 1e-12  # numbers read from text
PATHS = {"q": "q.csv", "g": "g.csv"}


@st.composite
def partial_frame(draw, m):
    rows = draw(st.permutations(range(m)))
    rows = rows[: draw(st.integers(1, m))] if draw(st.booleans()) else rows
    cols = draw(st.lists(st.sampled_from(COLUMNS + ["fabrication"]), unique=True,
                         max_size=4))
    t = {}
    for k in cols:
        v = draw(tables.values(len(rows)))
        if k == "fabrication":
            v = [["available", "missing"][int(x * 999) % 2] for x in v]
        hole = draw(st.sampled_from([0, 0, 0, 2, 3]))
        t[k] = [None if hole and (i + len(k)) % hole == 0 else x
                for i, x in enumerate(v)]
    return dict(rows=list(rows), cols=t)


@st.composite
def histories(draw):
    code = draw(codes.code(3, 1, max_n=5, css=True))
    c = codes.make(code)
    m = c.n_data_qubits + c.n_stabgens
    ids = st.lists(st.integers(0, m - 1), unique=True, min_size=1, max_size=m)
    name = st.sampled_from(COLUMNS)
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        k = draw(st.sampled_from(["add", "set", "list", "frame", "frame", "gate",
                                  "gates", "reload"]))
        op = [k]
        if k in ("add", "list"):
            i = draw(ids)
            op += [draw(name), i, draw(tables.values(len(i))), draw(st.booleans())]
        elif k == "set":
            op += [draw(name), draw(st.integers(0, m - 1)), draw(tables.PROBS)]
        elif k == "frame":
            op += [draw(partial_frame(m)), draw(st.booleans()),
                   draw(st.sampled_from([False, False, False, True]))]
        elif k == "gate":
            op += [draw(tables.gate_rows(c, 1))]
        elif k == "gates":
            op += [draw(tables.gate_rows(c, 3)), draw(st.booleans()),
                   draw(st.sampled_from([False, False, True]))]
        else:
            op += [draw(st.booleans())]
        ops.append(op)
    return dict(code=code, start=draw(st.sampled_from(["lattice", "frame", "empty"])),
                first=draw(partial_frame(m)), ops=ops)


def pframe(c, f):
    n = c.n_data_qubits
    d = dict(qubit_id=f["rows"], qubit_type=["data" if i < n else "stab"
                                             for i in f["rows"]])
    return pd.DataFrame(d | f["cols"])


class Model:
    """Table as dictionary {column: {qubit: value}} and list of gate errors."""

    def __init__(self):
        self.ids, self.cols, self.gates = set(), {}, []

    def add(self, name, ids, ps):
        self.cols[name] = {i: 0.0 for i in self.ids} | dict(zip(ids, ps))

    def frame(self, f, overwrite):
        if overwrite or not self.ids:
            self.ids, self.cols = set(), {}
        self.ids |= set(f["rows"])
        for k, v in f["cols"].items():
            col = self.cols.setdefault(k, {})
            col.update({i: x for i, x in zip(f["rows"], v) if x is not None})
        for k, col in self.cols.items():
            for i in self.ids:
                col.setdefault(i, "available" if k == "fabrication" else 0.0)

    def dicts(self, c):
        """Error dictionary as generated circuits use it."""
        data, stab, _ = tables.places(c)
        out = {}
        for k, col in self.cols.items():
            for i, p in col.items():
                if k in "XYZ" and i in data:
                    out.setdefault("pauli", {}).setdefault(i, {})[k.lower()] = p
                elif k == "erasure" and i in data or k == "measurement" and i in stab:
                    out.setdefault(k, {})[i] = dict(p=p)
        return out


def full(d):
    """Number for a missing value."""
    return None if d is None or d != d else d


def contents(ed):
    """Columns of the table, with missing values read as no error."""
    t = ed.qubit_errors
    if t.empty:
        return {}
    require(list(t.index) == list(t["qubit_id"]), "the index is", list(t.index))
    require(len(set(t.index)) == len(t.index), "repeated rows")
    out = {}
    for k in list(t.columns)[2:]:
        none = "available" if k == "fabrication" else 0.0
        out[k] = {int(i): none if full(p) is None else plain(p)
                  for i, p in zip(t["qubit_id"], t[k])}
    return out


def strip(d):
    """Drop places without a value."""
    out = {k: {i: {x: p for x, p in e.items() if p != 0} for i, e in v.items()
               if any(p != 0 for p in e.values())} for k, v in d.items()}
    return {k: v for k, v in out.items() if v}


def check(c, ed, m, tol, step):
    got = contents(ed)
    require(set(got) == set(m.cols) if m.ids else not got, step, "columns", set(got))
    require(same(got, m.cols, tol), step, "table is", got, "instead of", m.cols)
    if m.ids:
        t = ed.qubit_errors
        require(list(t.columns)[:2] == ["qubit_id", "qubit_type"], step, "first columns",
                list(t.columns))
        require(set(map(int, t["qubit_id"])) == m.ids, step, "qubits")
        for i, x in zip(t["qubit_id"], t["qubit_type"]):
            require(x == ("data" if i < c.n_data_qubits else "stab"), step, "qubit", i,
                    "has type", x)
    require(ed.enabled_qubit_errors == set(m.cols), step, "enabled errors are",
            ed.enabled_qubit_errors, "instead of", set(m.cols))
    require(ed.enabled_gate_errors == {r[0] for r in m.gates}, step, "enabled gates are",
            ed.enabled_gate_errors)
    rows = []
    if len(ed.gate_errors):
        rows = [[r.gate, list(r.on_qubits), list(r.induced_errors), list(r.probs)]
                for r in ed.gate_errors.itertuples()]
    require(len(rows) == len(m.gates) and all(
        a[:3] == b[:3] and len(a[3]) == len(b[3])
        and all(same(float(x), float(y), tol) for x, y in zip(a[3], b[3]))
        for a, b in zip(rows, m.gates)), step, "gate errors are", rows, "instead of",
        m.gates)
    want = strip(m.dicts(c) | tables.gate_dict(m.gates, ONE + TWO))
    require(same(strip(plain(ed.error_data_dict)), want, tol), step, "dictionary is",
            plain(ed.error_data_dict), "instead of", want)


def equal(a, b):
    """Same contents of two tables."""
    return list(a.columns) == list(b.columns) and a.astype(object).where(
        a.notna(), None).values.tolist() == b.astype(object).where(
        b.notna(), None).values.tolist()


def refused(f, what):
    try:
        f()
    except (ValueError, TypeError, KeyError, OSError):
        return
    require(False, what, "is accepted")


@PROP.part("history", histories(), 200, shards=4, thorough=15)
def history(case):
    tables.quiet()
    c = codes.make(case["code"])
    mod, done = Model(), 0
    if case["start"] == "lattice":
        ed = ErrorData.from_lattice(c.lattice)
        mod.ids = set(range(c.n_data_qubits + c.n_stabgens))
        for k in "XYZ":
            mod.add(k, mod.ids, [0.1] * len(mod.ids))
    elif case["start"] == "frame":
        ed = ErrorData(qubit_errors=pframe(c, case["first"]))
        mod.frame(case["first"], True)
    else:
        ed = ErrorData()
    tol = 0.0
    check(c, ed, mod, tol, ["start"])
    labels = [case["start"]]
    for op in case["ops"]:
        k, args = op[0], op[1:]
        ok = True
        if k == "add":
            name, ids, ps, nd = args
            ids, ps = map(list, zip(*[(i, p) for i, p in zip(ids, ps) if i in mod.ids])
                          ) if set(ids) & mod.ids else ([], [])
            if not mod.ids:
                continue
            a = (np.array(ids, dtype=int), name, np.array(ps)) if nd else (ids, name, ps)
            if ok := name not in mod.cols:
                ed.add_qubit_error(*a)
                mod.add(name, ids, ps)
            else:
                refused(lambda: ed.add_qubit_error(*a), op)
        elif k in ("set", "list"):
            name, ids, ps = args[:3]
            if k == "set" and ids not in mod.ids or k == "list" and not (
                    set(ids) <= mod.ids):
                continue
            if ok := name in mod.cols:
                if k == "set":
                    ed.update_qubit_error(ids, name, ps)
                    mod.cols[name][ids] = ps
                else:
                    ed.update_qubit_error(ids, name, np.array(ps) if args[3] else ps)
                    mod.cols[name].update(zip(ids, ps))
            else:
                refused(lambda: ed.update_qubit_error(ids, name, ps), op)
        elif k == "frame":
            f, file, over = args
            df = pframe(c, f)
            keep = df.copy()
            if file:
                df.to_csv("in.csv", index=False)
                ed.update_from_csv("in.csv", overwrite=over)
                tol = TOL
            else:
                ed.update(df, overwrite=over)
            mod.frame(f, over)
            require(equal(df, keep), op, "the given table is changed")
        elif k == "gate":
            if not args[0]:
                continue
            ed.add_gate_error(*copy.deepcopy(args[0][0]))
            mod.gates.append(args[0][0])
        elif k == "gates":
            rows, file, over = args
            df = gate_frame(copy.deepcopy(rows))
            keep = df.copy()
            if file:
                t = df.copy()
                for x in ("on_qubits", "induced_errors", "probs"):
                    t[x] = ["|".join(map(str, v)) for v in t[x]]
                t.to_csv("in.csv", index=False)
                ed.update_from_csv(gate_error_csv="in.csv", overwrite=over)
                tol = TOL
            else:
                ed.update(gate_errors=df, overwrite=over)
            require(equal(df, keep), op, "the given table is changed")
            mod.gates = ([] if over else mod.gates) + rows
        else:
            before = contents(ed)
            if args[0]:
                ed.save_to_csv(PATHS["q"], PATHS["g"])
                new = ErrorData.from_csv(PATHS["q"], PATHS["g"])
            else:
                ed.save_to_csv()
                new = ErrorData.from_csv("qubit_error.csv", "gate_error.csv")
            require(same(contents(ed), before), op, "saving changes the table")
            tol = TOL
            if mod.ids and mod.gates:  # again, into an object with other errors
                other = ErrorData.from_lattice(c.lattice)
                other.update_from_csv(PATHS["q"] if args[0] else "qubit_error.csv",
                                      PATHS["g"] if args[0] else "gate_error.csv",
                                      overwrite=True)
                check(c, other, mod, tol, ["overwritten"])
            ed = new
        check(c, ed, mod, tol, op)
        done += ok
        labels.append(k if ok else f"refused {k}")
    return dict(nt=done >= 3, labels=sorted(set(labels)))


# Random tables.
@st.composite
def distributions(draw):
    return dict(mean=draw(st.one_of(st.sampled_from([0.0, 1.0, 0.5, 0.01]),
                                    st.floats(0, 1))),
                std=draw(st.one_of(st.sampled_from([0.0, 1.0, 1e-3]),
                                   st.floats(1e-4, 1))),
                k=draw(st.sampled_from([0, 1, 2, 7, 5000, 20000])),
                seed=draw(st.integers(0, 2**40)), nd=draw(st.booleans()))


@PROP.part("gaussian", distributions(), 150, thorough=15)
def gaussian(case):
    mean, std, k = case["mean"], case["std"], case["k"]
    ids = [3 * i for i in range(k)]
    arg = np.array(ids) if case["nd"] else ids

    def draw():
        plaquette.rng = np.random.default_rng(case["seed"])
        a = errors.generate_gaussian_errors(mean, std, arg)
        return np.array(a), np.array(errors.generate_gaussian_errors(mean, std, arg))

    (a, b), (a2, b2) = draw(), draw()
    require(a.shape == b.shape == (k,), "shape is", a.shape)
    require((a == a2).all() and (b == b2).all(), "the seed does not fix the values")
    require(((0 <= a) & (a <= 1)).all(), "values are no probabilities",
            a[(a < 0) | ~(a <= 1)][:3])
    if std == 0:
        require((a == mean).all(), "values differ from the mean")
        return False
    if k >= 2 and std > 1e-3:
        require(len(set(a)) == k and not (a == b).any(), "values are repeated")
    if k >= 1000:
        lo, hi = ndtr((0 - mean) / std), ndtr((1 - mean) / std)
        eps = math.sqrt(math.log(2e10) / (2 * k)) + 1 / k
        for v in (a, b):
            cdf = (ndtr((np.sort(v) - mean) / std) - lo) / (hi - lo)
            d = np.abs(cdf - (np.arange(k) + 0.5) / k).max()
            require(d < eps, "values do not follow the distribution, distance", d)
        r = np.corrcoef(a[:-1], a[1:])[0, 1]
        require(abs(r) < 10 / math.sqrt(k), "values depend on each other, r =", r)
    return dict(nt=k > 1, labels=[f"size {k}"])


BAD = [-0.1, -1e-9, 1.0000001, 2.0, math.nan, math.inf, -math.inf]


@PROP.part("refused", st.tuples(st.sampled_from(BAD), st.floats(0, 1),
                                st.sampled_from("mscen"), st.integers(0, 20)).map(list),
           60, thorough=5)
def refused_args(case):
    bad, good, what, k = case
    f = errors.generate_gaussian_errors
    ids = list(range(k))
    if what == "m":
        refused(lambda: f(bad, good, ids), f"mean {bad}")
    elif what == "s":
        refused(lambda: f(good, bad, ids), f"deviation {bad}")
    elif what == "c":
        refused(lambda: errors.generate_constant_errors(bad, ids), f"value {bad}")
        v = errors.generate_constant_errors(good, ids)
        require(len(v) == k and (np.array(v) == good).all(), "constant values", v)
    else:
        c = codes.make(dict(kind="planar", size=2, rounds=1))
        if what == "e":
            names = ["X", ["x", "Pauli", "qubit_id", "", "CX", "H"][k % 6]]
            refused(lambda: errors.generate_empty_qubit_errors(c.lattice, names), names)
        ed = ErrorData()
        refused(lambda: ed.from_csv("no such file.csv"), "a missing file")
    return dict(nt=True, labels=[what])


# Tables from configurations.
@st.composite
def configs(draw):
    code = draw(codes.code(3, 2, max_n=5, css=True))
    c = codes.make(code)
    m = c.n_data_qubits + c.n_stabgens
    one = st.one_of(
        st.tuples(st.just("constant"), tables.PROBS),
        st.tuples(st.just("gaussian"), st.sampled_from([0.2, 0.37, 0.5, 0.9]),
                  st.sampled_from([0.0, 1e-4, 3e-3])),
        st.tuples(st.just("user"))).map(list)
    q = draw(st.dictionaries(st.sampled_from(COLUMNS), st.one_of(one, one, st.none()),
                             max_size=5))
    g = {}
    for k in draw(st.lists(st.sampled_from(ONE + TWO), unique=True, max_size=4)):
        t = draw(one)
        name = draw(st.sampled_from([x.upper() for x in PAIRS] if k in TWO
                                    else list("XYZ")))
        g[k] = t if t[0] == "user" else [[t[0], name] + t[1:]]
    csv = draw(partial_frame(m))
    for k in q:
        if q[k] == ["user"] and k not in csv["cols"]:
            csv["cols"][k] = draw(tables.values(len(csv["rows"])))
    return dict(code=code, q=q, g=g, csv=csv, rows=draw(tables.gate_rows(c)),
                files=draw(st.sampled_from([True, True, False])),
                seed=draw(st.integers(0, 2**40)))


@PROP.part("configured", configs(), 200, shards=3, thorough=15)
def configured(case):
    tables.quiet()
    c = codes.make(case["code"])
    data, stab, pairs = tables.places(c)
    ids = data + stab
    files = case["files"]
    for f in ("q.csv", "g.csv"):
        if os.path.exists(f):
            os.remove(f)
    if files:
        pframe(c, case["csv"]).to_csv("q.csv", index=False)
        t = gate_frame(case["rows"])
        for x in ("on_qubits", "induced_errors", "probs"):
            t[x] = ["|".join(map(str, v)) for v in t[x]]
        t.to_csv("g.csv", index=False)

    def build():
        plaquette.rng = np.random.default_rng(case["seed"])
        q = {k: v and tuple(v) for k, v in case["q"].items()}
        g = {k: ("user",) if v == ["user"] else [tuple(x) for x in v]
             for k, v in case["g"].items()}
        return ErrorData.from_lattice(c.lattice, (q, "q.csv"), (g, "g.csv"))

    ed, again = build(), build()
    table, second = contents(ed), contents(again)
    require(table == second, "the seed does not fix the table")
    require(set(table) == set(case["q"]), "columns", set(table))
    require(ed.enabled_qubit_errors == set(case["q"]), "enabled",
            ed.enabled_qubit_errors)
    require(ed.enabled_gate_errors == set(case["g"]), "enabled", ed.enabled_gate_errors)
    random = []
    for k, v in case["q"].items():
        v = v or ["constant", 0.01]
        require(set(table[k]) == set(ids), "qubits of", k, "are", set(table[k]))
        vals = [table[k][i] for i in ids]
        if v[0] == "constant":
            require(vals == [v[1]] * len(ids), k, "is", vals)
        elif v[0] == "gaussian":
            require(all(0 <= x <= 1 and abs(x - v[1]) <= 9 * v[2] for x in vals), k,
                    "is", vals, "for", v)
            if v[2]:
                random += vals
        else:
            want = [0.0] * len(ids)
            if files:
                for i, x in zip(case["csv"]["rows"], case["csv"]["cols"][k]):
                    want[i] = 0.0 if x is None else x
            require(all(same(a, b, TOL) for a, b in zip(vals, want)), k, "is", vals,
                    "instead of", want)
    got = plain(ed.gate_errors_dict)
    user = tables.gate_dict(case["rows"] if files else [], ONE + TWO)
    for k, v in case["g"].items():
        if v == ["user"]:
            require(same(got.get(k), user.get(k), TOL), k, "is", got.get(k),
                    "instead of", user.get(k))
            continue
        (kind, name, *par), = v
        where = pairs if k in TWO else stab
        require(set(got.get(k, {})) == set(where), k, "acts on", got.get(k))
        vals = []
        for w in where:
            require(set(got[k][w]) == {name.lower()}, k, "is", got[k][w])
            vals.append(got[k][w][name.lower()])
        if kind == "constant":
            require(vals == par * len(where), k, "is", vals)
        else:
            require(all(0 <= x <= 1 and abs(x - par[0]) <= 9 * par[1] for x in vals), k,
                    "is", vals, "for", v)
            if par[1]:
                random += vals
    require(len(set(random)) == len(random), "random values are repeated", random)
    return dict(nt=len(case["q"]) + len(case["g"]) > 1,
                labels=[f"files {files}", f"random {bool(random)}"])


@PROP.part("empty", st.tuples(codes.code(3, 2, max_n=6, css=True), st.lists(
    st.sampled_from(COLUMNS + ["fabrication"]), unique=True)).map(list), 60,
    thorough=5)
def empty(case):
    """Tables without errors, and their files."""
    tables.quiet()
    code, names = case
    c = codes.make(code)
    data, stab, _ = tables.places(c)
    errors.generate_empty_qubit_errors_csv(c.lattice, names, "e.csv")
    t = errors.generate_empty_qubit_errors(c.lattice, names)
    loaded = ErrorData.from_csv("e.csv")
    require(list(t.columns) == ["qubit_id", "qubit_type"] + names, "columns",
            list(t.columns))
    for ed in (ErrorData(qubit_errors=t), loaded):
        got = contents(ed)
        want = {k: {i: "available" if k == "fabrication" else 0.0 for i in data + stab}
                for k in names}
        require(same(got, want), "empty table is", got)
        require(list(ed.qubit_errors["qubit_type"]) == ["data"] * len(data)
                + ["stab"] * len(stab), "types", list(ed.qubit_errors["qubit_type"]))
    d = errors.generate_empty_qubit_errors(c.lattice)
    require(list(d.columns)[2:] == ["X", "Y", "Z"], "default columns", list(d.columns))
    return len(names) > 1


@PROP.part("lists", st.lists(st.lists(st.one_of(
    st.integers(-10**6, 10**6), st.floats(allow_nan=False)), min_size=1, max_size=5),
    max_size=5), 80, thorough=5)
def lists(case):
    """Lists in one cell of a table of gates."""
    f = errors.delimited_string_list_to_series
    for d in "|", ";":
        text = [d.join(map(str, v)) for v in case]
        require(f(text, "str", delimiter=d).tolist() == [
            [str(x) for x in v] for v in case], "strings", text)
        require(f(text, "float", delimiter=d).tolist() == [
            [float(x) for x in v] for v in case], "floats", text)
        ints = [[int(x) for x in v if isinstance(x, int)] for v in case]
        ints = [v for v in ints if v]
        got = f([d.join(map(str, v)) for v in ints], "int", delimiter=d,
                index=[f"r{i}" for i in range(len(ints))] or None)
        require(got.tolist() == ints, "integers", got.tolist())
        if ints:
            require(got["r0"] == ints[0], "index")
    refused(lambda: f(["1"], "bool"), "type bool")
    return len(case) > 1
