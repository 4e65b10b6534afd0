"""P25: drawings of code lattices and circuits."""
import os

os.environ["MPLBACKEND"] = "Agg"

import copy
import math
import warnings

import numpy as np
from hypothesis import strategies as st
from plaquette.circuit import Circuit
from plaquette.circuit.generator import generate_qec_circuit
from plaquette.circuit.openqasm import GateNotSupportedError
from plaquette.codes import latticebase as lb

from . import circ, codes, qec
from .harness import Prop, known, require, seed_int, canon
from .p11 import arguments, specs

PROP = Prop(
    "P25",
    "all built-in codes (also with defects) and random user lattices, with random "
    "syndromes, errors, corrections, probabilities and drawing options; circuits of "
    "gates and measurements and generated ones; non-trivial: a lattice with edges and "
    "data, a circuit with a two-qubit gate; oracle: the figure is read back to "
    "operators, indices and Pauli frames; circuits are compared with Qiskit's drawing "
    "of the same circuit built gate by gate",
    ["positions, legend names and hover texts of the figures; pixels are not looked at"],
)


@st.composite
def lattices(draw):
    """A lattice with arbitrary operators at arbitrary places."""
    h, w = draw(st.integers(2, 5)), draw(st.integers(2, 5))
    cells = [[i, j] for i in range(h) for j in range(w)]
    cells = draw(st.permutations(cells))
    k = draw(st.integers(2, len(cells)))
    vs, data, ops = [], [], []
    for i, pos in enumerate(cells[:k]):
        t = "d" if i == 0 else draw(st.sampled_from("dddUABL"))
        vs.append([t, pos])
        (data if t == "d" else ops).append(i)
    edges = []
    for o in ops:
        for d in draw(st.lists(st.sampled_from(data), max_size=4, unique=True)):
            edges.append([d, o, draw(st.sampled_from("XYZ"))])
    return dict(shape=[h, w], vertices=vs, edges=draw(st.permutations(edges)))


def build(d):
    if "shape" in d:
        lat = lb.CodeLattice(d["shape"])
        for i, (t, pos) in enumerate(d["vertices"]):
            pos = tuple(pos)
            if t == "d":
                lat.add_data(pos)
            elif t == "L":
                lat.add_logical(pos, f"L{i}")
            else:
                lat.add_stabgen(pos, lb.StabGroup[t])
        for a, b, f in d["edges"]:
            lat.add_edge(lat.lattice[tuple(d["vertices"][a][1])],
                         lat.lattice[tuple(d["vertices"][b][1])], lb.Pauli[f])
        lat.assign_indices()
        return lat, lat, None
    if "steps" in d:
        warnings.simplefilter("ignore")
        c = codes.make(d["code"])
        for s in d["steps"][:1]:
            kw, _ = arguments(c, s)
            try:
                c.apply_fabrication_errors(**kw)
            except ValueError:
                c = codes.make(d["code"])
        return c, c.lattice, c
    c = codes.make(d)
    return c, c.lattice, c


PAULIS = "IXYZ"


@st.composite
def drawings(draw):
    d = draw(st.one_of(lattices(), codes.builtin(5),
                       specs(kinds=("planar",), most=3)))
    return dict(
        lattice=d,
        seed=draw(st.integers(0, 99999)),
        opts=dict(syndrome=draw(st.booleans()), error=draw(st.booleans()),
                  correction=draw(st.booleans()), probs=draw(st.booleans()),
                  only=draw(st.sampled_from([None, None, "X", "Z"])),
                  grey=draw(st.booleans()), stabs=draw(st.integers(0, 3)) > 0,
                  edges=draw(st.integers(0, 3)) > 0))


def state(lat):
    """Everything a drawing shows."""
    return ([(type(v).__name__, v.pos, v.equbit_idx, getattr(v, "dataqubit_idx", None),
              getattr(v, "stabgen_idx", None), getattr(v, "logical_idx", None),
              [id(e) for e in v.edges]) for v in lat.vertices],
            [(e.op.pos, e.data.pos, e.factor) for e in lat.edges],
            [v.pos for v in lat.dataqubits], [v.pos for v in lat.stabgens],
            [v.pos for v in lat.logical_ops])


def points(tr):
    hover = tr.hovertext
    if isinstance(hover, str):
        hover = [hover] * len(tr.x)
    require(len(tr.x) == len(tr.y) == len(hover), "lengths of", tr.name)
    return [(float(x), float(y), str(h)) for x, y, h in zip(tr.x, tr.y, hover)]


def segments(x, y):
    """Line segments of a trace with gaps."""
    out, run = [], []
    for a, b in [*zip(x, y), (math.nan, math.nan)]:
        if a is None or math.isnan(a):
            require(len(run) in (0, 2), "a line of", len(run), "points")
            if run:
                out.append(tuple(run))
            run = []
        else:
            run.append((float(a), float(b)))
    return out


def read(fig):
    """Names of marker traces with their points, and lines by factor."""
    marks, lines = {}, {}
    for tr in fig.data:
        if tr.mode == "lines":
            lines.setdefault(tr.name, []).extend(segments(tr.x, tr.y))
        else:
            marks.setdefault(tr.name, []).extend(points(tr))
    return marks, lines


STABS = {"Stabilizer": "U", "A stabilizer": "A", "B stabilizer": "B"}


def wanted(lat, c, probs, syn):
    """Expected markers (name, x, y, beginning of the hover text)."""
    out = []
    for i, v in enumerate(lat.dataqubits):
        h = f"Data qubit {i}<br />Ext. qubit {i}"
        if probs is not None:
            h += f"<br />p = {probs[i]}"
        out.append(("Data qubit", float(v.pos[0]), float(v.pos[1]), h))
    n, m = len(lat.dataqubits), len(lat.stabgens)
    for i, v in enumerate(lat.stabgens):
        name = {"U": "Stabilizer", "A": "A stabilizer", "B": "B stabilizer"}[
            v.group.name]
        h = f"Stabgen {i}<br />Ext. qubit {n + i}"
        if syn is not None and syn[i]:
            name = "Toggled " + name[0].lower() * (name[1] == "t") + name[
                name[1] == "t":]
            h += "<br /><b>Syndrome set</b>"
        out.append((name, float(v.pos[0]), float(v.pos[1]), h))
    for i, v in enumerate(lat.logical_ops):
        h = f"{v.name}<br />Logical {i}<br />Ext. qubit {n + m + i}"
        out.append(("Logical operator", float(v.pos[0]), float(v.pos[1]), h))
    return out


def operators(lat, lines, c):
    """Operators spelled by the lines of a drawing."""
    data = {tuple(map(float, v.pos)): i for i, v in enumerate(lat.dataqubits)}
    spell = {}
    seen = 0
    for name, segs in lines.items():
        require(name in ("Pauli X", "Pauli Y", "Pauli Z"), "lines are called", name)
        for a, b in segs:
            if a in data:
                a, b = b, a
            require(b in data and a not in data, "a line from", a, "to", b)
            row = spell.setdefault(a, ["I"] * len(data))
            require(row[data[b]] == "I", "two lines from", a, "to", b)
            row[data[b]] = name[-1]
            seen += 1
    return {k: "".join(v) for k, v in spell.items()}


def compare(lat, c, d, lines):
    ops = operators(lat, lines, c)
    places = [tuple(map(float, v.pos)) for v in [*lat.stabgens, *lat.logical_ops]]
    idle = "I" * len(lat.dataqubits)
    require(set(ops) <= set(places), "lines to places without operator")
    if c is not None:
        want = codes.strings(c.stabilisers) + codes.strings(c.logical_ops)
    else:
        at = {tuple(d["vertices"][b][1]): b for _, b, _ in d["edges"]}
        number = {}
        for i, v in enumerate(lat.dataqubits):
            number[v.pos] = i
        want = []
        for p in places:
            row = list(idle)
            for a, b, f in d["edges"]:
                if tuple(d["vertices"][b][1]) == p:
                    row[number[tuple(d["vertices"][a][1])]] = f
            want.append("".join(row))
    got = [ops.get(p, idle) for p in places]
    require(got == want, "lines spell", got, "operators are", want)


def pauli_row(s):
    return np.array([int(c in "XY") for c in s] + [int(c in "YZ") for c in s] + [0],
                    dtype="u1")


def same(a, b):
    require(sorted(map(str, a)) == sorted(map(str, b)), "drawn", sorted(map(str, a)),
            "there are", sorted(map(str, b)))


_REFERENCE = []


def drawn_reference():
    from plaquette.visualizer import LatticeVisualizer

    return LatticeVisualizer(codes.make(dict(
        kind="planar", size=2, rounds=1))).draw_lattice().to_json()


def first_reference():
    """Drawing of a lattice by another visualizer, before any other drawing."""
    if not _REFERENCE:
        _REFERENCE.append(drawn_reference())
    return _REFERENCE[0]


@PROP.part("plotly", drawings(), 130, shards=3, thorough=15)
def plotly(case):
    import random

    from plaquette.visualizer import LatticeVisualizer

    obj, lat, c = build(case["lattice"])
    o = case["opts"]
    rnd = random.Random(seed_int(canon(case)))
    n, m = len(lat.dataqubits), len(lat.stabgens)
    probs = np.array([rnd.random() for _ in range(n)]) if o["probs"] else None
    syn = np.array([rnd.random() < 0.4 for _ in range(m)]) if o["syndrome"] else None
    frames = {k: "".join(rnd.choice("IIXYZ") for _ in range(n)) if o[k] else None
              for k in ("error", "correction")}
    args = {k: None if v is None else [pauli_row(v)] for k, v in frames.items()}
    keep = copy.deepcopy((probs, syn, args))
    before = state(lat)
    pristine = first_reference()
    vis = LatticeVisualizer(obj if rnd.random() < 0.5 else lat, probs)

    def plain():
        fig = vis.draw_lattice(height=300 + rnd.randrange(9), margin=rnd.randrange(30))
        marks, lines = read(fig)
        same([(k, *p) for k, v in marks.items() for p in v], wanted(lat, c, probs, None))
        compare(lat, c, case["lattice"], lines)
        return fig

    first = plain()
    fig = vis.draw_latticedata(
        syn, args["error"], args["correction"], only_pauli=o["only"], grey=o["grey"],
        draw_stabs=o["stabs"], draw_edges=o["edges"])
    marks, lines = read(fig)
    want = wanted(lat, c, probs, syn)
    drawn = [(k, *p) for k, v in marks.items() for p in v
             if not k.endswith((" error", " correction"))]
    if not o["stabs"]:
        hidden = [w for w in want if "tabilizer" in w[0]]
        require(not any("tabilizer" in k for k in marks), "stabilisers are drawn")
        want = [w for w in want if w not in hidden and w[0] != "Logical operator"]
        drawn = [w for w in drawn if w[0] != "Logical operator"]
    same(drawn, want)
    if o["edges"]:
        compare(lat, c, case["lattice"], lines)
    else:
        require(not any(lines.values()), "edges are drawn")
    # the frames
    at = {i: tuple(map(float, v.pos)) for i, v in enumerate(lat.dataqubits)}
    for k, f in frames.items():
        shown = {}
        for p in "XZ":
            for x, y, h in marks.pop(f"{p} {k}", []):
                require(h.startswith("Data qubit "), "hover text", h)
                i = int(h.split()[2])
                require(abs(x - at[i][0]) <= 0.25 and abs(y - at[i][1]) <= 0.25,
                        "a marker of qubit", i, "at", x, y)
                shown.setdefault(i, []).append(p)
        for i, ps in shown.items():
            require(len(set(ps)) == len(ps), "two markers on qubit", i)
        want = {}
        for i, s in enumerate(f or ""):
            ps = [p for p in "XZ" if s in (p, "Y") and o["only"] in (None, p)]
            if ps:
                want[i] = ps
        require({i: sorted(v) for i, v in shown.items()} == want, k, f, "shown as", shown)
    require(not any(k.endswith((" error", " correction")) for k in marks), "frames")
    spots = [(x, y) for tr in fig.data if (tr.name or "").endswith(("error", "correction"))
             for x, y in zip(tr.x, tr.y)]
    require(len(set(spots)) == len(spots), "markers of frames hide each other")
    if o["probs"]:
        tr = [t for t in fig.data if t.name == "Data qubit"]
        require(len(tr) == 1 and np.array_equal(
            [float(v) for v in tr[0].marker.color],
            [probs[int(h.split()[2].split("<")[0])] for h in tr[0].hovertext]),
            "colours are not the probabilities")
    if o["grey"]:
        for tr in fig.data:
            name = tr.name or ""
            if tr.mode == "lines":
                require("grey" in tr.line.color, "lines are", tr.line.color)
            elif name.startswith("Toggled") or name.endswith((" error", " correction")):
                require("grey" not in tr.marker.color, name, "is grey")
            elif not (o["probs"] and name == "Data qubit"):
                require("grey" in tr.marker.color, name, "is", tr.marker.color)
    require(state(lat) == before, "the lattice is modified")
    refused = rnd.choice([None, dict(height="high"), dict(margin=-1), dict(height=3)])
    if refused:
        try:
            vis.draw_latticedata(syn, args["error"], args["correction"], **refused)
        except ValueError:
            pass  # and the next drawing is as if nothing happened
    for a, b in zip(keep[:2], (probs, syn)):
        require(a is b is None or np.array_equal(a, b), "arguments are modified")
    for k, v in args.items():
        require(v is None or np.array_equal(v, keep[2][k]), "arguments are modified")
    second = plain()
    require([t.to_plotly_json().keys() for t in first.data]
            == [t.to_plotly_json().keys() for t in second.data]
            and [(t.marker.color if t.mode == "markers" and not o["probs"] else
                  t.line.color) for t in first.data]
            == [(t.marker.color if t.mode == "markers" and not o["probs"] else
                 t.line.color) for t in second.data], "styles after drawing in grey")
    require(drawn_reference() == pristine, "drawings of another lattice have changed")
    if n:
        try:
            LatticeVisualizer(obj, np.zeros(n + rnd.choice([-1, 1, 3])))
        except ValueError:
            pass
        else:
            require(False, "a wrong number of probabilities is accepted")
    return dict(nt=bool(lat.edges) and any(v for v in frames.values()),
                labels=[k for k, v in o.items() if v] +
                ["user" if c is None else "defects" if "steps" in case["lattice"]
                 else case["lattice"]["kind"]])


@PROP.part("mpl", st.one_of(lattices(), codes.builtin(5),
                            specs(kinds=("planar",), most=3)), 60, thorough=15)
def mpl(case):
    import matplotlib.pyplot as plt

    from plaquette.visualizer import LatticeVisualizer

    obj, lat, c = build(case)
    before = state(lat)
    fig = plt.figure()
    try:
        ax = fig.add_subplot()
        if len(lat.edges) % 2:
            LatticeVisualizer(obj).draw_lattice_mpl(ax)
        else:
            plt.sca(ax)
            other = plt.figure()
            LatticeVisualizer(obj).draw_lattice_mpl()
            ax = other.gca()
        marks, lines = [], {}
        (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
        for line in ax.lines:
            if line.get_marker() in ("None", None, "", " "):
                require(line.get_linestyle() not in ("None", "", " "), "no line")
                lines.setdefault(line.get_label(), []).extend(
                    segments(line.get_xdata(), line.get_ydata()))
            else:
                require(line.get_linestyle() in ("None", "", " "), "markers are joined")
                marks += [(line.get_label(), float(x), float(y))
                          for x, y in zip(line.get_xdata(), line.get_ydata())]
        same(marks, [w[:3] for w in wanted(lat, c, None, None)])
        require(all(x0 <= x <= x1 and y0 <= y <= y1 for _, x, y in marks),
                "markers outside of the axes")
        compare(lat, c, case, lines)
        names = [t.get_text() for t in ax.get_legend().get_texts()]
        require(sorted(names) == sorted({m[0] for m in marks} | set(lines)),
                "legend", names)
    finally:
        plt.close("all")
    require(state(lat) == before, "the lattice is modified")
    return dict(nt=bool(lat.edges), labels=["user" if c is None else "built-in"])


NAMES = ["H", "X", "Y", "Z", "CX", "CZ", "M", "R"]


@st.composite
def programs(draw):
    if draw(st.sampled_from([0] * 9 + [1])):
        return dict(code=draw(codes.builtin(2, ("planar", "rotated", "repetition",
                                                "five_qubit"), rounds=1)),
                    ancilla=draw(st.booleans()))
    n = draw(st.integers(1, 5))
    gates = []
    for _ in range(draw(st.integers(1, 8))):
        name = draw(st.sampled_from(NAMES))
        if name in ("CX", "CZ"):
            if n > 1:
                gates.append([name, *draw(st.permutations(range(n)))[:2]])
        else:
            gates.append([name, *draw(st.lists(st.integers(0, n - 1), min_size=1,
                                               max_size=3, unique=True))])
    bad = draw(st.integers(0, 9)) == 0
    return dict(gates=gates or [["H", 0]], bad=bad)


def shapes(fig):
    """Everything in a figure."""
    ax = fig.axes[0]
    r = lambda v: [[round(float(x), 6) for x in np.ravel(p)] for p in np.atleast_2d(v)]
    return (sorted((t.get_text(), *[round(float(x), 6) for x in t.get_position()])
                   for t in ax.texts),
            sorted(str((type(p).__name__, r(p.get_path().vertices),
                        r(p.get_patch_transform().get_matrix()),
                        [round(float(x), 4) for x in p.get_facecolor()]))
                   for p in ax.patches),
            sorted(str(r(np.array([line.get_xdata(), line.get_ydata()])))
                   for line in ax.lines))


def reference(gates, resets):
    from qiskit import ClassicalRegister, QuantumCircuit, QuantumRegister

    n = 1 + max(t for g in gates for t in g[1:])
    m = sum(len(g) - 1 for g in gates if g[0] == "M")
    qc = QuantumCircuit(QuantumRegister(n, "q"),
                        *([ClassicalRegister(m, "c")] if m else []))
    k = 0
    for name, *t in gates:
        if name == "M":
            for x in t:
                qc.measure(x, k)
                k += 1
        elif name in ("CX", "CZ"):
            for a, b in zip(t[::2], t[1::2]):
                getattr(qc, name.lower())(a, b)
        elif name != "R" or resets:
            for x in t:
                getattr(qc, "reset" if name == "R" else name.lower())(x)
    return qc.draw("mpl")


@PROP.part("circuits", programs(), 60, shards=2, thorough=10)
def circuits(case):
    import matplotlib.pyplot as plt

    from plaquette.visualizer import CircuitVisualizer

    if "code" in case:
        c = codes.make(case["code"])
        op = "X" * c.n_logical_qubits
        made = generate_qec_circuit(c, {}, {}, op, logical_ancilla=case["ancilla"])
        gates = [[str(g[0]), *map(int, g[1:])] for g in qec.gates(made)]
    else:
        gates = case["gates"]
        made = circ.build(gates)
        if case["bad"]:
            made.append("DEPOLARIZE", 0.1, 0)
            try:
                CircuitVisualizer(made)
            except GateNotSupportedError:
                return dict(nt=True, labels=["refused"])
            require(False, "a circuit with error instructions is drawn")
    text = str(made)
    labels = ["code" if "code" in case else "free"]
    try:
        vis = CircuitVisualizer(made)
        got = shapes(vis.draw_circuit())
        require(got == shapes(vis.draw_circuit()), "a second drawing differs")
        want = shapes(reference(gates, True))
        if got != want:
            plain = shapes(reference(gates, False))
            require(got == plain, "drawn", got[0], "should be", want[0])
            labels += known("P25-reset", "the drawing leaves out resets")
    finally:
        plt.close("all")
    require(str(made) == text, "the circuit is modified")
    return dict(nt=any(g[0] in ("CX", "CZ") for g in gates), labels=labels)
