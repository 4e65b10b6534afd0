"""Generated experiment configurations (as JSON) and their reading by an own model."""
import copy

from hypothesis import strategies as st
from plaquette.circuit.generator import generate_qec_circuit

from . import codes, tables
from .p13 import PAIRS

NAMES = dict(RotatedPlanarCode="rotated", PlanarCode="planar", ToricCode="toric",
             RepetitionCode="repetition", FiveQubitCode="five_qubit", ShorCode="shor")
SIZED = list(NAMES)[:4]
DECODERS = ["PyMatchingDecoder", "UnionFindDecoder", "UnionFindNoWeights",
            "FusionBlossomDecoder"]
QUBIT = ["X", "Y", "Z", "erasure", "measurement", "fabrication"]
GATE = ["CZ", "CX", "H", "R", "M", "fabrication"]
EMPTY_Q = dict(distribution="", params=[], enabled=False)
EMPTY_G = dict(distribution="", induced_errors=[], params=[], enabled=False)
RATES = st.sampled_from([0.0, 1e-6, 0.01, 0.03, 0.1, 0.25])


def maybe(draw, d, key, strategy, odds=2):
    """Put an optional entry into a dictionary."""
    if draw(st.integers(0, odds)):
        d[key] = draw(strategy)


@st.composite
def code_dicts(draw, names=tuple(NAMES), size=3, rounds=3):
    d = dict(name=draw(st.sampled_from(names)))
    maybe(draw, d, "rounds", st.integers(1, rounds), 4)
    if d["name"] == "RepetitionCode":
        d["size"] = 2 * draw(st.integers(1, size - 1)) + 1
    elif d["name"] in SIZED:
        d["size"] = draw(st.integers(2, size))
    elif draw(st.booleans()):
        d["size"] = draw(st.sampled_from([-1, 1, 3]))
    return d


def files(draw, d, path):
    """Paths; the file ``path`` exists when the configuration is used."""
    k = draw(st.integers(0, 4))
    if k == 1:
        d["data_path"] = path
    elif k == 2:
        d |= dict(data_path=path, load_file=draw(st.booleans()))
    elif k == 3:
        d |= dict(data_path="missing.csv", load_file=False)


@st.composite
def distribution(draw, user=True):
    k = draw(st.sampled_from(["constant", "constant", "gaussian"] + ["user"] * user))
    if k == "user":
        return ["user", []]
    if k == "constant":
        return [k, [draw(RATES)]]
    return [k, [draw(RATES), draw(st.sampled_from([0.0, 1e-4, 0.02]))]]


@st.composite
def qubit_dicts(draw):
    d = {}
    files(draw, d, "q.csv")
    maybe(draw, d, "sample", st.booleans(), 1)
    for k in draw(st.lists(st.sampled_from(QUBIT), unique=True, max_size=6)):
        name, params = ["user", []] if k == "fabrication" else draw(distribution())
        d[k] = dict(distribution=name)
        if params or draw(st.booleans()):
            d[k]["params"] = params
        maybe(draw, d[k], "enabled", st.booleans(), 1)
    return d


@st.composite
def gate_dicts(draw):
    d = {}
    files(draw, d, "g.csv")
    d["sample"] = draw(st.booleans())
    for k in draw(st.lists(st.sampled_from(GATE), unique=True, max_size=5)):
        if k == "fabrication" or not draw(st.integers(0, 3)):
            d[k] = dict(distribution="user")
        else:
            names = draw(st.lists(st.sampled_from(
                [x.upper() for x in PAIRS] if k in tables.TWO else list("XYZ")),
                unique=draw(st.booleans()), min_size=1, max_size=3))
            if len(names) > 1 and not draw(st.integers(0, 2)):
                names[-1] = names[0]
            ds = [draw(distribution(False)) for _ in names]
            d[k] = dict(distribution=[x for x, _ in ds], induced_errors=names,
                        params=[p for _, p in ds])
        maybe(draw, d[k], "enabled", st.booleans(), 1)
    return d


@st.composite
def configs(draw, toml=False):
    """A configuration that is valid as such (its parts may not fit together)."""
    d = dict(code=draw(code_dicts()), errors={})
    maybe(draw, d["errors"], "qubit_errors", qubit_dicts(), 4)
    maybe(draw, d["errors"], "gate_errors", gate_dicts(), 1)
    maybe(draw, d, "general", st.fixed_dictionaries(dict(
        logical_op=st.sampled_from(["X", "Z"]),
        qec_property=st.just(["logical_error_rate"]),
        seed=st.integers(0, 2**40))), 4)
    maybe(draw, d, "device", st.fixed_dictionaries({}, optional=dict(
        name=st.sampled_from(["stim", "clifford"]), shots=st.integers(1, 10**6))))
    maybe(draw, d, "decoder", st.fixed_dictionaries({}, optional=dict(
        name=st.sampled_from(DECODERS), weighted=st.booleans())))
    maybe(draw, d, "circuit", st.fixed_dictionaries({}, optional=dict(
        circuit_provided=st.just(False), has_errors=st.booleans(),
        circuit_path=st.sampled_from(["circuit.txt", "other.txt", "circ.txt"]))))
    return d


def expected(d):
    """All settings of a configuration, by the documented defaults."""
    code = dict(rounds=1) | d["code"]
    if code["name"] not in SIZED:
        code.pop("size", None)
    q = d["errors"].get("qubit_errors") or {}
    g = d["errors"].get("gate_errors") or {}
    qe = dict(data_path=q.get("data_path", "qubit_errors.csv"),
              sample=q.get("sample", True),
              load_file=q.get("load_file", "data_path" in q))
    for k in QUBIT:
        qe[k] = dict(params=[], enabled=True) | q[k] if k in q else copy.deepcopy(EMPTY_Q)
    ge = dict(data_path=g.get("data_path", "gate_errors.csv"),
              sample=g.get("sample", False),
              load_file=g.get("load_file", "data_path" in g))
    for k in GATE:
        ge[k] = (dict(params=[], induced_errors=[], enabled=True) | g[k] if k in g
                 else copy.deepcopy(EMPTY_G))
    return copy.deepcopy(dict(
        general=d.get("general") or dict(
            logical_op="X", qec_property=["logical_error_rate"], seed=12345),
        device=dict(name="clifford", shots=1024) | d.get("device", {}),
        circuit=dict(circuit_provided=False, has_errors=False,
                     circuit_path="circuit.txt") | d.get("circuit", {}),
        code=code, errors=dict(qubit_errors=qe, gate_errors=ge),
        decoder=dict(name="PyMatchingDecoder", weighted=False) | d.get("decoder", {})))


def simulated(e):
    """The two descriptions of simulated errors of an expected configuration."""
    q, g = e["errors"]["qubit_errors"], e["errors"]["gate_errors"]
    out = []
    if not q["sample"]:
        out.append(None)
    else:
        out.append(({k: (q[k]["distribution"], *q[k]["params"]) for k in QUBIT
                     if q[k]["enabled"]}, q["data_path"]))
    if not g["sample"]:
        out.append(None)
    else:
        d = {}
        for k in GATE:
            v = g[k]
            if v["enabled"] and v["distribution"]:
                d[k] = ("user",) if v["distribution"] == "user" else [
                    (x, n, *p) for x, n, p in zip(v["distribution"], v["induced_errors"],
                                                  v["params"])]
        out.append((d, g["data_path"]))
    return tuple(out)


def code(e):
    c = e["code"]
    return codes.make(dict(kind=NAMES[c["name"]], rounds=c["rounds"],
                           size=c.get("size")))


def errors(c, e):
    """Error dictionaries of a configuration with constant errors only."""
    q, g = simulated(e)
    data, stab, pairs = tables.places(c)
    m = len(data) + len(stab)
    if q is None and g is None:  # documented default
        q = ({k: ("constant", 0.1) for k in "XYZ"}, None)
    q = {k: v for k, v in (q or ({},))[0].items() if k != "fabrication"}
    qd = tables.qubit_dict(c, {k: [v[1]] * m for k, v in q.items()}, q)
    gd = {}
    for k, v in (g or ({},))[0].items():
        if k != "fabrication":
            (_, name, p), = v
            gd[k] = {w: {name.lower(): p} for w in (pairs if k in tables.TWO else stab)}
    return qd, gd


def operators(c, op):
    """The letter repeated for each logical qubit."""
    return op * (c.n_logical_qubits if len(op) == 1 else 1)


def circuit(c, e):
    q, g = errors(c, e)
    return generate_qec_circuit(c, q, g, e["general"]["logical_op"])
