"""P24: experiments run from configurations."""
import copy
import itertools
import math

import numpy as np
import plaquette
from hypothesis import strategies as st
from plaquette import decoders
from plaquette.device import Device, MeasurementSample
from plaquette.frontend import ExperimentConfig

from . import codes, configs, q, qec, tables, twin
from .harness import Prop, require
from .p17 import operator, syndrome_of
from .p23 import buildable, prepare

PROP = Prop(
    "P24",
    "random configurations (all built-in codes, decoders, backends, error kinds, weights) "
    "run twice and repeated by hand with an own verdict on every shot; configurations "
    "without errors, with certain errors and erasures, and small ones whose failure rate "
    "is summed over all error patterns; non-trivial: some errors; oracles: the pieces, "
    "own commutators, exact sums",
    ["failure rates: false-alarm probability below 1e-9 per configuration"],
)


def experiment(d):
    conf = ExperimentConfig.from_dict(copy.deepcopy(d))
    conf.build()
    return conf


def rate(conf):
    x = conf.run()
    require(isinstance(x, (float, np.floating)) and 0 <= x <= 1, "run returns", repr(x))
    return float(x)


def verdict(c, ops, fix, init, final):
    """Success: the correction turns the final outcomes into the initial ones."""
    op = codes.strings([fix])[0]
    return all(q.anticommute(op, o) == a ^ b for o, a, b in zip(ops, init, final))


def by_hand(e, error_dicts=None):
    """Success of every shot, with the pieces of plaquette but an own verdict."""
    plaquette.rng = np.random.default_rng(e["general"]["seed"])
    c = configs.code(e)
    qd, gd = error_dicts or configs.errors(c, e)
    sel = e["general"]["logical_op"]
    made = configs.generate_qec_circuit(c, qd, gd, sel)
    dev = Device(e["device"]["name"])
    dec = getattr(decoders, e["decoder"]["name"]).from_code(
        c, qd | gd, weighted=e["decoder"]["weighted"])
    ops = qec.chosen(c, sel)
    out = []
    for _ in range(e["device"]["shots"]):
        dev.run(made)
        raw, erased = dev.get_sample()
        init, stab, final = qec.split(c, raw, ops, False)
        if erased is not None and len(erased):
            erased = np.reshape(erased, (c.n_rounds, c.n_data_qubits)).astype(bool)
        else:
            erased = None
        syn = (stab[1:] ^ stab[:-1]).astype(bool)
        out.append(verdict(c, ops, dec.decode(erased, syn), init, final))
    return out


@PROP.part("by_hand", buildable(st.integers(1, 25), True), 90, shards=4, thorough=15)
def as_by_hand(case):
    prepare()
    keep = copy.deepcopy(case)
    conf = ExperimentConfig.from_dict(case)
    conf.build()
    first = rate(conf)
    require(case == keep, "the dictionary is changed")
    e = configs.expected(case)
    good = by_hand(e)
    want = 1 - sum(good) / len(good)
    require(abs(first - want) < 1e-9, "failure rate is", first, "by hand", want)
    conf.build()
    require(rate(conf) == first, "another failure rate after building again")
    require(rate(experiment(case)) == first, "another failure rate with the same seed")
    qd, gd = configs.errors(configs.code(e), e)
    some = any(p for d in (*qd.values(), *gd.values()) for x in d.values()
               for p in x.values())
    require(some or first == 0, "failures without errors")
    return dict(nt=some, labels=[case["code"]["name"], case["decoder"]["name"],
                                 case["device"]["name"], f"rate {min(first, 1):.1f}"])


@st.composite
def varied(draw):
    """Configurations with randomly distributed error rates."""
    d = draw(buildable(st.integers(1, 12), True))
    mean = st.sampled_from([0.0, 0.05, 0.1, 0.3])
    err = d["errors"]
    kinds = [k for k in ("X", "Y", "Z", "measurement", "erasure")
             if k != "erasure" or d["decoder"]["name"].startswith("Union")]
    err["qubit_errors"] = {
        k: dict(distribution="gaussian", params=[draw(mean), draw(mean)])
        for k in draw(st.lists(st.sampled_from(kinds), unique=True, min_size=1,
                               max_size=4))}
    if draw(st.booleans()) and not d["decoder"]["weighted"]:
        err["gate_errors"] = dict(sample=True, **{
            k: dict(distribution=["gaussian"],
                    induced_errors=["XZ" if k in tables.TWO else "Z"],
                    params=[[draw(mean), draw(mean)]])
            for k in draw(st.lists(st.sampled_from(configs.GATE[:5]), unique=True,
                                   max_size=4))})
    return dict(conf=d, noise=draw(st.integers(0, 99)), hash=draw(st.sampled_from([1, 2, 3])))


def outcome(conf, noise=0):
    """What an experiment with a given seed consists of, and its result."""
    prepare()
    plaquette.rng = np.random.default_rng(noise)  # has no effect on the experiment
    try:
        e = experiment(conf)
        result = rate(e)
    except ValueError as error:  # the drawn rates add up to more than 1, or are above 1/2
        return dict(refused=type(error).__name__)
    t = e.errors
    frames = [f.reindex(columns=sorted(f.columns)).astype(str).values.tolist()
              for f in (t.qubit_errors, t.gate_errors)]
    return dict(tables=frames, circuit=str(e.circuit), rate=result)


@PROP.part("seeds", varied(), 40, shards=4, thorough=15)
def seeds(case):
    """The seed determines everything: the drawn rates, the circuit and the result, in
    this process and in others."""
    a = outcome(case["conf"], case["noise"])
    for what, b in (("again", outcome(case["conf"], case["noise"] + 1)),
                    ("in another process", twin.call("p24", "outcome", case["conf"],
                                                     case["hash"]))):
        require(set(a) == set(b), "the experiment", "is refused" if "refused" in b else
                "is accepted", what)
        for k in a:
            require(a[k] == b[k], f"the {k} of the experiment differ when it is built",
                    what, a[k], b[k])
    x = {k for v in case["conf"]["errors"].values() for k in v} - {"sample"}
    return dict(nt=bool(x) and "refused" not in a, labels=[
        f"kinds {len(x)}", f"refused {'refused' in a}"])


@PROP.part("perfect", st.tuples(buildable(st.integers(1, 30)), st.booleans()).map(list),
           60, shards=2, thorough=10)
def perfect(case):
    """No errors, no failures."""
    d, zero = case
    prepare()
    e = configs.expected(d)
    q_ = dict(sample=True)
    if zero:
        q_ |= {k: dict(distribution="constant", params=[0.0])
               for k in ("X", "Y", "Z", "measurement")}
    d["errors"] = dict(qubit_errors=q_)
    if not zero:
        d["decoder"]["weighted"] = False
    conf = experiment(d)
    for _ in range(2):
        require(rate(conf) == 0, "failures without errors")
    require(all(by_hand(configs.expected(d))), "failures by hand")
    return dict(nt=e["code"]["rounds"] > 1, labels=[d["code"]["name"],
                                                    d["decoder"]["name"]])


# Errors that happen for certain.
@st.composite
def certain(draw):
    d = draw(buildable(st.integers(1, 6), True))
    d["decoder"]["weighted"] = False
    c = configs.code(configs.expected(d))
    n, ns = c.n_data_qubits, c.n_stabgens
    odds = draw(st.sampled_from([1, 3, 8]))
    letter = st.sampled_from(["I"] * odds + ["X", "Y", "Z"])
    bits = st.sampled_from([0] * draw(st.sampled_from([1, 4])) + [1])
    erase = draw(st.booleans()) and not d["decoder"]["name"].startswith("Py")
    return dict(conf=d, letters="".join(draw(st.lists(letter, min_size=n, max_size=n))),
                meas=draw(st.lists(bits, min_size=ns, max_size=ns)),
                erased=draw(st.lists(bits, min_size=n, max_size=n)) if erase else None)


def user_file(c, case, name="q.csv"):
    n, ns = c.n_data_qubits, c.n_stabgens
    cols = {x: [float(y == x) for y in case["letters"]] + [0.0] * ns for x in "XYZ"}
    cols["measurement"] = [0.0] * n + [float(b) for b in case["meas"]]
    if case["erased"]:
        cols["erasure"] = [float(b) for b in case["erased"]] + [0.0] * ns
    tables.frame(c, cols).to_csv(name, index=False)
    return {k: dict(distribution="user") for k in cols}


@PROP.part("certain", certain(), 90, shards=3, thorough=15)
def certain_errors(case):
    """Errors with probability 1 happen in every round of every shot."""
    prepare()
    d = case["conf"]
    e = configs.expected(d)
    c = configs.code(e)
    n, ns, r = c.n_data_qubits, c.n_stabgens, c.n_rounds
    d["errors"] = dict(qubit_errors=user_file(c, case) | dict(
        data_path="q.csv", load_file=True, sample=True))
    conf = experiment(d)
    got = rate(conf)
    error = set()
    for t in range(r):
        for i, x in enumerate(case["letters"]):
            for y in dict(I="", X="X", Y="XZ", Z="Z")[x]:
                error.add((y, t, i))
        if t:
            error |= {("M", t, s) for s in range(ns) if case["meas"][s]}
    op = operator(c, error)
    syn = syndrome_of(c, error)
    ops = qec.chosen(c, e["general"]["logical_op"])
    labels = [d["code"]["name"], d["decoder"]["name"], d["device"]["name"],
              f"erased {bool(case['erased'])}"]
    raw, erased = conf.device.get_sample()  # the last shot
    m = MeasurementSample.from_code_and_raw_results(c, raw, erased)
    if not case["erased"]:
        require((np.asarray(m.syndrome) == syn).all(), "syndrome", m.syndrome,
                "instead of", syn)
        toggle = [q.anticommute(op, o) for o in ops]
        require(list(m.logical_op_toggle) == toggle, "toggles", m.logical_op_toggle)
        fix = conf.decoder.decode(None, np.asarray(syn, bool))
        fail = float(not verdict(c, ops, fix, toggle, [0] * len(ops)))
        require(got == fail, "failure rate is", got, "instead of", fail)
        return dict(nt=bool(error), labels=labels + [f"failure {fail}"])
    want = np.array([case["erased"]] * r, bool)
    require(m.erased_qubits is not None and
            (np.asarray(m.erased_qubits, bool) == want).all(),
            "erased qubits are", m.erased_qubits)
    good = by_hand(configs.expected(d), (_dict(c, case), {}))
    require(abs(got - (1 - sum(good) / len(good))) < 1e-9, "failure rate is", got,
            "but by hand", good)
    dist = {"ShorCode": 3}.get(d["code"]["name"], d["code"].get("size", 0))
    if d["code"]["name"] in ("RepetitionCode", "FiveQubitCode"):
        dist = 0
    if not error and r * sum(case["erased"]) < dist:
        require(got == 0, "failure rate is", got, "for erasures below the distance")
        labels.append("below distance")
    return dict(nt=any(case["erased"]), labels=labels)


def _dict(c, case):
    n = c.n_data_qubits
    d = dict(pauli={i: {y.lower(): float(x == y) for y in "XYZ"}
                    for i, x in enumerate(case["letters"])},
             measurement={n + s: dict(p=float(b)) for s, b in enumerate(case["meas"])},
             erasure={i: dict(p=float(b)) for i, b in enumerate(case["erased"])})
    return d


# Failure rates.
SMALL = [dict(name="RepetitionCode", size=3, rounds=2),
         dict(name="RepetitionCode", size=5, rounds=1),
         dict(name="RepetitionCode", size=3, rounds=1),
         dict(name="PlanarCode", size=2, rounds=1),
         dict(name="PlanarCode", size=2, rounds=2),
         dict(name="RotatedPlanarCode", size=2, rounds=2),
         dict(name="RotatedPlanarCode", size=3, rounds=1),
         dict(name="ToricCode", size=2, rounds=1),
         dict(name="ShorCode", rounds=1)]


@st.composite
def small(draw):
    code = draw(st.sampled_from(SMALL))
    c = configs.code(configs.expected(dict(code=code, errors={})))
    per = draw(st.booleans())
    p = st.sampled_from([0.03, 0.1, 0.2, 0.3, 0.45])
    k = c.n_data_qubits if per else 1
    ps = draw(st.lists(p, min_size=k, max_size=k))
    op = draw(st.sampled_from("XZ"))
    return dict(code=code, ps=ps, op=op * c.n_logical_qubits,
                m=draw(st.sampled_from([0.0, 0.0, 0.1, 0.3])), seed=draw(st.integers(
                    0, 2**32)), decoder=draw(st.sampled_from(configs.DECODERS)),
                device=draw(st.sampled_from(["stim", "stim", "clifford"])))


@PROP.part("rates", small(), 12, shards=4, thorough=12)
def rates(case):
    """The failure rate follows from the rates of the errors."""
    prepare()
    d = dict(code=dict(case["code"]), decoder=dict(name=case["decoder"], weighted=False),
             device=dict(name=case["device"],
                         shots=1500 if case["device"] == "stim" else 300),
             general=dict(logical_op=case["op"], qec_property=["logical_error_rate"],
                          seed=case["seed"]), errors={})
    c = configs.code(configs.expected(d))
    n, ns, r = c.n_data_qubits, c.n_stabgens, c.n_rounds
    x = "ZX"["XZ".index(case["op"][0])]  # the errors that matter
    ps = [case["ps"][i % len(case["ps"])] for i in range(n)]
    cols = {x: ps + [0.0] * ns, "measurement": [0.0] * n + [case["m"]] * ns}
    tables.frame(c, cols).to_csv("q.csv", index=False)
    d["errors"]["qubit_errors"] = {k: dict(distribution="user") for k in cols} | dict(
        data_path="q.csv", load_file=True)
    ops = qec.chosen(c, case["op"])
    seen = [s for s, o in enumerate(codes.strings(c.stabilisers))
            if set(o) & set("XYZ") != {x}]
    locs = [(x, t, i) for t in range(r) for i in range(n)]
    if case["m"]:
        locs += [("M", t, s) for t in range(1, r) for s in seen]
    if len(locs) > 12:
        return False
    prob = [case["m"] if k[0] == "M" else ps[k[2]] for k in locs]
    conf = experiment(d)
    dec = conf.decoder
    fails, cache = 0.0, {}
    for bits in itertools.product((0, 1), repeat=len(locs)):
        error = {k for k, b in zip(locs, bits) if b}
        w = math.prod(p if b else 1 - p for p, b in zip(prob, bits))
        syn = syndrome_of(c, error)
        key = syn.tobytes()
        if key not in cache:
            cache[key] = codes.strings([dec.decode(None, syn)])[0]
        both = q.pmul((operator(c, error), 0), (cache[key], 0))[0]
        fails += w * any(q.anticommute(both, o) for o in ops)
    conf = experiment(d)
    got = rate(conf)
    shots = d["device"]["shots"]
    # exact binomial bound (Chernoff)
    require(kl(got, fails) * shots < math.log(2e9) + 1, "failure rate is", got,
            "instead of", fails, "in", shots, "shots")
    other = copy.deepcopy(d)
    other["general"]["seed"] += 1
    if 0.05 < fails < 0.95:
        a, b = outcomes(conf), outcomes(experiment(other))
        require(a != b, "another seed gives the same outcomes")
    return dict(nt=0 < fails < 1, labels=[case["code"]["name"], case["decoder"],
                                          f"rate {fails:.1f}"])


def outcomes(conf):
    conf.build()
    out = []
    for _ in range(40):
        conf.device.run(conf.circuit)
        out.append([int(x) for x in conf.device.get_sample()[0]])
    return out


def kl(a, b):
    """Divergence of two coins."""
    out = 0.0
    for x, y in ((a, b), (1 - a, 1 - b)):
        if x > 0:
            if y <= 0:
                return math.inf if x > 1e-9 else out
            out += x * math.log(x / y)
    return out
