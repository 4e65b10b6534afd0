"""P06: both backends sample the same records, reproducibly, without carry-over."""
import math

import numpy as np
import plaquette
from hypothesis import strategies as st
from plaquette.circuit import Circuit, CircuitBuilder
from plaquette.device import Device

from . import circ
from .harness import Prop, require
from .p05 import certain, channel, reference, shape, shots, wide_case, wide_run

PROP = Prop(
    "P06",
    "circuits in the common instruction set of both backends, histories of runs of "
    "several (also growing) circuits on one device, batch sizes and seeds; "
    "non-trivial: more than one possible record, or a history that returns to an "
    "earlier circuit or extends one; oracle: exact record distribution, Stim's "
    "tableau simulator for large circuits, equality of records for equal seeds",
    ["frequencies are compared with binomial tails below 1e-11"],
)
backends = st.sampled_from(["clifford", "stim"])
seeds = st.integers(0, 2**32)


def device(seed, backend, batch=None, stim_seed=None):
    plaquette.rng = np.random.default_rng(seed)
    kw = {}
    if backend == "stim":
        if batch:
            kw["batch_size"] = batch
        if stim_seed is not None:
            kw["stim_seed"] = stim_seed
    return Device(backend, **kw)


def common(n, steps, **kw):
    """Circuits both backends accept: ERROR X|Y|Z on one qubit, no branches."""
    return circ.circuits(n, steps, chains=False, inner=("X", "Y", "Z"), **kw)


batches = st.sampled_from([None, None, 1, 2, 3, 7, 64])


@PROP.part("stim-distribution", st.integers(1, 4).flatmap(
    lambda n: st.fixed_dictionaries(dict(g=common(n, 9), seed=seeds, batch=batches))),
    300, shards=3)
def stim_distribution(case):
    g = case["g"]
    dist = circ.distribution(g)
    if dist is None or len(dist) > 300:
        return False
    dev = device(case["seed"], "stim", case["batch"])
    samples = shots(dev, circ.build(g), 400)
    shape(g, dev.get_sample())
    bad = circ.compare(samples, dist)
    require(bad is None, bad)
    return dict(nt=len(dist) > 1, labels=sorted({x[0] for x in g}))


@PROP.part("stim-channels", channel(), 60, shards=2)
def stim_channels(case):
    mid = [m for m in case["mid"] if m[0] not in ("ERROR_CONTINUE", "ERROR_ELSE")]
    mid = [m[:4] if m[0] == "ERROR" else m for m in mid]
    pair = case["pair"]
    ref = [t + 1 for t in pair]
    g = ([["H", *pair], ["CX", pair[0], ref[0], pair[1], ref[1]]] + mid +
         [["CX", pair[0], ref[0], pair[1], ref[1]], ["H", *pair],
          ["M", pair[0], ref[0], pair[1], ref[1]]])
    dist = circ.distribution(g)
    dev = device(case["seed"], "stim")
    bad = circ.compare(shots(dev, circ.build(g), 4000), dist)
    require(bad is None, mid, bad)
    return len(dist) > 1


@PROP.part("stim-wide", wide_case(), 100)
def stim_wide(case):
    return wide_run(device(case["seed"], "stim"), case, 300)


@PROP.part("stim-large", certain().filter(lambda c: not any(
    x[0] in ("ERROR_ELSE", "ERROR_CONTINUE") or (x[0] == "ERROR" and (
        len(x) != 4 or x[2] not in ("X", "Y", "Z"))) for x in c["g"])), 250, shards=2)
def stim_large(case):
    g = case["g"]
    random = 0
    for backend in ("stim", "clifford"):
        dev = device(case["seed"], backend, 4)
        c = circ.build(g)
        for _ in range(6 if backend == "stim" else 1):
            dev.run(c)
            shape(g, dev.get_sample())
            m, e = circ.record(dev.get_sample())
            require(not any(e), backend, "erasures of probability 0:", e)
            random = reference(g, m)[1]
    return random > 0


@PROP.part("seed", st.integers(1, 6).flatmap(
    lambda n: st.fixed_dictionaries(dict(
        g=common(n, 8, meas=12), h=common(n, 4), seed=seeds, backend=backends,
        batch=batches, own=st.one_of(st.none(), st.integers(0, 2**40))))), 250)
def seed(case):
    """Equal seeds give equal records, unequal seeds other ones."""
    def run(s, own=None):
        dev = device(s, case["backend"], case["batch"], own)
        out = shots(dev, circ.build(case["g"]), 12)
        out += shots(dev, circ.build(case["h"]), 5)
        return out

    g = case["g"] = case["g"] + [["H", 0], ["M", 0], ["H", 0], ["M", 0]] * 3
    a = run(case["seed"])
    require(a == run(case["seed"]), "the same seed gives other records")
    require(a != run(case["seed"] + 1), "another seed gives the same records")
    if case["backend"] == "stim" and case["own"] is not None:
        a = run(case["seed"], case["own"])
        require(a == run(case["seed"] + 1, case["own"]),
                "the backend's own seed does not determine the records")
        require(a != run(case["seed"], case["own"] + 1), "the backend's seed has no "
                "effect")
        reseeded(case, case["own"] // 2 if case["own"] % 2 else 0)
    return len(g) > 3


def reseeded(case, new):
    """A backend that is reset with a new seed continues as one made with this seed."""
    def run(own, again):
        dev = device(case["seed"], "stim", case["batch"], own)
        if again:
            shots(dev, circ.build(case["g"]), 3)
            dev.reset_backend(new_seed=new)
        return shots(dev, dev.circuit if again else circ.build(case["g"]), 6)

    a = run(new, False)
    require(a == run(case["own"], True), "a backend that is reset with seed", new,
            "does not use it")
    require(a == run(new, True), "resetting a backend with its own seed", new, "fails")


@st.composite
def history(draw):
    n = draw(st.integers(1, 4))
    first = [draw(common(n, 4, meas=3)) for _ in range(draw(st.integers(1, 3)))]
    ops, now = [], len(first)
    for _ in range(draw(st.integers(2, 8))):
        k = draw(st.integers(0, now - 1))
        kind = draw(st.sampled_from(["run", "run", "run", "extend", "copy", "reset", "set"]))
        if kind == "run":
            ops.append(["run", k, draw(st.booleans()), draw(st.integers(1, 4))])
        elif kind == "extend":
            ops.append(["extend", k, draw(common(
                draw(st.integers(n, n + 2)), 3, meas=2)), draw(st.booleans())])
        elif kind == "copy":
            ops.append(["copy", k])
            now += 1
        elif kind == "set":
            ops.append(["set", k])
        else:
            ops.append(["reset"])
    ops.append(["run", draw(st.integers(0, now - 1)), draw(st.booleans()), 2])
    return dict(first=first, ops=ops, seed=draw(seeds), backend=draw(backends),
                batch=draw(batches))


@PROP.part("history", history(), 500, shards=2)
def run_history(case):
    """Every record is one of the circuit that was passed in."""
    lists = [list(g) for g in case["first"]]
    objs = [circ.build(g) for g in lists]
    builders = [CircuitBuilder(c) for c in objs]
    dev = device(case["seed"], case["backend"], case["batch"])
    dists, last, ran, back, extended = {}, None, set(), False, False
    for op in case["ops"]:
        if op[0] == "run":
            k = op[1]
            key = (k, len(lists[k]))
            if key not in dists:
                dists[key] = circ.distribution(lists[k])
                if dists[key] is None:
                    return False
            back |= k in ran and last != k
            extended |= any(a == k and b != len(lists[k]) for a, b in dists)
            ran.add(k)
            last = k
            for _ in range(op[3]):
                dev.run(builders[k] if op[2] else objs[k])
                s = dev.get_sample()
                shape(lists[k], s)
                r = circ.record(s)
                require(dists[key].get(r, 0) > 1e-12, "record", r, "of circuit",
                        lists[k], "is impossible")
                require(circ.record(dev.get_sample()) == r,
                        "asking again for the sample gives another one")
                require(dev.circuit is objs[k], "the device's circuit is another one")
                require(dev.is_completed is None, "state of jobs of a simulator")
                if case["backend"] == "clifford":
                    require(dev.n_qubits == objs[k].number_of_qubits ==
                            len(dev.state.tableau) // 2, "qubits:", dev.n_qubits)
        elif op[0] == "extend":
            k, more = op[1], op[2]
            if op[3]:
                objs[k].append_from_str("\n".join(" ".join(map(str, x)) for x in more))
            else:
                for x in more:
                    objs[k].append(*x)
            lists[k] = lists[k] + more
        elif op[0] == "copy":
            lists.append(list(lists[op[1]]))
            objs.append(Circuit.from_str(str(objs[op[1]])))
            builders.append(CircuitBuilder(objs[-1]))
        elif op[0] == "reset" and last is not None:
            dev.reset_backend()
        elif op[0] == "set" and last is not None:
            dev.circuit = objs[op[1]]
            require(dev.circuit is objs[op[1]], "the circuit that was set is not kept")
    return dict(nt=back or extended, labels=["back"] * back + ["extended"] * extended +
                [case["backend"]])


@PROP.part("independent", st.fixed_dictionaries(dict(
    seed=seeds, backend=backends, batch=st.sampled_from([None, 1, 2, 3, 5, 16, 50]),
    bits=st.integers(1, 12), kind=st.sampled_from(["H", "E_PAULI", "E_ERASE", "ERROR",
                                                   "DEPOLARIZE"]))), 60)
def independent(case):
    """Random bits are fresh for each shot and batch."""
    n, kind = case["bits"], case["kind"]
    g = []
    for t in range(n):
        g.append(dict(H=["H", t], E_PAULI=["E_PAULI", 0.5, 0.0, 0.0, t],
                      E_ERASE=["E_ERASE", 1.0, t], ERROR=["ERROR", 0.5, "X", t],
                      DEPOLARIZE=["E_PAULI", 0.25, 0.25, 0.0, t])[kind])
    g.append(["M", *range(n)])
    dev = device(case["seed"], case["backend"], case["batch"])
    s = shots(dev, circ.build(g), 300)
    o = 1 - 2 * np.array([m for m, _ in s])
    limit = 7.5
    z = abs(o.sum()) / math.sqrt(o.size)
    require(z < limit, "the bits are biased by", z, "sigma")
    for lag in {1, 2, 3, case["batch"] or 4, 2 * (case["batch"] or 4)}:
        z = abs((o[lag:] * o[:-lag]).sum()) / math.sqrt(o[lag:].size)
        require(z < limit, "shots", lag, "apart are correlated by", z, "sigma")
    for k in range(1, n):
        z = abs((o[:, 0] * o[:, k]).sum()) / math.sqrt(len(o))
        require(z < limit, "qubits 0 and", k, "are correlated by", z, "sigma")
    return True


@PROP.part("unsupported", st.fixed_dictionaries(dict(
    bad=st.sampled_from([["ERROR", 0.5, "X", 0, 1], ["ERROR", 0.5, "H", 0],
                         ["ERROR", 0.5, "CX", 0, 1], ["ERROR", 0.5, "M", 0],
                         ["ERROR_ELSE", 0.5, "X", 0], ["ERROR_CONTINUE", "X", 0]]),
    g=common(3, 4), first=st.booleans(), name=st.text("abstimclifford", max_size=8),
    seed=seeds)), 60)
def unsupported(case):
    """What Stim cannot express is refused, as are unknown backends."""
    g = case["g"]
    if case["bad"][0] != "ERROR":
        g = g + [["ERROR", 0.5, "X", 0]]
    dev = device(case["seed"], "stim")
    if case["first"]:
        dev.run(circ.build(case["g"]))
    try:
        dev.run(circ.build(g + [case["bad"]]))
    except ValueError:
        pass
    else:
        require(False, case["bad"], "is accepted by the Stim backend")
    dev.run(circ.build(case["g"]))
    try:
        dev.run(circ.build(case["g"]), after_reset=False)
    except ValueError:
        pass
    else:
        require(False, "the Stim backend claims to continue without reset")
    if case["name"] not in ("clifford", "stim"):
        try:
            Device(case["name"])
        except ValueError:
            pass
        else:
            require(False, "unknown backend", case["name"], "is accepted")
    return True
