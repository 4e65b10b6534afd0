"""P16: edge weights."""
import copy
import math

import numpy as np
from hypothesis import strategies as st
from plaquette import decoders
from plaquette.syngraph import SyndromeGraphManager, weights as wt

from . import circ, codes
from .harness import Prop, known, require
from .p15 import key

PROP = Prop(
    "P16",
    "error data with random entries (any subset of qubits, missing and zero components, "
    "rates from 1e-12 to 1, any order) on matchable built-in and random codes, loaded "
    "into graphs and decoders; non-trivial: at least two different weights; oracle: the "
    "log-likelihood of each location, computed with exact fractions and math.log1p",
)
NAMES = ["PyMatchingDecoder", "FusionBlossomDecoder", "UnionFindDecoder"]
RATES = st.one_of(
    st.sampled_from([0.0, 1e-12, 1e-6, 0.01, 0.05, 0.1, 0.1, 0.25, 0.3, 0.5, 0.7, 0.999]),
    st.floats(0, 1), st.floats(0, 0.5), st.floats(0, 0.1),
)


@st.composite
def channel(draw, most):
    keys = draw(st.lists(st.sampled_from("xyz"), unique=True, min_size=1, max_size=3))
    ps = [min(draw(RATES), most) for _ in keys]
    s = math.fsum(ps)
    if s > most:
        ps = [p / s * most * 0.999 for p in ps]
    return dict(zip(keys, ps))


@st.composite
def specs(draw, size=4, rounds=(3, 8)):
    code = draw(codes.matchable(size, rounds))
    most = draw(st.sampled_from([1.0, 0.499, 0.499, 0.499]))
    d = dict(code=code, rev=draw(st.booleans()), seed=draw(st.integers(0, 999)))
    for k in ("pauli", "measurement", "erasure"):
        if draw(st.integers(0, 3)) == 0:
            continue
        e = st.lists(channel(most) if k == "pauli" else RATES.map(
            lambda p: dict(p=min(p, most) if k == "measurement" else p)),
            min_size=1, max_size=4)
        d[k] = dict(entries=draw(e), mod=draw(st.sampled_from([1, 1, 1, 2, 3])),
                    off=draw(st.integers(0, 3)))
    return d


def errordata(c, case):
    n, ns = c.n_data_qubits, c.n_stabgens
    out = {}
    kinds = ["pauli", "measurement", "erasure"]
    for k in reversed(kinds) if case["rev"] else kinds:
        if k not in case:
            continue
        d = case[k]
        where = list(range(n, n + ns) if k == "measurement" else range(n))[
            d["off"] :: d["mod"]]
        if case["rev"]:
            where.reverse()
        out[k] = {w: dict(d["entries"][i % len(d["entries"])])
                  for i, w in sorted(enumerate(where), key=lambda x: where.index(x[1]))}
    return out


def like(p):
    """-log(p/(1-p))"""
    if p <= 0:
        return math.inf
    if p >= 1:
        return -math.inf
    return math.log1p(-p) - math.log(p)


def rate(err, k, i, n, default):
    """Probability of an odd number of errors on the location."""
    if k == "M":
        return err.get("measurement", {}).get(n + i, {}).get("p", 0.0)
    e = err.get("pauli", {}).get(i, {})
    a = e.get(k.lower(), 0.0) or default
    return a + (e.get("y", 0.0) or default)


def close(a, b):
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-9 * max(1, abs(b)) or abs(a - b) < 1e-7


def check(g, c, err, default, where):
    """Compares all weights of a graph; returns the set of weights."""
    n, seen, enabled = c.n_data_qubits, set(), {}
    certain = []
    for e in g.edges:
        x, t, i = key(e)
        p = rate(err, x, i, n, default)
        got = float(np.asarray(e.weight).item())
        # 1-p loses digits when p is close to 1
        ok = close(got, like(p)) or p > 0.99999
        require(ok, where, "weight of", (x, t, i), "with rate", p, "is", got,
                "instead of", like(p))
        seen.add(round(like(p), 6))
        ends = tuple(v.vertex_idx for v in e.vertices)
        if ends:
            enabled.setdefault(ends, []).append((p, got, bool(e.enabled)))
        if p == 1 and ends and not e.enabled:
            certain.append((x, t, i))
    for ends, ps in enabled.items():
        best = max(p for p, _, _ in ps)
        on = [p for p, _, a in ps if a]
        if best >= 1 and not (on and on[0] == best):
            continue  # the recorded finding, see ``certain``
        if best <= 0:
            require(not on, where, "impossible errors at", ends, "are enabled")
        else:
            require(len(on) == 1 and (on[0] == best or close(like(on[0]), like(best))),
                    where, "of the rates", ps, "at", ends, "the enabled ones are", on)
    return seen, certain


CERTAIN = [dict(code=dict(kind="planar", size=3, rounds=2), rev=False, seed=0,
                pauli=dict(entries=[dict(x=1.0), dict(x=0.1, z=0.2)], mod=1, off=0))]


@PROP.part("weights", specs(), 250, shards=3, thorough=15, examples=CERTAIN)
def weights(case):
    c = codes.make(case["code"])
    err = errordata(c, case)
    saved = copy.deepcopy(err)
    n, ns = c.n_data_qubits, c.n_stabgens
    w = wt.WeightComputation(c, err)
    for got, default in ((w.get_edge_probab(), None), (w.get_edge_weights(), 1)):
        require(set(got) == {"pauli_x", "pauli_z", "measurement"}, "kinds", set(got))
        for name, k, m in (("pauli_x", "X", n), ("pauli_z", "Z", n),
                           ("measurement", "M", ns)):
            require(np.shape(got[name]) == (m,), "shape", np.shape(got[name]))
            for i, v in enumerate(got[name]):
                p = rate(err, k, i, n, 0.0)
                if default is None:
                    require(abs(v - p) < 1e-12, "rate of", k, i, "is", v, "not", p)
                elif p <= 0.99999:
                    require(close(float(v), like(p)), "weight of", k, i, "is", v,
                            "instead of", like(p))
    g = SyndromeGraphManager(c, err).sgraph
    require(err == saved, "the error data was modified")
    seen, certain = check(g, c, err, 0.0, "graph:")
    # the same entries in another order
    other = {k: dict(reversed(v.items())) for k, v in reversed(err.items())}
    g2 = SyndromeGraphManager(c, other, weighted=True).sgraph
    require([e.weight for e in g.edges] == [e.weight for e in g2.edges]
            and [e.enabled for e in g.edges] == [e.enabled for e in g2.edges],
            "weights depend on the order of the error data")
    g3 = SyndromeGraphManager(c, err, weighted=False).sgraph
    require(all(np.isnan(e.weight) for e in g3.edges), "unweighted graph with weights")
    labels = [*err, case["code"]["kind"], f"weights {min(len(seen), 4)}"]
    if certain:
        labels += known("P16-certain", f"certain errors {certain[:3]} are disabled")
    return dict(nt=len(seen) > 1, labels=labels)


@PROP.part("big", codes.enlarged(specs()), 10, shards=1, thorough=10)
def big(case):
    """Hundreds of qubits or rounds."""
    return weights(case)


class WithErasure(wt.WeightComputation):
    """The documented switch that lets erasures contribute."""

    erasure_weights = True


@PROP.part("erasure", specs(), 80, thorough=5)
def erasure(case):
    c = codes.make(case["code"])
    err = errordata(c, case)
    got = WithErasure(c, err).get_edge_probab()
    n = c.n_data_qubits
    for name, k in (("pauli_x", "X"), ("pauli_z", "Z")):
        for i, v in enumerate(got[name]):
            p = rate(err, k, i, n, 0.0)
            h = err.get("erasure", {}).get(i, {}).get("p", 0.0) / 2
            p = p * (1 - h) + h * (1 - p)
            require(abs(v - p) < 1e-12, "rate of", k, i, "is", v, "not", p)
    require(all(abs(v - rate(err, "M", i, n, 0.0)) < 1e-12 for i, v in enumerate(
        got["measurement"])), "measurement rates", got["measurement"])
    plain = wt.WeightComputation(c, err).get_edge_probab()
    require(all(abs(v - rate(err, "X", i, n, 0.0)) < 1e-12 for i, v in enumerate(
        plain["pauli_x"])), "the switch of another computation matters")
    return dict(nt="erasure" in err and "pauli" in err, labels=[*err])


@PROP.part("decoders", st.tuples(specs(), st.sampled_from(NAMES), st.sampled_from(
    [None, True])).map(list), 200, shards=3, thorough=15)
def decoder(case):
    """The graphs of decoders; unlikely errors are assumed where none is given."""
    case, name, weighted = case
    c = codes.make(case["code"])
    err = errordata(c, case)
    saved = copy.deepcopy(err)
    rates = [rate(err, x, i, c.n_data_qubits, 1e-15) for x in "XZ"
             for i in range(c.n_data_qubits)]
    if c.n_rounds > 1:
        rates += [rate(err, "M", i, c.n_data_qubits, 0) for i in range(c.n_stabgens)]
    cls = getattr(decoders, name)
    try:
        dec = cls.from_code(c, err, weighted=weighted)
    except ValueError as e:
        require(max(rates) >= 0.5, "the decoder refuses the weights:", repr(e))
        return dict(nt=True, labels=["negative refused"])
    require(err == saved, "the error data was modified")
    g = dec.synmgr.sgraph
    seen, certain = check(g, c, err, 1e-15, name)
    for e in g.edges:
        require(not (e.enabled and e.vertices and e.weight < 0), "an error of rate >",
                "0.5 is accepted")
    labels = [name, f"weights {min(len(seen), 4)}"]
    if certain:
        labels += known("P16-certain", f"certain errors {certain[:3]} are disabled")
    return dict(nt=len(seen) > 1, labels=labels)


@PROP.part("arguments", st.tuples(
    specs(), st.sampled_from(NAMES + ["UnionFindNoWeights", "graph"]),
    st.sampled_from(["both", "gate", "weightless", "negative", "nan", "unweighted",
                     "fixed", "default", "value", "place"]),
    st.floats(-9, -1e-6)).map(list), 250)
def arguments(case):
    """Contradictory or unusable weights are refused, default ones are as documented."""
    case, name, what, x = case
    c = codes.make(case["code"])
    err = errordata(c, dict(case, measurement=dict(entries=[dict(p=0.1)], mod=1, off=0)))
    make = SyndromeGraphManager if name == "graph" else getattr(decoders, name).from_code
    ws = dict(pauli_x=1.0, pauli_z=2.0, measurement=3.0)
    if what == "both":
        args, kw = (c, err), dict(weights=ws)
    elif what == "gate":
        args, kw = (c, dict(err, H={c.n_data_qubits: dict(x=0.1)})), {}
    elif what == "weightless":
        if name != "graph":
            return False
        args, kw = (c, None), dict(weighted=True)
    elif what in ("negative", "nan"):
        bad = x if what == "negative" else math.nan
        if name in ("graph", "UnionFindNoWeights") or what == "nan":
            return False
        args, kw = (c, None), dict(weights=dict(ws, pauli_x=bad, pauli_z=bad))
    elif what == "value":
        err["measurement"][c.n_data_qubits]["p"] = 1 - x
        args, kw = (c, err), {}
    elif what == "place":
        err["measurement"][0] = dict(p=0.1)
        args, kw = (c, err), {}
    else:
        args, kw = (c, None), {}
        if what == "unweighted" or name == "UnionFindNoWeights":
            kw["weighted"] = False
            if what == "fixed":
                kw["weights"] = ws
            ws = None
        elif what == "fixed":
            kw["weights"] = ws
        g = make(*args, **kw)
        g = getattr(g, "sgraph", None) or g.synmgr.sgraph
        for e in g.edges:
            k = key(e)[0]
            w = math.nan
            if what == "fixed" and ws:
                w = ws[dict(X="pauli_x", Z="pauli_z", M="measurement")[k]]
            elif what != "unweighted" and name not in ("graph", "UnionFindNoWeights"):
                w = math.inf if k == "M" else like(2e-15)
            got = float(np.asarray(e.weight).item())
            require(got == w or (math.isnan(w) and math.isnan(got)) or close(got, w),
                    "weight", got, "instead of", w)
        return dict(nt=True, labels=[what, name])
    try:
        make(*args, **kw)
    except (ValueError, KeyError):
        return dict(nt=True, labels=["refused", what])
    require(False, "accepted:", what, kw)
