"""Generated Clifford circuits and their exact record distribution.

Instructions are lists ``[name, *args]`` as in ``Circuit.gates``.
"""
import itertools
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from . import q

PAULI = "IXYZ"


def probs():
    return st.one_of(st.sampled_from([0.0, 1.0, 0.5, 0.25, 0.75]),
                     st.integers(0, 100).map(lambda k: k / 100))


@st.composite
def simplex(draw, k):
    """k probabilities with sum <= 1, many of them zero."""
    w = draw(st.lists(st.sampled_from([0, 0, 1, 2, 5]), min_size=k, max_size=k))
    rest = draw(st.sampled_from([0, 0, 1, 8]))
    total = sum(w) + rest
    if total == 0:
        return [0.0] * k
    return [x / total for x in w]


@st.composite
def targets(draw, n, k, lo=1, hi=4):
    """Targets of a (broadcast) k-qubit gate."""
    if k == 1:
        return draw(st.lists(st.integers(0, n - 1), min_size=lo, max_size=hi))
    out = []
    for _ in range(draw(st.integers(lo, max(lo, hi // 2)))):
        out += draw(st.lists(st.integers(0, n - 1), min_size=2, max_size=2,
                             unique=True))
    return out


PLAIN = ["X", "Y", "Z", "H", "H", "CX", "CX", "CZ"]


@st.composite
def plain(draw, n, names):
    names = [g for g in names if n > 1 or g not in ("CX", "CZ", "E_PAULI2")]
    g = draw(st.sampled_from(names))
    hi = draw(st.sampled_from([4] * 9 + [24]))
    return [g, *draw(targets(n, 2 if g in ("CX", "CZ") else 1, hi=hi))]


@st.composite
def circuits(draw, n, steps, meas=6, errors=("E_PAULI", "E_PAULI2", "E_ERASE",
                                             "DEPOLARIZE", "ERROR"),
             chains=True, inner=("X", "Y", "Z", "H", "CX", "CZ", "R", "M",
                                 "DEPOLARIZE"),
             prob=None, final=True, resets=True):
    """A valid circuit with at most ``meas`` recorded bits."""
    prob = prob or probs()
    out, bits = [], 0
    if draw(st.booleans()):
        out.append(["H", *draw(targets(n, 1))])
    kinds = ["plain"] * 5 + ["M"] * 2 + ["R"] * resets + list(errors) * 2
    for _ in range(draw(st.integers(1, steps))):
        kind = draw(st.sampled_from(kinds))
        if kind == "plain":
            out.append(draw(plain(n, PLAIN)))
        elif kind in ("R", "DEPOLARIZE"):
            out.append([kind, *draw(targets(n, 1, 1, 2))])
        elif kind == "M" and bits < meas:
            t = draw(targets(n, 1, 1, max(1, min(3, meas - bits))))
            out.append(["M", *t])
            bits += len(t)
        elif kind == "E_PAULI":
            out.append([kind, *draw(simplex(3)), draw(st.integers(0, n - 1))])
        elif kind == "E_PAULI2" and n > 1:
            out.append([kind, *draw(simplex(15)), *draw(targets(n, 2, 1, 2))])
        elif kind == "E_ERASE" and bits < meas:
            out.append([kind, draw(prob), draw(st.integers(0, n - 1))])
            bits += 1
        elif kind == "ERROR":
            def sub():
                g = draw(plain(n, inner))
                if not chains:
                    g = g[:2]
                return g

            out.append(["ERROR", draw(prob), *sub()])
            if chains:
                for _ in range(draw(st.integers(0, 4))):
                    if draw(st.booleans()):
                        out.append(["ERROR_CONTINUE", *sub()])
                    else:
                        out.append(["ERROR_ELSE", draw(prob), *sub()])
            bits += 2 * sum(g[2] == "M" or g[1] == "M" for g in out
                            if g[0].startswith("ERROR"))
    if final and bits < meas:
        out.append(["M", *draw(st.lists(st.integers(0, n - 1), min_size=1,
                                        max_size=meas - bits, unique=True))])
    return out


def n_qubits(gates):
    return 1 + max((a for g in gates for a in g[1:] if type(a) is int), default=0)


def key(v):
    """State vector up to its phase, as bytes."""
    f = v.ravel()
    a = f[np.argmax(np.abs(f) > 1e-6)]
    return np.round(f * (abs(a) / a) * 64).astype(np.complex64).tobytes()


class Branches:
    """All possible runs of a circuit with their probabilities."""

    def __init__(self, n):
        # (state, record, erasure, in error, any fired, branch taken) -> weight
        self.b = [(1.0, q.zero(n), (), (), False, False, False)]

    def merge(self, items):
        d = {}
        for w, v, r, e, *fl in items:
            if w < 1e-15:
                continue
            k = (key(v), r, e, tuple(fl))
            if k in d:
                d[k][0] += w
            else:
                d[k] = [w, v, r, e, *fl]
        self.b = [tuple(x) for x in d.values()]

    def step(self, g):
        name, args = g[0], g[1:]
        out = []
        for w, v, r, e, ie, fired, taken in self.b:
            if name == "ERROR":
                p, sub = args[0], args[1:]
                for ww, vv, rr, ee in self.apply(w * p, v, r, e, sub):
                    out.append((ww, vv, rr, ee, True, True, True))
                out.append((w * (1 - p), v, r, e, True, False, False))
            elif name == "ERROR_CONTINUE":
                if taken:
                    for ww, vv, rr, ee in self.apply(w, v, r, e, args):
                        out.append((ww, vv, rr, ee, ie, fired, taken))
                else:
                    out.append((w, v, r, e, ie, fired, taken))
            elif name == "ERROR_ELSE":
                p, sub = args[0], args[1:]
                if fired:
                    out.append((w, v, r, e, ie, True, False))
                else:
                    for ww, vv, rr, ee in self.apply(w * p, v, r, e, sub):
                        out.append((ww, vv, rr, ee, True, True, True))
                    out.append((w * (1 - p), v, r, e, True, False, False))
            else:
                for ww, vv, rr, ee in self.apply(w, v, r, e, g):
                    out.append((ww, vv, rr, ee, False, False, False))
        self.merge(out)

    def apply(self, w, v, r, e, g):
        """List of (weight, state, record, erasure) after a plain instruction."""
        name, args = g[0], g[1:]
        if w <= 0:
            return []
        if name in ("X", "Y", "Z", "H", "CX", "CZ"):
            return [(w, q.apgate(v, name, args), r, e)]
        out = [(w, v, r, e)]
        if name in ("M", "R"):
            for t in args:
                new = []
                for w, v, r, e in out:
                    for b in (0, 1):
                        p, u = q.project(v, q.single("Z", t, v.ndim), b)
                        if p < 1e-9:
                            continue
                        if name == "R":
                            u = q.apgate(u, "X", [t]) if b else u
                            new.append((w * p, u, r, e))
                        else:
                            new.append((w * p, u, r + (b,), e))
                out = new
        elif name == "DEPOLARIZE":
            for t in args:
                out = [(w / 3, q.apgate(v, c, [t]), r, e) for w, v, r, e in out
                       for c in "XYZ"]
        elif name == "E_PAULI":
            ps = [1 - sum(args[:3]), *args[:3]]
            out = [(w * p, q.apgate(v, c, [args[3]]), r, e) for w, v, r, e in out
                   for c, p in zip(PAULI, ps)]
        elif name == "E_PAULI2":
            ps = [1 - sum(args[:15]), *args[:15]]
            out = [(w * p, q.apgate(q.apgate(v, c[0], [args[15]]), c[1], [args[16]]),
                    r, e) for w, v, r, e in out
                   for c, p in zip(itertools.product(PAULI, repeat=2), ps) if p > 0]
        elif name == "E_ERASE":
            p, t = args
            out = [(w * p / 4, q.apgate(v, c, [t]), r, e + (1,))
                   for w, v, r, e in out for c in PAULI] + [
                       (w * (1 - p), v, r, e + (0,)) for w, v, r, e in out]
        else:
            raise AssertionError(name)
        return out

    def distribution(self):
        d = {}
        for w, v, r, e, *_ in self.b:
            d[r, e] = d.get((r, e), 0.0) + w
        return d


def distribution(gates, n=None, limit=4000):
    """Exact distribution of (record, erasure), or None if it is too big."""
    b = Branches(n or n_qubits(gates))
    for g in gates:
        b.step(g)
        if len(b.b) > limit:
            return None
    return b.distribution()


def tail(k, n, p):
    """Probability of a deviation as large as k successes of n at rate p."""
    if p <= 1e-12:
        return 1.0 if k == 0 else 0.0
    if p >= 1 - 1e-12:
        return 1.0 if k == n else 0.0
    if k > n * p:
        return float(stats.binom.sf(k - 1, n, p))
    return float(stats.binom.cdf(k, n, p))


def compare(samples, dist, alpha=1e-11):
    """Reason why samples do not come from the distribution, or None."""
    n = len(samples)
    counts = {}
    for s in samples:
        counts[s] = counts.get(s, 0) + 1
    for s in counts:
        if dist.get(s, 0.0) < 1e-12:
            return f"record {s} is impossible"
    for s, p in dist.items():
        if tail(counts.get(s, 0), n, min(p, 1.0)) < alpha:
            return f"record {s}: {counts.get(s, 0)} of {n} with probability {p:.4f}"
    flat = {s: s[0] + s[1] for s in dist}
    lengths = {len(f) for f in flat.values()}
    if len(lengths) == 1 and (k := lengths.pop()) <= 8:
        for mask in range(1, 1 << k):
            bits = [i for i in range(k) if mask >> i & 1]
            par = {s: sum(f[i] for i in bits) % 2 for s, f in flat.items()}
            p = sum(w for s, w in dist.items() if par[s])
            c = sum(m for s, m in counts.items() if par[s])
            if tail(c, n, min(max(p, 0.0), 1.0)) < alpha:
                return f"parity of record bits {bits}: {c} of {n}, expected {p:.4f}"
    return None


def build(gates):
    """The Circuit, built with the public interface."""
    from plaquette.circuit import Circuit

    c = Circuit()
    for g in gates:
        c.append(*g)
    return c


def record(sample):
    """Hashable form of what get_sample returns."""
    m, e = sample
    m = tuple(int(x) for x in np.atleast_1d(m))
    e = () if e is None else tuple(int(x) for x in np.atleast_1d(e))
    return m, e


def sigma(n, p):
    return math.sqrt(n * p * (1 - p))
