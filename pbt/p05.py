"""P05: the built-in Clifford simulator against exact quantum simulation."""
import numpy as np
import plaquette
import stim
from hypothesis import strategies as st
from plaquette import pauli
from plaquette.device import Device

from . import circ, q
from .harness import Prop, require

PROP = Prop(
    "P05",
    "circuits over all documented instructions on 1-4 qubits (exact probabilities of "
    "all records by a branching state vector simulation; sampled records tested with "
    "tails below 1e-11), on 1-40 qubits without hidden randomness (each outcome "
    "against Stim's tableau simulator), and single error channels on Bell pairs; "
    "non-trivial: the circuit has a random record and an error instruction or a "
    "random outcome feeding a later one",
    ["frequencies are compared with binomial tails; a deviation within about 7 "
     "standard deviations stays unseen"],
)


def fresh(seed, backend="clifford"):
    plaquette.rng = np.random.default_rng(seed)
    return Device(backend)


def shots(dev, c, n):
    out = []
    for _ in range(n):
        dev.run(c)
        out.append(circ.record(dev.get_sample()))
    return out


def shape(case_gates, sample):
    """Types and lengths of a sample of a circuit without M inside of ERROR."""
    m, e = sample
    n_m = sum(len(g) - 1 for g in case_gates if g[0] == "M")
    n_e = sum(g[0] == "E_ERASE" for g in case_gates)
    require(isinstance(m, np.ndarray) and m.shape == (n_m,), "record", m, "for", n_m,
            "measured qubits")
    if n_e == 0:
        require(e is None, "erasure record", e, "without erasures")
    else:
        require(isinstance(e, np.ndarray) and e.shape == (n_e,) and e.dtype == bool,
                "erasure record", e, "for", n_e, "erasure instructions")


def inner_m(gates):
    return any(g[0].startswith("ERROR") and "M" in g for g in gates)


@PROP.part("distribution", st.integers(1, 4).flatmap(
    lambda n: st.fixed_dictionaries(dict(
        g=circ.circuits(n, 9), seed=st.integers(0, 2**32)))), 220, shards=4)
def distribution(case):
    g = case["g"]
    dist = circ.distribution(g)
    if dist is None or len(dist) > 300:
        return False
    c = circ.build(g)
    dev = fresh(case["seed"])
    samples = shots(dev, c, 250)
    if not inner_m(g):
        shape(g, dev.get_sample())
    bad = circ.compare(samples, dist)
    require(bad is None, bad)
    names = {x[0] for x in g}
    return dict(nt=len(dist) > 1, labels=sorted(names) + [
        f"records: {min(9, len(dist))}"])


@PROP.part("steps", st.integers(1, 4).flatmap(
    lambda n: st.fixed_dictionaries(dict(
        g=circ.circuits(n, 10), seed=st.integers(0, 2**32)))), 350, shards=2)
def steps(case):
    """Instruction by instruction, the state is one the record so far allows."""
    g = case["g"]
    c = circ.build(g)
    dev = fresh(case["seed"])
    dev.run(c)
    dev.reset_backend()
    n = circ.n_qubits(g)
    model = circ.Branches(n)
    it = iter(dev)
    require((np.asarray(dev.state) == pauli.zero_state(n)).all(),
            "reset leaves the state", np.asarray(dev.state).tolist())
    require(dev.n_qubits == n, "number of qubits is", dev.n_qubits)
    for k, x in enumerate(g):
        try:
            next(it)
        except StopIteration:
            require(False, "stepping ends before instruction", k)
        model.step(x)
        if len(model.b) > 3000:
            return False
        r, e = circ.record(dev.get_sample())
        model.b = [b for b in model.b if b[2] == r and b[3] == e]
        require(model.b, "after", x, "the record", r, e, "is impossible")
        tab = np.asarray(dev.state)
        bad = q.check_tableau(tab)
        require(bad is None, "after", x, "the state is no valid tableau:", bad)
        rows = [q.unrow(t) for t in tab[n:]]
        model.b = [b for b in model.b if all(q.stabilised(b[1], *t) for t in rows)]
        require(model.b, "after", x, "with record", r, e, "the state is impossible:",
                rows)
    try:
        next(it)
    except StopIteration:
        pass
    else:
        require(False, "stepping does not end")
    return dict(nt=any(b[2] for b in model.b) and len(g) > 3)


@st.composite
def certain(draw):
    n = draw(st.one_of(st.integers(1, 8), st.integers(5, 40)))
    g = draw(circ.circuits(
        n, 25, meas=60, errors=("E_PAULI", "E_PAULI2", "E_ERASE", "ERROR"),
        inner=("X", "Y", "Z", "H", "CX", "CZ"), prob=st.sampled_from([0.0, 1.0]),
        resets=False))
    out = [["H", *[t for t in range(n) if draw(st.booleans())]]] * draw(
        st.integers(0, 1))
    out = [x for x in out if len(x) > 1]
    for _ in range(draw(st.integers(0, n))):
        out.append(draw(circ.plain(n, circ.PLAIN)))
        if draw(st.integers(0, 4)) == 0:
            out.append(["M", draw(st.integers(0, n - 1))])
    for i, x in enumerate(g):
        if x[0] in ("E_PAULI", "E_PAULI2"):
            k = 3 if x[0] == "E_PAULI" else 15
            one = draw(st.integers(-1, k - 1))
            x = [x[0], *[float(i == one) for i in range(k)], *x[k + 1 :]]
        elif x[0] == "E_ERASE":
            x = ["E_ERASE", 0.0, x[2]]
        out.append(x)
        chain = i + 1 < len(g) and g[i + 1][0].startswith("ERROR_")
        if not chain and draw(st.integers(0, 6)) == 0:  # the hidden outcome of R is known
            t = draw(st.integers(0, n - 1))
            out += [["M", t], ["R", t]]
    if draw(st.integers(0, 2)):
        out.append(["H", *[t for t in range(n) if draw(st.booleans())]])
        out.append(["M", *range(n)])
        out = [x for x in out if len(x) > 1]
    return dict(g=out, seed=draw(st.integers(0, 2**32)))


def reference(gates, record):
    """Check a record with Stim; the circuit has no hidden randomness."""
    n = circ.n_qubits(gates)
    sim = stim.TableauSimulator(seed=0)
    sim.set_num_qubits(n)
    pos = 0
    fired = taken = False
    random = 0

    def act(x):
        if len(x) > 1 and x[0] != "I":
            getattr(sim, {"CX": "cx", "CZ": "cz"}.get(x[0], x[0].lower()))(*x[1:])

    for x in gates:
        name, a = x[0], x[1:]
        if name == "M":
            for t in a:
                p = sim.peek_z(t)
                require(pos < len(record), "the record is too short")
                got = record[pos]
                pos += 1
                if p:
                    require(got == (1 - p) // 2, "bit", pos - 1, "of the record is",
                            got, "instead of", (1 - p) // 2)
                else:
                    random += 1
                    sim.postselect_z(t, desired_value=bool(got))
        elif name == "R":
            for t in a:
                if sim.peek_z(t) == 0:
                    raise AssertionError("hidden outcome")
                sim.reset_z(t)
        elif name == "E_PAULI":
            act(["IXYZ"[a[:3].index(1.0) + 1] if 1.0 in a[:3] else "I", a[3]])
        elif name == "E_PAULI2":
            k = a[:15].index(1.0) + 1 if 1.0 in a[:15] else 0
            act(["IXYZ"[k // 4], a[15]])
            act(["IXYZ"[k % 4], a[16]])
        elif name == "E_ERASE":
            assert a[0] == 0
        elif name == "ERROR":
            fired = taken = a[0] == 1
            if taken:
                act(a[1:])
        elif name == "ERROR_CONTINUE":
            if taken:
                act(a)
        elif name == "ERROR_ELSE":
            taken = not fired and a[0] == 1
            fired |= taken
            if taken:
                act(a[1:])
        else:
            act(x)
    require(pos == len(record), "the record is too long")
    return sim, random


@PROP.part("large", certain(), 500, shards=2)
def large(case):
    g = case["g"]
    dev = fresh(case["seed"])
    c = circ.build(g)
    random = 0
    for _ in range(2):
        dev.run(c)
        shape(g, dev.get_sample())
        m, e = circ.record(dev.get_sample())
        require(not any(e), "erasures of probability 0:", e)
        sim, random = reference(g, m)
        n = circ.n_qubits(g)
        for t in np.asarray(dev.state)[n:]:
            s, sign = q.unrow(t)
            require(sim.peek_observable_expectation(stim.PauliString(s)) ==
                    (-1) ** sign, "the final state is wrong:", "-" * sign + s)
    return dict(nt=random > 0, labels=[f"random: {min(9, random)}"])


BELL = [["H", 0], ["CX", 0, 1]]
UNBELL = [["CX", 0, 1], ["H", 0]]


@st.composite
def channel(draw):
    kind = draw(st.sampled_from(["E_PAULI", "E_PAULI2", "E_ERASE", "DEPOLARIZE",
                                 "chain"]))
    pair = draw(st.sampled_from([[0, 2], [2, 0], [4, 0], [2, 4]]))
    if kind == "E_PAULI":
        mid = [[kind, *draw(circ.simplex(3)), pair[0]]]
    elif kind == "E_PAULI2":
        mid = [[kind, *draw(circ.simplex(15)), *pair]]
    elif kind == "E_ERASE":
        mid = [[kind, draw(circ.probs()), t] for t in pair]
    elif kind == "DEPOLARIZE":
        mid = [[kind, *pair]]
    else:
        def sub():
            t = draw(st.lists(st.sampled_from(pair), min_size=1, max_size=2,
                              unique=True))
            return [draw(st.sampled_from("XYZ")), *t]
        mid = [["ERROR", draw(circ.probs()), *sub()]]
        for _ in range(draw(st.integers(1, 4))):
            mid.append(draw(st.sampled_from([["ERROR_CONTINUE"], ["ERROR_ELSE", 0]])))
            if mid[-1][0] == "ERROR_ELSE":
                mid[-1] = ["ERROR_ELSE", draw(circ.probs())]
            mid[-1] = mid[-1] + sub()
    return dict(mid=mid, pair=pair, seed=draw(st.integers(0, 2**32)))


@PROP.part("channels", channel(), 45, shards=4, thorough=8)
def channels(case):
    """Rates of the Pauli operators that an error instruction applies."""
    pair = case["pair"]
    ref = [t + 1 for t in pair]
    pre = [["H", *pair], ["CX", pair[0], ref[0], pair[1], ref[1]]]
    post = [["CX", pair[0], ref[0], pair[1], ref[1]], ["H", *pair],
            ["M", pair[0], ref[0], pair[1], ref[1]]]
    g = pre + case["mid"] + post
    dist = circ.distribution(g)
    dev = fresh(case["seed"])
    bad = circ.compare(shots(dev, circ.build(g), 1500), dist)
    require(bad is None, case["mid"], bad)
    return dict(nt=len(dist) > 1, labels=sorted({m[0] for m in case["mid"]}))


@st.composite
def wide_case(draw):
    """DEPOLARIZE on many qubits at once, perhaps several times."""
    n = draw(st.integers(1, 24))
    return dict(n=n, seed=draw(st.integers(0, 2**32)), layers=[
        draw(st.lists(st.integers(0, n - 1), max_size=30)) + draw(
            st.permutations(range(n)))[: draw(st.integers(0, n))]
        for _ in range(draw(st.integers(1, 2)))])


def wide_run(dev, case, n_shots):
    """Every target is depolarised once for each time it is listed."""
    n, layers = case["n"], [x for x in case["layers"] if x]
    pairs = [t for i in range(n) for t in (2 * i, 2 * i + 1)]
    times = [sum(x.count(i) for x in layers) for i in range(n)]
    g = [["H", *pairs[::2]], ["CX", *pairs]]
    g += [["DEPOLARIZE", *[2 * i for i in x]] for x in layers]
    g += [["CX", *pairs], ["H", *pairs[::2]], ["M", *pairs]]
    c, seen = circ.build(g), {}
    for _ in range(n_shots):
        dev.run(c)
        shape(g, dev.get_sample())
        m = [int(b) for b in dev.get_sample()[0]]
        for i in range(n):
            k = min(2, times[i])
            seen.setdefault(k, {}).setdefault((m[2 * i], m[2 * i + 1]), 0)
            seen[k][m[2 * i], m[2 * i + 1]] += 1
    require(set(seen.get(0, {})) <= {(0, 0)}, "qubits which are no targets change")
    require((0, 0) not in seen.get(1, {}), "a target of DEPOLARIZE is left out:", layers)
    total = sum(seen.get(1, {}).values())
    for k in ((0, 1), (1, 0), (1, 1)):
        off = abs(seen.get(1, {}).get(k, 0) - total / 3)
        require(off <= 7 * (total * 2 / 9) ** 0.5 + 5, "one of the Pauli operators is"
                " applied", seen.get(1, {}).get(k, 0), "times of", total)
    return dict(nt=max(times) > 0, labels=[f"targets: {'>12' if n > 12 else '<=12'}"])


@PROP.part("wide", wide_case(), 60, shards=2)
def wide(case):
    return wide_run(fresh(case["seed"]), case, 30)


@st.composite
def misplaced(draw):
    n = draw(st.integers(1, 4))
    g = draw(circ.circuits(n, 5, errors=("E_PAULI",)))
    k = draw(st.integers(0, len(g)))
    bad = draw(st.sampled_from([["ERROR_CONTINUE", "X", 0],
                                ["ERROR_ELSE", 0.5, "X", 0]]))
    return dict(g=g[:k] + [bad] + g[k:], seed=0)


@PROP.part("misplaced", misplaced(), 60)
def misplaced_branch(case):
    """Branches of no ERROR instruction are refused, not guessed."""
    dev = fresh(case["seed"])
    for _ in range(2):
        try:
            dev.run(circ.build(case["g"]))
        except ValueError:
            continue
        require(False, "a branch without ERROR is accepted")
    return True


@st.composite
def repeated(draw):
    n = draw(st.integers(1, 4))
    return dict(g=draw(circ.circuits(n, 6, meas=4, resets=False)),
                plan=draw(st.lists(st.booleans(), min_size=2, max_size=4)),
                seed=draw(st.integers(0, 2**32)), builder=draw(st.booleans()))


@PROP.part("continued", repeated(), 300)
def continued(case):
    """Runs without reset continue from the state and the records before."""
    from plaquette.circuit import CircuitBuilder

    g = case["g"]
    c = circ.build(g)
    arg = CircuitBuilder(c) if case["builder"] else c
    dev = fresh(case["seed"])
    model, bits = circ.Branches(circ.n_qubits(g)), ((), ())
    for reset in [True] + case["plan"]:
        if reset:
            model, bits = circ.Branches(circ.n_qubits(g)), ((), ())
        dev.run(arg, after_reset=reset)
        for x in g:
            model.step(x)
        if len(model.b) > 3000:
            return False
        r, e = circ.record(dev.get_sample())
        require(r[: len(bits[0])] == bits[0] and e[: len(bits[1])] == bits[1],
                "records", r, e, "do not continue", bits)
        bits = (r, e)
        model.b = [b for b in model.b if b[2] == r and b[3] == e]
        require(model.b, "the record", r, e, "is impossible")
    return dict(nt=not all(case["plan"]))
