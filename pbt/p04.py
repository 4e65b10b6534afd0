"""P04: histories of measurements, resets, insertions and removals."""
import math

import numpy as np
import plaquette
import stim
from hypothesis import strategies as st
from plaquette import device, pauli

from . import q
from .harness import Prop, require
from .p03 import call, fmt, gates

PROP = Prop(
    "P04",
    "histories of gates, Pauli measurements (random and forced outcomes), resets, "
    "insertions and destructive measurements on states of 1-7 qubits (against a "
    "state vector) and 1-40 qubits (against Stim's tableau simulator); non-trivial: "
    "at least one random measurement outcome and two kinds of operations; oracle: "
    "projection postulate, commutation relations of the tableau",
    ["state vectors are compared up to 1e-7", "Stim's TableauSimulator is right"],
)


class Dense:
    """State vector model."""

    def __init__(self):
        self.v = np.ones((), dtype=complex)

    n = property(lambda self: self.v.ndim)

    def insert(self, positions):
        for p in sorted(positions, reverse=True):
            self.v = np.stack([self.v, np.zeros_like(self.v)], axis=p)

    def gate(self, g, qs):
        self.v = q.apgate(self.v, g, qs)

    def prob(self, c, out):
        return q.project(self.v, c, out)[0]

    def collapse(self, c, out):
        self.v = q.project(self.v, c, out)[1]

    def remove(self, t, base, out):
        if base == "X":
            self.v = q.ap1(self.v, q.HAD, t)
        self.v = np.take(self.v, out, axis=t)
        self.v = self.v / np.linalg.norm(self.v)

    def copy(self):
        m = Dense()
        m.v = self.v
        return m

    def stabilised(self, c, s):
        return q.stabilised(self.v, c, s)


class Stim:
    """The same with Stim; removed qubits stay behind."""

    def __init__(self):
        self.sim = stim.TableauSimulator(seed=0)
        self.ids, self.used = [], 0

    n = property(lambda self: len(self.ids))

    def insert(self, positions):
        for p in sorted(positions, reverse=True):
            self.ids.insert(p, self.used)
            self.used += 1
        self.sim.set_num_qubits(self.used)

    def gate(self, g, qs):
        getattr(self.sim, g.lower() if g != "H" else "h")(*[self.ids[t] for t in qs])

    def obs(self, c):
        p = stim.PauliString(self.used)
        for i, o in enumerate(c):
            p[self.ids[i]] = o
        return p

    def prob(self, c, out):
        return (1 + (-1) ** out * self.sim.peek_observable_expectation(self.obs(c))) / 2

    def collapse(self, c, out):
        if self.prob(c, out) < 0.75:
            self.sim.postselect_observable(self.obs(c), desired_value=bool(out))

    def remove(self, t, base, out):
        del self.ids[t]

    def copy(self):
        m = Stim()
        m.sim, m.ids, m.used = self.sim.copy(), list(self.ids), self.used
        return m

    def stabilised(self, c, s):
        return self.sim.peek_observable_expectation(self.obs(c)) == (-1) ** s


@st.composite
def history(draw, start, limit, steps):
    n = draw(start)
    out = dict(n=n, seed=draw(st.integers(0, 2**32)), ops=[])
    for _ in range(draw(st.integers(1, steps))):
        kind = draw(st.sampled_from(
            ["gate", "gate", "gate", "measure", "measure", "base", "base", "destroy",
             "reset", "insert", "append", "measure-again"]))
        outcome = st.sampled_from([None, None, 0, 1])
        if kind == "gate":
            out["ops"].append(["gate", draw(gates(n, 1, 5))])
        elif kind in ("measure", "measure-again"):
            op = draw(st.one_of(st.text("IXYZ", min_size=n, max_size=n),
                                st.text("IIIZ", min_size=n, max_size=n),
                                st.text("IIIX", min_size=n, max_size=n)))
            out["ops"].append([kind, op, draw(st.integers(0, 1)), draw(outcome),
                               draw(st.booleans())])
        elif kind in ("base", "destroy"):
            hi = n if kind == "base" else n - 1
            if hi < 1:
                continue
            qs = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=min(4, hi),
                               unique=True))
            form = draw(st.sampled_from(["int", "list", "tuple"]))
            forced = draw(st.one_of(
                outcome, st.lists(outcome, min_size=len(qs), max_size=len(qs))))
            out["ops"].append([kind, draw(st.sampled_from("XZ")), qs, form, forced])
            if kind == "destroy":
                n -= len(qs)
        elif kind == "reset":
            qs = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3,
                               unique=True))
            out["ops"].append([kind, draw(st.sampled_from(
                ["X", "Y", "Z", "+X", "-X", "-Y", "-Z"])), qs,
                draw(st.sampled_from(["int", "list", "array"]))])
        elif kind == "append" and n < limit:
            out["ops"].append([kind])
            n += 1
        elif kind == "insert" and n < limit:
            pos = draw(st.lists(st.integers(0, n), min_size=1,
                                max_size=min(3, limit - n)))
            out["ops"].append([kind, pos, draw(st.booleans())])
            n += len(pos)
    return out


def check(state, model, what):
    n = model.n
    require(isinstance(state, np.ndarray), what, "returns", type(state))
    require(state.shape == (2 * n, 2 * n + 1), what, "gives shape", state.shape,
            "for", n, "qubits")
    bad = q.check_tableau(state)
    require(bad is None, "after", what, "the tableau is invalid:", bad)
    for r in state[n:]:
        c, s = q.unrow(r)
        require(model.stabilised(c, s), "after", what, "-" * s + c,
                "does not stabilise the state")


def observe(model, c, sign, got, forced, what):
    """Check the outcome of measuring (-1)^sign c and collapse the model."""
    require(got in (0, 1), what, "gives outcome", got)
    got = int(got)
    p = model.prob(c, got ^ sign)
    require(p > 0.25, what, "gives outcome", got, "which has probability", p)
    if forced is not None and p < 0.75:
        require(got == forced, what, "gives", got, "instead of the forced outcome")
    model.collapse(c, got ^ sign)
    return p < 0.75


def run(case, model):
    plaquette.rng = np.random.default_rng(case["seed"])
    n = case["n"]
    model.insert([0] * n)
    state = pauli.zero_state(n)
    random = 0
    for op in case["ops"]:
        kind, what, n = op[0], str(op), model.n
        if kind == "gate":
            for g, qs, form, alias in op[1]:
                if qs:
                    state = call(state, g, qs, form, alias)
                    model.gate(g, qs)
        elif kind in ("measure", "measure-again"):
            _, c, s, forced, text = op
            arg = "-" * s + c if text else q.row(c, s)
            before = arg if text else arg.copy()
            state, got = pauli.measure(state, arg, forced_outcome=forced)
            require(np.array_equal(arg, before), "the operator was modified")
            if set(c) == {"I"}:
                require(got == s, what, "gives", got)
            else:
                random += observe(model, c, s, got, forced, what)
            if kind == "measure-again":
                kw = {} if forced is None else dict(forced_outcome=1 - forced)
                state, again = pauli.measure(state, q.row(c, s), **kw)
                require(again == got, what, "repeated gives", again, "after", got)
        elif kind in ("base", "destroy"):
            _, base, qs, form, forced = op
            f = pauli.measure_x_base if base == "X" else pauli.measure_z_base
            arg = qs[0] if form == "int" and len(qs) == 1 else (
                tuple(qs) if form == "tuple" else list(qs))
            state, got = f(state, arg, destructive=kind == "destroy",
                           forced_outcomes=forced)
            got = np.atleast_1d(got)
            require(len(got) == len(qs), what, "gives outcomes", got)
            want = forced if isinstance(forced, list) else [forced] * len(qs)
            # the highest qubit is measured first
            for i in sorted(range(len(qs)), key=lambda i: -qs[i]):
                random += observe(model, q.single(base, qs[i], n), 0, got[i], want[i],
                                  what)
            if kind == "destroy":
                for i in sorted(range(len(qs)), key=lambda i: -qs[i]):
                    model.remove(qs[i], base, int(got[i]))
        elif kind == "reset":
            _, name, qs, form = op
            arg = qs[0] if form == "int" and len(qs) == 1 else (
                np.array(qs) if form == "array" else list(qs))
            state = pauli.reset_qubits_to_eigenstate(state, name, arg)
            minus = int(name[0] == "-")
            branches = reset_branches(model, name, qs, n)
            random += len(branches) > 1
            # which outcome a reset found is only visible in the state it leaves
            model = next((m for m in branches if agrees(m, state)), branches[0])
        elif kind == "append":
            state = pauli.append_qubit(state)
            model.insert([n])
        elif kind == "insert":
            _, pos, number = op
            arg = pos[0] if number and len(pos) == 1 else pos
            state = pauli.insert_qubit_at(state, arg)
            model.insert(pos)
        check(state, model, what)
    return dict(nt=random > 0 and len({o[0] for o in case["ops"]}) > 1,
                labels=sorted({o[0] for o in case["ops"]}) + [
                    "random outcome"] * bool(random))


def reset_branches(model, name, qs, n):
    """Models of all possible states after a reset."""
    models = [model]
    for t in qs:
        c, new = q.single(name[-1], t, n), []
        for m in models:
            for b in (0, 1):
                if m.prob(c, b) > 0.25:
                    k = m.copy()
                    k.collapse(c, b)
                    if b != (name[0] == "-"):
                        k.gate("X" if name[-1] == "Z" else "Z", [t])
                    new.append(k)
        models = new
    return models


def agrees(model, state):
    if np.shape(state) != (2 * model.n, 2 * model.n + 1):
        return False
    return all(model.stabilised(*q.unrow(r)) for r in state[model.n :])


@PROP.part("small", history(st.integers(1, 6), 7, 14), 1000, shards=3)
def small(case):
    return run(case, Dense())


@PROP.part("large", history(st.one_of(st.integers(1, 10), st.integers(6, 30)), 40, 20),
           500, shards=2)
def large(case):
    return run(case, Stim())


@PROP.part("uniform", st.fixed_dictionaries(dict(
    n=st.integers(1, 8), seed=st.integers(0, 2**32), base=st.sampled_from("XYZ"))), 40)
def uniform(case):
    """Random outcomes take both values, independently of each other."""
    plaquette.rng = np.random.default_rng(case["seed"])
    n, base, m = case["n"], case["base"], 600
    outs = []
    for _ in range(m // n):
        state = pauli.zero_state(n)
        if base == "Z":
            state = pauli.hadamard(state, range(n))
        line = []
        for t in range(n):
            state, out = pauli.measure(state, q.row(q.single(base, t, n)))
            line.append(int(out))
        outs.append(line)
    o = 1 - 2 * np.array(outs)
    # sums of m fair signs: 7 standard deviations
    require(abs(o.sum()) < 7 * math.sqrt(o.size), "outcomes are biased:", o.mean())
    for k in range(1, n):
        c = (o[:, 0] * o[:, k]).sum()
        require(abs(c) < 7 * math.sqrt(len(o)), "outcomes of qubits 0 and", k,
                "are correlated")
    return n > 1


@st.composite
def generators(draw):
    n = draw(st.integers(1, 9))
    return dict(n=n, gates=draw(gates(n, 1, 20)), destab=draw(st.booleans()),
                mix=draw(st.lists(st.tuples(st.integers(0, n - 1),
                                            st.integers(0, n - 1)).map(list),
                                  max_size=12)),
                flips=draw(st.lists(st.integers(0, 1), min_size=n, max_size=n)),
                spoil=draw(st.sampled_from([None] * 4 + ["dependent", "anticommuting",
                                                         "destabiliser"])),
                pad=draw(st.booleans()), short=draw(st.booleans()))


@PROP.part("text-state", generators(), 500)
def text_state(case):
    """States given by their stabilisers as text are exactly those states."""
    from .p03 import conjugate

    n = case["n"]
    stabs = [[q.single("Z", i, n), f] for i, f in enumerate(case["flips"])]
    dest = [[q.single("X", i, n), 0] for i in range(n)]
    for g, qs, _, _ in case["gates"]:
        stabs = [conjugate(r, g, qs) for r in stabs]
        dest = [conjugate(r, g, qs) for r in dest]
    for i, j in case["mix"]:
        if i != j:  # S_i *= S_j, D_j *= D_i keeps the relations
            c, k = q.pmul((stabs[i][0], 2 * stabs[i][1]), (stabs[j][0],
                                                          2 * stabs[j][1]))
            stabs[i] = [c, k // 2]
            dest[j] = [q.pmul((dest[j][0], 0), (dest[i][0], 0))[0], dest[j][1]]
    spoil = case["spoil"]
    if spoil == "dependent" and n > 1:
        stabs[0] = list(stabs[1])
    elif spoil == "anticommuting" and n > 1:
        stabs[0] = list(dest[1])
    elif spoil == "destabiliser" and n > 1 and case["destab"]:
        dest[0], dest[1] = dest[1], dest[0]
    else:
        spoil = None

    def text(r):
        return "+-"[r[1]] + ("".join(f"{o}{i}" for i, o in enumerate(r[0]) if o != "I")
                             if case["short"] else r[0])

    kw = {}
    if case["destab"]:
        kw["destabilisers"] = [text(r) for r in dest]
    if case["pad"] or case["short"]:
        kw["qubits"] = n
    try:
        state = pauli.string_to_state([text(r) for r in stabs], **kw)
    except ValueError as e:
        require(spoil, "a valid state is refused:", e)
        return dict(nt=True, labels=["refused"])
    require(spoil is None, "a state with", spoil, "operators is accepted")
    bad = q.check_tableau(state)
    require(bad is None, "the tableau is invalid:", bad)
    require((state[n:] == np.array([q.row(*r) for r in stabs])).all(),
            "the stabilisers are", state[n:].tolist())
    if case["destab"]:
        require((state[:n] == np.array([q.row(*r) for r in dest])).all(),
                "the destabilisers are", state[:n].tolist())
    return dict(nt=n > 1, labels=["given"] if case["destab"] else ["found"])


@st.composite
def two(draw):
    n, m = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    more = draw(st.lists(gates(2, 1, 5), max_size=(9 - n - m) // 2))
    return dict(all=[[n, draw(gates(n, 1, 8))], [m, draw(gates(m, 1, 8))]]
                + [[2, g] for g in more])


@PROP.part("tensor", two(), 150)
def tensor(case):
    states, v = [], np.ones((), dtype=complex)
    for n, gs in case["all"]:
        s, w = pauli.zero_state(n), q.zero(n)
        for g, qs, form, alias in gs:
            if qs:
                s, w = call(s, g, qs, form, alias), q.apgate(w, g, qs)
        states.append(s)
        v = np.multiply.outer(v, w)
    model = Dense()
    model.v = v
    before = [s.copy() for s in states]
    check(pauli.tensor_product(*states), model, "the tensor product of states")
    require(all((s == b).all() for s, b in zip(states, before)), "a factor is modified")
    return dict(nt=True, labels=[f"factors {len(states)}"])


@PROP.part("refused", st.fixed_dictionaries(dict(
    n=st.integers(1, 5), bad=st.sampled_from(["outcome", "size", "forced", "type",
                                              "insert", "negative"]),
    v=st.integers(2, 5), t=st.integers(0, 4))), 60)
def refused(case):
    """Documented refusals of malformed arguments."""
    n, v = case["n"], case["v"]
    state = pauli.hadamard(pauli.zero_state(n), list(range(n)))
    t = case["t"] % n
    calls = dict(
        outcome=lambda: pauli.measure(state, q.row(q.single("Z", t, n)),
                                      forced_outcome=v),
        size=lambda: pauli.measure(state, q.row("Z" * (n + v))),
        forced=lambda: pauli.measure_z_base(state, [t], forced_outcomes=[0] * v),
        type=lambda: pauli.measure_z_base(state, [t], forced_outcomes=0.5),
        insert=lambda: pauli.insert_qubit_at(state, n + v),
        negative=lambda: pauli.insert_qubit_at(state, -v),
    )
    try:
        r = calls[case["bad"]]()
    except (ValueError, IndexError, TypeError):
        return True
    require(False, case["bad"], "is accepted:", r)


@st.composite
def objects(draw):
    n = draw(st.integers(1, 6))
    ops = []
    for g in draw(gates(n, 2, 12)):
        if g[0] != "S" and g[1]:
            ops.append(g)
        if draw(st.integers(0, 3)) == 0:
            ops.append(["R" + draw(st.sampled_from("XZ")), draw(st.lists(
                st.integers(0, n - 1), min_size=1, max_size=n, unique=True)), "list", 0])
    return dict(n=n, ops=ops, seed=draw(st.integers(0, 2**32)))


@PROP.part("object", objects(), 250)
def state_object(case):
    """States as objects: gates and resets replace the state in place."""
    plaquette.rng = np.random.default_rng(case["seed"])
    n, model = case["n"], Dense()
    model.insert([0] * n)
    s = device.QuantumState(n)
    other = device.QuantumState(n)
    names = dict(H="hadamard", X="x", Y="y", Z="z", CX="cx", CZ="cz")
    for g, qs, form, alias in case["ops"]:
        arg = fmt(qs, form)
        if g[0] == "R":
            s.reset_qubits_to_eigenstate(g[1], arg)
            branches = reset_branches(model, g[1], qs, n)
            model = next((m for m in branches if agrees(m, s.tableau)), branches[0])
        elif g in ("CX", "CZ"):
            r = getattr(s, names[g])(fmt(qs[::2], form), fmt(qs[1::2], form))
            require(r is None, g, "returns", r)
            model.gate(g, qs)
        else:
            getattr(s, names[g])(arg)
            model.gate(g, qs)
        check(s.tableau, model, f"{g} {qs}")
        require((s.number_of_qubits, s.n_q) == (n, n), "number of qubits")
    require(np.array_equal(np.array(s), s.tableau), "state as an array")
    lines = [x for x in str(s).splitlines() if set(x) != {"-"}]
    want = ["+-"[b] + c for c, b in map(q.unrow, s.tableau)]
    require(lines == want, "state as text", lines, "instead of", want)
    require(np.array_equal(other.tableau, pauli.zero_state(n)), "another state changed")
    return dict(nt=len({g[0] for g in case["ops"]}) > 2)
