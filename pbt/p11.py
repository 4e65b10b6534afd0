"""P11: codes after fabrication errors."""
import warnings

import numpy as np
from hypothesis import strategies as st
from plaquette.circuit.generator import generate_qec_circuit
from plaquette.codes import latticebase as lb

from . import codes, q, qec
from .harness import Prop, require
from .p09 import layout, symp
from .p12 import run_memory

PROP = Prop(
    "P11",
    "planar codes (sizes 2-7; also rotated and toric ones) with up to eight faulty data "
    "qubits, gates and stabilisers, given by index or position, in one or two steps; "
    "non-trivial: at least one qubit is removed and the code survives; oracle: "
    "commutators symbol by symbol, the group of the original code restricted to the "
    "remaining qubits, and a simulated memory experiment on the new code",
    ["experimental handling of defects: only keep_gauge=\"half\", and boundary_join for "
     "one qubit with three stabilisers"],
)


@st.composite
def specs(draw, lo=2, hi=6, most=7, kinds=("planar",) * 4 + ("rotated", "toric")):
    kind = draw(st.sampled_from(kinds))
    size = draw(st.sampled_from([*range(lo, hi + 1), hi - 1, hi - 1, hi]))
    n = dict(planar=size**2 + (size - 1) ** 2, rotated=size**2, toric=2 * size**2)[kind]
    d = dict(kind=kind, size=size, rounds=draw(st.integers(1, 3)))
    steps = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
        s = dict(qubits=draw(st.lists(st.integers(0, n - 1), max_size=most)))
        s["gates"] = draw(st.lists(st.tuples(
            st.integers(0, 999), st.integers(0, 9)).map(list), max_size=2))
        s["stabs"] = draw(st.lists(st.integers(0, 999),
                                   max_size=draw(st.sampled_from([0, 0, 1, 2]))))
        s["pos"] = draw(st.booleans())
        steps.append(s)
    return dict(code=d, steps=steps, op=draw(st.sampled_from("XZ")),
                gauge=draw(st.sampled_from([None, None, None, None, "none", "half"])),
                ancilla=draw(st.booleans()), seed=draw(st.integers(0, 9999)))


def arguments(c, s):
    """Arguments of apply_fabrication_errors and positions of the removed qubits."""
    lat = c.lattice
    name = (lambda v: v.pos) if s["pos"] else (lambda v: v.equbit_idx)
    data = [lat.dataqubits[i % len(lat.dataqubits)] for i in s["qubits"]]
    removed = {v.pos for v in data}
    gates, stabs = [], []
    for i, j in s["gates"]:
        v = lat.stabgens[i % len(lat.stabgens)]
        e = v.edges[j % len(v.edges)]
        gates.append((name(v), name(e.data)))
        removed.add(e.data.pos)
    for i in s["stabs"]:
        v = lat.stabgens[i % len(lat.stabgens)]
        stabs.append(name(v))
        removed |= {e.data.pos for e in v.edges}
    kw = dict(faulty_qubits=[name(v) for v in data], faulty_gates=gates,
              faulty_stabilizers=stabs)
    return {k: v for k, v in kw.items() if v or s["qubits"]}, removed


BARE = dict(code=dict(kind="planar", size=5, rounds=1), gauge="half", op="X", seed=0,
            ancilla=False, steps=[  # the second step meets a qubit without stabilisers
                dict(gates=[], pos=False, qubits=[1, 7, 23, 27], stabs=[]),
                dict(gates=[], pos=False, qubits=[], stabs=[260])])


@PROP.part("defects", specs(), 350, shards=4, thorough=15, examples=[BARE])
def defects(case, experiment=True):
    warnings.simplefilter("ignore")
    c = codes.make(case["code"])
    labels, gone = [case["code"]["kind"]], 0
    gauge = dict(keep_gauge=case["gauge"]) if case["gauge"] else {}
    labels += [case["gauge"]] if gauge else []
    for s in case["steps"]:
        if not c.lattice.stabgens:
            break
        stabs0 = codes.strings(c.stabilisers)
        logs0 = codes.strings(c.logical_ops)
        pos0 = [v.pos for v in c.lattice.dataqubits]
        kw, removed = arguments(c, s)
        try:
            c.apply_fabrication_errors(**kw, **gauge)
        except lb.NoLogicalOperatorError:
            require(removed, "a code without defects is refused")
            need = cut(pos0, removed, stabs0, logs0)
            require(need or len(removed) > 1 or gone,
                    "the code is refused for one removed qubit without need")
            return dict(nt=False, labels=labels + [f"refused {need}"])
        except ValueError:
            if case["code"]["kind"] == "toric" and any(
                not v.edges for v in c.lattice.stabgens
            ):  # all stabilisers are merged to the identity: no code any more
                return dict(nt=False, labels=labels + ["trivial stabiliser"])
            raise
        gauge = {}  # the setting stays
        gone += len(removed)
        pos = [v.pos for v in c.lattice.dataqubits]
        require(pos == [p for p in pos0 if p not in removed], "remaining data qubits",
                pos, "after removing", sorted(removed))
        if not c.lattice.stabgens:
            return dict(nt=False, labels=labels + ["no stabiliser"])
        stabs, logs = codes.strings(c.stabilisers), codes.strings(c.logical_ops)
        valid(stabs, logs, case["code"]["kind"] != "toric")
        origin([pos0.index(p) for p in pos], stabs0, logs0, stabs, logs)
        require((c.n_data_qubits, c.n_stabgens, c.n_logical_ops) ==
                (len(pos), len(stabs), len(logs0)), "counts of the code")
        require(codes.strings(c.logical_x) == logs[::2] and
                codes.strings(c.logical_z) == logs[1::2], "logical X and Z")
        require(codes.strings(c.lattice.stabilisers) == stabs and
                codes.strings(c.lattice.logical_operators) == logs, "the lattice")
        layout(c, stabs, logs)
        c.check()
    if experiment and c.lattice.stabgens and len(codes.strings(c.stabilisers)) < 60:
        ops = case["op"] * c.n_logical_qubits
        if case["ancilla"] or qec.qubitwise(qec.chosen(c, ops)):
            made = generate_qec_circuit(c, {}, {}, ops, case["ancilla"])
            run_memory(c, made, dict(code=case["code"], ops=ops, ancilla=case["ancilla"],
                                     seed=case["seed"], prefix=[["H", *range(40)]]))
            labels.append("experiment")
    labels.append(f"removed {min(gone, 9)}")
    return dict(nt=gone > 0, labels=labels)


def valid(stabs, logs, independent):
    x, z = [[int("".join(str(int(o in p)) for o in a), 2) for a in stabs + logs]
            for p in ("XY", "ZY")]
    for i, a in enumerate(stabs):
        require(set(a) != {"I"}, "stabiliser", i, "is the identity")
        for j, b in enumerate(stabs + logs):
            require(not ((x[i] & z[j]).bit_count() + (z[i] & x[j]).bit_count()) % 2,
                    "stabiliser", a, "and", b, "anticommute")
    for i, a in enumerate(logs):
        for j, b in enumerate(logs):
            want = int(i // 2 == j // 2 and i != j)
            require(q.anticommute(a, b) == want, "logical operators", a, b,
                    "do not" if want else "do", "anticommute")
    if independent:
        require(q.rank2([symp(s) for s in stabs]) == len(stabs),
                "stabilisers are not independent:", stabs)


def origin(keep, stabs0, logs0, stabs, logs):
    """The new operators are those of the old code, apart from removed qubits."""
    old = [symp("".join(s[i] for i in keep)) for s in stabs0]
    r = q.rank2(old)
    require(q.rank2(old + [symp(s) for s in stabs]) == r,
            "a stabiliser is no product of the original ones:", stabs)
    # products of the original stabilisers that avoid the removed qubits remain
    gone = [i for i in range(len(stabs0[0])) if i not in keep]
    rows = [(symp("".join(s[i] for i in gone)) if gone else 0, o)
            for s, o in zip(stabs0, old)]
    basis, free = [], []
    for a, b in rows:
        for c, d in basis:
            if a ^ c < a:
                a, b = a ^ c, b ^ d
        if a:
            basis.append((a, b))
            basis.sort(reverse=True)
        else:
            free.append(b)
    new = [symp(s) for s in stabs]
    require(q.rank2(new + free) == q.rank2(new), "a stabiliser on the remaining qubits "
            "was lost; the new stabilisers are", stabs)
    for a, b in zip(logs0, logs):
        a = "".join(a[i] for i in keep)
        require(q.in_span(symp(a) ^ symp(b), old), "logical operator", b,
                "is not equivalent to", a)


def cut(pos, removed, stabs, logs):
    """Removing the qubits can leave no logical qubit: some logical operator is
    equivalent to one that acts on removed qubits only."""
    keep = [i for i, p in enumerate(pos) if p not in removed]
    if not keep:
        return True
    old = [symp("".join(s[i] for i in keep)) for s in stabs]
    return any(q.in_span(symp("".join(a[i] for i in keep)), old) for a in logs) or any(
        set(s[i] for i in keep) == {"I"} for s in stabs)


@PROP.part("pairs", specs(3, 5, 0), 24)
def every_single(case):
    """Every single data qubit of a code, and the same one by gate."""
    warnings.simplefilter("ignore")
    n = codes.make(case["code"]).n_data_qubits
    kinds = set()
    for i in range(n):
        one = dict(case, steps=[dict(qubits=[i], gates=[], stabs=[], pos=False)])
        a = defects(one, False)
        kinds |= set(a["labels"])
        c, d = codes.make(case["code"]), codes.make(case["code"])
        v = c.lattice.dataqubits[i]
        e = next(e for e in v.edges if isinstance(e.op, lb.StabGenVertex))
        g = [(e.op.equbit_idx, v.equbit_idx)]
        try:
            c.apply_fabrication_errors(faulty_qubits=[i])
            d.apply_fabrication_errors(faulty_gates=g)
        except lb.NoLogicalOperatorError:
            continue
        k = c.n_data_qubits - c.n_stabgens
        if case["code"]["kind"] == "planar":
            alternatives(case, i, k)
        require(c == d, "removing qubit", i, "directly and by its gate", g, "differ")
    return dict(labels=[case["code"]["kind"]])


def alternatives(case, i, k0):
    """The other ways to handle one removed qubit, as far as they are documented."""
    for kw in {}, dict(keep_gauge="half"), dict(boundary_join=True):
        c = codes.make(case["code"])
        stabs0, logs0 = codes.strings(c.stabilisers), codes.strings(c.logical_ops)
        n = sum(isinstance(e.op, lb.StabGenVertex) for e in c.lattice.dataqubits[i].edges)
        if n < 3:
            continue  # a corner: the documentation speaks of three stabilisers
        c.apply_fabrication_errors(faulty_qubits=[i], **kw)
        stabs, logs = codes.strings(c.stabilisers), codes.strings(c.logical_ops)
        valid(stabs, logs, True)
        origin([j for j in range(len(stabs0[0])) if j != i], stabs0, logs0, stabs, logs)
        k = c.n_data_qubits - len(stabs)
        # three stabilisers or half of the gauge operators: no additional qubit
        want = 1 if (n == 4) == ("keep_gauge" in kw) else k0
        require(k == want, "removing qubit", i, "with", kw, "leaves", k,
                "logical qubits instead of", want)
        cut_out = lambda s: symp(s[:i] + s[i + 1:])  # noqa: E731
        rest = [cut_out(s) for s in stabs0 if s[i] == "I"]
        pairs = {o: [cut_out(s) for s in stabs0 if s[i] == o] for o in "XZ"}
        joined = {o: [p[0] ^ p[1]] if len(p) == 2 else p for o, p in pairs.items()}
        if n == 4 and kw.get("keep_gauge"):
            which = [joined["X"] + pairs["Z"], joined["Z"] + pairs["X"]]
        elif n == 4 or "boundary_join" in kw:
            which = [joined["X"] + joined["Z"]]
        else:  # one stabiliser is disabled, the other two remain
            which = [p for p in pairs.values() if len(p) == 2]
        new = [symp(s) for s in stabs]
        require(any(q.rank2(new) == q.rank2(rest + w) == q.rank2(new + rest + w)
                    for w in which), "removing qubit", i, "with", kw, "leaves", stabs)


@PROP.part("invalid", st.fixed_dictionaries(dict(
    size=st.integers(2, 4), a=st.integers(0, 99), b=st.integers(0, 99),
    kind=st.sampled_from(["qubit", "stab", "gate", "apart", "swapped"]),
    pos=st.booleans())), 150)
def invalid(case):
    """References to something else than qubits or gates of the code are refused."""
    warnings.simplefilter("ignore")
    spec = dict(kind="planar", rounds=1, size=case["size"])
    c = codes.make(spec)
    lat = c.lattice
    name = (lambda v: v.pos) if case["pos"] else (lambda v: v.equbit_idx)
    data, ops = lat.dataqubits, [*lat.stabgens, *lat.logical_ops]
    d = data[case["a"] % len(data)]
    o, s = ops[case["b"] % len(ops)], lat.stabgens[case["b"] % len(lat.stabgens)]
    kw = dict(
        qubit=dict(faulty_qubits=[name(o)]),
        stab=dict(faulty_stabilizers=[name([d, lat.logical_ops[case["b"] % 2]][
            case["a"] % 2])]),
        gate=dict(faulty_gates=[(name(d), name(d))]),
        apart=dict(faulty_gates=[(name(s), name(d))]),
        swapped=dict(faulty_gates=[(name(d), name(s))]),
    )[case["kind"]]
    if case["kind"] == "apart" and d in s.neighbours:
        return False
    try:
        c.apply_fabrication_errors(**kw)
    except ValueError as e:
        require(not isinstance(e, lb.NoLogicalOperatorError), "wrong error", repr(e))
        require(c == codes.make(spec), "the code was changed")
        np.testing.assert_equal(len(lat.dataqubits), len(data))
        return True
    require(False, "the invalid defects", kw, "are accepted")
