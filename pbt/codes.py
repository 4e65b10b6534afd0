"""Generated codes: built-in ones and random ones made by Clifford scrambling.

A code is described by a dictionary (a JSON value) and built with ``make``.
"""
import itertools
import warnings

from hypothesis import strategies as st

from . import q

FIXED = ["five_qubit", "shor"]


def counts(rounds):
    """Numbers of rounds: up to a number, or (a, b) for mostly up to a, rarely to b."""
    if isinstance(rounds, int):
        return st.integers(1, rounds)
    few, many = rounds
    return st.sampled_from([st.integers(1, few)] * 7
                           + [st.integers(few + 1, many)]).flatmap(lambda x: x)


def builtin(max_size=6, kinds=("planar", "toric", "rotated", "repetition",
                               "five_qubit", "shor"), rounds=3):
    @st.composite
    def gen(draw):
        kind = draw(st.sampled_from(kinds))
        d = dict(kind=kind, rounds=draw(counts(rounds)))
        if kind == "repetition":
            d["size"] = 2 * draw(st.integers(1, max(1, max_size - 1))) + 1
        elif kind not in FIXED:
            hi = max_size if kind in ("rotated", "planar") else max(2, max_size - 1)
            d["size"] = draw(st.integers(2, hi))
        if kind == "rotated":
            d["xzzx"] = draw(st.booleans())
        return d

    return gen()


def make(d):
    """Build the code with plaquette's public constructors."""
    from plaquette import pauli
    from plaquette.codes import LatticeCode

    kind, r = d["kind"], d["rounds"]
    if kind == "defects":
        c = make(dict(d, kind=d["base"]))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c.apply_fabrication_errors(faulty_qubits=list(d["faulty"]))
        return c
    if kind == "five_qubit":
        return LatticeCode.make_five_qubit(r)
    if kind == "shor":
        return LatticeCode.make_shor(r)
    if kind == "rotated":
        return LatticeCode.make_rotated_planar(r, d["size"], d.get("xzzx", False))
    if kind == "custom":
        return LatticeCode.from_operators(
            [pauli.string_to_pauli(s) for s in d["stabs"]],
            [pauli.string_to_pauli(s) for s in d["logs"]], r)
    return getattr(LatticeCode, f"make_{kind}")(r, d["size"])


@st.composite
def scrambled(draw, n, css, depth=20, singles=("H", "S")):
    """Images of Z_0..Z_{n-1} and X_0..X_{n-1} under random Clifford gates."""
    from .p03 import conjugate

    zs = [q.single("Z", i, n) for i in range(n)]
    xs = [q.single("X", i, n) for i in range(n)]
    if css:  # some of the Z_i are exchanged with X_i first
        for i in range(n):
            if draw(st.booleans()):
                zs[i], xs[i] = xs[i], zs[i]
    for _ in range(draw(st.integers(0, depth)) if n > 1 else 0):
        if css or draw(st.booleans()):
            g = ("CX", draw(st.lists(st.integers(0, n - 1), min_size=2, max_size=2,
                                     unique=True)))
        else:
            g = (draw(st.sampled_from(list(singles) + ["CZ"] * (n > 1))), [])
            k = 2 if g[0] == "CZ" else 1
            g = (g[0], draw(st.lists(st.integers(0, n - 1), min_size=k, max_size=k,
                                     unique=True)))
        zs = [conjugate([c, 0], *g)[0] for c in zs]
        xs = [conjugate([c, 0], *g)[0] for c in xs]
    return zs, xs


@st.composite
def custom(draw, max_n=7, css=None, rounds=3, kmax=3, min_stabs=1):
    """A random valid code with independent stabilisers."""
    n = draw(st.integers(min_stabs + 1, max_n))
    k = draw(st.integers(1, min(kmax, n - min_stabs)))
    c = draw(st.booleans()) if css is None else css
    zs, xs = draw(scrambled(n, c))
    logs = []
    for i in range(n - k, n):
        pair = [xs[i], zs[i]]
        if draw(st.booleans()):
            pair.reverse()
        logs += pair
    return dict(kind="custom", rounds=draw(counts(rounds)), n=n,
                stabs=zs[: n - k], logs=logs, css=c)


@st.composite
def defective(draw, max_size=4, rounds=3):
    """A planar code after removing some faulty qubits."""
    base = draw(st.sampled_from(["planar", "planar", "rotated"]))
    size = draw(st.integers(3, max(3, max_size)))
    n = size**2 + (size - 1) ** 2 * (base == "planar")
    d = dict(kind="defects", base=base, size=size, rounds=draw(counts(rounds)),
             faulty=draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3,
                                  unique=True)))
    while not usable(d):
        d["faulty"] = d["faulty"][:-1]
    return d


def usable(d):
    try:
        c = make(d)
    except ValueError:  # refused, see P11
        return not d["faulty"]
    rows = strings(c.stabilisers)
    return c.n_data_qubits > 3 and len(rows) > 0 and all(
        sum(q.anticommute(r, q.single(x, i, c.n_data_qubits)) for r in rows) <= 2
        for x in "XZ" for i in range(c.n_data_qubits))


def code(max_size=5, rounds=3, **kw):
    return st.one_of(builtin(max_size, rounds=rounds),
                     custom(rounds=rounds, **kw), builtin(max_size, rounds=rounds),
                     custom(rounds=rounds, **kw), defective(min(4, max_size), rounds))


@st.composite
def large(draw, f=1.0):
    """Lattices with hundreds of qubits or rounds."""
    kind, size, rounds = draw(st.sampled_from([
        ("planar", (9, 12), (1, 10)), ("rotated", (9, 18), (1, 6)),
        ("toric", (8, 11), (1, 6)), ("repetition", (50, 150), (1, 3)),
        ("repetition", (1, 3), (100, 300)), ("planar", (2, 3), (100, 260))]))
    size = draw(st.integers(*size))
    if f != 1.0 and size > 5:
        size = int(size * f)
    d = dict(kind=kind, rounds=draw(st.integers(*rounds)),
             size=2 * size + 1 if kind == "repetition" else size)
    if kind == "rotated":
        d["xzzx"] = draw(st.booleans())
    return d


@st.composite
def enlarged(draw, specs, f=1.0):
    """The same cases for large codes."""
    from . import qec

    d = dict(draw(specs), code=draw(large(f)))
    d.pop("faulty", None)
    if "ops" in d:
        d["ops"] = draw(qec.bases(d["code"]))
    return d


def strings(rows):
    return [q.unrow(r)[0] for r in rows]


def distance(stabs, logs, limit=6):
    """Least weight of an operator that commutes with all stabilisers but not with
    all logical operators, or None if it exceeds the limit."""
    n = len(stabs[0])
    checks = list(stabs) + list(logs)
    m = len(stabs)
    # syndromes of single-qubit operators as bit masks
    syn = {}
    for i in range(n):
        for c in "XYZ":
            s = 0
            for j, op in enumerate(checks):
                if op[i] != "I" and op[i] != c:
                    s |= 1 << j
            syn[i, c] = s
    low = (1 << m) - 1
    for w in range(1, limit + 1):
        for qs in itertools.combinations(range(n), w):
            for cs in itertools.product("XYZ", repeat=w):
                s = 0
                for i, c in zip(qs, cs):
                    s ^= syn[i, c]
                if s & low == 0 and s >> m:
                    return w
    return None


def graph_code(ends, n_stabs, flips=(), rounds=1, perm=None):
    """Code whose decoding graph is any multigraph: one qubit per edge.

    ``ends`` are lists of one or two different vertices.  Vertices are products
    of Z on their edges; qubits in ``flips`` have X and Z exchanged.
    """
    n = len(ends)
    cols = perm or list(range(n))
    rows = [[int(v in e) for e in ends] for v in range(n_stabs)]
    # reduced row echelon form over GF(2)
    m, piv = [r[:] for r in rows], []
    for c in range(n):
        r = next((i for i in range(len(piv), len(m)) if m[i][c]), None)
        if r is None:
            continue
        k = len(piv)
        m[k], m[r] = m[r], m[k]
        for i in range(len(m)):
            if i != k and m[i][c]:
                m[i] = [a ^ b for a, b in zip(m[i], m[k])]
        piv.append(c)

    def op(bits, letter):
        out = ["I"] * n
        for i, b in enumerate(bits):
            if b:
                out[cols[i]] = "XZ"[(letter == "Z") ^ (cols[i] in flips)]
        return "".join(out)

    logs = []
    for f in range(n):
        if f in piv:
            continue
        x = [int(i == f) for i in range(n)]
        for r, c in enumerate(piv):
            x[c] = m[r][f]
        logs += [op(x, "X"), op([int(i == f) for i in range(n)], "Z")]
    return dict(kind="custom", rounds=rounds, n=n, stabs=[op(r, "Z") for r in rows],
                logs=logs, css=True)


@st.composite
def graphs(draw, max_v=6, max_e=10, rounds=3, boundary=None):
    """Codes of random connected multigraphs (no loops), with or without boundary."""
    v = draw(st.integers(1, max_v))
    ends = [[draw(st.integers(0, i - 1)), i] for i in range(1, v)]
    b = draw(st.booleans()) if boundary is None else boundary
    if b or v == 1:
        ends.append([draw(st.integers(0, v - 1))])
    # without boundary the last vertex is the product of the other ones
    more = draw(st.integers(1, max(1, max_e - len(ends))))
    for _ in range(more):
        k = draw(st.sampled_from([2, 2, 2, 1])) if (b or v == 1) else 2
        k = min(k, v)
        ends.append(draw(st.lists(st.integers(0, v - 1), min_size=k, max_size=k,
                                  unique=True)))
    n = len(ends)
    perm = list(draw(st.permutations(range(n))))
    flips = [i for i in range(n) if draw(st.booleans())]
    d = graph_code(ends, v, flips, draw(counts(rounds)), perm)
    return dict(d, ends=[ends[perm.index(i)] for i in range(n)])


@st.composite
def bundled(draw):
    """Few vertices with dozens of edges to the boundary or to each other."""
    v = draw(st.integers(1, 3))
    ends = [[i] for i in range(v)]
    for _ in range(draw(st.integers(1, 2))):
        e = draw(st.sampled_from([[i] for i in range(v)] + [
            [i, (i + 1) % v] for i in range(v) if v > 1]))
        ends += [e] * draw(st.integers(3, 30))
    perm = list(draw(st.permutations(range(len(ends)))))
    return graph_code(ends, v, (), draw(st.integers(1, 2)), perm)


@st.composite
def relabelled(draw, size=3, rounds=3):
    """A built-in code with permuted qubits, stabilisers and local X-Z exchanges."""
    b = draw(builtin(size, ("planar", "toric", "rotated", "repetition"), rounds))
    c = make(b)
    rows, logs = strings(c.stabilisers), strings(c.logical_ops)
    n = len(rows[0])
    rnd = draw(st.randoms(use_true_random=False))
    perm = list(range(n))
    rnd.shuffle(perm)
    flip = [rnd.random() < 0.4 for _ in range(n)]
    rnd.shuffle(rows)

    def img(s):
        return "".join(s[p].translate(str.maketrans("XZ", "ZX")) if f else s[p]
                       for p, f in zip(perm, flip))

    return dict(kind="custom", rounds=b["rounds"], n=n, stabs=[img(s) for s in rows],
                logs=[img(s) for s in logs], css=True, origin=b)


def matchable(size=4, rounds=4, max_e=10):
    """Codes for which every single-qubit X or Z flips at most two stabilisers."""
    surface = ("planar", "toric", "rotated", "repetition", "shor")
    return st.one_of(builtin(size, surface, rounds), graphs(max_e=max_e, rounds=rounds),
                     relabelled(min(size, 3), rounds), defective(min(size, 4), rounds))


def k_of(d):
    """Number of logical qubits."""
    return dict(toric=2, custom=len(d.get("logs", ())) // 2).get(d["kind"], 1)
