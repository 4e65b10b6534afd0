"""Independent reference models: Pauli algebra, state vectors, GF(2)."""
import itertools

import numpy as np

MAT = {
    "I": np.eye(2, dtype=complex),
    "X": np.array([[0, 1], [1, 0]], dtype=complex),
    "Y": np.array([[0, -1j], [1j, 0]], dtype=complex),
    "Z": np.array([[1, 0], [0, -1]], dtype=complex),
}
# single-qubit products: (a, b) -> (result, power of i)
MUL = {}
for _a, _b in itertools.product("IXYZ", repeat=2):
    if _a == "I" or _b == "I" or _a == _b:
        MUL[_a, _b] = ("I" if _a == _b else (_a if _b == "I" else _b), 0)
    else:
        _c = ({"X", "Y", "Z"} - {_a, _b}).pop()
        MUL[_a, _b] = (_c, 1 if _a + _b in ("XY", "YZ", "ZX") else 3)
ROOTS = (1, 1j, -1, -1j)


def pmul(p, q):
    """Product of Paulis given as (string, k) meaning i**k times the string."""
    k = p[1] + q[1]
    out = []
    for a, b in zip(p[0], q[0]):
        c, e = MUL[a, b]
        out.append(c)
        k += e
    return "".join(out), k % 4


def anticommute(p, q):
    """1 if the Pauli strings anticommute, else 0."""
    return sum(a != "I" and b != "I" and a != b for a, b in zip(p, q)) % 2


def dense(chars):
    m = np.eye(1, dtype=complex)
    for c in chars:
        m = np.kron(m, MAT[c])
    return m


def row(chars, sign=0):
    """Binary form [x | z | sign] of a signed Pauli string."""
    return np.array(
        [c in "XY" for c in chars] + [c in "ZY" for c in chars] + [sign], dtype="u1"
    )


def unrow(r):
    """Pauli string and sign of a binary row."""
    r = [int(v) for v in r]
    n = len(r) // 2
    assert len(r) == 2 * n + 1
    return "".join("IXZY"[r[i] + 2 * r[n + i]] for i in range(n)), r[-1]


# state vectors; qubit 0 is the first tensor axis


def zero(n):
    v = np.zeros((2,) * n, dtype=complex)
    v[(0,) * n] = 1
    return v


def ap1(v, m, q):
    return np.moveaxis(np.tensordot(m, v, axes=(1, q)), 0, q)


def appauli(v, chars):
    for q, c in enumerate(chars):
        if c != "I":
            v = ap1(v, MAT[c], q)
    return v


HAD = np.array([[1, 1], [1, -1]], dtype=complex) / np.sqrt(2)
SGATE = np.diag([1, 1j]).astype(complex)


def apcx(v, c, t):
    v = v.copy()
    idx = [slice(None)] * v.ndim
    idx[c] = 1
    sub = v[tuple(idx)]
    v[tuple(idx)] = np.flip(sub, axis=t - (t > c))
    return v


def apcz(v, c, t):
    v = v.copy()
    idx = [slice(None)] * v.ndim
    idx[c] = idx[t] = 1
    v[tuple(idx)] *= -1
    return v


GATES1 = {"H": HAD, "S": SGATE, "X": MAT["X"], "Y": MAT["Y"], "Z": MAT["Z"],
          "I": MAT["I"]}


def apgate(v, name, qs):
    """Apply a gate, broadcast over targets (pairs for two-qubit gates)."""
    if name in ("CX", "CZ"):
        for c, t in zip(qs[::2], qs[1::2]):
            v = apcx(v, c, t) if name == "CX" else apcz(v, c, t)
        return v
    for q in qs:
        v = ap1(v, GATES1[name], q)
    return v


def project(v, chars, outcome):
    """(probability, normalised state) of measuring a Pauli string."""
    w = (v + (-1) ** outcome * appauli(v, chars)) / 2
    p = float(np.vdot(w, w).real)
    return p, (w / np.sqrt(p) if p > 1e-9 else w)


def single(c, q, n):
    return "I" * q + c + "I" * (n - q - 1)


def stabilised(v, chars, sign):
    return np.allclose((-1) ** sign * appauli(v, chars), v, atol=1e-7)


# GF(2)


def rank2(rows):
    """Rank of 0/1 vectors given as integers or sequences."""
    basis = []
    for r in rows:
        if not isinstance(r, int):
            r = int("".join(str(int(b)) for b in r) or "0", 2)
        for b in basis:
            r = min(r, r ^ b)
        if r:
            basis.append(r)
    return len(basis)


def in_span(vec, rows):
    return rank2(list(rows) + [vec]) == rank2(rows)


def solve2(a, b):
    """A solution x of a x = b over GF(2), or None."""
    a = np.array(a, dtype="u1") % 2
    b = np.array(b, dtype="u1") % 2
    m, n = a.shape
    aug = np.hstack([a, b.reshape(-1, 1)])
    piv, r = [], 0
    for c in range(n):
        p = next((i for i in range(r, m) if aug[i, c]), None)
        if p is None:
            continue
        aug[[r, p]] = aug[[p, r]]
        for i in range(m):
            if i != r and aug[i, c]:
                aug[i] ^= aug[r]
        piv.append(c)
        r += 1
    if aug[r:, n].any():
        return None
    x = np.zeros(n, dtype="u1")
    for i, c in enumerate(piv):
        x[c] = aug[i, n]
    return x


def check_tableau(tab):
    """Reason why an array is no valid destabiliser/stabiliser tableau, or None."""
    tab = np.asarray(tab)
    if tab.ndim != 2 or tab.shape[1] != tab.shape[0] + 1 or tab.shape[0] % 2:
        return f"shape {tab.shape}"
    if not np.isin(tab, (0, 1)).all():
        return "entries are not bits"
    n = tab.shape[0] // 2
    t = tab.astype(int)
    comm = (t[:, :n] @ t[:, n:-1].T + t[:, n:-1] @ t[:, :n].T) % 2
    want = np.block([[np.zeros((n, n)), np.eye(n)], [np.eye(n), np.zeros((n, n))]])
    if not (comm == want).all():
        return f"commutation relations are violated:\n{comm}"
    return None
