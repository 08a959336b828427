"""Independent reference semantics, in plain numpy, of *specs*.

A spec is a JSON-able nested list describing a block the way a user would write it; it is
interpreted here without importing or introspecting qadence.  Qubit 0 is the most
significant bit ("big endian"), chain(A, B) applies A first, add is the operator sum,
scale multiplies, HamEvo(H, t) = exp(-i H t).
"""
from __future__ import annotations

import math

import numpy as np
from scipy.linalg import expm

I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)
H = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)
S = np.diag([1, 1j]).astype(complex)
T = np.diag([1, np.exp(1j * math.pi / 4)]).astype(complex)
N = np.diag([0, 1]).astype(complex)
SWAP = np.eye(4, dtype=complex)[[0, 2, 1, 3]]

FIXED = {
    "X": X, "Y": Y, "Z": Z, "I": I2, "N": N, "H": H, "S": S, "T": T,
    "SDagger": S.conj().T, "TDagger": T.conj().T,
}


def rx(a):
    return math.cos(a / 2) * I2 - 1j * math.sin(a / 2) * X


def ry(a):
    return math.cos(a / 2) * I2 - 1j * math.sin(a / 2) * Y


def rz(a):
    return math.cos(a / 2) * I2 - 1j * math.sin(a / 2) * Z


def phase(a):
    return np.diag([1, np.exp(1j * a)])


ROT = {"RX": rx, "RY": ry, "RZ": rz, "PHASE": phase}
CFIXED = {"CNOT": X, "CZ": Z}
CROT = {"CRX": rx, "CRY": ry, "CRZ": rz, "CPHASE": phase}
MCFIXED = {"Toffoli": X, "MCZ": Z}
MCROT = {"MCRX": rx, "MCRY": ry, "MCRZ": rz, "MCPHASE": phase}


# ---------------------------------------------------------------- parameters
def pval(p, env):
    """Numeric value of a parameter spec; env maps names to floats."""
    if isinstance(p, (int, float)):
        return float(p)
    op = p[0]
    if op in ("f", "v"):
        return float(env[p[1]])
    a = [pval(x, env) for x in p[1:]]
    return PFUN[op](*a)


PFUN = {
    "+": lambda a, b: a + b,
    "-": lambda a, b: a - b,
    "*": lambda a, b: a * b,
    "/": lambda a, b: a / b,
    "neg": lambda a: -a,
    "sin": math.sin,
    "cos": math.cos,
    "tan": math.tan,
    "exp": math.exp,
    "pow": lambda a, b: a**b,
    "tanh": math.tanh,
    "acos": math.acos,
    "asin": math.asin,
    "atan": math.atan,
    "log": math.log,
    "sqrt": math.sqrt,
    "abs": abs,
}


def pnames(p, kind=None):
    if isinstance(p, (int, float)):
        return set()
    if p[0] in ("f", "v"):
        return {p[1]} if kind in (None, p[0]) else set()
    return set().union(*[pnames(x, kind) for x in p[1:]])


# ------------------------------------------------------------------ embedding
def embed(mat, support, n):
    """The operator of `mat` (acting on the qubits `support`, in that order) on n qubits."""
    k = len(support)
    mat = np.asarray(mat, dtype=complex)
    if n == k and tuple(support) == tuple(range(n)):
        return mat
    rest = [q for q in range(n) if q not in support]
    full = np.kron(mat, np.eye(2 ** len(rest)))
    order = list(support) + rest
    perm = [order.index(q) for q in range(n)]
    t = full.reshape([2] * (2 * n))
    t = t.transpose(perm + [n + p for p in perm])
    return t.reshape(2**n, 2**n)


def controlled(mat, nc):
    d = mat.shape[0]
    out = np.eye(2**nc * d, dtype=complex)
    out[-d:, -d:] = mat
    return out


def bits_ket(bits):
    v = np.zeros(2 ** len(bits), dtype=complex)
    v[int(bits, 2)] = 1
    return v


def cmat(m):
    """[[ [re, im], ...], ...] -> complex matrix."""
    a = np.asarray(m, dtype=float)
    return a[..., 0] + 1j * a[..., 1]


def mat_of(spec, env, n):
    op = spec[0]
    if op in FIXED:
        return embed(FIXED[op], [spec[1]], n)
    if op == "N0":
        return embed(I2 - N, [spec[1]], n)
    if op in ROT:
        return embed(ROT[op](pval(spec[2], env)), [spec[1]], n)
    if op == "U":
        q, phi, theta, omega = spec[1:]
        return embed(rz(pval(omega, env)) @ ry(pval(theta, env)) @ rz(pval(phi, env)), [q], n)
    if op in CFIXED:
        return embed(controlled(CFIXED[op], 1), [spec[1], spec[2]], n)
    if op in CROT:
        return embed(controlled(CROT[op](pval(spec[3], env)), 1), [spec[1], spec[2]], n)
    if op in MCFIXED:
        return embed(controlled(MCFIXED[op], len(spec[1])), [*spec[1], spec[2]], n)
    if op in MCROT:
        return embed(
            controlled(MCROT[op](pval(spec[3], env)), len(spec[1])), [*spec[1], spec[2]], n
        )
    if op == "SWAP":
        return embed(SWAP, [spec[1], spec[2]], n)
    if op == "CSWAP":
        return embed(controlled(SWAP, 1), [spec[1], spec[2], spec[3]], n)
    if op == "Proj":
        ket, bra, sup = spec[1:]
        return embed(np.outer(bits_ket(ket), bits_ket(bra)), sup, n)
    if op == "Matrix":
        return embed(cmat(spec[1]), spec[2], n)
    if op == "chain":
        out = np.eye(2**n, dtype=complex)
        for b in spec[1]:
            out = mat_of(b, env, n) @ out
        return out
    if op == "kron":
        out = np.eye(2**n, dtype=complex)
        for b in spec[1]:
            out = mat_of(b, env, n) @ out
        return out
    if op == "add":
        return sum((mat_of(b, env, n) for b in spec[1]), np.zeros((2**n, 2**n), dtype=complex))
    if op == "scale":
        return pval(spec[1], env) * mat_of(spec[2], env, n)
    if op == "HamEvo":
        return expm(-1j * pval(spec[2], env) * mat_of(spec[1], env, n))
    if op == "HamEvoM":
        return embed(expm(-1j * pval(spec[3], env) * cmat(spec[1])), spec[2], n)
    if op == "tag":
        return mat_of(spec[2], env, n)
    raise KeyError(op)


def support(spec):
    op = spec[0]
    if op in ("chain", "kron", "add"):
        return set().union(set(), *[support(b) for b in spec[1]])
    if op in ("scale", "tag"):
        return support(spec[2])
    if op == "HamEvo":
        return support(spec[1])
    if op in ("HamEvoM", "Matrix"):
        return set(spec[2])
    if op == "Proj":
        return set(spec[3])
    if op in CFIXED or op in CROT or op == "SWAP":
        return {spec[1], spec[2]}
    if op in MCFIXED or op in MCROT:
        return {*spec[1], spec[2]}
    if op == "CSWAP":
        return {spec[1], spec[2], spec[3]}
    return {spec[1]}


def relabel(spec, m):
    """The spec with qubit q moved to m[q]."""
    op = spec[0]
    if op in ("chain", "kron", "add"):
        return [op, [relabel(b, m) for b in spec[1]]]
    if op in ("scale", "tag"):
        return [op, spec[1], relabel(spec[2], m)]
    if op == "HamEvo":
        return [op, relabel(spec[1], m), spec[2]]
    if op in ("HamEvoM",):
        return [op, spec[1], [m[q] for q in spec[2]], spec[3]]
    if op == "Matrix":
        return [op, spec[1], [m[q] for q in spec[2]]]
    if op == "Proj":
        return [op, spec[1], spec[2], [m[q] for q in spec[3]]]
    if op in CFIXED or op in CROT or op == "SWAP":
        return [op, m[spec[1]], m[spec[2]], *spec[3:]]
    if op in MCFIXED or op in MCROT:
        return [op, [m[q] for q in spec[1]], m[spec[2]], *spec[3:]]
    if op == "CSWAP":
        return [op, m[spec[1]], m[spec[2]], m[spec[3]]]
    return [op, m[spec[1]], *spec[2:]]


def act(spec, env, psi, n):
    """The operator of spec applied to a state, gate by gate (for wide circuits)."""
    op = spec[0]
    if op in ("chain", "kron"):
        for b in spec[1]:
            psi = act(b, env, psi, n)
        return psi
    if op == "add":
        return sum((act(b, env, psi, n) for b in spec[1]), np.zeros_like(psi, dtype=complex))
    if op == "scale":
        return pval(spec[1], env) * act(spec[2], env, psi, n)
    if op == "tag":
        return act(spec[2], env, psi, n)
    sup = sorted(support(spec))
    k = len(sup)
    m = mat_of(relabel(spec, {q: i for i, q in enumerate(sup)}), env, k)
    t = np.tensordot(m.reshape([2] * (2 * k)), psi.reshape([2] * n), axes=(range(k, 2 * k), sup))
    return np.moveaxis(t, range(k), sup).reshape(-1)


def params_of(spec):
    """All parameter specs in a block spec."""
    op = spec[0]
    if op in ("chain", "kron", "add"):
        return [p for b in spec[1] for p in params_of(b)]
    if op == "tag":
        return params_of(spec[2])
    if op == "scale":
        return [spec[1]] + params_of(spec[2])
    if op == "HamEvo":
        return [spec[2]] + params_of(spec[1])
    if op == "HamEvoM":
        return [spec[3]]
    if op in ROT:
        return [spec[2]]
    if op == "U":
        return list(spec[2:])
    if op in CROT or op in MCROT:
        return [spec[3]]
    return []


def names_of(spec, kind=None):
    return set().union(set(), *[pnames(p, kind) for p in params_of(spec)])


def leaves(spec):
    op = spec[0]
    if op in ("chain", "kron", "add"):
        return [x for b in spec[1] for x in leaves(b)]
    if op in ("scale", "tag"):
        return leaves(spec[2])
    if op == "HamEvo":
        return ["HamEvo"] + leaves(spec[1])
    return [op]


def zero_state(n):
    v = np.zeros(2**n, dtype=complex)
    v[0] = 1
    return v


def reverse_bits_vec(v):
    n = int(round(math.log2(v.shape[-1])))
    t = v.reshape(v.shape[:-1] + (2,) * n)
    k = len(v.shape) - 1
    return t.transpose(list(range(k)) + [k + n - 1 - i for i in range(n)]).reshape(v.shape)
