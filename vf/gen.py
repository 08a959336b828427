"""Random spec generators (deterministic from a random.Random)."""
from __future__ import annotations

import math

import numpy as np
import sympy

PI = math.pi
SPECIAL = [0.0, -2, -2.0, 1.0, PI, -PI, PI / 2, -PI / 2, 2 * PI, 3, -1, 1, 2, 4 * PI, 0.1, 1e-3, 5.5, -7.25, PI / 4]
PAULI = ["X", "Y", "Z"]


def recent(r, x=None):
    """A constant equal or close to one used before in this case (keys of constants must not collide)."""
    if x is not None:
        r.__dict__.setdefault("recent", []).append(x)
        return x
    old = r.__dict__.get("recent")
    if old and r.random() < 0.15:
        o = r.choice(old)
        return o if r.random() < 0.25 else round(o + r.choice([-1, 1]) * r.choice([4e-4, 1e-3, 3e-3]), 5)
    return None


def num(r, lo=-3.0, hi=3.0):
    if r.random() < 0.25:
        return r.choice(SPECIAL)
    x = recent(r)
    return x if x is not None else recent(r, round(r.uniform(lo, hi), 4))


def nz(r, lo=-2.0, hi=2.0):
    x = recent(r)
    if x is not None and abs(x) > 0.05:
        return x
    while True:
        x = round(r.uniform(lo, hi), 3)
        if abs(x) > 0.05:
            return recent(r, x)


class P:
    """Parameter generator: pools of feature and variational names."""

    def __init__(self, r, nf=2, nv=2, exprs=True, kinds="nfv", fdom=(-0.95, 0.95)):
        self.r, self.exprs, self.kinds, self.fdom = r, exprs, kinds, fdom
        fpool = ["x", "y", "phi", "a_1", "feat", "w0"]
        vpool = ["theta", "th_0", "th_1", "w", "alpha", "zeta_12"]
        r.shuffle(fpool)
        r.shuffle(vpool)
        self.fn, self.vn = fpool[:nf], vpool[:nv]
        self.past = []
        self.vvals = {v: round(r.uniform(-2.5, 2.5), 4) for v in self.vn}

    def leaf(self):
        r = self.r
        ks = [k for k in self.kinds if (k != "f" or self.fn) and (k != "v" or self.vn)]
        k = r.choice(ks)
        if k == "f":
            return ["f", r.choice(self.fn)]
        if k == "v":
            return ["v", r.choice(self.vn)]
        return num(r)

    def __call__(self, depth=2):
        r = self.r
        if not self.exprs or depth == 0 or r.random() < 0.55:
            return self.leaf()
        if self.past and r.random() < 0.12:
            return self.vary(r.choice(self.past))
        for _ in range(20):
            e = self.expr(depth)
            if not cancels(e):
                self.past.append(e)
                return e
        return self.leaf()

    def vary(self, e):
        """A copy of an earlier expression, its constants possibly slightly changed."""
        r = self.r
        if isinstance(e, float) and e not in (2.0, 0.9, 1.0, 1.5) and r.random() < 0.5:
            return round(e + r.choice([-1, 1]) * r.choice([1e-3, 3e-3]), 5)
        if isinstance(e, list) and e[0] not in ("f", "v"):
            return [e[0]] + [self.vary(x) for x in e[1:]]
        return e

    def sym(self, depth):
        """An expression that is symbolic (contains a parameter)."""
        r = self.r
        ks = [k for k in self.kinds if k != "n" and (k != "f" or self.fn) and (k != "v" or self.vn)]
        if not ks:
            return num(r)
        k = r.choice(ks)
        leaf = ["f", r.choice(self.fn)] if k == "f" else ["v", r.choice(self.vn)]
        if depth <= 0 or r.random() < 0.4:
            return leaf
        return self.expr(depth)

    def expr(self, depth):
        r = self.r
        a = self.sym(depth - 1)
        if isinstance(a, (int, float)):
            return a
        op = r.choice(["+", "-", "*", "c*", "c*", "+c", "neg", "sin", "cos", "tanh", "pow", "/", "atan", "exp", "acos", "sqrt", "log", "c-", "c/"])
        if op in ("+", "-", "*"):
            return [op, a, self.sym(depth - 1)]
        if op == "c*":
            return ["*", nz(r), a]
        if op == "+c":
            return ["+", a, nz(r)]
        if op == "c-":
            return ["-", nz(r), a]
        if op == "c/":
            return ["/", nz(r), ["+", 2.0, ["tanh", a]]]
        if op == "pow":
            return ["pow", a, r.choice([2, 3])] if depth <= 1 else ["pow", ["sin", a], 2]
        if op == "/":
            return ["/", a, r.choice([2, 3.5, PI, -1.5])]
        if op == "exp":
            return ["exp", ["neg", ["pow", ["tanh", a], 2]]]
        if op == "acos":
            return ["acos", ["*", 0.9, ["tanh", a]]]
        if op == "sqrt":
            return ["sqrt", ["+", ["pow", a, 2], 1.0]]
        if op == "log":
            return ["log", ["+", ["pow", a, 2], 1.5]]
        return [op, a]

    def env(self, batch):
        """features: name -> list of `batch` floats (or 1 float)."""
        r = self.r
        out = {}
        for f in self.fn:
            out[f] = [round(r.uniform(*self.fdom), 5) for _ in range(batch)]
        return out


def tosym(p):
    if isinstance(p, (int, float)):
        return p
    if p[0] in ("f", "v"):
        return sympy.Symbol(p[1])
    return SYM[p[0]](*[tosym(x) for x in p[1:]])


SYM = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
    "neg": lambda a: -a, "pow": lambda a, b: a**b, "sin": sympy.sin, "cos": sympy.cos, "tan": sympy.tan,
    "exp": sympy.exp, "tanh": sympy.tanh, "acos": sympy.acos, "asin": sympy.asin, "atan": sympy.atan,
    "log": sympy.log, "sqrt": sympy.sqrt, "abs": sympy.Abs,
}


def cancels(p):
    """Does sympy eliminate a parameter of the expression (x - x)?"""
    from . import ref

    names = ref.pnames(p)
    return {s.name for s in getattr(tosym(p), "free_symbols", ())} != names


def sub(r, n, k):
    qs = list(range(n))
    r.shuffle(qs)
    return qs[:k]


def gate(r, n, p, allow=None, qs=None):
    """One unitary gate on n qubits (or on the qubits qs)."""
    qs = list(range(n)) if qs is None else list(qs)
    r.shuffle(qs)
    k = len(qs)
    pool = ["X", "Y", "Z", "I", "H", "S", "T", "SDagger", "RX", "RY", "RZ", "PHASE", "U",
            "RX", "RY", "RZ"]
    if k >= 2:
        pool += ["CNOT", "CZ", "CRX", "CRY", "CRZ", "CPHASE", "SWAP", "CNOT", "CRX"]
    if k >= 3:
        pool += ["Toffoli", "MCZ", "MCRX", "MCRY", "MCRZ", "MCPHASE", "CSWAP"]
    if allow is not None:
        pool = [g for g in pool if g in allow] or ["X"]
    g = r.choice(pool)
    if g in ("X", "Y", "Z", "I", "H", "S", "T", "SDagger"):
        return [g, qs[0]]
    if g in ("RX", "RY", "RZ", "PHASE"):
        return [g, qs[0], p()]
    if g == "U":
        return [g, qs[0], p(), p(), p()]
    if g in ("CNOT", "CZ", "SWAP"):
        return [g, qs[0], qs[1]]
    if g in ("CRX", "CRY", "CRZ", "CPHASE"):
        return [g, qs[0], qs[1], p()]
    if g == "CSWAP":
        return [g, qs[0], qs[1], qs[2]]
    nc = r.randint(1 if g == "MCZ" else 2, min(3, k - 1)) if k > 2 else 1
    if g in ("Toffoli", "MCZ"):
        return [g, qs[1 : 1 + nc], qs[0]]
    return [g, qs[1 : 1 + nc], qs[0], p()]


def pauli_string(r, n, ops=("X", "Y", "Z"), maxw=3, qs=None):
    qs = list(range(n)) if qs is None else list(qs)
    r.shuffle(qs)
    w = r.randint(1, min(maxw, len(qs)))
    terms = [[r.choice(ops), q] for q in qs[:w]]
    return terms[0] if w == 1 else ["kron", terms]


def hamiltonian(r, n, p=None, terms=None, ops=("X", "Y", "Z"), maxw=3, qs=None, nest=True):
    """Hermitian observable: a (parametrised) sum of Pauli/N strings."""
    k = terms or r.randint(1, 5)
    out = []
    for _ in range(k):
        t = pauli_string(r, n, ops, maxw, qs)
        x = r.random()
        if x < 0.5:
            t = ["scale", nz(r), t]
        elif x < 0.65 and p is not None:
            t = ["scale", p(1), t]
        out.append(t)
    if len(out) == 1:
        return out[0]
    if nest and len(out) > 3 and r.random() < 0.4:
        c = r.randint(1, len(out) - 1)
        inner = ["add", out[c:]] if len(out) - c > 1 else out[c]
        if r.random() < 0.5:
            inner = ["scale", nz(r), inner]
        out = out[:c] + [inner]
    return ["add", out]


def herm(r, k, scale=1.0):
    d = 2**k
    rng = np.random.default_rng(r.getrandbits(32))
    a = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
    a = scale * (a + a.conj().T) / 2
    return jmat(a)


def unitary(r, k):
    d = 2**k
    rng = np.random.default_rng(r.getrandbits(32))
    q, rr = np.linalg.qr(rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d)))
    return jmat(q * (np.diag(rr) / abs(np.diag(rr))))


def jmat(a):
    return [[[round(float(z.real), 12), round(float(z.imag), 12)] for z in row] for row in a]


def hamevo(r, n, p):
    qs = sub(r, n, r.randint(1, min(3, n)))
    if r.random() < 0.6:
        h = hamiltonian(r, n, p if r.random() < 0.5 else None, terms=r.randint(1, 3), qs=qs,
                        ops=("X", "Y", "Z", "N"))
        if r.random() < 0.3:
            h = ["scale", p(1) if r.random() < 0.3 else nz(r), h]
        return ["HamEvo", h, p(1)]
    return ["HamEvoM", herm(r, min(len(qs), 2), 0.7), qs[: min(len(qs), 2)], p(1)]


def circuit(r, n, p, size=None, hamevo_p=0.12, matrix_p=0.05, allow=None, nest=True):
    """A unitary block spec on n qubits, with nested chain/kron structure."""
    size = size or r.randint(1, 10)

    def item(depth):
        x = r.random()
        if x < hamevo_p and allow is None:
            return hamevo(r, n, p)
        if x < hamevo_p + matrix_p and allow is None:
            k = r.randint(1, min(2, n))
            return ["Matrix", unitary(r, k), sub(r, n, k)]
        if nest and depth > 0 and x < 0.4:
            kind = r.choice(["chain", "chain", "kron", "layer"])
            if kind == "chain":
                return ["chain", [item(depth - 1) for _ in range(r.randint(1, 4))]]
            if kind == "layer":
                qs = sub(r, n, r.randint(1, n))
                g = r.choice(["RX", "RY", "RZ", "H", "X"])
                if allow is not None and g not in allow:
                    g = r.choice([a for a in allow if a in ("RX", "RY", "RZ", "H", "X")])
                its = [[g, q, p()] if g[0] == "R" else [g, q] for q in qs]
                return ["kron", its] if len(its) > 1 else its[0]
            return kron_split(depth - 1)
        return gate(r, n, p, allow)

    def kron_split(depth):
        qs = sub(r, n, n)
        if n < 2:
            return gate(r, n, p, allow)
        parts = []
        i = 0
        while i < n:
            k = r.randint(1, min(3, n - i))
            g = [gate(r, n, p, allow, qs=qs[i : i + k]) for _ in range(r.randint(1, 2))]
            parts.append(["chain", g] if len(g) > 1 else g[0])
            i += k
            if r.random() < 0.2:
                break
        return ["kron", parts] if len(parts) > 1 else parts[0]

    items = [item(2) for _ in range(size)]
    return ["chain", items] if len(items) > 1 else items[0]


def state(r, n, batch=None):
    rng = np.random.default_rng(r.getrandbits(32))
    shape = (2**n,) if batch is None else (batch, 2**n)
    v = rng.normal(size=shape) + 1j * rng.normal(size=shape)
    if r.random() < 0.2:
        mask = rng.random(shape) < 0.5
        mask[..., 0] = True
        v = v * mask
    return v / np.linalg.norm(v, axis=-1, keepdims=True)


def param_generator(spec):
    """Does the spec contain a Hamiltonian evolution whose generator is itself parametric?"""
    from . import ref

    op = spec[0]
    if op in ("chain", "kron", "add"):
        return any(param_generator(b) for b in spec[1])
    if op in ("scale", "tag"):
        return param_generator(spec[2])
    return op == "HamEvo" and bool(ref.names_of(spec[1]))


def wide(r, n, p, make, parts=None):
    """A chain of pieces made on few qubits, each moved to random qubits of a wide register."""
    from . import ref

    out = []
    for _ in range(parts or r.randint(1, 3)):
        k = r.randint(1, 4)
        out.append(ref.relabel(make(k), sub(r, n, k)))
    return out
