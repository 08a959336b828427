"""Specs -> qadence objects, through the public constructors only."""
from __future__ import annotations

import numpy as np
import sympy
import torch

import qadence as qd
from qadence.blocks import MatrixBlock

from . import ref

SYMF = {
    "sin": sympy.sin, "cos": sympy.cos, "tan": sympy.tan, "exp": sympy.exp, "tanh": sympy.tanh,
    "acos": sympy.acos, "asin": sympy.asin, "atan": sympy.atan, "log": sympy.log,
    "sqrt": sympy.sqrt, "abs": sympy.Abs,
}


def param(p, vvals):
    """vvals: initial values of variational parameters."""
    if isinstance(p, (int, float)):
        return p
    op = p[0]
    if op == "f":
        return qd.FeatureParameter(p[1])
    if op == "v":
        return qd.VariationalParameter(p[1], value=vvals[p[1]])
    a = [param(x, vvals) for x in p[1:]]
    if op == "+":
        return a[0] + a[1]
    if op == "-":
        return a[0] - a[1]
    if op == "*":
        return a[0] * a[1]
    if op == "/":
        return a[0] / a[1]
    if op == "neg":
        return -a[0]
    if op == "pow":
        return a[0] ** a[1]
    return SYMF[op](a[0])


def tmat(m):
    return torch.tensor(ref.cmat(m), dtype=torch.cdouble)


def block(spec, vvals):
    op = spec[0]
    if op == "TDagger":
        return qd.TDagger(spec[1])
    if op == "N0":
        return qd.N(spec[1], state="0")
    if op in ref.FIXED:
        return getattr(qd, op)(spec[1])
    if op in ref.ROT:
        return getattr(qd, op)(spec[1], param(spec[2], vvals))
    if op == "U":
        return qd.U(spec[1], *[param(p, vvals) for p in spec[2:]])
    if op in ref.CFIXED:
        return getattr(qd, op)(spec[1], spec[2])
    if op in ref.CROT:
        return getattr(qd, op)(spec[1], spec[2], param(spec[3], vvals))
    if op in ref.MCFIXED:
        return getattr(qd, op)(tuple(spec[1]), spec[2])
    if op in ref.MCROT:
        return getattr(qd, op)(tuple(spec[1]), spec[2], param(spec[3], vvals))
    if op == "SWAP":
        return qd.SWAP(spec[1], spec[2])
    if op == "CSWAP":
        return qd.CSWAP(spec[1], spec[2], spec[3])
    if op == "Proj":
        return qd.Projector(spec[1], spec[2], tuple(spec[3]))
    if op == "Matrix":
        return MatrixBlock(tmat(spec[1]), tuple(spec[2]))
    if op == "chain":
        return qd.chain(*[block(b, vvals) for b in spec[1]])
    if op == "kron":
        return qd.kron(*[block(b, vvals) for b in spec[1]])
    if op == "add":
        return qd.add(*[block(b, vvals) for b in spec[1]])
    if op == "scale":
        return param(spec[1], vvals) * block(spec[2], vvals)
    if op == "tag":
        b = block(spec[2], vvals)
        return qd.tag(b, spec[1])
    if op == "HamEvo":
        return qd.HamEvo(block(spec[1], vvals), param(spec[2], vvals))
    if op == "HamEvoM":
        return qd.HamEvo(tmat(spec[1]), param(spec[3], vvals), qubit_support=tuple(spec[2]))
    raise KeyError(op)


def circuit(n, spec, vvals):
    return qd.QuantumCircuit(n, block(spec, vvals))


def values(env_batch, names):
    """{name: list of floats} -> {name: float64 tensor}."""
    return {k: torch.tensor(np.asarray(v), dtype=torch.float64) for k, v in env_batch.items() if k in names}


def npy(t):
    return t.detach().cpu().resolve_conj().numpy()
