"""C33: gates announce their true spectrum, generator and parameters."""
from __future__ import annotations

import numpy as np
import torch
from scipy.linalg import expm

import qadence as qd
from qadence.blocks.block_to_tensor import block_to_tensor
from qadence.blocks.utils import uuid_to_block, uuid_to_eigen
from qadence.parameters import evaluate
from qadence.utils import eigenvalues

from .. import build, gen, ref, sim

ID = "C33"
CASES = {"quick": 1200, "thorough": 60000}
RULE = (
    "random gates (every primitive, rotation, controlled and multi-controlled gate, U, HamEvo of blocks and matrices, matrix blocks, scaled blocks) on "
    "random qubits with numbers, variational parameters and expressions: eigenvalues against the spectrum of the reference matrix, generators "
    "exponentiated and compared with the reference matrix, generator spectra and the table of spectra and shifts used by the parameter-shift rule; "
    "non-trivial: a parameter that is not zero, or a gate that is not the identity"
)
MIN_EVENTS = {"spectrum": 900, "generator": 250, "generator_spectrum": 400, "table": 200, "evaluate": 900, "hamevo": 100, "matrix": 40, "scale": 70, "counts": 150}
ASSUMPTIONS = ["generators of S, T and U and their spectra are not judged: several conventions are in use",
               "gates of up to four qubits; values of a non-degenerate spectrum are compared as multisets with tolerance 1e-5"]
FAMILY = {"RX", "RY", "RZ", "PHASE", "CRX", "CRY", "CRZ", "CPHASE", "MCRX", "MCRY", "MCRZ", "MCPHASE"}
FIXED = {"X", "Y", "Z", "H", "CNOT", "CZ", "MCZ", "Toffoli", "SWAP", "CSWAP"}


def multiset(a, b):
    """Largest distance in a matching of two multisets of complex numbers."""
    a, b = list(np.asarray(a, dtype=complex).reshape(-1)), list(np.asarray(b, dtype=complex).reshape(-1))
    if len(a) != len(b):
        return np.inf
    worst = 0.0
    for x in a:
        k = min(range(len(b)), key=lambda i: abs(b[i] - x))
        worst = max(worst, abs(b.pop(k) - x))
    return worst


def compact(spec):
    """The spec on qubits 0..k-1 in increasing order of its qubits, and those qubits."""
    s = sorted(set(ref.support(spec)))
    return ref.relabel(spec, {q: i for i, q in enumerate(s)}), s


def pick(r, n, p):
    x = r.random()
    if x < 0.72:
        return gen.gate(r, n, p)
    if x < 0.86:
        return gen.hamevo(r, n, p)
    if x < 0.92:
        k = r.randint(1, min(2, n))
        return ["Matrix", gen.unitary(r, k), gen.sub(r, n, k)]
    return ["scale", p(), gen.gate(r, n, p)]


def case(r, idx, mon):
    n = r.choice([1, 2, 3, 3, 4])
    p = gen.P(r, nf=0, nv=r.choice([1, 2]), kinds="nv")
    spec = pick(r, n, p)
    small, sup = compact(spec)
    k = len(sup)
    env = dict(p.vvals)
    M = ref.mat_of(small, env, k)
    mon.case(dict(spec=spec, vvals=p.vvals), bool(np.abs(M - np.eye(2**k)).max() > 1e-9))
    b = build.block(spec, p.vvals)
    op = spec[0]
    ev = b.eigenvalues
    ev = build.npy(ev).reshape(-1)
    want = np.linalg.eigvals(M)
    if op in ("HamEvo", "HamEvoM"):
        mon.ev("hamevo")
    if op == "scale":
        mon.ev("scale")
    d = multiset(ev, want)
    # (MatrixBlock and HamEvo list the spectrum of their own qubits; duplicated qubits do not occur)
    mon.check(d < 2e-5, "spectrum", f"eigenvalues {np.round(ev, 5)} of {op}, the spectrum is {np.round(want, 5)}")
    if op == "Matrix":
        mon.ev("matrix")
        eg = build.npy(b.eigenvalues_generator).reshape(-1)
        mon.check(multiset(np.exp(-1j * eg), want) < 2e-5, "generator_spectrum", f"exponentials of the generator spectrum {eg} of a matrix are not its eigenvalues {want}")
    # the generator of a rotation
    if op in FAMILY:
        th = ref.pval(spec[-1], env)
        G = build.npy(block_to_tensor(b.generator, qubit_support=tuple(sup)))[0]
        if "PHASE" not in op:  # (the generator of controlled rotations is N ... N P: its exponential is the identity without control)
            mon.close(expm(-0.5j * th * G), M, "generator", f"exp(-i theta / 2 G) of {op}", tol=1e-6)
        else:  # (PHASE is generated by I - Z, the controlled ones by Z - I)
            ok = min(np.abs(expm(s * 0.5j * th * G) - M).max() for s in (1, -1))
            mon.check(ok < 1e-6, "generator", f"no exp(+-i theta / 2 G) is {op}")
        eg = build.npy(b.eigenvalues_generator).reshape(-1)
        mon.check(multiset(eg, np.linalg.eigvals(G)) < 1e-6, "generator_spectrum", f"generator spectrum {eg} of {op}, the generator has {np.linalg.eigvals(G)}")
    if op in FIXED:
        G = build.npy(block_to_tensor(b.generator, qubit_support=tuple(sup)))[0]
        eg = build.npy(b.eigenvalues_generator).reshape(-1)
        mon.check(multiset(eg, np.linalg.eigvals(G)) < 1e-6, "generator_spectrum", f"generator spectrum {eg} of {op}, the generator has {np.linalg.eigvals(G)}")
        mon.close(G, G.conj().T, "generator", f"the generator of {op} is not Hermitian", tol=1e-9)
        E = expm(-0.5j * np.pi * G)
        mon.check(abs(abs(np.trace(E.conj().T @ M)) - 2**k) < 1e-6, "generator", f"exp(-i pi / 2 G) is not {op} up to a phase")
    if op in ("HamEvo", "HamEvoM"):
        Hm = ref.mat_of(small[1], env, k) if op == "HamEvo" else ref.embed(ref.cmat(small[1]), small[2], k)
        eg = build.npy(b.eigenvalues_generator).reshape(-1)
        mon.check(multiset(eg, np.linalg.eigvals(Hm)) < 2e-5, "generator_spectrum", f"generator spectrum {eg} of a time evolution, the Hamiltonian has {np.linalg.eigvalsh(Hm)}")
        t = torch.tensor(Hm)[None]
        m = r.randint(1, 2**k)
        got = eigenvalues(t, max_num_evals=m)
        mon.check(len(got) == m and all(np.abs(np.linalg.eigvals(Hm) - x).min() < 1e-6 for x in build.npy(got)), "counts", f"{len(got)} of {m} requested eigenvalues")
        m = r.randint(1, 3)
        got = eigenvalues(t, max_num_gaps=m)
        need = next(i for i in range(1, 9) if i * (i - 1) // 2 >= m)
        mon.check(len(got) == min(need, 2**k), "counts", f"{len(got)} eigenvalues for {m} gaps")
    # values of the parameters
    if op in FAMILY or op == "scale":
        e = b.parameters.parameter
        v = ref.pval(spec[-1] if op in FAMILY else spec[1], env)
        mon.close(float(evaluate(e)), v, "evaluate", "value of the parameter", tol=1e-6)
        mon.close(float(evaluate(e, as_torch=True)), v, "evaluate", "value of the parameter as a tensor", tol=1e-6)
        names = sorted(ref.names_of(spec, "v"))
        if names:
            new = {x: round(r.uniform(-2, 2), 4) for x in names if r.random() < 0.7}
            w = ref.pval(spec[-1] if op in FAMILY else spec[1], {**env, **new})
            if np.isfinite(w):
                mon.close(float(evaluate(e, new)), w, "evaluate", f"value of the parameter at {new}", tol=1e-6)
                mon.close(float(evaluate(e)), v, "evaluate", "value of the parameter afterwards", tol=1e-6)
    # the table used for parameter shifts
    blk = qd.chain(b, qd.H(sup[0])) if r.random() < 0.5 else b
    table = uuid_to_eigen(blk, rescale_eigenvals_timeevo=True)
    blocks = uuid_to_block(blk)
    for u, (eig, shift) in table.items():
        q = blocks[u]
        if isinstance(q, qd.blocks.ScaleBlock):  # (terms of a Hamiltonian; N has no spectrum of a generator)
            continue
        mon.ev("table")
        g = build.npy(q.eigenvalues_generator).reshape(-1)
        f = 2.0 if isinstance(q, qd.HamEvo) else 1.0
        mon.check(multiset(build.npy(eig), f * g) < 1e-6, "table", f"spectrum {eig} of {type(q).__name__} with generator spectrum {g}")
        mon.check(np.isfinite(shift) and shift != 0, "table", f"shift prefactor {shift}")
