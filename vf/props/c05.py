"""C05: dagger is the Hermitian adjoint."""
from __future__ import annotations

import numpy as np
import torch

import qadence as qd
from qadence.blocks.block_to_tensor import block_to_tensor

from .. import build, gen, ref, sim
from .c02 import operator

ID = "C05"
CASES = {"quick": 2400, "thorough": 30000}
RULE = (
    "random blocks (unitary and not; incl. U, multi-controlled, T, matrix and Hamiltonian-evolution blocks, sums and "
    "parametric scalings), shared/derived parameters, batches; non-trivial: the matrix is not Hermitian"
)
MIN_EVENTS = {"dagger_matrix": 500, "double_dagger": 500, "undo_run": 200, "circuit_dagger": 100, "unchanged": 500,
              "non_hermitian": 300}
ASSUMPTIONS = ["tolerance 2e-5", "support <= 4 qubits"]


def noT(s):
    return not any(l in ("T",) for l in ref.leaves(s))


def case(r, idx, mon):
    n = r.choice([1, 2, 2, 3, 3, 4])
    p = gen.P(r, nf=r.choice([0, 1, 2]), nv=r.choice([0, 1]))
    unit = r.random() < 0.6
    spec = gen.circuit(r, n, p, size=r.randint(1, 6)) if unit else operator(r, n, p)
    batch = r.choice([1, 1, 2])
    fenv = sim.used_env(p, [spec], batch, mixed=False)
    batch = sim.eff_batch(fenv)
    envl = sim.envs(p.vvals, fenv, batch)
    sup = tuple(range(n))
    M = np.array([ref.mat_of(spec, e, n) for e in envl])
    Md = np.conj(np.swapaxes(M, 1, 2))
    mon.case(dict(n=n, spec=spec, vvals=p.vvals, fenv=fenv), bool(np.abs(M - Md).max() > 1e-9))
    mon.ev("non_hermitian", int(np.abs(M - Md).max() > 1e-9))
    blk = build.block(spec, p.vvals)
    vals = build.values(fenv, set(fenv))
    before = str(blk)
    d = blk.dagger()
    got = build.npy(block_to_tensor(d, vals, qubit_support=sup))
    # off-diagonal projectors: see known_findings (C02); they are not generated with ket != bra
    mon.close(got, Md, "dagger_matrix", "matrix of the adjoint")
    mon.close(build.npy(block_to_tensor(d.dagger(), vals, qubit_support=sup)), M, "double_dagger", "dagger of dagger")
    mon.close(build.npy(block_to_tensor(blk, vals, qubit_support=sup)), M, "unchanged", "original block after dagger")
    mon.check(str(blk) == before, "unchanged", "dagger changed the block")
    mon.check(set(d.qubit_support) == set(blk.qubit_support), "support", "support of the adjoint",
              got=d.qubit_support, want=blk.qubit_support)
    if unit and noT(spec):
        psi = gen.state(r, n)
        out = qd.run(qd.QuantumCircuit(n, qd.chain(blk, d)), values=vals, state=sim.tstate(psi))
        mon.close(build.npy(out), np.repeat(psi[None], batch, 0), "undo_run", "U^dagger U |psi>")
        c = qd.QuantumCircuit(n, blk)
        cd = c.dagger()
        out = qd.run(cd, values=vals)
        mon.close(build.npy(out), Md[:, :, 0], "circuit_dagger", "circuit adjoint on |0>")
        mon.check(cd.n_qubits == n, "circuit_dagger", "n_qubits of the circuit adjoint")


def _probe_T():
    try:
        qd.run(qd.QuantumCircuit(1, qd.T(0)).dagger())
    except NotImplementedError as e:
        return f"running the adjoint of T raises: {e}"[:150]


PROBES = {"T_dagger_run": _probe_T}
