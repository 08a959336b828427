"""C02: the matrix of a block is the operator the block denotes."""
from __future__ import annotations

import numpy as np
import torch

import qadence as qd
from qadence.blocks.block_to_tensor import TensorType, block_to_tensor

from .. import build, gen, ref, sim

ID = "C02"
CASES = {"quick": 3000, "thorough": 40000}
RULE = (
    "random blocks on sparse/shuffled qubit supports (gates, multi-controlled gates, nested chain/kron, sums, "
    "scalings, projectors, matrix blocks, Hamiltonian evolutions), parameter batches, both endiannesses, "
    "enlarged and full supports, dense and sparse-diagonal output; non-trivial: not the identity matrix"
)
MIN_EVENTS = {"tensor_compared": 800, "superset_support": 100, "little": 100, "sparse_diag": 80, "sparse_superset": 40, "batched": 80}
ASSUMPTIONS = ["tolerance 2e-5", "total support <= 4 qubits, labels up to 7"]


def operator(r, n, p):
    """Any operator spec (not necessarily unitary) on n logical qubits."""
    x = r.random()
    if x < 0.45:
        return gen.circuit(r, n, p, size=r.randint(1, 5))
    if x < 0.65:
        return gen.hamiltonian(r, n, p, ops=r.choice([("X", "Y", "Z"), ("X", "Y", "Z", "N", "I"), ("Z", "N")]))
    if x < 0.75:
        k = r.randint(1, n)
        b = lambda: "".join(r.choice("01") for _ in range(k))
        ket = b()
        # |ket><bra| with ket != bra: known finding, see PROBES
        s = ["Proj", ket, ket, gen.sub(r, n, k)]
        return s if r.random() < 0.5 else ["add", [s, ["scale", gen.nz(r), gen.gate(r, n, p)]]]
    if x < 0.9:
        # sums and products of arbitrary gates
        a = [gen.circuit(r, n, p, size=r.randint(1, 2)) for _ in range(r.randint(2, 3))]
        a = [["scale", p(1), g] if r.random() < 0.5 else g for g in a]
        s = ["add", a]
        return s if r.random() < 0.5 else ["chain", [s, gen.gate(r, n, p)]]
    return gen.gate(r, n, p)


def relabel(spec, m):
    """Rename qubits by the mapping m (list)."""
    op = spec[0]
    if op in ("chain", "kron", "add"):
        return [op, [relabel(b, m) for b in spec[1]]]
    if op in ("scale", "tag"):
        return [op, spec[1], relabel(spec[2], m)]
    if op == "HamEvo":
        return [op, relabel(spec[1], m), spec[2]]
    if op == "HamEvoM":
        return [op, spec[1], [m[q] for q in spec[2]], spec[3]]
    if op == "Matrix":
        return [op, spec[1], [m[q] for q in spec[2]]]
    if op == "Proj":
        return [op, spec[1], spec[2], [m[q] for q in spec[3]]]
    if op in ref.CFIXED or op == "SWAP":
        return [op, m[spec[1]], m[spec[2]]]
    if op in ref.CROT:
        return [op, m[spec[1]], m[spec[2]], spec[3]]
    if op in ref.MCFIXED:
        return [op, [m[q] for q in spec[1]], m[spec[2]]]
    if op in ref.MCROT:
        return [op, [m[q] for q in spec[1]], m[spec[2]], spec[3]]
    if op == "CSWAP":
        return [op, m[spec[1]], m[spec[2]], m[spec[3]]]
    return [op, m[spec[1]], *spec[2:]]


def reverse_mat(m):
    a = ref.reverse_bits_vec(m)
    return np.swapaxes(ref.reverse_bits_vec(np.swapaxes(a, -1, -2)), -1, -2)


def case(r, idx, mon):
    n = r.choice([1, 2, 2, 3, 3, 4])
    p = gen.P(r, nf=r.choice([0, 1, 2]), nv=r.choice([0, 1]))
    diag = r.random() < 0.12
    spec = gen.hamiltonian(r, n, p if r.random() < 0.3 else None, ops=("Z", "I")) if diag else operator(r, n, p)
    labels = sorted(r.sample(range(r.choice([8, 14])), n)) if r.random() < 0.5 else list(range(n))
    if r.random() < 0.3:
        r.shuffle(labels)
    spec = relabel(spec, labels)
    batch = 1 if diag else r.choice([1, 1, 1, 2, 3])
    fenv = sim.used_env(p, [spec], batch, mixed=False)
    batch = sim.eff_batch(fenv)
    sup = sorted(ref.support(spec))
    mode = r.choice(["tensor", "tensor", "b2t", "superset", "full"]) if not diag else "diag"
    little = mode in ("b2t", "superset", "full", "diag") and r.random() < 0.35
    dsup = r.choice(["own", "superset", "full"]) if diag else None
    if mode == "superset" or dsup == "superset":
        free = [q for q in range(15) if q not in sup]
        sup = sorted(sup + r.sample(free, r.randint(1, max(1, 5 - len(sup)))))
    elif mode == "full" or (dsup == "full" and max(sup) < 6):
        sup = list(range(max(sup) + 1))
        if len(sup) > 5 and not diag:
            mode, sup = "tensor", sorted(ref.support(spec))
            little = False
    mon.case(dict(spec=spec, mode=mode, little=little, sup=sup, vvals=p.vvals, fenv=fenv),
             any(l != "I" for l in ref.leaves(spec)))
    pos = {q: i for i, q in enumerate(sup)}
    local = relabel(spec, [pos.get(q, -1) for q in range(15)])
    want = np.array([ref.mat_of(local, e, len(sup)) for e in sim.envs(p.vvals, fenv, batch)])
    blk = build.block(spec, p.vvals)
    vals = build.values(fenv, set(fenv))
    kw = dict(endianness=sim.LITTLE) if little else {}
    if mode == "tensor":
        out = blk.tensor(vals)
    elif mode == "b2t":
        out = block_to_tensor(blk, vals, **kw)
    elif mode == "superset":
        out = block_to_tensor(blk, vals, qubit_support=tuple(sup), **kw)
        mon.ev("superset_support")
    elif mode == "full":
        out = block_to_tensor(blk, vals, use_full_support=True, **kw)
    else:
        if tuple(sup) != tuple(sorted(blk.qubit_support)):
            kw.update(dict(use_full_support=True) if dsup == "full" else dict(qubit_support=tuple(sup)))
            mon.ev("sparse_superset")
        out = block_to_tensor(blk, vals, tensor_type=TensorType.SPARSEDIAGONAL, **kw).to_dense().unsqueeze(0)
        mon.ev("sparse_diag")
    got = build.npy(out)
    if little:
        want = reverse_mat(want)
        mon.ev("little")
    mon.ev("batched", int(batch > 1))
    mon.check(tuple(sorted(blk.qubit_support)) == tuple(sorted(ref.support(spec))), "support_compared",
              f"qubit_support {blk.qubit_support}")
    mon.close(got, want, "tensor_compared", f"matrix ({mode})")


def _probe_projector():
    m = build.npy(qd.Projector("1", "0", 0).tensor())[0]
    if abs(m[1, 0] - 1) > 1e-9 or abs(m[0, 1]) > 1e-9:
        return f"Projector(ket='1', bra='0').tensor() is {m.real.tolist()}, not |1><0|"


PROBES = {"offdiagonal_projector": _probe_projector}
