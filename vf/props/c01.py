"""C01: executing a circuit yields the exact linear-algebra statevector."""
from __future__ import annotations

import numpy as np
import torch

import qadence as qd

from .. import build, gen, ref, sim

ID = "C01"
CASES = {"quick": 1600, "thorough": 30000}
RULE = (
    "random circuits (1-5 qubits, nested chain/kron, all gates incl. multi-controlled, U, matrix and "
    "Hamiltonian-evolution blocks, shared/derived parameters, feature batches, initial states, both "
    "endiannesses, backend options, several entry points); non-trivial: at least one non-identity gate"
)
MIN_EVENTS = {"state_compared": 500, "norm_compared": 500, "with_init_state": 50, "batched": 50}
ASSUMPTIONS = ["tolerance 2e-5 (fixed parameters are stored in single precision)", "n_qubits <= 12, gates and generators on at most 5 qubits"]


def case(r, idx, mon):
    n = r.choice([1, 2, 2, 3, 3, 3, 4, 4, 5]) if r.random() < 0.93 else r.randint(6, 12)
    p = gen.P(r, nf=r.choice([0, 1, 2, 3]), nv=r.choice([0, 1, 2]))
    if n <= 5:
        spec = gen.circuit(r, n, p)
    else:
        spec = ["chain", gen.wide(r, n, p, lambda k: gen.circuit(r, k, p, size=r.randint(1, 5)))]
        mon.ev("wide", 1)
    batch = r.choice([1, 1, 2, 3, 5])
    fenv = sim.used_env(p, [spec], batch)
    batch = sim.eff_batch(fenv)
    init = None
    x = r.random()
    if x < 0.3:
        init = gen.state(r, n)
    elif x < 0.4 and batch > 1:
        init = gen.state(r, n, batch)
    elif x < 0.45 and batch == 1:
        init = gen.state(r, n, 3)
    cfg = sim.config(r)
    little = r.random() < 0.15 and init is None
    entry = r.choice(["run", "run", "run_n", "run_reg", "run_block", "run_list", "model", "model_fwd", "backend"])
    mon.case(dict(n=n, spec=spec, vvals=p.vvals, fenv=fenv, init=init is not None, cfg=cfg, entry=entry,
                  little=little), any(l != "I" for l in ref.leaves(spec)))

    envl = sim.envs(p.vvals, fenv, batch)
    if init is not None and init.ndim == 2 and batch == 1:
        envl = envl * len(init)
    want = sim.ref_states(spec, n, envl, init)

    blk = build.block(spec, p.vvals)
    vals = build.values(fenv, set(fenv))
    kw = dict(values=vals)
    if init is not None:
        kw["state"] = sim.tstate(init)
    if little:
        kw["endianness"] = sim.LITTLE
        want = ref.reverse_bits_vec(want)
    if entry == "run":
        out = qd.run(qd.QuantumCircuit(n, blk), configuration=cfg or None, **kw)
    elif entry == "run_n":
        out = qd.run(n, blk, configuration=cfg or None, **kw)
    elif entry == "run_reg":
        out = qd.run(qd.Register(n), blk, configuration=cfg or None, **kw)
    elif entry == "run_block":
        # the register is inferred: qubits 0..highest used
        k = max(ref.support(spec)) + 1
        if k == n:
            out = qd.run(blk, configuration=cfg or None, **kw)
        else:
            out = qd.run(n, blk, configuration=cfg or None, **kw)
    elif entry == "run_list":
        circ = qd.QuantumCircuit(n, blk)
        c2 = qd.QuantumCircuit(n, qd.X(0))
        both = qd.run([c2, circ, c2], configuration=cfg or None, **kw)
        k = (both.shape[0] - len(want)) // 2
        out = both[k : k + len(want)]
        bk = qd.backend_factory("pyqtorch", diff_mode=r.choice(["ad", "gpsr", None]), configuration=cfg or None)
        circ, _, emb, params = bk.convert(qd.QuantumCircuit(n, blk))
        kw.pop("values")
        out = bk.run(circ, emb(params, vals), **kw)
    else:
        m = qd.QuantumModel(qd.QuantumCircuit(n, blk), configuration=cfg or None,
                            diff_mode=r.choice(["ad", "ad", "gpsr"]))
        out = m.run(**kw) if entry == "model" else m(**kw)
    got = build.npy(out)
    mon.ev("batched", int(batch > 1))
    mon.ev("with_init_state", int(init is not None))
    mon.close(got, want, "state_compared", "final state")
    mon.close(np.linalg.norm(got, axis=-1), np.ones(len(got)), "norm_compared", "norm of the final state")
