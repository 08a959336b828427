"""C03: exact expectation values."""
from __future__ import annotations

import numpy as np
import torch

import qadence as qd

from .. import build, gen, ref, sim

ID = "C03"
CASES = {"quick": 1200, "thorough": 24000}
RULE = (
    "random circuits and lists of 1-4 random observables (Pauli/N strings, sums, nested scalings, numeric or "
    "parametric coefficients, diagonal products), feature batches, initial states, backend options, "
    "several entry points; non-trivial: the observable is not the identity"
)
MIN_EVENTS = {"expectation_compared": 400, "multi_observable": 100, "parametric_observable": 50, "batched": 50}
ASSUMPTIONS = ["tolerance 2e-5 relative to the value", "n_qubits <= 11, gates and observable terms on at most 5 qubits"]


def observable(r, n, p):
    x = r.random()
    if x < 0.75:
        return gen.hamiltonian(r, n, p if r.random() < 0.4 else None, ops=r.choice([("X", "Y", "Z"), ("Z",), ("Z", "N"), ("X", "Y", "Z", "N", "I")]))
    if x < 0.92:
        # product of commuting diagonal operators, as a chain
        return ["chain", [gen.hamiltonian(r, n, None, terms=2, ops=("Z", "N")) for _ in range(2)]]
    return ["scale", gen.nz(r), gen.hamiltonian(r, n, p, terms=3)]


def case(r, idx, mon):
    n = r.choice([1, 2, 2, 3, 3, 4, 5]) if r.random() < 0.93 else r.randint(6, 11)
    p = gen.P(r, nf=r.choice([0, 1, 2, 3]), nv=r.choice([0, 1, 2]))
    if n <= 5:
        spec = gen.circuit(r, n, p, size=r.randint(1, 7), hamevo_p=0.06)
        obs = [observable(r, n, p) for _ in range(r.choice([1, 1, 2, 3, 4]))]
    else:
        spec = ["chain", gen.wide(r, n, p, lambda k: gen.circuit(r, k, p, size=r.randint(1, 4), hamevo_p=0.06))]
        obs = [["add", gen.wide(r, n, p, lambda k: observable(r, k, p))] for _ in range(r.choice([1, 2]))]
        mon.ev("wide", 1)
    batch = r.choice([1, 1, 2, 3, 5])
    fenv = sim.used_env(p, [spec] + obs, batch)
    batch = sim.eff_batch(fenv)
    init = gen.state(r, n) if r.random() < 0.25 else None
    cfg = sim.config(r)
    entry = r.choice(["expectation", "expectation", "exp_n", "exp_reg", "exp_block", "model", "model_otf", "backend"])
    mon.case(dict(n=n, spec=spec, obs=obs, vvals=p.vvals, fenv=fenv, init=init is not None, cfg=cfg, entry=entry))
    envl = sim.envs(p.vvals, fenv, batch)
    psi = sim.ref_states(spec, n, envl, init)
    want = sim.ref_expect(obs, psi, n, envl)
    blk = build.block(spec, p.vvals)
    ob = [build.block(o, p.vvals) for o in obs]
    vals = build.values(fenv, set(fenv))
    if r.random() < 0.2:
        # the values of the observables can be given separately
        on = set().union(*[ref.names_of(o) for o in obs])
        cn = ref.names_of(spec)
        vals = {"circuit": {k: v for k, v in vals.items() if k in cn or k not in on},
                "observables": {k: v for k, v in vals.items() if k in on}}
        mon.ev("separate_values", 1)
    kw = dict(values=vals)
    if init is not None:
        kw["state"] = sim.tstate(init)
    if not fenv and r.random() < 0.5 and entry.startswith("exp"):
        kw.pop("values")
    oarg = ob[0] if len(ob) == 1 and r.random() < 0.5 else ob
    circ = qd.QuantumCircuit(n, blk)
    if entry == "expectation":
        out = qd.expectation(circ, oarg, configuration=cfg or None, **kw)
    elif entry == "exp_n":
        out = qd.expectation(n, blk, oarg, configuration=cfg or None, **kw)
    elif entry == "exp_reg":
        out = qd.expectation(qd.Register.line(n), blk, oarg, configuration=cfg or None, **kw)
    elif entry == "exp_block":
        # the register is inferred: qubits 0..highest used
        a = (blk,) if max(ref.support(spec)) + 1 == n else (n, blk)
        out = qd.expectation(*a, oarg, configuration=cfg or None, **kw)
    elif entry == "model":
        # GPSR is only defined for generators without parameters of their own
        dm = "ad" if gen.param_generator(spec) or "circuit" in vals else r.choice(["ad", "ad", "gpsr"])
        m = qd.QuantumModel(circ, oarg, configuration=cfg or None, diff_mode=dm)
        out = m.expectation(**kw)
    elif entry == "model_otf":
        m = qd.QuantumModel(circ, oarg, configuration=cfg or None)
        # a second model expectation must equal the first
        o1 = m.expectation(**kw)
        out = m.expectation(**kw)
        mon.close(build.npy(o1), build.npy(out), "repeat_compared", "repeated expectation", tol=1e-9)
    else:
        bk = qd.backend_factory("pyqtorch", diff_mode="ad", configuration=cfg or None)
        c, o, emb, params = bk.convert(circ, ob)
        kw.pop("values")
        out = bk.expectation(c, o, emb(params, vals), **kw)
    mon.ev("batched", int(batch > 1))
    mon.ev("multi_observable", int(len(obs) > 1))
    mon.ev("parametric_observable", int(any(ref.names_of(o) for o in obs)))
    mon.close(build.npy(out), want, "expectation_compared", "expectation values")
