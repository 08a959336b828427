"""C10: samples follow the Born rule of the exact state."""
from __future__ import annotations

from collections import Counter

import numpy as np
import torch

import qadence as qd
from scipy.stats import binom

from .. import build, gen, ref, sim

ID = "C10"
CASES = {"quick": 900, "thorough": 15000}
RULE = (
    "random circuits, batches, initial states, shot counts (1..20000) through sample/model/backend in both endiannesses; structural checks on "
    "every counter and per-outcome exact binomial tests plus joint (per batch element) tests at level 1e-9; non-trivial: "
    "more than one possible outcome"
)
MIN_EVENTS = {"counter": 400, "outcome_tests": 2000, "impossible_checked": 300, "fresh": 60, "little": 100}
ASSUMPTIONS = ["binomial tail threshold 1e-10 per outcome (false alarm rate < 1e-5 per run; the seed is fixed)"]


def case(r, idx, mon):
    n = r.choice([1, 2, 3, 3, 4, 5]) if r.random() < 0.95 else r.randint(6, 9)
    p = gen.P(r, nf=r.choice([0, 1, 2]), nv=r.choice([0, 1]))
    spec = gen.circuit(r, n, p, size=r.randint(1, 7)) if n <= 5 else ["chain", gen.wide(r, n, p, lambda k: gen.circuit(r, k, p, size=3))]
    batch = r.choice([1, 1, 2, 4])
    fenv = sim.used_env(p, [spec], batch)
    batch = sim.eff_batch(fenv)
    init = gen.state(r, n) if r.random() < 0.3 else None
    shots = r.choice([1, 7, 100, 1000, 5000, 20000])
    entry = r.choice(["sample", "sample_n", "sample_reg", "sample_block", "model", "backend"])
    psi = sim.ref_states(spec, n, sim.envs(p.vvals, fenv, batch), init)
    pr = np.abs(psi) ** 2
    mon.case(dict(n=n, spec=spec, vvals=p.vvals, fenv=fenv, init=init is not None, shots=shots, entry=entry),
             bool((pr.max(axis=1) < 1 - 1e-6).any()))
    blk = build.block(spec, p.vvals)
    circ = qd.QuantumCircuit(n, blk)
    vals = build.values(fenv, set(fenv))
    kw = dict(state=sim.tstate(init)) if init is not None else {}
    little = r.random() < 0.3
    if little:
        mon.ev("little")
        kw["endianness"] = qd.Endianness.LITTLE
        pr = pr[:, [int(format(k, f"0{n}b")[::-1], 2) for k in range(2**n)]]

    def draw(k):
        if entry == "sample":
            return qd.sample(circ, values=vals, n_shots=k, **kw)
        if entry == "sample_n":
            return qd.sample(n, blk, values=vals, n_shots=k, **kw)
        if entry == "sample_reg":
            return qd.sample(qd.Register.line(n), blk, values=vals, n_shots=k, **kw)
        if entry == "sample_block":
            a = (blk,) if max(ref.support(spec)) + 1 == n else (n, blk)
            return qd.sample(*a, **(dict(values=vals) if vals else {}), n_shots=k, **kw)
        if entry == "model":
            return qd.QuantumModel(circ).sample(vals, n_shots=k, **kw)
        b = qd.backend_factory("pyqtorch", diff_mode="ad")
        c = b.convert(circ)
        return b.sample(c.circuit, c.embedding_fn(c.params, vals), n_shots=k, **kw)

    if r.random() < 0.1 and "noise" not in kw:
        # the announced default numbers of shots
        for c in qd.sample(circ, values=vals, **kw):
            mon.check(sum(c.values()) == 100, "default_shots", f"{sum(c.values())} shots by default")
        for c in qd.QuantumModel(circ).sample(vals, **kw):
            mon.check(sum(c.values()) == 1000, "default_shots", f"{sum(c.values())} shots by default (model)")
    cs = draw(shots)
    mon.check(isinstance(cs, list) and len(cs) == batch, "batch", f"{len(cs)} counters for a batch of {batch}")
    for c, q in zip(cs, pr):
        mon.check(isinstance(c, Counter) and sum(c.values()) == shots, "counter", f"counts add to {sum(c.values())}, not {shots}")
        for k, v in c.items():
            mon.check(isinstance(k, str) and len(k) == n and set(k) <= {"0", "1"} and isinstance(v, (int, np.integer)) and v >= 1,
                      "counter", f"malformed entry {k!r}: {v!r}")
        for k in range(2**n):
            cnt, pk = c[format(k, f"0{n}b")], float(q[k])
            if pk < 1e-12:
                mon.check(cnt == 0, "impossible_checked", f"impossible outcome {k:0{n}b} sampled {cnt} times")
                continue
            pk = min(1.0, pk)
            lo, hi = binom.cdf(cnt, shots, min(1, pk + 1e-7)), binom.sf(cnt - 1, shots, max(0, pk - 1e-7))
            lo = binom.cdf(cnt, shots, max(0, pk - 1e-7)) if lo < 1e-10 else lo
            mon.check(lo > 1e-10 and hi > 1e-10, "outcome_tests",
                      f"outcome {k:0{n}b}: {cnt} of {shots} for probability {pk:.6f}")
    # batch elements and calls are sampled independently (same parameters must not give the same shots)
    if shots == 20000 and r.random() < 0.7:
        again = draw(shots)
        for a, b, q in zip(cs, again, pr):
            if (q > 0.02).sum() >= 4:
                mon.check(dict(a) != dict(b), "fresh", "two sampling calls returned identical counts", counts=dict(a))
