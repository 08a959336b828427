"""C12: parameter accounting: one value per name, everywhere, and nothing else is trainable."""
from __future__ import annotations

import numpy as np
import torch

import qadence as qd
from qadence.blocks.utils import unique_parameters
from qadence.parameters import evaluate

from .. import build, gen, ref, sim

ID = "C12"
CASES = {"quick": 1400, "thorough": 24000}
RULE = (
    "models with shared, derived and constant parameters (circuit and observable), random differentiation mode; parameter "
    "listing, then a random sequence of updates (reset, optimizer step, in-place, trainability changes, call-time overrides, "
    "extra and reordered values) each followed by an evaluation judged by the numpy reference; non-trivial: shared or derived parameter"
)
MIN_EVENTS = {"listing": 500, "reset": 150, "optimizer": 150, "override": 100, "extra_values": 150, "missing": 100, "fixed": 60,
              "variational": 60, "evaluate": 150, "state_after": 600}
ASSUMPTIONS = ["tolerance 2e-5"]


def case(r, idx, mon):
    n = r.randint(1, 3)
    nv, nf = r.randint(1, 4), r.randint(0, 2)
    p = gen.P(r, nf=nf, nv=nv, kinds="nffvvvv")
    spec = gen.circuit(r, n, p, size=r.randint(2, 8), hamevo_p=0.1)
    with_obs = r.random() < 0.8
    obs = [gen.hamiltonian(r, n, p if r.random() < 0.4 else None) for _ in range(r.choice([1, 2]))] if with_obs else []
    used_v = set().union(*[ref.names_of(s, "v") for s in [spec] + obs])
    used_f = set().union(*[ref.names_of(s, "f") for s in [spec] + obs])
    batch = r.choice([1, 1, 3])
    fenv = sim.used_env(p, [spec] + obs, batch)
    batch = sim.eff_batch(fenv)
    mode = "ad" if gen.param_generator(spec) or any(ref.names_of(o) for o in obs) else r.choice(["ad", "ad", "gpsr"])
    ops = [r.choice(["reset", "optimizer", "inplace", "override", "extra", "missing", "fix", "var"]) for _ in range(r.randint(2, 4))]
    mon.case(dict(n=n, spec=spec, obs=obs, vvals=p.vvals, fenv=fenv, mode=mode, ops=ops), len(used_v) > 0)
    circ = build.circuit(n, spec, p.vvals)
    obl = [build.block(o, p.vvals) for o in obs]
    m = qd.QuantumModel(circ, obl if with_obs else None, diff_mode=mode)
    vals = build.values(fenv, fenv)
    cur = {k: p.vvals[k] for k in used_v}
    train = set(used_v)

    def listing():
        vp = {k: float(v) for k, v in m.vparams.items()}
        mon.check(set(vp) == train, "listing", f"vparams {sorted(vp)} != {sorted(train)}")
        mon.check(all(abs(vp[k] - cur[k]) < 1e-6 for k in train), "listing", f"vparams values {vp}", want=cur)
        mon.check(m.num_vparams == len(train) and len(m.vals_vparams) == len(train), "listing", f"num_vparams {m.num_vparams}")
        req = {k.split(".", 1)[1] for k, t in m.named_parameters() if t.requires_grad}
        mon.check(req == train, "listing", f"parameters that require a gradient: {sorted(req)} != {sorted(train)}")

    listing()
    mon.check(m.in_features == len(used_f) and {str(i) for i in m.inputs} == used_f, "listing", f"inputs {m.inputs} != {used_f}")
    mon.check((m.out_features or 0) == len(obs), "listing", f"out_features {m.out_features}")
    up = circ.unique_parameters
    mon.check({q.name for q in up} == ref.names_of(spec) and len(up) == len(ref.names_of(spec)) == circ.num_unique_parameters, "listing",
              f"unique parameters {up}")
    mon.check(all(q.trainable == (q.name in p.vvals) for q in up), "listing", "trainable flags")
    for o, s in zip(obl, obs):
        mon.check({q.name for q in unique_parameters(o)} == ref.names_of(s), "listing", "unique parameters of the observable")

    def state(values, over={}, what="state"):
        e = sim.envs({**p.vvals, **cur, **over}, fenv, batch)
        psi = sim.ref_states(spec, n, e)
        got = build.npy(m.run(values))
        mon.close(got, psi if len(got) == len(psi) else psi[:1], "state_after", what)
        if with_obs:
            E = sim.ref_expect(obs, psi, n, e)
            got = build.npy(m.expectation(values))
            mon.close(got, E if len(got) == len(E) else E[:1], "expectation_after", what)

    state(vals, what="initial evaluation")
    feat_fixed = {}
    for op in ops:
        if op == "reset":
            names = list(m.vparams)
            new = [round(r.uniform(-2, 2), 4) for _ in names]
            m.reset_vparams(new if r.random() < 0.5 else torch.tensor(new, dtype=torch.float64).tolist())
            cur.update(dict(zip(names, new)))
            mon.ev("reset")
        elif op == "optimizer" and train and with_obs:
            const = {k: v.clone() for k, v in m.params.items() if k not in train}
            opt = torch.optim.SGD([t for t in m.parameters() if t.requires_grad], lr=0.1) if r.random() < 0.5 else torch.optim.SGD(m.parameters(), lr=0.1)
            opt.zero_grad()
            (m.expectation({**vals, **feat_fixed}).sum()).backward()
            grads = {k.split(".", 1)[1]: (0.0 if t.grad is None else float(t.grad.sum())) for k, t in m.named_parameters() if t.requires_grad}
            opt.step()
            for k in train:
                cur[k] -= 0.1 * grads[k]
            now = {k: v for k, v in m.params.items() if k not in train}
            mon.check(set(now) == set(const) and all(torch.equal(now[k], const[k]) for k in const), "optimizer", "a constant was changed by an optimizer step")
        elif op == "inplace" and train:
            with torch.no_grad():
                for k, t in m.named_parameters():
                    nm = k.split(".", 1)[1]
                    if nm in train and r.random() < 0.6:
                        cur[nm] = round(r.uniform(-2, 2), 4)
                        t.fill_(cur[nm])
        elif op == "override" and train:
            k = r.choice(sorted(train))
            v = round(r.uniform(-2, 2), 4)
            state({**vals, **feat_fixed, k: torch.tensor([v])}, {k: v}, "call-time override")
            mon.ev("override")
        elif op == "extra":
            items = list({**vals, **feat_fixed}.items())
            r.shuffle(items)
            state({**dict(items)}, what="reordered values")
            if mode == "ad":
                state({"unused_name": torch.tensor([0.4]), **dict(items)}, what="unused extra value")
            mon.ev("extra_values")
        elif op == "missing" and used_f:
            k = r.choice(sorted(used_f))
            try:
                out = m.run({q: v for q, v in vals.items() if q != k})
            except KeyError:
                out = None
            mon.check(out is None, "missing", f"evaluation without a value for {k} returned {out}")
        elif op == "fix" and train:
            k = r.choice(sorted(train))
            m.set_as_fixed([k])
            train.discard(k)
            # rebuilt from the blocks: remaining parameters are back at their initial value
            for q in train:
                cur[q] = p.vvals[q]
            feat_fixed[k] = torch.tensor([cur[k]])
            mon.ev("fixed")
        elif op == "var" and feat_fixed:
            m.set_as_variational(sorted(feat_fixed))
            train |= set(feat_fixed)
            feat_fixed.clear()
            for q in train:
                cur[q] = p.vvals[q]
            mon.ev("variational")
        listing()
        state({**vals, **feat_fixed}, what=f"after {op}")
    # numeric evaluation of parameter expressions uses the declared values
    e = p.expr(2)
    if ref.pnames(e, "f") == set() and not isinstance(e, (int, float)):
        mon.close(np.array(float(evaluate(build.param(e, p.vvals)))), np.array(float(ref.pval(e, p.vvals))), "evaluate", "evaluate(expr)", tol=1e-5)
