"""C11: evaluations are pure and independent of history (shared objects, several models, interleaved calls, threads)."""
from __future__ import annotations

import copy
import json
import pickle
import sys
import threading

import numpy as np
import torch

import qadence as qd
from qadence.backends.utils import finitediff
from qadence.blocks.block_to_tensor import block_to_tensor
from qadence.serialization import deserialize, serialize
from qadence.transpile import chain_single_qubit_ops, digitalize, flatten, invert_endianness, scale_primitive_blocks_only, transpile
from qadence.types import Endianness

from .. import build, gen, ref, sim

ID = "C11"
CASES = {"quick": 560, "thorough": 12000}
RULE = (
    "two models and the functional interface over shared block objects (also repeated inside one circuit); random history of "
    "runs, samples, expectations, gradients, daggers, transpilations, matrices, serialization, copies, compositions, twin "
    "updates and concurrent threads; after every step snapshots of all shared objects and an evaluation against the numpy "
    "reference; non-trivial: has parameters"
)
MIN_EVENTS = {"snapshot": 1500, "evaluation": 1500, "inputs_unchanged": 1500, "same_seed": 100, "threads": 60, "twin": 100,
              "gradient": 100, "sample": 100}
ASSUMPTIONS = ["a noise model passed to one call stays set on the circuit (enforced by the repository's own tests): excluded",
               "a Parameter created twice under one name is one symbol (sympy cache): names are unique per case"]
OPS = ["run", "expectation", "sample", "gradient", "functional", "dagger", "tensor", "transpile", "serialize", "copy", "compose",
       "twin", "same_seed", "threads", "text", "override", "convert", "circuit_api", "other_observable", "little"]


def shape(b):
    """Structural snapshot of a block through its public attributes."""
    out = [type(b).__name__, b.tag, tuple(b.qubit_support), b.n_qubits]
    ps = getattr(b, "parameters", None)
    if ps is not None and hasattr(ps, "expressions"):
        out.append([str(e) for e in ps.expressions()])
        out.append([(s.name, s.value, s.trainable) for e in ps.expressions() for s in sorted(e.free_symbols, key=str)])
    g = b.generator if isinstance(b, qd.HamEvo) else None
    if isinstance(g, qd.blocks.AbstractBlock):
        out.append(shape(g))
    for c in getattr(b, "blocks", ()):
        out.append(shape(c))
    if isinstance(b, qd.blocks.ScaleBlock):
        out.append(shape(b.block))
    return out


def snap(d):
    return {k: (v.clone(), v.requires_grad, v.dtype) for k, v in d.items()}


def same(d, s):
    return list(d) == list(s) and all(torch.equal(d[k], s[k][0]) and d[k].requires_grad == s[k][1] and d[k].dtype == s[k][2] for k in d)


def case(r, idx, mon):
    n = r.randint(1, 3)
    p = gen.P(r, nf=r.randint(0, 2), nv=r.randint(0, 3), kinds="nfvfv")
    inner = gen.circuit(r, n, p, size=r.randint(1, 3), hamevo_p=0.1)
    rest = gen.circuit(r, n, p, size=r.randint(1, 3), hamevo_p=0.05)
    # the same block object several times in one circuit, and in two circuits
    sa = ["chain", [inner, rest, inner]] if r.random() < 0.6 else ["chain", [inner, rest]]
    sb = ["chain", [rest, inner]]
    oa = [gen.hamiltonian(r, n, p if r.random() < 0.3 else None) for _ in range(r.randint(1, 2))]
    ob = [oa[0]] + [gen.hamiltonian(r, n) for _ in range(r.randint(0, 1))]
    batch = r.choice([1, 2, 3])
    fenv = sim.used_env(p, [sa, sb] + oa + ob, batch)
    batch = sim.eff_batch(fenv)
    used_v = sorted(set().union(*[ref.names_of(s, "v") for s in [sa, sb] + oa + ob]))
    gp = gen.param_generator(sa) or any(ref.names_of(o) for o in oa + ob)
    modes = [r.choice(["ad", "ad"] if gp else ["ad", "gpsr"]) for _ in range(2)]
    init = gen.state(r, n) if r.random() < 0.3 else None
    has_t = "T" in [l[0] for s in (inner, rest) for l in ref.leaves(s)]  # T.dagger() cannot be run (C05 finding)
    ops = [r.choice(OPS) for _ in range(r.randint(4, 8))]
    mon.case(dict(n=n, sa=sa, sb=sb, oa=oa, ob=ob, vvals=p.vvals, fenv=fenv, modes=modes, ops=ops, init=init is not None), bool(used_v or fenv))
    bi, br = build.block(inner, p.vvals), build.block(rest, p.vvals)
    ca = qd.QuantumCircuit(n, qd.chain(bi, br, bi) if len(sa[1]) == 3 else qd.chain(bi, br))
    cb = qd.QuantumCircuit(n, qd.chain(br, bi))
    blk0 = build.block(oa[0], p.vvals)
    boa = [blk0] + [build.block(o, p.vvals) for o in oa[1:]]
    bob = [blk0] + [build.block(o, p.vvals) for o in ob[1:]]
    cfgs = [sim.config(r), sim.config(r)]
    cfg0 = copy.deepcopy(cfgs)
    M = [qd.QuantumModel(ca, boa, diff_mode=modes[0], configuration=cfgs[0] or None),
         qd.QuantumModel(cb, bob, diff_mode=modes[1], configuration=cfgs[1] or None)]
    specs, obs, circs, blks = [sa, sb], [oa, ob], [ca, cb], [boa, bob]
    vals = build.values(fenv, fenv)
    vsnap = snap(vals)
    st = None if init is None else sim.tstate(init)
    st0 = None if st is None else st.clone()
    kw = {} if st is None else {"state": st}
    cur = [dict(p.vvals), dict(p.vvals)]
    shapes = [shape(c.block) for c in circs] + [shape(o) for o in boa + bob]
    texts = [str(c.block) for c in circs]
    vp0 = [{k: v.clone() for k, v in m.params.items()} for m in M]

    def want(k, over={}):
        e = sim.envs({**cur[k], **over}, fenv, batch)
        psi = sim.ref_states(specs[k], n, e, init)
        return psi, sim.ref_expect(obs[k], psi, n, e)

    WANT = [want(0), want(1)]

    def fits(got, w, what):
        mon.close(got, w if len(got) == len(w) else w[:1], "evaluation", what)

    def evaluate(k, what, m=None):
        m = m or M[k]
        psi, E = WANT[k]
        fits(build.npy(m.run(vals, **kw)), psi, f"state {what}")
        fits(build.npy(m.expectation(vals, **kw)), E, f"expectation {what}")

    def audit(what):
        now = [shape(c.block) for c in circs] + [shape(o) for o in boa + bob]
        mon.check(now == shapes, "snapshot", f"a shared block was modified by: {what}")
        mon.check([str(c.block) for c in circs] == texts, "snapshot", f"the printed form of a block changed: {what}")
        mon.check(same(vals, vsnap), "inputs_unchanged", f"the given values were modified by: {what}")
        mon.check(st is None or torch.equal(st, st0), "inputs_unchanged", f"the given state was modified by: {what}")
        mon.check(cfgs == cfg0, "inputs_unchanged", f"the given configuration was modified by: {what}")
        for m, v in zip(M, vp0):
            q = m.params
            mon.check(list(q) == list(v) and all(torch.equal(q[k], v[k]) for k in v), "snapshot", f"model parameters changed by: {what}")

    evaluate(0, "initially")
    evaluate(1, "initially")
    audit("building and evaluating")
    for op in ops:
        k = r.randrange(2)
        m, c = M[k], circs[k]
        if op == "run":
            o = m.run(vals, **kw)
            o.detach().mul_(0)  # results belong to the caller
        elif op == "expectation":
            m.expectation(vals, **kw).detach().mul_(0)
        elif op == "sample":
            m.sample(vals, n_shots=r.choice([1, 7]), **kw)
            mon.ev("sample")
        elif op == "gradient":
            x = {q: v.clone().requires_grad_(r.random() < 0.7) for q, v in vals.items()}
            flags = {q: v.requires_grad for q, v in x.items()}
            e = m.expectation(x, **kw).sum()
            leaves = [t for t in list(m.parameters()) + list(x.values()) if t.requires_grad]
            if leaves and e.requires_grad:
                torch.autograd.grad(e, leaves, allow_unused=True)
            mon.check(all(torch.equal(x[q], vals[q]) and x[q].requires_grad == flags[q] for q in x), "inputs_unchanged", "values changed by a gradient")
            mon.check(all(t.grad is None for t in m.parameters()), "snapshot", "a gradient was accumulated by autograd.grad")
            mon.ev("gradient")
        elif op == "functional":
            fits(build.npy(qd.run(c, values=vals, **kw)), WANT[k][0], "run()")
            fits(build.npy(qd.expectation(c, blks[k], values=vals, **kw)), WANT[k][1], "expectation()")
            qd.sample(c, values=vals, n_shots=3, **kw)
        elif op == "dagger":
            d = c.dagger()
            str(d.block)
            if not has_t:
                qd.run(qd.QuantumCircuit(n, d.block), values=vals, **kw)
        elif op == "tensor":
            block_to_tensor(r.choice([c.block, r.choice(blks[k])]), values=dict(vals), qubit_support=tuple(range(n)))
        elif op == "transpile":
            f = r.choice([flatten, chain_single_qubit_ops, scale_primitive_blocks_only, invert_endianness])
            if f is scale_primitive_blocks_only:
                f(r.choice(blks[k]))
            elif f is chain_single_qubit_ops:
                f(c.block)
            elif f is invert_endianness:
                f(c.block)
            else:
                transpile(flatten)(c)
        elif op == "serialize":
            s = serialize(r.choice([c, c.block, blks[k][0], m]))
            s0 = copy.deepcopy(s)
            deserialize(s)
            mon.check(str(s) == str(s0), "inputs_unchanged", "deserialize modified its input")
        elif op == "copy":
            how = r.choice(["deepcopy", "pickle", "copy"])
            x = copy.deepcopy(m) if how == "deepcopy" else (pickle.loads(pickle.dumps(c)) if how == "pickle" else copy.copy(c))
            if how == "deepcopy":
                evaluate(k, "of a deep copy", x)
            else:
                fits(build.npy(qd.run(x, values=vals, **kw)), WANT[k][0], f"{how} of the circuit")
        elif op == "compose":
            b2 = qd.chain(c.block, qd.X(0), c.block.dagger())
            (2.0 * blks[k][0] + qd.Z(0) - blks[k][-1])
            qd.kron(qd.X(n), c.block)
            c.block ** 2
            if not has_t:
                qd.run(qd.QuantumCircuit(n, b2), values=vals, **kw)
            qd.tag(qd.chain(c.block), "outer")
        elif op == "twin":
            t = copy.deepcopy(m) if r.random() < 0.5 else qd.QuantumModel(c, blks[k], diff_mode=modes[k])
            if t.num_vparams:
                new = [round(r.uniform(-2, 2), 4) for _ in range(t.num_vparams)]
                names = list(t.vparams)
                if r.random() < 0.5:
                    t.reset_vparams(new)
                else:
                    with torch.no_grad():
                        for (_, q), v in zip([x for x in t.named_parameters() if x[1].requires_grad], new):
                            q.fill_(v)
                psi, E = want(k, dict(zip(names, new)))
                fits(build.npy(t.run(vals, **kw)), psi, "state of the updated twin")
                fits(build.npy(t.expectation(vals, **kw)), E, "expectation of the updated twin")
            mon.ev("twin")
        elif op == "same_seed":
            s = r.getrandbits(30)
            torch.manual_seed(s)
            a = m.sample(vals, n_shots=60, **kw)
            m.run(vals, **kw)
            M[1 - k].expectation(vals, **kw)
            torch.manual_seed(s)
            b = m.sample(vals, n_shots=60, **kw)
            mon.check(a == b, "same_seed", "the same seed gave other samples", a=str(a), b=str(b))
        elif op == "threads":
            errs, n_ok = [], []

            def work(kk):
                try:
                    for _ in range(3):
                        psi, E = WANT[kk]
                        for got, w in ((build.npy(M[kk].run(vals, **kw)), psi), (build.npy(M[kk].expectation(vals, **kw)), E)):
                            w = w if len(got) == len(w) else w[:1]
                            if got.shape != w.shape or not np.allclose(got, w, atol=5e-5):
                                errs.append("concurrent evaluation differs from the reference")
                            n_ok.append(1)
                        M[kk].sample(vals, n_shots=2, **kw)
                except Exception as e:
                    errs.append(repr(e))

            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-5)
            try:
                ts = [threading.Thread(target=work, args=(i % 2,)) for i in range(4)]
                [t.start() for t in ts]
                [t.join() for t in ts]
            finally:
                sys.setswitchinterval(old)
            mon.check(not errs, "threads", f"concurrent calls: {errs[:1]}")
            mon.ev("concurrent_evaluations", len(n_ok))
        elif op == "text":
            str(c), repr(c.block), str(blks[k]), str(m), c.block == br, hash(c), c == circs[1 - k], blks[k][0] == blks[k][-1]
            qd.utils.block_to_mathematical_expression(blks[k][0]) if hasattr(qd.utils, "block_to_mathematical_expression") else None
        elif op == "override" and used_v:
            names = [v for v in used_v if v in m.vparams]
            if names:
                q = r.choice(names)
                v = round(r.uniform(-2, 2), 4)
                psi, E = want(k, {q: v})
                fits(build.npy(m.run({**vals, q: torch.tensor([v])}, **kw)), psi, "state with an overridden parameter")
        elif op == "convert":
            bk = qd.backend_factory("pyqtorch", diff_mode="ad")
            cv = bk.convert(c, blks[k])
            fits(build.npy(bk.run(cv.circuit, cv.embedding_fn(cv.params, vals), **kw)), WANT[k][0], "newly converted circuit")
        elif op == "circuit_api":
            c.parameters(), c.unique_parameters, c.num_unique_parameters, c.get_blocks_by_tag("outer"), c.is_empty(), c.n_qubits
            qd.blocks.utils.get_pauli_blocks(blks[k][0]), qd.blocks.utils.primitive_blocks(c.block)
        elif op == "other_observable":
            o = m.observable(blks[1 - k][-1], n)
            if not ref.names_of(obs[1 - k][-1]) and modes[k] == "ad" and m.backend.backend.config._use_gate_params is False:
                m.run(vals, **kw)
        elif op == "little":
            a = m.run(vals, endianness=Endianness.LITTLE, **kw)
            mon.ev("little")
        audit(op)
        evaluate(r.randrange(2), f"after {op}")
        audit("evaluation")


def _probe_noise():
    from qadence.types import NoiseProtocol

    circ = qd.QuantumCircuit(1, qd.chain(qd.X(0)))
    m = qd.QuantumModel(circ, qd.Z(0))
    before = float(m.expectation({}))
    m.expectation({}, noise=qd.NoiseHandler(NoiseProtocol.DIGITAL.BITFLIP, {"error_probability": 0.25}))
    after = float(m.expectation({}))
    if abs(before - after) > 1e-6:
        return f"expectation {before:.2f} becomes {after:.2f} after a call with noise"


PROBES = {"noise_persists": _probe_noise}
