"""C24: the QNN interface: tensor inputs, outputs, input derivatives, copies."""
from __future__ import annotations

import numpy as np
import sympy
import torch

import qadence as qd
from qadence import deserialize, serialize
from qadence.ml_tools.models import derivative

from .. import build, gen, ref, sim

ID = "C24"
CASES = {"quick": 800, "thorough": 14000}
RULE = (
    "QNNs over random circuits and observables with zero to three features in a random input order (names or symbols), tensor and dictionary "
    "inputs, both input differentiation modes, derivatives up to third order, serialized copies; non-trivial: two or more features"
)
MIN_EVENTS = {"forward": 700, "dict_same": 500, "features": 500, "derivative": 400, "run": 300, "sample": 100, "copy": 200, "rejected": 200,
              "observable": 80, "input_gradient": 200}
ASSUMPTIONS = ["n_qubits <= 3; derivatives compared with finite differences of the reference (tolerance 2e-4 at first, 2e-3 at higher order)"]


def case(r, idx, mon):
    n = r.randint(1, 3)
    nf = r.choice([0, 1, 1, 2, 2, 3])
    p = gen.P(r, nf=nf, nv=r.randint(0, 3), kinds="nffffvv")
    spec = gen.circuit(r, n, p, size=r.randint(2, 7), hamevo_p=0.08)
    obs = [gen.hamiltonian(r, n, p if r.random() < 0.25 else None) for _ in range(r.choice([1, 1, 2, 3]))]
    feats = sorted(set().union(*[ref.names_of(s, "f") for s in [spec] + obs]))
    order = r.sample(feats, len(feats))
    batch = r.choice([1, 2, 4])
    x = np.array([[round(r.uniform(-1.2, 1.2), 4) or 0.3 for _ in order] for _ in range(batch)]).reshape(batch, len(order))
    # (the parameter shift of evolutions with many gaps is C04's subject: it is ill-conditioned in general)
    mode = "ad" if "HamEvo" in str(spec) or any(ref.names_of(o) for o in obs) else r.choice(["ad", "ad", "gpsr"])
    idm = r.choice(["ad", "fd"])
    as_sym = r.random() < 0.4
    mon.case(dict(n=n, spec=spec, obs=obs, vvals=p.vvals, order=order, x=x.tolist(), mode=mode, idm=idm, as_sym=as_sym), len(order) > 1)
    circ = build.circuit(n, spec, p.vvals)
    obl = [build.block(o, p.vvals) for o in obs]
    ob_arg = obl[0] if len(obl) == 1 and r.random() < 0.5 else obl
    inputs = [sympy.Symbol(k) for k in order] if as_sym else list(order)
    if len(order) > 1:
        try:
            qd.QNN(circ, ob_arg)
            mon.fail(f"QNN with inputs {order} accepted without their order")
        except ValueError:
            mon.ev("rejected")
    q = qd.QNN(circ, ob_arg, diff_mode=mode, input_diff_mode=idm,
               inputs=inputs if len(order) > 1 or r.random() < 0.5 else None)
    mon.check(q.in_features == len(order) and q.out_features == len(obs), "features", f"in {q.in_features} out {q.out_features}")
    mon.check([str(i) for i in q.inputs] == order, "features", f"inputs {q.inputs} expected {order}")

    def F(xa, init=None):
        """The reference output for a batch of inputs."""
        e = [{**p.vvals, **dict(zip(order, row))} for row in xa]
        psi = sim.ref_states(spec, n, e, init)
        return sim.ref_expect(obs, psi, n, e)

    want = F(x)
    t = torch.tensor(x, dtype=torch.float64)
    uses = set().union(*[ref.names_of(s, "f") for s in [spec] + obs])

    def shaped(got, w, kind, what):
        got = build.npy(got)
        mon.close(got, w if len(got) == len(w) else w[:1], kind, what)

    if order:
        mon.close(build.npy(q(t)), want, "forward", "forward(tensor)")
        d = {k: t[:, i] for i, k in enumerate(order)}
        ks = list(d)
        r.shuffle(ks)
        mon.close(build.npy(q({k: d[k] for k in ks})), want, "dict_same", "forward(dictionary)")
        if len(order) == 1:
            mon.close(build.npy(q(t[:, 0])), want, "forward", "forward(vector)")
        try:
            q(torch.rand(batch, len(order) + 1, dtype=torch.float64))
            mon.fail("a tensor with too many columns was accepted")
        except ValueError:
            mon.ev("rejected")
        psi = sim.ref_states(spec, n, [{**p.vvals, **dict(zip(order, row))} for row in x])
        got = build.npy(q.run(t))
        mon.close(got, psi if len(got) == len(psi) else psi[:1], "run", "run(tensor)")
        if r.random() < 0.3:
            ini = np.asarray(gen.state(r, n, 1)).reshape(-1)
            mon.close(build.npy(q(t, state=sim.tstate(ini))), F(x, ini), "forward", "forward(tensor, state)")
    else:
        shaped(q(), want, "forward", "forward without inputs")
        shaped(q({}), want, "dict_same", "forward({})")
    if r.random() < 0.3:
        vals = t if order else {}
        torch.manual_seed(11)
        s1 = q.sample(vals, n_shots=50)
        qm = qd.QuantumModel(circ, obl, diff_mode=mode)
        torch.manual_seed(11)
        s2 = qm.sample({k: t[:, i] for i, k in enumerate(order)}, n_shots=50)
        mon.check(s1 == s2, "sample", f"samples of the QNN {s1} and of the same model {s2}")
    if r.random() < 0.25:
        o2 = gen.pauli_string(r, n)  # (coefficients would not be known to the model's embedding)
        conv = q.backend.observable(build.block(o2, {}), n)
        e = [{**p.vvals, **dict(zip(order, row))} for row in x]
        w2 = sim.ref_expect([o2], sim.ref_states(spec, n, e), n, e)
        shaped(q.expectation(t if order else {}, observable=[conv]), w2, "observable", "expectation of a given observable")
    # input derivatives
    if order and len(obs) == 1:
        k = r.choice([1, 1, 2, 2, 3]) if mode == "ad" else r.choice([1, 1, 2])
        di = tuple(r.randrange(len(order)) for _ in range(k))
        used = [i for i, f in enumerate(order) if f in uses]
        if all(i in used for i in di):
            xt = t.clone().requires_grad_(True)
            want_d = fd(lambda a: F(a)[:, 0], x, di)
            try:
                got = derivative(q, xt, di)
            except RuntimeError as e:
                # autograd: an output that does not depend on the input has no graph
                if "does not require grad" not in str(e) and "appears to not have been used" not in str(e):
                    raise
                mon.check(np.max(np.abs(want_d)) < 1e-5, "derivative", f"derivative {di} raised {e} but is {want_d}")
            else:
                scale = max(1.0, float(np.max(np.abs(want_d))))
                tol = (2e-4 if len(di) == 1 else 2e-3) * (5 if idm == "fd" and len(di) == 3 else 1)
                mon.check(tuple(got.shape) == (batch, 1), "derivative", f"derivative {di} has shape {tuple(got.shape)}")
                mon.close(build.npy(got)[:, 0] / scale, want_d / scale, "derivative", f"derivative {di} ({idm}, {mode})", tol=tol)
    # gradient of the outputs with respect to the input tensor
    if order and r.random() < 0.5:
        xt = t.clone().requires_grad_(True)
        out = q(xt)
        if out.requires_grad:
            wgt = torch.tensor(np.random.default_rng(idx).normal(size=tuple(out.shape)), dtype=out.dtype)
            g = torch.autograd.grad((out * wgt).sum(), xt, allow_unused=True)[0]
            g = np.zeros_like(x) if g is None else build.npy(g)
            wg = np.stack([(fd_all(F, x, i) * wgt.numpy()).sum(1) for i in range(len(order))], 1)
            mon.close(g, wg, "input_gradient", "gradient with respect to the inputs", tol=5e-4 * max(1.0, float(np.max(np.abs(wg)))))
    # copies
    if r.random() < 0.5:
        c = deserialize(serialize(q))
        mon.check(type(c) is qd.QNN and [str(i) for i in c.inputs] == order and c.input_diff_mode == q.input_diff_mode
                  and c.out_features == q.out_features, "copy", f"deserialized QNN: {type(c)} inputs {getattr(c, 'inputs', None)}")
        shaped(c(t) if order else c(), want, "copy", "forward of the deserialized QNN")


H = 2e-3


def fd(f, x, di):
    if not di:
        return f(x)
    e = np.zeros_like(x)
    e[:, di[0]] = H
    g = lambda a: fd(f, a, di[1:])
    return (8 * (g(x + e) - g(x - e)) - (g(x + 2 * e) - g(x - 2 * e))) / (12 * H)


def fd_all(f, x, i):
    e = np.zeros_like(x)
    e[:, i] = H
    return (8 * (f(x + e) - f(x - e)) - (f(x + 2 * e) - f(x - 2 * e))) / (12 * H)
