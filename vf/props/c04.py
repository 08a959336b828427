"""C04: derivatives of expectation values are the true derivatives, in every differentiation mode."""
from __future__ import annotations

import itertools

import numpy as np
import torch

import qadence as qd

from .. import build, gen, ref, sim

ID = "C04"
CASES = {"quick": 900, "thorough": 16000}
RULE = (
    "random parametric circuits (shared parameters, nested expressions, batches), 1-3 observables with a random "
    "cotangent, modes ad/adjoint/gpsr, first derivatives w.r.t. all features and variational parameters and "
    "second (mixed) derivatives for ad/gpsr; oracle: 4th-order finite differences of the numpy reference; "
    "non-trivial: some reference derivative is non-zero"
)
MIN_EVENTS = {"first_feature": 200, "first_variational": 150, "second": 60, "mode_ad": 100, "mode_gpsr": 80,
              "mode_adjoint": 60, "batched": 50}
ASSUMPTIONS = [
    "tolerance 5e-5 (ad, adjoint), 5e-4 (gpsr: spectral gaps are rounded to 4 decimals), 2e-3 for second derivatives by gpsr",
    "gpsr: gates with at most 4 distinct spectral gaps; adjoint: first derivatives",
]
H = 2e-3


def gaps(mat):
    w = np.linalg.eigvalsh(mat)
    d = np.unique(np.round(np.abs(w[:, None] - w[None, :]), 4))
    return d[d > 1e-4]


def nice_hamevo(r, n, p, symbolic=False):
    """exp(-iHt) with few, well separated gaps."""
    if not symbolic and r.random() < 0.06:
        # no gap at all: a global phase
        q = r.randrange(n)
        return ["HamEvo", ["add", [["Z", q], ["scale", 2.0, ["N", q]]]], p(1)]
    while True:
        h = gen.hamiltonian(r, n, None, terms=r.randint(1, 2), ops=("X", "Y", "Z"), nest=False, maxw=2)

        def co(s):
            if s[0] == "add":
                return ["add", [co(t) for t in s[1]]]
            if s[0] == "scale":
                return ["scale", r.choice([0.5, 1.0, 2.0, -1.0, 1.5]), s[2]]
            return s

        h = co(h)
        qs = sorted(ref.support(h))
        g = gaps(ref.mat_of(h, {}, n))
        if 1 <= len(g) <= 4 and g.max() <= 4.0 and abs(g * 2 - np.round(g * 2)).max() < 1e-6:
            return ["HamEvo", h, p.sym(0) if symbolic else p(1)]


def siblings(r, n, p):
    """Evolutions on the same qubits whose generators share a spectral feature but not the spectrum"""
    while True:
        qs = gen.sub(r, n, r.randint(1, min(2, n)))
        if len(qs) == 1:
            a, b = ["scale", r.choice([0.5, 1.0, 1.5]), [r.choice("XYZ"), qs[0]]], ["add", [["scale", 0.5, [r.choice("XYZ"), qs[0]]], ["N", qs[0]]]]
        else:
            c = [r.choice([0.5, 1.0, 1.5, 2.0]) for _ in range(4)]
            a, b = [["add", [["scale", c[2 * i], [r.choice("XYZ"), qs[0]]], ["scale", c[2 * i + 1], [r.choice("XYZ"), qs[1]]]]] for i in (0, 1)]
            if r.random() < 0.3:
                b = ["scale", c[0] + c[1], ["kron", [[r.choice("XYZ"), qs[0]], [r.choice("XYZ"), qs[1]]]]]
        wa, wb = (np.linalg.eigvalsh(ref.mat_of(x, {}, n)) for x in (a, b))
        ga, gb = gaps(ref.mat_of(a, {}, n)), gaps(ref.mat_of(b, {}, n))
        if not 1 <= len(ga) <= 4 or not 1 <= len(gb) <= 4 or np.allclose(wa, wb) or max(ga.max(), gb.max()) > 4:
            continue
        if abs(wa[-1] - wb[-1]) < 1e-6 or abs(np.abs(wa).sum() - np.abs(wb).sum()) < 1e-6 or len(ga) == len(gb) or abs(ga.max() - gb.max()) < 1e-6:
            ab = [a, b]
            r.shuffle(ab)
            return [["HamEvo", x, p.sym(0)] for x in ab]


def circuit(r, n, p, mode):
    if mode == "ad" or mode == "adjoint" and r.random() < 0.45:
        return gen.circuit(r, n, p, size=r.randint(1, 6), hamevo_p=0.12)
    allow = ["X", "Y", "Z", "I", "H", "S", "T", "SDagger", "RX", "RY", "RZ", "PHASE", "CNOT", "CZ", "CRX", "CRY",
             "CRZ", "CPHASE", "SWAP", "MCRX", "MCRY", "MCRZ", "Toffoli"]
    if mode == "gpsr":
        allow += ["U", "MCPHASE"]
    c = gen.circuit(r, n, p, size=r.randint(1, 5), allow=allow)
    if mode == "gpsr" and r.random() < 0.3:
        a, b = siblings(r, n, p)
        return ["chain", [c, a, gen.gate(r, n, p, allow), b, gen.gate(r, n, p, allow)]]
    if r.random() < 0.35:
        c = ["chain", [c, nice_hamevo(r, n, p, mode == "adjoint"), gen.gate(r, n, p, allow)]]
        if r.random() < 0.5:
            c[1] += [nice_hamevo(r, n, p, mode == "adjoint"), gen.gate(r, n, p, allow)]
    # the adjoint rule of the simulation library needs supports in ascending order
    return ascending(c) if mode == "adjoint" and r.random() < 0.6 else c


def ascending(s):
    if s[0] in ("chain", "kron", "add"):
        return [s[0], [ascending(b) for b in s[1]]]
    if s[0] in ref.CFIXED or s[0] in ref.CROT or s[0] == "SWAP":
        return [s[0], min(s[1], s[2]), max(s[1], s[2]), *s[3:]]
    return s


def deriv(f, env0, names):
    """d^k f / d names at env0, halving the step until two estimates agree."""
    h, a = H, fd(f, env0, names, H)
    for _ in range(4):
        h /= 2
        b = fd(f, env0, names, h)
        if abs(a - b) <= (1e-6 if len(names) == 1 else 5e-5) * (1 + abs(b)):
            return b
        a = b
    return a


def fd(f, env0, names, H):
    """Tensor-product 4th order central differences."""
    st = [(-2, 1 / 12), (-1, -2 / 3), (1, 2 / 3), (2, -1 / 12)]
    out = 0.0
    for combo in itertools.product(st, repeat=len(names)):
        e = dict(env0)
        w = 1.0
        for (k, c), nm in zip(combo, names):
            e[nm] = e[nm] + k * H
            w *= c / H
        out = out + w * f(e)
    return out


def case(r, idx, mon):
    mode = r.choice(["ad", "ad", "gpsr", "gpsr", "adjoint"])
    n = r.choice([1, 2, 2, 3, 3]) if mode != "ad" else r.choice([1, 2, 3, 3, 4])
    p = gen.P(r, nf=r.choice([0, 1, 1, 2]), nv=r.choice([0, 1, 2, 3]), kinds="nffvv")
    if not p.fn and not p.vn:
        p = gen.P(r, nf=1, nv=1, kinds="nffvv")
    for _ in range(50):
        spec = circuit(r, n, p, mode)
        if ref.names_of(spec):
            break
    nobs = 1 if mode == "adjoint" and r.random() < 0.5 else r.choice([1, 1, 2, 3])
    po = p if r.random() < 0.4 else None
    obs = [gen.hamiltonian(r, n, po) for _ in range(nobs)]
    batch = r.choice([1, 1, 2, 3])
    fenv = sim.used_env(p, [spec] + obs, batch, mixed=False)
    batch = sim.eff_batch(fenv)
    used_v = sorted(set().union(*[ref.names_of(s, "v") for s in [spec] + obs]))
    ws = np.array([[round(r.uniform(-1, 1), 3) for _ in range(nobs)] for _ in range(batch)])
    second = mode != "adjoint" and r.random() < 0.35
    init = gen.state(r, n) if r.random() < 0.15 else None
    entry = r.choice(["expectation", "model"])
    mon.case(dict(mode=mode, n=n, spec=spec, obs=obs, vvals=p.vvals, fenv=fenv, w=ws.tolist(), second=second,
                  init=init is not None, entry=entry))
    envl = sim.envs(p.vvals, fenv, batch)

    still = {k for k in fenv if used_v and r.random() < 0.2}
    vals = {k: torch.tensor(v, dtype=torch.float64, requires_grad=k not in still) for k, v in fenv.items()}
    m = qd.QuantumModel(build.circuit(n, spec, p.vvals), [build.block(o, p.vvals) for o in obs], diff_mode=mode)
    kw = dict(state=sim.tstate(init)) if init is not None else {}
    vps = {k: v for k, v in m.vparams.items()} if hasattr(m, "vparams") else {}
    named = dict(m.named_parameters())
    vt = {k: named[f"_params.{k}"] for k in used_v}
    out = m.expectation(vals, **kw)
    psi = sim.ref_states(spec, n, envl, init)
    mon.close(build.npy(out), sim.ref_expect(obs, psi, n, envl), "value", "expectation", tol=5e-5)
    L = (out * torch.tensor(ws)).sum()
    inputs = [v for k, v in vals.items() if k not in still] + list(vt.values())
    names = [k for k in vals if k not in still] + list(vt)
    if not inputs:
        return
    g = torch.autograd.grad(L, inputs, create_graph=second, allow_unused=True)
    g = [torch.zeros_like(i) if x is None else x for i, x in zip(inputs, g)]

    def scal(b):
        """reference contribution of batch element b as a function of its environment"""
        def f(e):
            s = sim.ref_states(spec, n, [e], init)
            return float(ws[b] @ sim.ref_expect(obs, s, n, [e])[0])
        return f

    tol = 5e-5 if mode != "gpsr" else 5e-4
    nz = False
    for nm, gi in zip(names, g):
        per = np.array([deriv(scal(b), envl[b], [nm]) for b in range(batch)])
        nz |= bool(np.abs(per).max() > 1e-6)
        if nm in fenv:
            mon.close(build.npy(gi).reshape(-1), per, "first_feature", f"d/d{nm} ({mode})", tol=tol)
        else:
            mon.close(build.npy(gi).reshape(-1), np.array([per.sum()]), "first_variational", f"d/d{nm} ({mode})", tol=tol)
    if second:
        i = r.randrange(len(names))
        if g[i].requires_grad:
            h = torch.autograd.grad(g[i].sum(), inputs, allow_unused=True)
            j = r.randrange(len(names))
            hj = torch.zeros_like(inputs[j]) if h[j] is None else h[j]
            per = np.array([deriv(scal(b), envl[b], [names[i], names[j]]) for b in range(batch)])
            want = per if names[j] in fenv else np.array([per.sum()])
            mon.close(build.npy(hj).reshape(-1), want, "second", f"d2/d{names[i]}d{names[j]} ({mode})",
                      tol=2e-4 if mode == "ad" else 2e-3)
    mon.ev("mode_" + mode)
    mon.ev("batched", int(batch > 1))
    mon.ev("nonzero_derivative", int(nz))
