"""C20: measurement protocols estimate the expectation value."""
from __future__ import annotations

from collections import Counter

import numpy as np
import torch

import qadence as qd
from qadence.measurements import Measurements
from qadence.measurements.samples import compute_expectation as from_samples

from .. import build, gen, ref, sim

ID = "C20"
CASES = {"quick": 420, "thorough": 7000}
RULE = (
    "random circuits (stabiliser product states, whose Pauli measurements are deterministic, and general parametric ones with batches and "
    "initial states) and observables (sums of scaled Pauli strings in any factor order, with explicit identities, nested sums) measured by "
    "tomography and classical shadows through QuantumModel and QNN; Z observables from given counters; against exact values, with tolerance "
    "zero for deterministic terms and six standard deviations otherwise; non-trivial: two or more terms"
)
MIN_EVENTS = {"tomography": 200, "exact_term": 80, "shadow": 45, "samples": 120, "batch": 30, "several": 80, "identity_factor": 90,
              "non_diagonal": 200, "state": 12, "gradient": 10}
ASSUMPTIONS = ["observables are non-parametric sums of scaled Pauli strings; n_qubits <= 4; deviations beyond six standard deviations are violations"]


def term(r, n, diag=False, axes=(), weight=9):
    k = r.randint(1, min(n, weight))
    qs = r.sample(range(n), k)
    ops = ["Z"] if diag else ["X", "Y", "Z"]
    definite = axes and r.random() < 0.8
    fs = [["I" if r.random() < 0.15 else axes[q] if definite else r.choice(ops), q] for q in qs]
    if all(f[0] == "I" for f in fs) and r.random() < 0.8:
        fs[0][0] = r.choice(ops)
    return fs


def pauli_obs(r, n, diag=False, identity=True, axes=(), weight=9):
    """(spec, [(coefficient, factors)])"""
    terms = []
    for _ in range(r.choice([1, 2, 2, 3, 4])):
        fs = term(r, n, diag, axes, weight)
        if not identity and all(f[0] == "I" for f in fs):
            fs[0][0] = "Z"
        c = r.choice([1.0, round(r.uniform(-2, 2), 3) or 0.5])
        terms.append((c, fs))

    def one(c, fs):
        b = ["kron", fs] if len(fs) > 1 else fs[0]
        return b if c == 1.0 and r.random() < 0.7 else ["scale", c, b]

    items = [one(c, fs) for c, fs in terms]
    if len(items) > 2 and r.random() < 0.3:  # a nested sum with a common factor
        f = round(r.uniform(0.4, 1.5), 3)
        items = items[:-2] + [["scale", f, ["add", items[-2:]]]]
        terms = terms[:-2] + [(c * f, fs) for c, fs in terms[-2:]]
    return (["add", items] if len(items) > 1 else items[0]), terms


def mean(psi, fs, n):
    return float(np.real(np.vdot(psi, ref.mat_of(["kron", fs] if len(fs) > 1 else fs[0], {}, n) @ psi)))


def stabiliser(r, n, axes):
    """A circuit whose state is the eigenstate of many Pauli strings."""
    items = []
    for q in range(n):
        if r.random() < 0.4:
            items.append(["X", q])
        u = r.random()
        axes.append("X" if u < 0.35 else "Y" if u < 0.6 else "Z")
        if u < 0.35:
            items.append(["H", q])
        elif u < 0.6:
            items += [["H", q], ["S", q]]
    if n > 1 and r.random() < 0.4:
        a, b = r.sample(range(n), 2)
        items.append([r.choice(["CNOT", "CZ"]), a, b])
    return ["chain", items] if len(items) > 1 else (items[0] if items else ["I", 0])


def k_samples(r, mon):
    n = r.randint(1, 4)
    obs = [pauli_obs(r, n, diag=True, identity=False) for _ in range(r.choice([1, 2]))]
    keys = [format(i, f"0{n}b") for i in range(2**n)]
    shots = r.choice([1, 7, 100])
    counters = []
    for _ in range(r.choice([1, 2, 3])):
        c = Counter()
        for _ in range(shots):
            c[r.choice(keys)] += 1
        counters.append(c)
    mon.case(dict(what="samples", n=n, obs=[o for o, _ in obs], samples=[dict(c) for c in counters]))
    got = from_samples([build.block(o, {}) for o, _ in obs], counters)
    for g, (o, terms) in zip(got, obs):
        want = [sum(c * sum(v * (-1) ** sum(int(k[q]) for p, q in fs if p == "Z") for k, v in s.items()) / shots for c, fs in terms) for s in counters]
        mon.close(build.npy(g), np.array(want), "samples", "expectation from samples", tol=1e-6)
    ham = r.choice(["X", "Y"])
    try:
        from_samples([getattr(qd, ham)(0)], counters)
        mon.fail(f"{ham} accepted for samples in the Z basis")
    except TypeError:
        mon.ev("samples")


def k_gradient(r, mon):
    """Parameter shift with tomography"""
    n = r.randint(1, 3)
    act = r.randrange(n)
    items, vv = [], {}
    for q in range(n):
        g = r.choice(["RX", "RY"])
        vv[f"w{q}"] = r.choice([-1, 1, 3]) * np.pi / 2 if q == act else r.choice([0, 1, -1, 2]) * np.pi
        items.append([g, q, ["v", f"w{q}"]])
    if n > 1 and r.random() < 0.5:
        a, b = r.sample(range(n), 2)
        items.append(["CNOT", a, b])
    spec = ["chain", items] if n > 1 else items[0]
    obs, terms = pauli_obs(r, n, diag=True, identity=False)
    mon.case(dict(what="gradient", n=n, spec=spec, obs=obs, vvals=vv))
    m = qd.QuantumModel(build.circuit(n, spec, vv), build.block(obs, {}), diff_mode="gpsr")
    e = m.expectation({}, measurement=Measurements("tomography", {"n_shots": 20000}))
    e.sum().backward()
    g = next(p.grad for k, p in m.named_parameters() if k.split(".")[-1] == f"w{act}")

    def F(t):
        v = {**vv, f"w{act}": t}
        return sim.ref_expect([obs], sim.ref_states(spec, n, [v]), n, [v])[0, 0]

    want = (F(vv[f"w{act}"] + np.pi / 2) - F(vv[f"w{act}"] - np.pi / 2)) / 2
    mon.close(float(g), want, "gradient", "parameter-shift derivative with tomography", tol=0.08 * sum(abs(c) for c, _ in terms) + 0.01)


def case(r, idx, mon):
    if r.random() < 0.06:
        return k_gradient(r, mon)
    if r.random() < 0.2:
        return k_samples(r, mon)
    n = r.randint(1, 4)
    proto = "shadow" if idx % 4 == 3 else "tomography"
    det = r.random() < (0.8 if proto == "shadow" else 0.5)
    p = gen.P(r, nf=r.choice([0, 1, 1]), nv=r.choice([0, 1]), kinds="nnfv")
    axes = []
    spec = stabiliser(r, n, axes) if det else gen.circuit(r, n, p, size=r.randint(2, 6), hamevo_p=0.0)
    # shadows: few factors, as a string of weight k is seen by one snapshot in 3^k
    obs = [pauli_obs(r, n, axes=axes, weight=2 if proto == "shadow" else n) for _ in range(r.choice([1, 1, 2]))]
    feats = ref.names_of(spec, "f")
    batch = r.choice([1, 2, 3]) if feats else 1
    fenv = {f: [round(r.uniform(-2, 2), 3) for _ in range(batch)] for f in feats}
    shots = r.choice([1, 10, 100]) if det and r.random() < 0.5 else r.choice([400, 3000])
    size = r.choice([500, 800])
    state = None
    if r.random() < 0.2 and not det:
        state = np.asarray(gen.state(r, n)).reshape(-1)
    mode = r.choice(["ad", "gpsr"])
    entry = r.choice(["model", "ctor", "qnn", "function"])
    if proto == "shadow" or state is not None or (entry == "qnn" and len(feats) > 1):
        entry = r.choice(["model", "ctor"])
    mon.case(dict(n=n, protocol=proto, spec=spec, obs=[o for o, _ in obs], vvals=p.vvals, fenv=fenv, shots=shots, size=size, mode=mode, entry=entry,
                  state=state is not None), sum(len(t) for _, t in obs) > 1)
    env = [{**p.vvals, **{f: fenv[f][i] for f in feats}} for i in range(batch)]
    psi = sim.ref_states(spec, n, env, state)
    circ = build.circuit(n, spec, p.vvals)
    obl = [build.block(o, {}) for o, _ in obs]
    if proto == "shadow":
        meas = Measurements("shadow", {"shadow_size": size, "accuracy": 0.1, "confidence": 0.1})
    else:
        meas = Measurements("tomography", {"n_shots": shots})
    vals = {f: torch.tensor(fenv[f], dtype=torch.float64) for f in feats}
    torch.manual_seed(r.randrange(10**6))
    np.random.seed(r.randrange(10**6))
    st = sim.tstate(state) if state is not None else None
    arg = obl if len(obl) > 1 or r.random() < 0.5 else obl[0]
    if entry == "model":
        got = qd.QuantumModel(circ, arg, diff_mode=mode).expectation(vals, measurement=meas, state=st)
    elif entry == "ctor":
        got = qd.QuantumModel(circ, arg, diff_mode=mode, measurement=meas).expectation(vals, state=st)
    elif entry == "qnn":
        q = qd.QNN(circ, arg, diff_mode=mode, measurement=meas)
        got = q(vals) if feats else q()
    else:
        v = {**vals, **{k: torch.tensor([x], dtype=torch.float64) for k, x in p.vvals.items() if k in ref.names_of(spec, "v")}}
        got = qd.expectation(circ, arg, values=v, diff_mode=mode, measurement=meas)
    g = build.npy(got)
    want = np.zeros((batch, len(obs)))
    tol = np.zeros((batch, len(obs)))
    for b in range(batch):
        for j, (_, terms) in enumerate(obs):
            var = 0.0
            for c, fs in terms:
                m = 1.0 if all(f[0] == "I" for f in fs) else mean(psi[b], fs, n)
                want[b, j] += c * m
                if proto == "tomography":
                    var += c * c * max(0.0, 1 - m * m) / shots
                    # rare outcomes: the number of deviating shots is Poisson
                    tol[b, j] += abs(c) * (16 / shots if 1e-9 < 1 - abs(m) < 20 / shots else 0.0)
                elif abs(abs(m) - 1) > 1e-9:
                    k = sum(f[0] != "I" for f in fs)
                    # mean over the matching snapshots of one of K partitions, median over the partitions
                    part = size / max(1, round(2 * np.log(2 * len(obs) / 0.1)))
                    tol[b, j] += abs(c) * (5 * np.sqrt(max(0.0, 1 - m * m) / max(1.0, part / 3**k)) + 0.02)
            tol[b, j] += 6 * np.sqrt(var) + 2e-5
    mon.ev(proto)
    for key, on in [("batch", batch > 1), ("several", len(obs) > 1), ("identity_factor", any(f[0] == "I" for _, t in obs for _, fs in t for f in fs)),
                    ("non_diagonal", any(f[0] in "XY" for _, t in obs for _, fs in t for f in fs)), ("state", state is not None),
                    ("exact_term", bool((tol < 3e-5).any()))]:
        if on:
            mon.ev(key)
    if g.shape[0] == 1 and batch > 1 and not feats:
        want, tol = want[:1], tol[:1]
    mon.check(g.shape == want.shape, "shape", f"{proto}: shape {g.shape} expected {want.shape}")
    if g.shape == want.shape:
        bad = np.abs(g - want) > tol
        mon.check(not bad.any(), "value", f"{proto} estimate {g.tolist()} expected {want.tolist()} within {tol.tolist()}")
