"""C26: the Pulser backend plays the analog program, up to the time resolution of its pulses."""
from __future__ import annotations

import logging
import math
import warnings

import numpy as np
import torch

import qadence as qd
from qadence.analog import AddressingPattern, RydbergDevice
from qadence.types import BackendName, Endianness, NoiseProtocol as NP

from .. import build, gen, ref, sim
from . import c16

ID = "C26"
CASES = {"quick": 800, "thorough": 14000}
RULE = (
    "random registers (1-3 qubits, lattices and free coordinates, Rydberg levels), chains of global and local analog rotations (any phase and sign of "
    "the detuning), interactions and addressing patterns with numeric and parametric settings, and digital rotations of distant qubits, run on the Pulser "
    "backend from random states: states, expectations, samples, batches and endianness against the documented Hamiltonian (to 1 ns), against the "
    "emulation of PyQTorch, and density matrices under analog noise against their limits; non-trivial: more than one block"
)
MIN_EVENTS = {"state": 80, "expectation": 40, "sample": 30, "digital": 20, "pattern": 15, "parametric": 40, "local": 20, "little": 10,
              "agree": 15, "noise": 15, "batch": 15, "gradient": 20}
ASSUMPTIONS = [
    "pulses last whole nanoseconds: the limit of the deviation grows with the number of pulses and the size of the Hamiltonian; durations and digital "
    "angles are positive (a device cannot run backwards); n_qubits <= 3; sampled distributions beyond six standard deviations (plus that limit) are violations",
]
PU = BackendName.PULSER


def quiet():
    logging.getLogger("qadence").setLevel(logging.ERROR)
    for k in list(logging.root.manager.loggerDict):
        if k.startswith("qadence"):
            logging.getLogger(k).setLevel(logging.ERROR)
    warnings.simplefilter("ignore")


def dur(r, p, lo=30, hi=700):
    """A whole number of ns, or an expression."""
    if r.random() < 0.65:
        return float(r.randint(lo, hi))
    return c16.par(p, lo, hi)


def primitive(r, p, sup, pat, d=None):
    k = r.choice(["aint", "arot", "arot", "arot", "arx", "ary", "arz"])
    if d is not None and k[:3] in ("arx", "ary", "arz"):
        k = "arot"
    if k == "aint":
        return [k, d or dur(r, p), sup, pat]
    if k == "arot":
        w = r.random()
        om = c16.par(p, 0.5, 8) if w < 0.85 else 0
        de = round(r.uniform(-8, 8), 2) if w > 0.5 else 0
        ph = r.choice([0, round(r.uniform(-3.1, 3.1), 3), round(r.uniform(-3.1, 3.1), 3), round(r.uniform(3.2, 6.2), 3)] + [["f", x] for x in p.fn[:1]])
        return ["arot", d or dur(r, p), om, de, ph, sup, pat]
    a = math.pi * r.randint(30, 1200) / 1000 if r.random() < 0.6 else c16.par(p, 0.1, 4)
    return [k, a, sup, pat]


def register(r, n, device, far=False):
    sp = round(r.uniform(6.5, 11), 2)
    if far:
        sp = 60.0
    how = r.choice(["line", "circle", "coords"]) if not far else r.choice(["line", "circle"])
    if how == "coords":
        pts = []
        while len(pts) < n:
            c = (round(r.uniform(-14, 14), 2), round(r.uniform(-14, 14), 2))
            if all(math.dist(c, q) >= sp for q in pts):
                pts.append(c)
        return qd.Register.from_coordinates(pts, device_specs=device)
    if n == 1:
        how = "line"
    return getattr(qd.Register, how)(n, spacing=sp, device_specs=device)


def limit(spec, envl, n, ctx):
    """Pulses are rounded to 1 ns: |H| * 1 ns for each."""
    out = 0.0
    for s in (spec[1] if spec[0] == "chain" else [spec]):
        for b in s[1] if s[0] == "akron" else [s]:
            h = np.linalg.norm(ctx["hint"], 2) + 2 * n + 12 * (n if b[-2] == "global" else len(b[-2])) / 2
            out += 1e-3 * h
    return 2e-3 + out


def judge(mon, got, want, lim, kind, what):
    mon.check(got.shape == want.shape, kind, f"{what}: shape {got.shape} for {want.shape}")
    f = np.abs(np.einsum("bi,bi->b", got.conj(), want)) ** 2
    mon.check(np.all(np.abs(np.linalg.norm(got, axis=1) - 1) < 1e-4), kind, f"{what}: norm {np.linalg.norm(got, axis=1)}")
    mon.check(np.all(1 - f <= lim**2 + 1e-5), kind, f"{what}: infidelity {1 - f} (limit {lim**2})")


def k_analog(r, mon):
    quiet()
    n = r.choice([1, 2, 2, 3, 3])
    p = gen.P(r, nf=r.randint(0, 2), nv=r.randint(0, 1))
    level = r.choice([57, 60, 60, 63, r.randint(50, 66)])
    pat = None
    if r.random() < 0.25:
        wt = lambda: {q: round(r.uniform(0, 1), 3) for q in range(n) if r.random() < 0.8}
        pat = dict(wa=wt(), wd=wt(), amp=round(r.uniform(0.5, 2.9), 2), det=round(r.uniform(1, 9), 2) * r.choice([1, -1]))
    flag = pat is not None
    items = []
    for _ in range(r.randint(1, 3)):
        if n == 1 or r.random() < 0.6 or flag:
            items.append(primitive(r, p, "global", flag))
        else:
            qs = gen.sub(r, n, r.randint(1, n))
            c = r.randint(1, len(qs))
            parts = [sorted(qs[:c])] + ([sorted(qs[c:])] if qs[c:] else [])
            d = float(r.randint(30, 500))
            bs = [primitive(r, p, s, flag, d) for s in parts]
            if all(b[0] == "aint" for b in bs):
                bs[0] = ["arot", d, 2.0, 0, 0.5, bs[0][-2], flag]
            items.append(["akron", bs])
    if len(items) == 1 and items[0][0] == "akron" and len(items[0][1]) == 1:
        items.append(primitive(r, p, "global", flag))
    spec = ["chain", items]
    used = set()
    for b in [b for i in items for b in (i[1] if i[0] == "akron" else [i])]:
        for x in b[1:-2]:
            used |= ref.pnames(x)
    fenv = {k: v for k, v in p.env(r.choice([1, 1, 2, 3])).items() if k in used}
    B = sim.eff_batch(fenv)
    init = gen.state(r, n) if r.random() < 0.5 else None
    mon.case(dict(what="analog", n=n, level=level, pat=pat, spec=spec, vvals=p.vvals, fenv=fenv, init=init is not None), len(items) > 1)
    pattern = None if pat is None else AddressingPattern(n_qubits=n, weights_amp=pat["wa"], weights_det=pat["wd"], amp=pat["amp"], det=pat["det"])
    reg = register(r, n, RydbergDevice(rydberg_level=level, pattern=pattern))
    ctx = dict(hint=c16.h_int(reg.coords, n, dict(interaction="NN", level=level)), pat=pat)
    circ = qd.QuantumCircuit(reg, c16.blk(spec, p.vvals))
    envl = sim.envs(p.vvals, fenv, B)
    s0 = ref.zero_state(n) if init is None else init
    psi = np.array([c16.mat(spec, e, n, ctx) @ s0 for e in envl])
    lim = limit(spec, envl, n, ctx) + (np.pi * 5e-3 if pat else 0)
    kw = {} if init is None else {"state": sim.tstate(init)}
    vals = build.values(fenv, fenv)
    mon.ev("parametric", int(bool(used)))
    mon.ev("local", int(any(i[0] == "akron" for i in items)))
    mon.ev("pattern", int(pat is not None))
    what = r.choice(["state", "state", "expectation", "sample", "little", "agree"])
    m = qd.QuantumModel(circ, backend=PU, diff_mode="gpsr")
    if what in ("state", "little"):
        if what == "little":
            got = build.npy(m.run(vals, endianness=Endianness.LITTLE, **kw))
            judge(mon, got, np.array([ref.reverse_bits_vec(v) for v in psi]), lim, "little", "little-endian state")
        else:
            got = build.npy(m.run(vals, **kw) if r.random() < 0.5 else qd.run(circ, values=vals, backend=PU, **kw))
            judge(mon, got, psi, lim, "state", "state")
            mon.ev("batch", int(B > 1))
            if r.random() < 0.3:  # a second run of the same model
                judge(mon, build.npy(m.run(vals, **kw)), psi, lim, "state", "second run")
    elif what == "agree":
        a = build.npy(qd.run(circ, values=vals, **kw))
        got = build.npy(m.run(vals, **kw))
        judge(mon, got, a if len(a) == B else np.repeat(a, B, 0), lim, "agree", "against the emulation")
    elif what == "expectation" and not any(b[0] == "aint" and ref.pnames(b[1]) for i in items for b in (i[1] if i[0] == "akron" else [i])):
        # (a parametric wait has no parameter-shift rule: such an expectation is refused)
        obs = [gen.hamiltonian(r, n) for _ in range(r.randint(1, 2))]
        if p.vn and r.random() < 0.3:
            obs[0] = ["scale", ["v", p.vn[0]], obs[0]]
        E = sim.ref_expect(obs, psi, n, envl)
        m = qd.QuantumModel(circ, [build.block(o, p.vvals) for o in obs], backend=PU, diff_mode="gpsr")
        got = build.npy(m.expectation(vals, **kw))
        mon.check(got.shape == E.shape, "expectation", f"shape {got.shape} for {E.shape}")
        w = np.array([np.linalg.norm(ref.mat_of(o, p.vvals, n), 2) for o in obs])
        mon.check(np.all(np.abs(got - E) <= 2 * lim * w + 1e-3), "expectation", f"{got.tolist()} for {E.tolist()} (limit {lim})")
    else:
        shots = r.choice([100, 1000])
        np.random.seed(r.getrandbits(31))
        torch.manual_seed(r.getrandbits(30))
        cs = m.sample(vals, n_shots=shots, **kw)
        mon.check(len(cs) == B and all(sum(c.values()) == shots for c in cs), "sample", f"{[sum(c.values()) for c in cs]} for {shots} shots")
        for c, v in zip(cs, psi):
            for i, q in enumerate(np.abs(v) ** 2):
                k = c.get(f"{i:0{n}b}", 0)
                mon.check(abs(k - shots * q) <= 6 * np.sqrt(shots * q * (1 - q)) + 2 + shots * 2 * lim, "sample", f"{k} counts of {i:0{n}b} for {shots * q:.1f}")


def k_digital(r, mon):
    quiet()
    n = r.choice([1, 2, 3])
    p = gen.P(r, nf=r.randint(0, 1), nv=r.randint(0, 1))
    items = []
    for _ in range(r.randint(1, 5)):
        items.append([r.choice(["RX", "RY", "RZ"]), r.randrange(n), c16.par(p, 0.2, 3.0)])
    spec = ["chain", items]
    fenv = sim.used_env(p, [spec], r.choice([1, 2]))
    B = sim.eff_batch(fenv)
    init = gen.state(r, n) if r.random() < 0.5 else None
    mon.case(dict(what="digital", n=n, spec=spec, vvals=p.vvals, fenv=fenv), len(items) > 1)
    reg = register(r, n, RydbergDevice(), far=True)
    circ = qd.QuantumCircuit(reg, build.block(spec, p.vvals))
    envl = sim.envs(p.vvals, fenv, B)
    psi = sim.ref_states(spec, n, envl, init)
    kw = {} if init is None else {"state": sim.tstate(init)}
    got = build.npy(qd.run(circ, values=build.values(fenv, fenv), backend=PU, **kw))
    # the detuning is at its maximum: 4 * 2 pi rad/us
    if init is None and (fenv or ref.names_of(spec, "v")) and r.random() < 0.5:
        obs = [gen.hamiltonian(r, n, terms=r.randint(1, 3))]
        m = qd.QuantumModel(circ, [build.block(o, {}) for o in obs], backend=PU, diff_mode="gpsr")
        x = {k: v.clone().requires_grad_(True) for k, v in build.values(fenv, fenv).items()}
        e = m.expectation(x)
        w = np.linalg.norm(ref.mat_of(obs[0], {}, n), 2)
        lim = 0.03 * (1 + len(items)) * w * len(items)
        names = sorted(ref.names_of(spec, "v"))
        leaf = {k.split(".", 1)[1]: t for k, t in m.named_parameters() if t.requires_grad}
        gs = torch.autograd.grad(e.sum(), [leaf[k] for k in names] + list(x.values()))

        def val(k, d):
            es = [{**q, k: q[k] + d} for q in envl]
            return sim.ref_expect(obs, sim.ref_states(spec, n, es), n, es).sum()

        for k, g in zip(names + list(x), gs):
            num = (val(k, 1e-3) - val(k, -1e-3)) / 2e-3
            mon.check(abs(float(g.sum()) - num) <= lim * B, "gradient", f"d/d{k}: {g} for {num} (limit {lim * B})")
    judge(mon, got, psi, 2e-3 + 0.028 * len(items), "digital", "digital rotations of distant qubits")


def k_noise(r, mon):
    quiet()
    n = r.choice([1, 2])
    p = gen.P(r, nf=0, nv=0)
    items = [primitive(r, p, "global", False) for _ in range(r.randint(1, 2))]
    proto = r.choice([NP.ANALOG.DEPOLARIZING, NP.ANALOG.DEPHASING])
    rate = round(r.uniform(0.05, 1.5), 3)
    mon.case(dict(what="noise", n=n, items=items, proto=str(proto), rate=rate), True)
    reg = register(r, n, RydbergDevice())
    ctx = dict(hint=c16.h_int(reg.coords, n, dict(interaction="NN", level=60)), pat=None)
    circ = qd.QuantumCircuit(reg, c16.blk(["chain", items], {}))
    psi = c16.mat(["chain", items], {}, n, ctx) @ ref.zero_state(n)
    lim = limit(["chain", items], None, n, ctx)
    t = sum((ref.pval(b[1], {}) if b[0] in ("aint", "arot") else 1000 * b[1] / math.pi) for b in items) / 1000
    from qadence.backends import backend_factory

    b = backend_factory(PU, diff_mode=None)
    c, _, fn, ps = b.convert(circ)

    def run(x):
        d = np.asarray(b.run(c, fn(ps, {}), noise=qd.NoiseHandler(proto, {"noise_probs": x})).numpy())
        return d.reshape((-1,) + d.shape[-2:])

    rho = run(rate)[0]
    mon.check(abs(np.trace(rho) - 1) < 1e-4 and np.allclose(rho, rho.conj().T, atol=1e-6), "noise", f"trace {np.trace(rho)}")
    mon.check(np.linalg.eigvalsh(rho).min() > -1e-5, "noise", f"eigenvalues {np.linalg.eigvalsh(rho)}")
    fid = np.real(psi.conj() @ rho @ psi)
    # the chance of any error is at most 1 - exp(-n * 2 * rate * t)
    mon.check(1 - fid <= 1 - math.exp(-2 * n * rate * t) + 2 * lim, "noise", f"fidelity {fid} after {t} us at rate {rate}")
    many = run([rate / 2, rate])
    mon.check(len(many) == 2 and np.allclose(many[1], rho, atol=1e-5), "noise", "a list of noise probabilities gives other states than one at a time")


def case(r, idx, mon):
    f = r.choice([k_analog] * 6 + [k_digital] * 2 + [k_noise])
    f(r, mon)
