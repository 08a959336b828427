"""C28: readout mitigation and zero-noise extrapolation."""
from __future__ import annotations

from collections import Counter
from functools import reduce

import numpy as np
import torch

import qadence as qd
from qadence import NoiseHandler, QuantumModel
from qadence.mitigations import Mitigations
from qadence.mitigations.protocols import apply_mitigation
from qadence.types import NoiseProtocol as NP, ReadOutOptimization as RO

from .. import build, gen, ref, sim

ID = "C28"
CASES = {"quick": 2000, "thorough": 30000}
RULE = (
    "random confusion matrices (asymmetric, nearly ideal, ideal, strong) of 1-4 qubits with random count tables (sampled from the noisy distribution, "
    "arbitrary, exactly noisy, concentrated; 1 to 100000 shots; batches), both optimization types, called directly and through models, backends and "
    "the sample function: compared with the projection of the inverted table on the simplex (exact up to rounding) or with the optimum of the "
    "least-squares problem (objective value); polynomial data for the extrapolation; non-trivial: two or more qubits or outcomes"
)
MIN_EVENTS = {"conserved": 200, "mle": 100, "constrained": 60, "ideal": 40, "recovered": 40, "same": 30, "statistics": 30, "zne": 40,
              "rejected": 30, "roundtrip": 30, "pure": 200}
ASSUMPTIONS = [
    "at most 4 qubits; the constrained optimum is accepted within 1e-5 of the reference objective (SLSQP of SciPy); independent readout errors "
    "(the documented domain); invertible confusion matrices; distributions beyond six standard deviations are violations",
]


def confusion(r, n):
    kind = r.choice(["rand", "rand", "small", "ideal", "strong"])
    hi = {"rand": 0.25, "small": 0.03, "ideal": 0.0, "strong": 0.42}[kind]
    out = []
    for _ in range(n):
        a, b = r.uniform(0, hi), r.uniform(0, hi)
        out.append([[1 - a, b], [a, 1 - b]])
    return np.array(out), kind


def proj(v):
    """Nearest probability vector (Euclidean)."""
    u = np.sort(v)[::-1]
    c = np.cumsum(u) - 1
    k = np.nonzero(u - c / np.arange(1, len(v) + 1) > 0)[0][-1]
    return np.maximum(v - c[k] / (k + 1), 0)


def least(T, raw):
    """min |T p - raw|^2 over the simplex: accelerated projected gradient."""
    L = np.linalg.norm(T, 2) ** 2
    p = y = proj(np.linalg.lstsq(T, raw, rcond=None)[0])
    t = 1.0
    best = np.sum((T @ p - raw) ** 2)
    for i in range(3000):
        q = proj(y - T.T @ (T @ y - raw) / L)
        t2 = (1 + np.sqrt(1 + 4 * t * t)) / 2
        y = q + (t - 1) / t2 * (q - p)
        d = np.abs(q - p).max()
        p, t = q, t2
        best = min(best, np.sum((T @ p - raw) ** 2))
        if d < 1e-12:
            break
    return best


def counter(raw, n):
    return Counter({f"{i:0{n}b}": int(k) for i, k in enumerate(raw) if k})


def table(c, n):
    return np.array([c[f"{i:0{n}b}"] for i in range(2**n)])


def valid(mon, out, samples, n):
    mon.check(isinstance(out, list) and len(out) == len(samples), "conserved", f"{len(out)} counters for {len(samples)}")
    for o, s in zip(out, samples):
        mon.check(sum(o.values()) == sum(s.values()), "conserved", f"{sum(o.values())} counts from {sum(s.values())} shots: {dict(o)}")
        mon.check(all(len(k) == n and set(k) <= {"0", "1"} for k in o) and all(int(v) == v and v > 0 for v in o.values()), "conserved", f"{dict(o)}")


def judge(mon, got, raw, T, opt, what):
    shots = raw.sum()
    if opt == RO.MLE:
        want = proj(np.linalg.inv(T) @ (raw / shots)) * shots
        d = np.abs(got - want).max()
        mon.check(d < 1 + 1e-6, "mle", f"{what}: counts {got.tolist()} for {np.round(want, 3).tolist()}")
    else:
        obj = np.sum((T @ (got / shots) - raw / shots) ** 2)
        best = least(T, raw / shots)
        # rounding moves every entry by less than one count
        slack = (np.linalg.norm(T, 2) * np.sqrt(len(got)) / shots) ** 2
        mon.check(np.sqrt(obj) <= np.sqrt(best + 1e-5) + np.sqrt(slack) + 1e-9, "constrained", f"{what}: objective {obj} for an optimum of {best}")


def k_direct(r, mon):
    n = r.choice([1, 2, 2, 3, 3, 4])
    conf, kind = confusion(r, n)
    T = reduce(np.kron, conf)
    rng = np.random.default_rng(r.getrandbits(32))
    opt = r.choice([RO.MLE, RO.MLE, RO.CONSTRAINED])
    shots = r.choice([1, 3, 10, 30, 100, 1000, 10000, 100000])
    batch = r.choice([1, 1, 2, 3])
    how = r.choice(["noisy", "noisy", "any", "exact", "point"])
    default = opt == RO.MLE and r.random() < 0.3
    mon.case(dict(what="direct", n=n, conf=conf.tolist(), opt=str(opt), shots=shots, batch=batch, how=how), n > 1)
    raws, ps = [], []
    for _ in range(batch):
        p = rng.dirichlet(np.ones(2**n) * r.choice([0.1, 1.0, 5.0]))
        if how == "point":
            p = np.eye(2**n)[r.randrange(2**n)]
        if how == "any":
            raw = rng.multinomial(shots, rng.dirichlet(np.ones(2**n)))
        elif how == "exact":
            raw = np.floor(T @ p * shots).astype(int)
            raw[int(np.argmax(raw))] += shots - raw.sum()
        else:
            raw = rng.multinomial(shots, T @ p)
        raws.append(raw)
        ps.append(p)
    samples = [counter(x, n) for x in raws]
    before = [dict(s) for s in samples]
    noise = NoiseHandler(NP.READOUT.INDEPENDENT, {"error_probability": torch.tensor(conf)})
    mit = Mitigations(Mitigations.READOUT) if default else Mitigations(Mitigations.READOUT, {"optimization_type": opt})
    np.random.seed(r.getrandbits(32))
    if r.random() < 0.5:
        out = apply_mitigation(noise=noise, mitigation=mit, samples=samples)
    else:
        out = mit.get_mitigation_fn()(noise=noise, mitigation=mit, samples=samples)
    valid(mon, out, samples, n)
    mon.check([dict(s) for s in samples] == before, "pure", "the samples passed in were modified")
    mon.check(np.array_equal(np.asarray(noise.options[0]["error_probability"]), conf), "pure", "the noise was modified")
    mon.check(mit.options == ({} if default else {"optimization_type": opt}), "pure", "the options were modified")
    for o, raw, p in zip(out, raws, ps):
        got = table(o, n)
        judge(mon, got, raw, T, opt, f"{kind} {how}")
        if kind == "ideal" and opt == RO.MLE:
            mon.check(np.array_equal(got, raw), "ideal", f"no errors, but {raw.tolist()} became {got.tolist()}")
        if how == "exact" and opt == RO.MLE:
            lim = np.linalg.norm(np.linalg.inv(T), 2) * np.linalg.norm(raw / shots - T @ p) + np.sqrt(2**n) / shots
            mon.check(np.linalg.norm(got / shots - p) <= lim + 1e-9, "recovered", f"{(got/shots).tolist()} for {p.tolist()}")


def model(r, noise=None, mit=None):
    n = r.choice([1, 2, 3])
    p = gen.P(r, nf=1, nv=1, exprs=False)
    spec = gen.circuit(r, n, p, size=r.randint(1, 5), hamevo_p=0, matrix_p=0)
    circ = build.circuit(n, spec, p.vvals)
    batch = r.choice([1, 2])
    fenv = sim.used_env(p, [spec], batch)
    vals = build.values(fenv, list(fenv))
    psi = sim.ref_states(spec, n, sim.envs(p.vvals, fenv, sim.eff_batch(fenv)))
    return n, spec, circ, vals, np.abs(np.asarray(psi)) ** 2


def k_model(r, mon):
    """The same table as mitigating the noisy samples, by every route."""
    n, spec, circ, vals, _ = model(r)
    conf, kind = confusion(r, n)
    opt = r.choice([RO.MLE, RO.MLE, RO.CONSTRAINED])
    shots = r.choice([10, 100, 1000])
    noise = NoiseHandler(NP.READOUT.INDEPENDENT, {"error_probability": torch.tensor(conf)})
    mit = Mitigations(Mitigations.READOUT, {"optimization_type": opt})
    route = r.choice(["call", "init", "saved"])
    mon.case(dict(what="model", n=n, spec=spec, conf=conf.tolist(), opt=str(opt), shots=shots, route=route), n > 1)
    T = reduce(np.kron, conf)
    s = r.getrandbits(30)
    torch.manual_seed(s)
    raw = QuantumModel(circ, diff_mode="ad").sample(vals, n_shots=shots, noise=noise)
    torch.manual_seed(s)
    np.random.seed(s % 2**31)
    if route == "call":
        out = QuantumModel(circ, diff_mode="ad").sample(vals, n_shots=shots, noise=noise, mitigation=mit)
    else:
        m = QuantumModel(circ, diff_mode="ad", mitigation=mit)
        if route == "saved":
            m = QuantumModel._from_dict(m._to_dict(), as_torch=True)
            torch.manual_seed(s)
        out = m.sample(vals, n_shots=shots, noise=noise)
    valid(mon, out, raw, n)
    for o, c in zip(out, raw):
        judge(mon, table(o, n), table(c, n), T, opt, f"{route}")
    mon.ev("same", len(out))


def k_stat(r, mon):
    """Mitigated samples of a circuit follow the distribution without errors."""
    n, spec, circ, vals, probs = model(r)
    opt = r.choice([RO.MLE, RO.MLE, RO.CONSTRAINED])
    shots = r.choice([4000, 20000])
    if r.random() < 0.5:
        conf, kind = confusion(r, n)
        ep = torch.tensor(conf)
        inv = np.linalg.norm(np.linalg.inv(reduce(np.kron, conf)), 2)
        slack = 0.0
    else:
        ep, kind = round(r.uniform(0.0, 0.3), 3), "float"
        inv = (1 / (1 - 2 * ep)) ** n
        # the error rate is itself estimated from the shots, once per call of the noise
        slack = 6 * n * inv * np.sqrt(ep / shots)
    o = {"error_probability": ep}
    if kind == "float" and r.random() < 0.5:
        o["seed"] = r.randrange(1000)
    noise = NoiseHandler(NP.READOUT.INDEPENDENT, o)
    mit = Mitigations(Mitigations.READOUT, {"optimization_type": opt})
    mon.case(dict(what="stat", n=n, spec=spec, opt=str(opt), shots=shots, ep=ep if kind == "float" else ep.tolist(), seed=o.get("seed")), n > 1)
    torch.manual_seed(r.getrandbits(30))
    np.random.seed(r.getrandbits(31))
    out = QuantumModel(circ, diff_mode="ad").sample(vals, n_shots=shots, noise=noise, mitigation=mit)
    mon.check(len(out) == len(probs), "statistics", f"{len(out)} counters for a batch of {len(probs)}")
    f = 1 if opt == RO.MLE else 2 * inv
    for c, p in zip(out, probs):
        got = table(c, n) / shots
        lim = f * 6 * inv / np.sqrt(shots) + slack + np.sqrt(2**n) / shots + (0 if opt == RO.MLE else inv * 4e-3)
        mon.check(np.linalg.norm(got - p) <= lim, "statistics", f"{kind} {opt}: {np.round(got, 4).tolist()} for {np.round(p, 4).tolist()} (limit {lim})")
        mon.check(sum(c.values()) == shots, "conserved", f"{sum(c.values())} counts of {shots}")


def k_zne(r, mon):
    from qadence.mitigations.analog_zne import zne

    k = r.randint(2, 4)
    nobs, npar = r.randint(1, 3), r.randint(1, 3)
    rng = np.random.default_rng(r.getrandbits(32))
    levels = np.sort(rng.choice(np.arange(1, 40), k, replace=False)) / 10.0
    if r.random() < 0.3:
        levels = levels[::-1].copy()
    coef = rng.normal(size=(nobs, npar, k))
    mon.case(dict(what="zne", levels=levels.tolist(), coef=coef.tolist()), True)
    data = [[[float(np.polyval(coef[o, p], x)) for p in range(npar)] for x in levels] for o in range(nobs)]
    lv = torch.tensor(levels) if r.random() < 0.5 else levels
    got = build.npy(zne(lv, data))
    mon.check(got.shape == (nobs, npar), "zne", f"shape {got.shape} for {nobs} observables and {npar} parameter sets")
    mon.close(got, coef[:, :, -1], "zne", f"extrapolation from {levels.tolist()}", tol=1e-4)


def k_rules(r, mon):
    n = r.randint(1, 3)
    opt = r.choice([RO.MLE, RO.CONSTRAINED])
    mon.case(dict(what="rules", n=n), True)
    mit = Mitigations(Mitigations.READOUT, {"optimization_type": opt})
    m2 = Mitigations._from_dict(mit._to_dict())
    mon.check(m2.protocol == mit.protocol and m2.options == mit.options, "roundtrip", f"{m2._to_dict()}")
    mon.check(Mitigations._from_dict({}) is None, "roundtrip", "no protocol became one")
    circ = qd.QuantumCircuit(n, qd.kron(*[qd.RX(q, r.uniform(0, 3)) for q in range(n)]))
    qm = QuantumModel._from_dict(QuantumModel(circ, mitigation=mit)._to_dict())
    mon.check(qm._mitigation is not None and qm._mitigation.options == mit.options, "roundtrip", "the mitigation of a saved model is lost")
    mon.check(QuantumModel._from_dict(QuantumModel(circ)._to_dict())._mitigation is None, "roundtrip", "a mitigation appeared")
    samples = [Counter({"0" * n: 3})]
    noise = NoiseHandler(NP.READOUT.INDEPENDENT, {"error_probability": 0.1})

    def rejects(what, fn):
        try:
            fn()
        except Exception as e:
            mon.ev("rejected")
            mon.check(not isinstance(e, (UnboundLocalError, NameError)), "rejected", f"{what}: {e!r}")
        else:
            mon.fail(f"{what} was accepted")

    rejects("an unknown protocol", lambda: apply_mitigation(noise, Mitigations("nonsense"), samples))
    rejects("an unknown optimization", lambda: apply_mitigation(noise, Mitigations("readout", {"optimization_type": "nonsense"}), samples))
    rejects("mitigation of readout errors without readout noise",
            lambda: apply_mitigation(NoiseHandler(NP.DIGITAL.BITFLIP, {"error_probability": 0.1}), mit, samples))
    rejects("mitigation without noise", lambda: QuantumModel(circ).sample(n_shots=5, mitigation=mit))


def case(r, idx, mon):
    f = r.choice([k_direct] * 6 + [k_model] * 3 + [k_stat] * 2 + [k_zne] * 2 + [k_rules])
    f(r, mon)
