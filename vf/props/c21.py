"""C21: noise: channels act where they are put, handlers keep their rules, readout errors follow the confusion matrix."""
from __future__ import annotations

import json

import numpy as np
import torch

import qadence as qd
from qadence import NoiseHandler
from qadence.operations import HamEvo
from qadence.serialization import deserialize, serialize
from qadence.types import NoiseProtocol as NP, SolverType

from .. import build, gen, ref, sim

ID = "C21"
CASES = {"quick": 900, "thorough": 16000}
RULE = (
    "random circuits of up to 4 qubits whose gates carry random lists of digital noise (all seven channels), given per gate, by set_noise on "
    "blocks or circuits (all gates or a class), by the model or by the call: density matrix, expectation, gradients (AD and GPSR) and samples "
    "against a numpy density-matrix simulation (exact, samples within six standard deviations); random sequences of NoiseHandler operations "
    "against a list model of its rules; readout errors given by confusion matrices against the transformed distribution; non-trivial: two or "
    "more noisy gates or handler operations"
)
MIN_EVENTS = {"density": 200, "expectation": 200, "trace": 200, "gradient": 40, "sample": 60, "set_noise": 80, "gate_noise": 80,
              "model_noise": 40, "handler": 150, "rejected": 80, "readout": 40, "readout_exact": 40, "roundtrip": 80, "lindblad": 20}
ASSUMPTIONS = [
    "a digital noise source acts on the first target of its gate, after the gate (the convention of PyQTorch, whose CSWAP and Hamiltonian evolutions take no digital noise and are left out); n_qubits <= 4; tolerance 2e-5; "
    "sampled distributions beyond six standard deviations are violations",
]

I2, X, Y, Z = ref.FIXED["I"], ref.FIXED["X"], ref.FIXED["Y"], ref.FIXED["Z"]


def kraus(proto, p):
    d = NP.DIGITAL
    if proto == d.BITFLIP:
        return [np.sqrt(1 - p) * I2, np.sqrt(p) * X]
    if proto == d.PHASEFLIP:
        return [np.sqrt(1 - p) * I2, np.sqrt(p) * Z]
    if proto == d.DEPOLARIZING:
        return [np.sqrt(1 - p) * I2] + [np.sqrt(p / 3) * m for m in (X, Y, Z)]
    if proto == d.PAULI_CHANNEL:
        return [np.sqrt(1 - sum(p)) * I2] + [np.sqrt(a) * m for a, m in zip(p, (X, Y, Z))]
    if proto == d.AMPLITUDE_DAMPING:
        return [np.diag([1, np.sqrt(1 - p)]), np.sqrt(p) * np.array([[0, 1], [0, 0]])]
    if proto == d.PHASE_DAMPING:
        return [np.diag([1, np.sqrt(1 - p)]), np.diag([0, np.sqrt(p)])]
    a, g = p
    return [
        np.sqrt(a) * np.diag([1, np.sqrt(1 - g)]), np.sqrt(a * g) * np.array([[0, 1], [0, 0]]),
        np.sqrt(1 - a) * np.diag([np.sqrt(1 - g), 1]), np.sqrt((1 - a) * g) * np.array([[0, 0], [1, 0]]),
    ]


def source(r):
    proto = r.choice(list(NP.DIGITAL))
    u = lambda hi=0.9: r.choice([round(r.uniform(0, hi), 3), 0.0, round(r.uniform(0, 0.2), 3)])
    if proto == NP.DIGITAL.PAULI_CHANNEL:
        p = tuple(u(0.33) for _ in range(3))
    elif proto == NP.DIGITAL.GENERALIZED_AMPLITUDE_DAMPING:
        p = (u(1.0), u(1.0))
    else:
        p = u(1.0)
    return proto, p


def sources(r):
    return [source(r) for _ in range(r.choice([1, 1, 2, 3]))]


def handler(ss):
    if len(ss) == 1:
        return NoiseHandler(ss[0][0], {"error_probability": ss[0][1]})
    return NoiseHandler([s[0] for s in ss], [{"error_probability": s[1]} for s in ss])


def target(leaf):
    """The qubit on which the noise of a gate acts"""
    op = leaf[0]
    if op == "Matrix":
        return leaf[2][0]
    if op in ref.CFIXED or op in ref.CROT or op in ref.MCFIXED or op in ref.MCROT or op == "CSWAP":
        return leaf[2]
    return leaf[1]


def leaf_block(leaf, vvals, h):
    op = leaf[0]
    kw = {} if h is None else {"noise": h}
    if h is None:
        return build.block(leaf, vvals)
    if op == "Matrix":
        return qd.blocks.MatrixBlock(build.tmat(leaf[1]), tuple(leaf[2]), **kw)
    cls = getattr(qd, op)
    if op in ref.FIXED:
        return cls(leaf[1], **kw)
    if op in ref.ROT or op == "U":
        return cls(leaf[1], *[build.param(p, vvals) for p in leaf[2:]], **kw)
    if op in ref.CFIXED:
        return cls(leaf[1], leaf[2], **kw)
    if op in ref.CROT:
        return cls(leaf[1], leaf[2], build.param(leaf[3], vvals), **kw)
    if op in ref.MCFIXED:
        return cls(tuple(leaf[1]), leaf[2], **kw)
    if op in ref.MCROT:
        return cls(tuple(leaf[1]), leaf[2], build.param(leaf[3], vvals), **kw)
    return cls(*leaf[1:], **kw)  # SWAP, CSWAP


def strip(spec):
    """PyQTorch has no noise on CSWAP"""
    if spec[0] in ("chain", "kron"):
        return [spec[0], [strip(b) for b in spec[1]]]
    return ["Toffoli", [spec[1], spec[2]], spec[3]] if spec[0] == "CSWAP" else spec


def walk(spec):
    if spec[0] in ("chain", "kron"):
        return [x for b in spec[1] for x in walk(b)]
    return [spec]


def assemble(spec, blocks):
    if spec[0] in ("chain", "kron"):
        return getattr(qd, spec[0])(*[assemble(b, blocks) for b in spec[1]])
    return blocks.pop(0)


def evolve(leaves, noise, env, n, rho):
    for leaf, ss in zip(leaves, noise):
        u = ref.mat_of(leaf, env, n)
        rho = u @ rho @ u.conj().T
        for proto, p in ss:
            ks = [ref.embed(k, [target(leaf)], n) for k in kraus(proto, p)]
            rho = sum(k @ rho @ k.conj().T for k in ks)
    return rho


CLASSES = ["X", "H", "RX", "RY", "RZ", "CNOT", "CZ", "CRX", "U", "SWAP", "Toffoli"]


def k_channel(r, mon):
    n = r.randint(1, 4)
    p = gen.P(r, nf=r.randint(0, 2), nv=r.randint(0, 2), kinds="nffvv")
    spec = strip(gen.circuit(r, n, p, size=r.randint(1, 7), hamevo_p=0, matrix_p=0.05))
    leaves = walk(spec)
    batch = r.choice([1, 1, 3])
    obs = [gen.hamiltonian(r, n, ops=("X", "Y", "Z", "N")) for _ in range(r.choice([1, 2]))]
    fenv = sim.used_env(p, [spec], batch)
    batch = sim.eff_batch(fenv)
    how = r.choice(["gate", "gate", "set_noise", "set_noise", "class", "model", "call"])
    evo = [x[0] in ("HamEvo", "HamEvoM") for x in leaves]
    noise = [[] for _ in leaves]
    handlers = [None] * len(leaves)
    common = None
    if how == "gate":
        for i in range(len(leaves)):
            if not evo[i] and r.random() < 0.5:
                noise[i] = sources(r)
                handlers[i] = handler(noise[i])
    else:
        common = sources(r)
        cls = r.choice(CLASSES)
        for i in range(len(leaves)):
            if not evo[i] and (how != "class" or leaves[i][0] == cls):
                noise[i] = common
    init = gen.state(r, n, r.choice([None, batch])) if r.random() < 0.3 else None
    cfg = sim.config(r)
    seed = r.getrandbits(30)
    envl = sim.envs(p.vvals, fenv, batch)
    mon.case(dict(n=n, spec=spec, noise=[[(str(a), b) for a, b in s] for s in noise], how=how, obs=obs, env=envl, cfg=cfg,
                  init=None if init is None else gen.jmat(np.atleast_2d(init))), sum(map(bool, noise)) > 1)
    block = assemble(spec, [leaf_block(x, p.vvals, h) for x, h in zip(leaves, handlers)])
    circ = qd.QuantumCircuit(n, block)
    kw = {}
    if how == "class":
        qd.set_noise(circ if r.random() < 0.5 else block, handler(common), target_class=getattr(qd, cls))
        mon.ev("set_noise")
    elif how == "set_noise":
        qd.set_noise(circ if r.random() < 0.5 else block, handler(common))
        mon.ev("set_noise")
    elif how == "model":
        kw["noise"] = handler(common)
        mon.ev("model_noise")
    else:
        mon.ev("gate_noise")
    if how in ("gate", "set_noise", "class") and r.random() < 0.4:
        d = serialize(circ)
        if r.random() < 0.6:
            d = json.loads(json.dumps(d))
        circ = deserialize(d)
        mon.ev("roundtrip")
    mode = "ad" if gen.param_generator(spec) else r.choice(["ad", "gpsr"])
    model = qd.QuantumModel(circ, observable=[build.block(o, {}) for o in obs], configuration=cfg, diff_mode=mode, **kw)
    vals = build.values(fenv, set(fenv))
    st = None if init is None else sim.tstate(init)
    if st is not None and cfg.get("loop_expectation") and len(st) > 1:
        st = st[:1]
        init = init[:1]
    nb = max(batch, 1 if init is None else np.atleast_2d(init).shape[0])
    want = []
    for b in range(nb):
        psi = ref.zero_state(n) if init is None else np.atleast_2d(init)[b if np.atleast_2d(init).shape[0] > 1 else 0]
        want.append(evolve(leaves, noise, envl[b if len(envl) > 1 else 0], n, np.outer(psi, psi.conj())))
    want = np.array(want)
    call = {"noise": handler(common)} if how == "call" else {}
    vreq = {k: v.clone().requires_grad_(True) for k, v in vals.items()}
    ex = model.expectation(vreq, state=st, **call)
    ow = np.array([[np.real(np.trace(ref.mat_of(o, {}, n) @ w)) for o in obs] for w in want])
    mon.close(build.npy(ex), ow, "expectation", f"noisy expectation ({how})", tol=2e-5)
    if any(noise) and how != "call":
        got = model.run(vals, state=st)
        if got.ndim == 2:  # no noise on any gate
            got = torch.einsum("bi,bj->bij", got, got.conj())
        g = build.npy(got)
        mon.close(g, want, "density", "density matrix", tol=2e-5)
        mon.check(np.allclose(np.trace(g, axis1=1, axis2=2), 1, atol=2e-5), "trace", "trace of the density matrix")
        if n <= 3 and r.random() < 0.4:
            g = build.npy(model.run(vals, state=st, endianness=sim.LITTLE))
            perm = [int(format(i, f"0{n}b")[::-1], 2) for i in range(2**n)]
            mon.close(g, want[:, perm][:, :, perm], "little", "density matrix with little endianness", tol=2e-5)
    names = sorted(k for k in vreq)
    if names and r.random() < 0.35 and not cfg.get("loop_expectation"):
        w = np.array([round(r.uniform(-1, 1), 2) for _ in obs])
        gr = torch.autograd.grad((ex * torch.tensor(w)).sum(), [vreq[k] for k in names], allow_unused=True)

        def f(fe):
            tot = 0.0
            for b, e in enumerate(sim.envs(p.vvals, fe, batch)):
                for bb in range(nb):
                    if nb > 1 and batch > 1 and bb != b:
                        continue
                    psi = ref.zero_state(n) if init is None else np.atleast_2d(init)[bb if np.atleast_2d(init).shape[0] > 1 else 0]
                    rho = evolve(leaves, noise, e, n, np.outer(psi, psi.conj()))
                    tot += sum(wi * np.real(np.trace(ref.mat_of(o, {}, n) @ rho)) for wi, o in zip(w, obs))
            return tot

        for k, g in zip(names, gr):
            num = []
            for i in range(len(fenv[k])):
                d = []
                for s in (1, -1):
                    fe = {a: list(v) for a, v in fenv.items()}
                    fe[k][i] += s * 1e-4
                    d.append(f(fe))
                num.append((d[0] - d[1]) / 2e-4)
            gg = np.zeros(len(num)) if g is None else build.npy(g)
            scale = 1 + max(abs(np.array(num)))
            mon.close(gg / scale, np.array(num) / scale, "gradient", f"gradient ({mode}) of a noisy expectation wrt {k}", tol=2e-3)
    if r.random() < 0.3:
        shots = r.choice([400, 2000])
        torch.manual_seed(seed)
        cs = model.sample(vals, n_shots=shots, state=st, **call)
        judge(mon, cs, [np.real(np.diag(x)) for x in want], n, shots, "sample")


def judge(mon, counters, dists, n, shots, ev):
    mon.check(len(counters) == len(dists), ev, f"{len(counters)} counters for a batch of {len(dists)}")
    for c, d in zip(counters, dists):
        mon.check(sum(c.values()) == shots, ev, f"{sum(c.values())} counts for {shots} shots")
        for i in range(2**n):
            q = min(max(float(d[i]), 0.0), 1.0)
            lim = 6 * np.sqrt(q * (1 - q) / shots) + 0.5 / shots + 1e-6 + (3.0 / shots if q > 1e-9 else 0)
            got = c.get(format(i, f"0{n}b"), 0) / shots
            mon.check(abs(got - q) <= lim, ev, f"frequency of {i:0{n}b}: {got}, expected {q}")


def stoch(r, d, kind):
    """Column-stochastic confusion matrix [measured, true]"""
    rng = np.random.default_rng(r.getrandbits(32))
    if kind == "perm":
        return np.eye(d)[rng.permutation(d)].T
    m = rng.random((d, d)) ** 3 + np.eye(d) * r.choice([0.0, 2.0])
    return m / m.sum(0, keepdims=True)


def k_readout(r, mon):
    n = r.randint(1, 3)
    p = gen.P(r, nf=1, nv=1, kinds="nffvv")
    spec = strip(gen.circuit(r, n, p, size=r.randint(1, 5), hamevo_p=0))
    batch = r.choice([1, 2])
    fenv = sim.used_env(p, [spec], batch)
    batch = sim.eff_batch(fenv)
    kind = r.choice(["perm", "perm", "general"])
    what = r.choice(["independent", "correlated"])
    if what == "independent":
        ms = [stoch(r, 2, kind) for _ in range(n)]
        T = ms[0]
        for m in ms[1:]:
            T = np.kron(T, m)
        h = NoiseHandler(NP.READOUT.INDEPENDENT, {"error_probability": torch.tensor(np.array(ms))})
    else:
        T = stoch(r, 2**n, kind)
        h = NoiseHandler(NP.READOUT.CORRELATED, {"confusion_matrix": torch.tensor(T)})
    exact = kind == "perm" and r.random() < 0.8
    if exact:
        spec = ["chain", [["X", q] for q in range(n) if r.random() < 0.5] + [["I", 0]]]
        fenv, batch = {}, 1
    digital = sources(r) if r.random() < 0.3 and not exact else None
    where = "call" if r.random() < 0.5 else "model"
    envl = sim.envs(p.vvals, fenv, batch)
    shots = r.choice([1, 50]) if exact else 3000
    seed = r.getrandbits(30)
    mon.case(dict(what=what, n=n, spec=spec, T=T.tolist(), env=envl, shots=shots, where=where, digital=str(digital)))
    if digital:
        hh = handler(digital)
        hh.append(h)
        h = hh
    leaves = walk(spec)
    circ = build.circuit(n, spec, p.vvals)
    model = qd.QuantumModel(circ, noise=h) if where == "model" else qd.QuantumModel(circ)
    torch.manual_seed(seed)
    kw = {} if where == "model" else {"noise": h}
    cs = model.sample(build.values(fenv, set(fenv)), n_shots=shots, **kw)
    z = ref.zero_state(n)
    noise = [[] if x[0].startswith("HamEvo") else digital or [] for x in leaves]
    d = [T @ np.real(np.diag(evolve(leaves, noise, e, n, np.outer(z, z)))) for e in envl]
    judge(mon, cs, d, n, shots, "readout_exact" if exact else "readout")


def k_bits(r, mon):
    """Readout noise given by probabilities: certain outcomes and bounds"""
    n = r.randint(1, 4)
    bits = [r.randint(0, 1) for _ in range(n)]
    block = qd.kron(*[qd.X(q) if bits[q] else qd.I(q) for q in range(n)]) if n > 1 else (qd.X(0) if bits[0] else qd.I(0))
    p = 0.0 if r.random() < 0.4 else round(r.uniform(0.05, 0.9), 2)
    shots = r.choice([1, 100, 3000])
    opts = {"error_probability": p}
    if r.random() < 0.5:
        opts["seed"] = r.getrandbits(16)
    mon.case(dict(n=n, bits=bits, p=p, shots=shots, seed=opts.get("seed")))
    cs = qd.QuantumModel(qd.QuantumCircuit(n, block), noise=NoiseHandler(NP.READOUT.INDEPENDENT, opts)).sample(n_shots=shots)
    mon.check(len(cs) == 1 and sum(cs[0].values()) == shots, "readout_exact", f"{cs} for {shots} shots")
    s = "".join(map(str, bits))
    if p == 0.0:
        mon.check(dict(cs[0]) == {s: shots}, "readout_exact", f"errors {dict(cs[0])} at probability zero of {s}")
    else:
        for q in range(n):
            f = sum(v for k, v in cs[0].items() if k[q] != s[q]) / shots
            mon.check(f <= p + 6 * np.sqrt(p * (1 - p) / shots) + 1.5 / shots, "readout_exact", f"error rate {f} of bit {q} above {p}")


def rules(entries):
    """Is the list of sources [(protocol, options)] acceptable?"""
    if not entries:
        return False
    kinds = []
    for proto, opt in entries:
        k = "r" if isinstance(proto, NP.READOUT) else "a" if isinstance(proto, NP.ANALOG) else "d"
        if k == "a" and "noise_probs" not in opt or k == "d" and "error_probability" not in opt:
            return False
        kinds.append(k)
    s = "".join(kinds)
    if "a" in s and ("d" in s or "r" in s or s.count("a") > 1):
        return False
    return "r" not in s or (s.count("r") == 1 and s[-1] == "r")


SHORT = {"bitflip": NP.DIGITAL.BITFLIP, "phaseflip": NP.DIGITAL.PHASEFLIP, "digital_depolarizing": NP.DIGITAL.DEPOLARIZING,
         "pauli_channel": NP.DIGITAL.PAULI_CHANNEL, "amplitude_damping": NP.DIGITAL.AMPLITUDE_DAMPING,
         "phase_damping": NP.DIGITAL.PHASE_DAMPING, "generalized_amplitude_damping": NP.DIGITAL.GENERALIZED_AMPLITUDE_DAMPING,
         "analog_depolarizing": NP.ANALOG.DEPOLARIZING, "dephasing": NP.ANALOG.DEPHASING,
         "readout_independent": NP.READOUT.INDEPENDENT, "readout_correlated": NP.READOUT.CORRELATED}


def entry(r):
    proto = r.choice(list(NP.DIGITAL) * 2 + list(NP.ANALOG) + list(NP.READOUT) * 2)
    key = "noise_probs" if isinstance(proto, NP.ANALOG) else "error_probability"
    if r.random() < 0.06:
        key = "p"
    opt = {key: r.choice([0.0, 0.1, 0.2])}
    if isinstance(proto, NP.READOUT) and r.random() < 0.5:
        opt["seed"] = r.randint(0, 3)
    return proto, opt


def content(h):
    return list(zip(h.protocol, h.options))


def make(entries):
    return NoiseHandler([e[0] for e in entries], [dict(e[1]) for e in entries])


def valid(r):
    while True:
        es = [entry(r) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        if rules(es):
            return es


def k_handler(r, mon):
    steps = r.randint(1, 6)
    start = [entry(r) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    log = [[(str(a), b) for a, b in start]]
    mon.case(dict(what="handler", start=log[0], steps=steps, log=log), steps > 1)
    try:
        h = make(start)
        ok = True
    except (KeyError, ValueError):
        ok = False
    mon.check(ok == rules(start), "handler" if ok else "rejected", f"handler of {log[0]} {'accepted' if ok else 'rejected'}")
    if not ok:
        start = valid(r)
        h = make(start)
    model = [(a, dict(b)) for a, b in start]
    for _ in range(steps):
        op = r.choice(["append", "append", "list", "short", "eq", "filter", "dict"])
        if op in ("append", "list", "short"):
            groups = [valid(r) for _ in range(1 if op != "list" else r.randint(1, 3))]
            if op == "short":
                e = valid(r)[-1]
                groups = [[e]]
            log.append([op, [[(str(a), b) for a, b in g] for g in groups]])
            others = [make(g) for g in groups]
            new = model + [(a, dict(b)) for g in groups for a, b in g]
            try:
                if op == "short":
                    name = r.choice([k for k, v in SHORT.items() if v is groups[0][0][0]])
                    res = getattr(h, name)(dict(groups[0][0][1]))
                    mon.check(res is h, "handler", f"{name} returned another object")
                else:
                    h.append(others if op == "list" else others[0])
                ok = True
            except ValueError:
                ok = False
            mon.check(ok == rules(new), "handler" if ok else "rejected", f"append {'accepted' if ok else 'rejected'}: {log}")
            if ok:
                model = new
            for o, g in zip(others, groups):
                mon.check(content(o) == g, "handler", f"appended handler changed: {content(o)}")
        elif op == "eq":
            u = r.random()
            other = [(a, dict(b)) for a, b in model]
            if u < 0.25:
                other = other[: r.randint(1, len(other))]
            elif u < 0.5:
                other = other + valid(r)
            elif u < 0.75:
                i = r.randrange(len(other))
                other[i] = entry(r)
            log.append(["eq", [(str(a), b) for a, b in other]])
            if rules(other):
                o = make(other)
                mon.check((h == o) == (other == model) and (o == h) == (other == model), "handler", f"equality of {model} and {other}: {h == o}")
        elif op == "filter":
            kind = r.choice([NP.DIGITAL, NP.ANALOG, NP.READOUT])
            want = [e for e in model if isinstance(e[0], kind)]
            got = h.filter(kind)
            log.append(["filter", str(kind)])
            mon.check((got is None) if not want else (got is not None and content(got) == want), "handler", f"filter {kind}: {got}")
        else:
            log.append(["dict"])
            d = h._to_dict()
            if r.random() < 0.5:
                d = json.loads(json.dumps(d))
            h2 = NoiseHandler._from_dict(d)
            same = h2 is not None and content(h2) == model and [type(a) for a in h2.protocol] == [type(a) for a, _ in model]
            mon.check(same and h2 == h, "roundtrip", f"serialized {h2}")
        mon.check(content(h) == model, "handler", f"handler {content(h)} after {log}, expected {model}")


def k_lindblad(r, mon):
    """Time-dependent evolution with jump operators"""
    n = r.randint(1, 2)
    terms = [(gen.pauli_string(r, n), round(r.uniform(-1, 1), 2), round(r.uniform(-1, 1), 2) or 0.3) for _ in range(r.randint(1, 2))]
    have = set().union(*[ref.support(t[0]) for t in terms])
    terms += [(["Z", q], 0.3, 0.2) for q in range(n) if q not in have]
    dur = round(r.uniform(0.2, 0.8), 2)
    jumps = [["scale", round(r.uniform(0.1, 0.6), 2), [r.choice(["X", "Y", "Z", "N"]), r.randrange(n)]] for _ in range(r.choice([1, 1, 2]))]
    pre = [["H", q] for q in range(n) if r.random() < 0.6]
    obs = gen.hamiltonian(r, n)
    mon.case(dict(what="lindblad", n=n, terms=terms, dur=dur, jumps=jumps, pre=pre, obs=obs))
    t = qd.TimeParameter("t")
    ham = [(a + b * t) * build.block(s, {}) for s, a, b in terms]
    ham = qd.add(*ham) if len(ham) > 1 else ham[0]
    evo = HamEvo(ham, t, duration=dur, noise_operators=[build.block(j, {}) for j in jumps])
    block = qd.chain(*[build.block(b, {}) for b in pre], evo)
    d = 2**n
    I = np.eye(d)
    D = np.zeros((d * d, d * d), dtype=complex)
    for L in [ref.mat_of(j, {}, n) for j in jumps]:
        LL = L.conj().T @ L
        D = D + np.kron(L, L.conj()) - 0.5 * (np.kron(LL, I) + np.kron(I, LL.T))
    psi = ref.zero_state(n)
    for b in pre:
        psi = ref.mat_of(b, {}, n) @ psi
    from scipy.linalg import expm

    rho = np.outer(psi, psi.conj()).reshape(-1)
    steps = 100
    for i in range(steps):
        x = (i + 0.5) * dur / steps
        H = sum((a + b * x) * ref.mat_of(s, {}, n) for s, a, b in terms)
        rho = expm((-1j * (np.kron(H, I) - np.kron(I, H.T)) + D) * dur / steps) @ rho
    rho = rho.reshape(d, d)
    model = qd.QuantumModel(qd.QuantumCircuit(n, block), observable=build.block(obs, {}), configuration={"n_steps_hevo": 200, "ode_solver": SolverType.DP5_ME})
    got = build.npy(model.run())[0]
    mon.close(got, rho, "lindblad", "density matrix of a dissipative evolution", tol=2e-3)
    mon.close(build.npy(model.expectation())[0, 0], np.real(np.trace(ref.mat_of(obs, {}, n) @ rho)), "lindblad", "expectation", tol=4e-3)


def case(r, idx, mon):
    u = r.random()
    if u < 0.5:
        k_channel(r, mon)
    elif u < 0.62:
        k_readout(r, mon)
    elif u < 0.7:
        k_bits(r, mon)
    elif u < 0.75:
        k_lindblad(r, mon)
    else:
        k_handler(r, mon)


def p_per_qubit():
    h = NoiseHandler(NP.READOUT.INDEPENDENT, {"error_probability": torch.tensor([0.0, 0.1])})
    try:
        qd.QuantumModel(qd.QuantumCircuit(2, qd.kron(qd.X(0), qd.X(1))), noise=h).sample(n_shots=100)
    except RuntimeError as e:
        if "size of tensor" in str(e):
            return "readout noise with one error probability per qubit (a 1D tensor, as documented) cannot be sampled: " + str(e)
    return None


PROBES = {"readout_per_qubit": p_per_qubit}
