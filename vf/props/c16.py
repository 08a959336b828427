"""C16: analog blocks evolve the Rydberg Hamiltonian of the register and its device."""
from __future__ import annotations

import math

import numpy as np
import scipy.linalg as sl
import torch

import qadence as qd
from qadence.analog import AddressingPattern, RydbergDevice
from qadence.analog.parse_analog import add_background_hamiltonian
from qadence.analog.hamiltonian_terms import rydberg_interaction_hamiltonian
from qadence.blocks.block_to_tensor import block_to_tensor
from qadence.parameters import evaluate
from qadence.types import Interaction

from .. import build, gen, ref, sim

ID = "C16"
CASES = {"quick": 700, "thorough": 12000}
RULE = (
    "random registers (lattices, arbitrary coordinates), devices (NN/XY interaction, Rydberg levels, addressing patterns), global "
    "and local analog rotations and interactions with numeric and parametric settings, chains and krons of them, mixed with digital gates; "
    "final states, expectations and gradients against the documented Hamiltonian; non-trivial: more than one analog block, or a pattern"
)
MIN_EVENTS = {"state": 400, "expectation": 150, "interaction_matrix": 100, "evolution_matrix": 60, "pattern": 80, "local": 80, "xy": 60,
              "parametric": 150, "gradient": 40, "duration": 100, "analog_swap": 20, "digital_mix": 100}
ASSUMPTIONS = ["tolerance 5e-5 (3e-4 with parametric pattern weights, whose [0, 1] window is a documented smooth approximation)",
               "amplitudes and detunings of patterns within the documented maxima"]

# documented: Ising coupling coefficient of a Rydberg level, rad um^6/us
C6 = {
    50: 96120.72, 51: 122241.6, 52: 154693.02, 53: 194740.36, 54: 243973.91, 55: 304495.01, 56: 378305.98, 57: 468027.05,
    58: 576714.85, 59: 707911.38, 60: 865723.02, 61: 1054903.11, 62: 1281042.11, 63: 1550531.15, 64: 1870621.31, 65: 2249728.57,
    66: 2697498.69, 67: 3224987.51, 68: 3844734.37, 69: 4571053.32, 70: 5420158.53, 71: 6410399.4, 72: 7562637.31, 73: 8900342.14,
    74: 10449989.62, 75: 12241414.53, 76: 14308028.03, 77: 16687329.94, 78: 19421333.62, 79: 22557029.94, 80: 26146720.74,
    81: 30248886.65, 82: 34928448.69, 83: 40257623.67, 84: 46316557.88, 85: 53194043.52, 86: 60988354.64, 87: 69808179.15,
    88: 79773468.88, 89: 91016513.07, 90: 103677784.57, 91: 117933293.96, 92: 133943541.9, 93: 151907135.94, 94: 172036137.34,
    95: 194562889.89, 96: 219741590.56, 97: 247850178.91, 98: 279192193.77, 99: 314098829.39, 100: 352931119.11,
}
X = np.array([[0, 1], [1, 0]], complex)
Y = np.array([[0, -1j], [1j, 0]])
N = np.array([[0, 0], [0, 1]], complex)


def op1(m, q, n):
    return ref.embed(m, [q], n)


def h_int(coords, n, dev):
    h = np.zeros((2**n, 2**n), complex)
    for i in range(n):
        for j in range(i):
            d = math.dist(coords[i], coords[j])
            if dev["interaction"] == "NN":
                h += C6[dev["level"]] / d**6 * op1(N, i, n) @ op1(N, j, n)
            else:
                h += dev["c3"] / d**3 * (op1(X, i, n) @ op1(X, j, n) + op1(Y, i, n) @ op1(Y, j, n))
    return h


def h_pattern(pat, n, e):
    if pat is None:
        return 0
    h = np.zeros((2**n, 2**n), complex)
    for q in range(n):
        # (parametric weights are restricted to [0, 1], and zero beyond)
        wa, wd = [0.0 if isinstance(w, list) and ref.pval(w, e) > 1 else ref.pval(w, e) for w in (pat["wa"].get(q, 0.0), pat["wd"].get(q, 0.0))]
        h += pat["amp"] / 2 * wa * op1(X, q, n) + abs(pat["det"]) * wd * op1(N, q, n)
    return h


def mat(s, e, n, ctx):
    """Reference operator of a spec with analog blocks."""
    op = s[0]
    if op == "chain":
        m = np.eye(2**n, dtype=complex)
        for b in s[1]:
            m = mat(b, e, n, ctx) @ m
        return m
    if op == "akron":
        rots = [b for b in s[1] if b[0] != "aint"]
        return mat(["chain", rots or s[1][:1]], e, n, ctx)
    if op[0] != "a" or op == "add":
        return ref.mat_of(s, e, n)
    hp = h_pattern(ctx["pat"], n, e) if s[-1] else 0
    if op == "aint":
        return sl.expm(-1j * (ctx["hint"] + hp) * ref.pval(s[1], e) / 1000)
    sup = range(n) if s[-2] == "global" else s[-2]
    if op == "arot":
        t, om, de, ph = [ref.pval(x, e) for x in s[1:5]]
    else:
        a = ref.pval(s[1], e)
        t = a / math.pi * 1000
        om, de, ph = {"arx": (math.pi, 0, 0), "ary": (math.pi, 0, -math.pi / 2), "arz": (0, math.pi, 0)}[op]
    h = ctx["hint"] + hp
    for q in sup:
        h = h + om / 2 * (math.cos(ph) * op1(X, q, n) - math.sin(ph) * op1(Y, q, n)) - de * op1(N, q, n)
    return sl.expm(-1j * h * t / 1000)


def blk(s, vv):
    op = s[0]
    if op == "chain":
        return qd.chain(*[blk(b, vv) for b in s[1]])
    if op == "akron":
        return qd.kron(*[blk(b, vv) for b in s[1]])
    if op[0] != "a" or op == "add":
        return build.block(s, vv)
    sup = s[-2] if s[-2] == "global" else tuple(s[-2])
    kw = dict(qubit_support=sup, add_pattern=s[-1])
    if op == "aint":
        return qd.AnalogInteraction(build.param(s[1], vv), **kw)
    if op == "arot":
        t, om, de, ph = [build.param(x, vv) for x in s[1:5]]
        return qd.AnalogRot(duration=t, omega=om, delta=de, phase=ph, **kw)
    return {"arx": qd.AnalogRX, "ary": qd.AnalogRY, "arz": qd.AnalogRZ}[op](build.param(s[1], vv), **kw)


def par(p, lo, hi):
    """A positive quantity in [lo, hi], numeric or parametric."""
    r = p.r
    c = round(r.uniform(lo, hi), 2)
    if r.random() < 0.6:
        return c
    a = p.sym(0)
    return c if isinstance(a, (int, float)) else ["*", c, ["+", 1.0, ["*", 0.3, ["tanh", a]]]]


def primitive(r, p, n, sup, dur=None):
    pat = r.random() < 0.75
    k = r.choice(["aint", "arot", "arot", "arx", "ary", "arz"])
    if k == "aint":
        return [k, dur or par(p, 20, 900), sup, pat]
    if k == "arot" or dur is not None:
        w = r.random()
        om = par(p, 0.3, 9) if w < 0.8 else 0
        de = round(r.uniform(-8, 8), 2) if w > 0.5 else 0
        ph = r.choice([0, 0.0, round(r.uniform(-3, 3), 3), p(1)])
        return ["arot", dur or par(p, 20, 900), om, de, ph, sup, pat]
    return [k, par(p, 0.1, 5), sup, pat]


def case(r, idx, mon):
    n = r.choice([1, 2, 2, 3, 3, 4])
    p = gen.P(r, nf=r.randint(0, 2), nv=r.randint(0, 2), kinds="nfv")
    sp = round(r.uniform(5.5, 11), 2)
    how = r.choice(["line", "circle", "coords", "all_to_all"])
    dev = dict(interaction=r.choice(["NN", "NN", "XY"]), level=r.choice([50, 57, 60, 60, 63, 70, r.randint(50, 100)]), c3=r.choice([3700.0, 1500.0, 2750.5]))
    if dev["level"] > 70:
        sp = sp * 2.5
    pat = None
    wpar = False
    if r.random() < 0.35:
        def weights(mx):
            out = {}
            for q in range(n):
                if r.random() < 0.8:
                    w = round(r.uniform(0, 1), 3)
                    if p.vn and r.random() < 0.3:
                        w = ["v", "wt%d" % q]
                    out[q] = w
            return out
        amp, det = round(r.uniform(0.5, 2.9), 2), round(r.uniform(1, 30), 2) * r.choice([1, 1, -1])
        pat = dict(wa=weights(amp), wd=weights(det), amp=amp, det=det)
        for w in list(pat["wa"].values()) + list(pat["wd"].values()):
            if isinstance(w, list):
                p.vvals[w[1]] = round(r.uniform(0.1, 0.5) if r.random() < 0.7 else r.uniform(1.6, 2.5), 3)
                wpar = True
    items = []
    for _ in range(r.randint(1, 3)):
        x = r.random()
        if x < 0.55 or n == 1:
            items.append(primitive(r, p, n, "global"))
        elif x < 0.85:
            qs = gen.sub(r, n, r.randint(1, n))
            c = r.randint(1, len(qs))
            parts = [sorted(qs[:c])] + ([sorted(qs[c:])] if qs[c:] else [])
            d = round(r.uniform(20, 600), 1)
            bs = [primitive(r, p, n, s, d) for s in parts]
            flag = r.random() < 0.7
            items.append(["akron", [b[:-1] + [flag] if b[0] == "aint" else b for b in bs]])
        else:
            items.append(gen.gate(r, n, p))
    if r.random() < 0.4:
        items.insert(r.randint(0, len(items)), gen.gate(r, n, p))
    spec = ["chain", items]
    flat = [b for i in items for b in (i[1] if i[0] == "akron" else [i])]
    used = set()
    for b in flat:
        if b[0][0] == "a" and b[0] != "add":
            for x in b[1:-2]:
                used |= ref.pnames(x)
        else:
            used |= ref.names_of(b)
    if pat is not None:
        for w in list(pat["wa"].values()) + list(pat["wd"].values()):
            used |= ref.pnames(w)
    batch = r.choice([1, 1, 3])
    fenv = {k: v for k, v in p.env(batch).items() if k in used}
    batch = sim.eff_batch(fenv)
    mon.case(dict(n=n, how=how, sp=sp, dev=dev, pat=str(pat), spec=spec, vvals=p.vvals, fenv=fenv), len(items) > 1 or pat is not None)
    pattern = None
    if pat is not None:
        # the weights are parameters of the pattern
        def wt(d):
            return {q: (qd.VariationalParameter(w[1], value=p.vvals[w[1]]) if isinstance(w, list) else w) for q, w in d.items()}
        pattern = AddressingPattern(n_qubits=n, weights_amp=wt(pat["wa"]), weights_det=wt(pat["wd"]), amp=pat["amp"], det=pat["det"])
        mon.ev("pattern")
    device = RydbergDevice(interaction=Interaction.NN if dev["interaction"] == "NN" else Interaction.XY, rydberg_level=dev["level"], coeff_xy=dev["c3"], pattern=pattern)
    if how == "coords":
        pts = []
        while len(pts) < n:
            c = (round(r.uniform(-14, 14) * sp / 8, 2), round(r.uniform(-14, 14) * sp / 8, 2))
            if all(math.dist(c, q) >= sp for q in pts):
                pts.append(c)
        reg = qd.Register.from_coordinates(pts, device_specs=device)
    else:
        reg = getattr(qd.Register, how)(n, spacing=sp, device_specs=device)
    coords = reg.coords
    ctx = dict(hint=h_int(coords, n, dev), pat=pat)
    mon.ev("xy", int(dev["interaction"] == "XY"))
    mon.ev("parametric", int(bool(used)))
    mon.ev("local", int(any(i[0] == "akron" for i in items)))
    mon.ev("digital_mix", int(any(b[0][0] != "a" for b in flat)))
    if n > 1 and r.random() < 0.3:
        got = build.npy(block_to_tensor(rydberg_interaction_hamiltonian(reg), qubit_support=tuple(range(n))))
        mon.close(got[0], ctx["hint"], "interaction_matrix", "interaction Hamiltonian", tol=1e-5)
    block = blk(spec, p.vvals)
    circ = qd.QuantumCircuit(reg, block)
    vals = build.values(fenv, fenv)
    envl = sim.envs(p.vvals, fenv, batch)
    U = [mat(spec, e, n, ctx) for e in envl]
    init = gen.state(r, n) if r.random() < 0.4 else None
    s0 = ref.zero_state(n) if init is None else init
    psi = np.array([u @ s0 for u in U])
    kw = {} if init is None else {"state": sim.tstate(init)}
    tol = 3e-4 if wpar else 5e-5
    for i in items:
        if i[0] == "aint" and isinstance(i[1], float) or i[0] == "akron":
            want = i[1] if i[0] == "aint" else i[1][0][1]
            mon.check(abs(float(evaluate(blk(i, p.vvals).duration)) - want) < 1e-6, "duration", "duration of a block")
    entry = r.choice(["run", "model", "model"])
    out = qd.run(circ, values=vals, **kw) if entry == "run" else qd.QuantumModel(circ).run(vals, **kw)
    out = build.npy(out)
    mon.close(out, psi if len(out) == len(psi) else psi[:1], "state", "final state of analog blocks", tol=tol)
    if r.random() < 0.45:
        b = next((b for b in flat if b[0][0] == "a" and b[0] != "add"), None)
        if b is not None and not used and not (n == 1 and b[0] == "aint"):
            ev = add_background_hamiltonian(blk(b, p.vvals), reg)
            got = build.npy(block_to_tensor(ev, qubit_support=tuple(range(n))))[0]
            mon.close(got, mat(b, p.vvals, n, ctx), "evolution_matrix", "evolution of one analog block", tol=tol)
    if r.random() < 0.5:
        obs = [gen.hamiltonian(r, n) for _ in range(r.randint(1, 2))]
        E = sim.ref_expect(obs, psi, n, envl)
        m = qd.QuantumModel(circ, [build.block(o, p.vvals) for o in obs])
        x = {k: v.clone().requires_grad_(True) for k, v in vals.items()}
        got = m.expectation(x, **kw)
        g = build.npy(got)
        mon.close(g, E if len(g) == len(E) else E[:1], "expectation", "expectation with analog blocks", tol=max(tol, 2e-4))
        names = [k for k, v in m.vparams.items() if k in used and not k.startswith("wt")]
        if names and len(g) == len(E) and not wpar:
            leaf = {k.split(".", 1)[1]: t for k, t in m.named_parameters() if t.requires_grad}
            name = r.choice(names)
            d = torch.autograd.grad(got.sum(), leaf[name], allow_unused=True)[0]

            def f(v):
                es = [{**e, name: v} for e in envl]
                ps = np.array([mat(spec, e, n, ctx) @ s0 for e in es])
                return sim.ref_expect(obs, ps, n, es).sum()

            v0, hs = p.vvals[name], 1e-3
            num = (8 * (f(v0 + hs) - f(v0 - hs)) - (f(v0 + 2 * hs) - f(v0 - 2 * hs))) / (12 * hs)
            mon.close(np.array(0.0 if d is None else float(d.sum())), np.array(num), "gradient", f"d/d{name}", tol=3e-3)
    if r.random() < 0.06:
        u = build.npy(block_to_tensor(qd.AnalogSWAP(0, 1)))[0]
        sw = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]])
        ph = np.trace(sw.conj().T @ u) / 4
        mon.check(abs(abs(ph) - 1) < 1e-4 and np.allclose(u, ph * sw, atol=1e-3), "analog_swap", "AnalogSWAP is not a SWAP up to a phase", u=str(u))
