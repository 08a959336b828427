"""C17: circuit constructors build the announced unitary."""
from __future__ import annotations

import math

import numpy as np
import sympy
import torch

import qadence as qd
from qadence.blocks.block_to_tensor import block_to_tensor
from qadence.blocks.utils import parameters
from qadence.constructors import analog_feature_map, daqc_transform, rydberg_feature_map, rydberg_hea, rydberg_tower_feature_map
from qadence.constructors.rydberg_hea import rydberg_hea_layer
from qadence.types import BasisSet, Interaction, ReuploadScaling, Strategy

from .. import build, gen, ref, sim
from .c02 import relabel
from .c16 import h_int

ID = "C17"
CASES = {"quick": 1500, "thorough": 20000}
RULE = (
    "random sizes, depths, supports, operations, entanglers, ranges and scalings of qft, daqc_transform, feature maps, hea, ala, iia, "
    "rydberg constructors; the unitary (or final state) at random parameter values against the documented construction written as a spec; "
    "number, names and trainability of the parameters; non-trivial: at least two qubits"
)
MIN_EVENTS = {"unitary": 700, "executed": 300, "params": 500, "qft": 100, "daqc": 60, "fm": 120, "hea": 120, "ala": 60, "iia": 80,
              "identity_init": 80, "rydberg": 60, "expfm": 40}
ASSUMPTIONS = ["DAQC results compared at 2e-3 (the library solves for the evolution times in single precision)",
               "DAQC for four qubits is documented as not implemented"]
ROTS = ["RX", "RY", "RZ", "PHASE"]
ENTS = ["CNOT", "CZ", "CRX", "CRY", "CRZ", "CPHASE"]


def chain(items):
    return ["chain", items] if len(items) > 1 else items[0]


def names(blk):
    return {p.name: p for p in parameters(blk) if isinstance(p, sympy.Symbol)}


def dft(n):
    d = 2**n
    k = np.arange(d)
    return np.exp(2j * math.pi * np.outer(k, k) / d) / math.sqrt(d)


def rev(n):
    p = np.zeros((2**n, 2**n))
    for k in range(2**n):
        p[int(format(k, f"0{n}b")[::-1], 2), k] = 1
    return p


def judge(mon, r, blk, want, vals, sup, what, tol=3e-5, run=True):
    """matrix on the qubits `sup` and execution on a register covering it"""
    m = build.npy(block_to_tensor(blk, vals, qubit_support=tuple(sorted(sup))))
    mon.close(m.reshape(want.shape), want, "unitary", f"unitary of {what}", tol=tol)
    if run and r.random() < 0.5:
        n = max(sup) + 1
        psi = gen.state(r, n)
        w = ref.embed(want, sorted(sup), n) @ psi
        got = build.npy(qd.run(qd.QuantumCircuit(n, blk), values=vals, state=sim.tstate(psi)))
        mon.close(got[0], w, "executed", f"execution of {what}", tol=tol)


def spec_case(mon, r, blk, spec, sup, vnames, fvals, what, tol=3e-5):
    """compare with a spec whose parameters are named like those of the block; vnames: expected trainable names"""
    ps = names(blk)
    mon.check({k for k, p in ps.items() if p.trainable} == set(vnames), "params",
              f"trainable parameters of {what}: {sorted(k for k, p in ps.items() if p.trainable)} != {sorted(vnames)}")
    mon.check({k for k, p in ps.items() if not p.trainable} == set(fvals), "params", f"feature parameters of {what}",
              got=sorted(k for k, p in ps.items() if not p.trainable))
    vv = {k: round(r.uniform(-3, 3), 4) for k in vnames}
    env = {**vv, **fvals}
    vals = {k: torch.tensor([v], dtype=torch.float64) for k, v in env.items()}
    q = sorted(sup)
    pos = {x: i for i, x in enumerate(q)}
    local = relabel(spec, [pos.get(i, -1) for i in range(max(q) + 1)])
    judge(mon, r, blk, ref.mat_of(local, env, len(q)), vals, q, what, tol)


def support(r, n):
    if r.random() < 0.6:
        return None, list(range(n))
    s = r.sample(range(n + 3), n)
    return tuple(s), s


def k_qft(r, mon):
    n = r.choice([1, 2, 2, 3, 3, 4, 5]) if r.random() < 0.96 else r.choice([6, 7])
    sup, s = support(r, n)
    inverse, rin, swaps = r.random() < 0.5, r.random() < 0.4, r.random() < 0.5
    strat = "sDAQC" if n in (2, 3, 5) and sup is None and r.random() < 0.3 else "Digital"
    gb = None
    if strat == "sDAQC" and r.random() < 0.5:
        it = r.choice([Interaction.NN, Interaction.ZZ])
        gb = [r.choice([-1, 1]) * round(r.uniform(0.5, 1.5), 3) for _ in range(n * (n - 1) // 2)]
        gbh = qd.hamiltonian_factory(n, interaction=it, interaction_strength=np.array(gb))
    mon.case(dict(what="qft", n=n, support=sup, inverse=inverse, reverse_in=rin, swaps=swaps, strategy=strat, gb=gb), n > 1)
    kw = dict(gen_build=gbh) if gb else {}
    if sup is not None:
        kw["support"] = sup
    blk = qd.qft(n, inverse=inverse, reverse_in=rin, swaps_out=swaps, strategy=strat, **kw)
    u = dft(n) if swaps else rev(n) @ dft(n)
    if inverse:
        u = u.conj().T
    order = s[::-1] if rin else s
    q = sorted(s)
    want = ref.embed(u, [q.index(x) for x in order], n)
    mon.ev("qft")
    mon.ev("qft_" + strat)
    judge(mon, r, blk, want, {}, q, f"qft({strat})", tol=2e-3 if strat == "sDAQC" else 3e-5)


def k_daqc(r, mon):
    n = r.choice([2, 3, 3, 5])
    tt, bt = r.choice(["N", "Z"]), r.choice(["N", "Z"])
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    tg = {e: round(r.uniform(-1, 1), 3) for e in pairs if r.random() < 0.8}
    tg = tg or {pairs[0]: 0.7}
    bg = {e: r.choice([-1, 1]) * round(r.uniform(0.4, 1.5), 3) for e in pairs if e in tg or r.random() < 0.7}
    tf = r.choice([1.0, 2.0, -1.0, 0.3, round(r.uniform(-2, 2), 3)])
    ign = r.random() < 0.3

    def ham(g, o):
        ts = [["scale", v, ["kron", [[o, e[0]], [o, e[1]]] if r.random() < 0.8 else [[o, e[1]], [o, e[0]]]]] for e, v in g.items()]
        r.shuffle(ts)
        return ["add", ts] if len(ts) > 1 else ts[0]

    ht, hb = ham(tg, tt), ham(bg, bt)
    default = bt == "N" and r.random() < 0.3
    mon.case(dict(what="daqc", n=n, target=ht, build=None if default else hb, t=tf, ignore=ign))
    kw = {} if default else dict(gen_build=build.block(hb, {}))
    blk = daqc_transform(n, build.block(ht, {}), tf, ignore_global_phases=ign, **kw)
    want = ref.mat_of(["HamEvo", ht, tf], {}, n)
    mon.ev("daqc")
    if not blk.blocks:
        return
    m = build.npy(block_to_tensor(blk, {}, qubit_support=tuple(range(n))))[0]
    if ign:
        k = np.unravel_index(np.abs(m).argmax(), m.shape)
        m = m * (want[k] / m[k]) / abs(want[k] / m[k])
    mon.close(m, want, "unitary", "unitary of the DAQC transform", tol=2e-3)


def affine(fr, tr):
    sc = (max(tr) - min(tr)) / (max(fr) - min(fr))
    return sc, min(tr) - min(fr) * sc


def k_fm(r, mon, exp=False):
    n = r.choice([1, 2, 3, 4])
    sup, s = support(r, n)
    x = r.choice(["phi", "x", "feat_1"])
    if exp:
        fr = r.choice([None, (0.0, 3.0), (-1.0, 2.5)])
        mon.case(dict(what="expfm", n=n, support=sup, fr=fr), n > 1)
        blk = qd.exp_fourier_feature_map(n, support=sup, param=x, feature_range=fr)
        sc, sh = affine(fr or (0.0, 2.0**n), (0, 2 * math.pi))
        spec = ["chain", [["H", q] for q in s] + [["RZ", q, ["*", 2.0**i, ["+", ["*", sc, ["f", x]], sh]]] for i, q in enumerate(s)]]
        mon.ev("expfm")
        spec_case(mon, r, blk, spec, s, [], {x: round(r.uniform(-1, 2.5), 4)}, "exp_fourier_feature_map")
        return
    op = r.choice(ROTS)
    ft = r.choice(["Fourier", "Chebyshev", "sin", "atan"])
    rs = r.choice(["Constant", "Tower", "Exponential", "fn"])
    fr = r.choice([None, None, (0.0, 1.0), (-2.0, 3.0), (1.0, 5.0)])
    tr = None
    if r.random() < 0.4:
        tr = {"Fourier": (0.0, 3.0), "Chebyshev": (-0.9, 0.8)}.get(ft, (-1.0, 2.0))
    pre = r.choice([None, None, None, "w_fm"])
    if ft == "Chebyshev" and pre:
        pre = None
    mult = r.choice([None, None, 2, -0.5, "m"])
    mon.case(dict(what="fm", n=n, support=sup, op=op, ft=ft, rs=rs, fr=fr, tr=tr, prefix=pre, mult=mult), n > 1)
    nat = {"Fourier": (0.0, 2 * math.pi), "Chebyshev": (-1.0, 1.0)}.get(ft, (0.0, 1.0))
    f, t = fr or nat, tr or nat
    sc, sh = affine(f, t)
    fmt = {"Fourier": r.choice([BasisSet.FOURIER, "Fourier"]), "Chebyshev": r.choice([BasisSet.CHEBYSHEV, "Chebyshev"]),
           "sin": sympy.sin, "atan": sympy.atan}[ft]
    rsf = {"Constant": r.choice([ReuploadScaling.CONSTANT, "Constant"]), "Tower": r.choice([ReuploadScaling.TOWER, "Tower"]),
           "Exponential": r.choice([ReuploadScaling.EXP, "Exponential"]), "fn": lambda i: 0.5 * i + 1.25}[rs]
    fac = {"Constant": lambda i: 1.0, "Tower": lambda i: i + 1.0, "Exponential": lambda i: 2.0**i, "fn": lambda i: 0.5 * i + 1.25}[rs]
    kw = {}
    if sup is not None:
        kw["support"] = sup
    if mult is not None:
        kw["multiplier"] = qd.VariationalParameter("m_par") if mult == "m" else mult
    px = qd.Parameter(x, trainable=r.random() < 0.5) if r.random() < 0.3 else x
    blk = qd.feature_map(n, param=px, op=getattr(qd, op), fm_type=fmt, reupload_scaling=rsf, feature_range=fr, target_range=tr,
                         param_prefix=pre, **kw)
    spec, vn = [], set()
    for i, q in enumerate(s):
        a = ["+", ["*", sc, ["f", x]], sh]
        if pre:
            vn.add(f"{pre}_{i}")
            a = ["*", ["v", f"{pre}_{i}"], a]
        a = {"Fourier": lambda z: z, "Chebyshev": lambda z: ["acos", z], "sin": lambda z: ["sin", z], "atan": lambda z: ["atan", z]}[ft](a)
        a = ["*", fac(i), a]
        if mult == "m":
            vn.add("m_par")
            a = ["*", ["v", "m_par"], a]
        elif mult is not None:
            a = ["*", mult, a]
        spec.append([op, q, a])
    lo, hi = min(f), max(f)
    xv = round(lo + (hi - lo) * r.uniform(0.02, 0.98), 4)
    mon.ev("fm")
    spec_case(mon, r, blk, ["chain", spec], s, vn, {x: xv}, f"feature map {ft}/{rs}")


def rot_layers(ops, s, pre, it):
    return [[g, q, ["v", f"{pre}_{next(it)}"]] for g in ops for q in s]


def ent(op, a, b, name, vn):
    if op in ("CNOT", "CZ"):
        return [op, a, b]
    vn.add(name)
    return [op, a, b, ["v", name]]


def k_hea(r, mon, kind):
    n = r.choice([2, 2, 3, 4, 5]) if r.random() < 0.9 else r.choice([1, 1, 6])
    depth = r.choice([1, 1, 2, 3])
    sup, s = support(r, n)
    op = r.choice(ENTS)
    ops = [r.choice(ROTS) for _ in range(r.choice([1, 2, 3]))]
    pre = r.choice(["theta", "p", "w_1"])
    kw = dict(param_prefix=pre)
    custom = r.random() < 0.7
    if custom:
        kw.update(operations=[getattr(qd, o) for o in ops], entangler=getattr(qd, op))
    else:
        ops, op = (["RX", "RY", "RX"], "CNOT") if kind == "hea" else (["RX", "RY"], "CNOT")
    import itertools

    it, ie, vn, items = itertools.count(), itertools.count(), set(), []
    if kind == "hea":
        periodic = r.random() < 0.4
        analog = r.random() < 0.25 and 1 < n <= 4
        if analog:
            sup, s, periodic = None, list(range(n)), False
            kw.pop("entangler", None)
            h = gen.hamiltonian(r, n, None, terms=2) if r.random() < 0.6 else None
            mon.case(dict(what="hea_sdaqc", n=n, depth=depth, ops=ops, h=h))
            if h is not None:
                kw["entangler"] = build.block(h, {})
            blk = qd.hea(n, depth, strategy=Strategy.SDAQC, **kw)
            h = h or ["add", [["kron", [["N", i], ["N", j]]] for i in range(n) for j in range(i + 1, n)] + [["scale", 0.0, ["I", 0]]]]
        else:
            mon.case(dict(what="hea", n=n, depth=depth, support=sup, ops=ops, ent=op, periodic=periodic, prefix=pre))
            blk = qd.hea(n, depth, support=sup, periodic=periodic, **kw)
        for d in range(depth):
            items += rot_layers(ops, s, pre, it)
            if analog:
                vn.add(f"{pre}_t_{d}")
                items.append(["HamEvo", h, ["v", f"{pre}_t_{d}"]])
                continue
            for k in range(0, n - 1, 2):
                items.append(ent(op, s[k], s[k + 1], f"{pre}_ent_{next(ie)}", vn))
            if n > 2:
                for k in range(1, n if periodic else n - 1, 2):
                    items.append(ent(op, s[k], s[(k + 1) % n], f"{pre}_ent_{next(ie)}", vn))
                if periodic and n % 2:
                    items.append(ent(op, s[n - 1], s[0], f"{pre}_ent_{next(ie)}", vn))
        vn |= {f"{pre}_{i}" for i in range(depth * len(ops) * n)}
    else:
        m = r.randint(min(2, n), n)
        mon.case(dict(what="ala", n=n, m=m, depth=depth, support=sup, ops=ops, ent=op, prefix=pre))
        blk = qd.ala(n, m, depth, support=sup, **kw)
        for d in range(depth):
            items += rot_layers(ops, s, pre, it)
            start = 0 if d % 2 == 0 else -m // 2
            for j0 in ([0, 1] if m > 2 else [0]):
                for j in range(j0, m - 1, 2):
                    for i in range(start, n, m):
                        if 0 <= i + j and i + j + 1 < n:
                            items.append(ent(op, s[i + j], s[i + j + 1], f"{pre}_ent_ent_{next(ie)}", vn))
        vn |= {f"{pre}_{i}" for i in range(depth * len(ops) * n)}
    mon.ev(kind)
    spec_case(mon, r, blk, ["chain", items], s, vn, {}, kind)


def k_iia(r, mon):
    n, depth = r.choice([1, 2, 3, 4]), r.choice([1, 2, 3])
    ops = [r.choice(ROTS) for _ in range(r.choice([1, 2, 3]))]
    op = r.choice(ENTS)
    analog = r.random() < 0.3 and n > 1
    per = r.random() < 0.3 and n > 2
    pre = r.choice(["iia", "q"])
    kw = {}
    if analog:
        h = gen.hamiltonian(r, n, None, terms=2) if r.random() < 0.6 else None
        if h:
            kw["entangler"] = build.block(h, {})
        kw["strategy"] = Strategy.SDAQC
    elif n == 1:
        return k_fm(r, mon)
    else:
        h = None
        kw.update(entangler=getattr(qd, op), periodic=per)
    mon.case(dict(what="iia", n=n, depth=depth, ops=ops, ent=op, analog=analog, periodic=per, prefix=pre, h=h), n > 1)
    blk = qd.identity_initialized_ansatz(n, depth, param_prefix=pre, rotations=[getattr(qd, o) for o in ops], **kw)
    q = list(range(n))
    # identity at the initial values
    m = build.npy(block_to_tensor(blk, {}, qubit_support=tuple(q)))[0]
    mon.close(m, np.eye(2**n), "identity_init", "identity-initialised ansatz at its initial values", tol=3e-5)
    psi = gen.state(r, n)
    got = build.npy(qd.QuantumModel(qd.QuantumCircuit(n, blk)).run({}, state=sim.tstate(psi)))[0]
    mon.close(got, psi, "identity_init", "model with the ansatz at its initial values", tol=3e-5)
    if h is None and analog:
        h = ["add", [["kron", [["N", i], ["N", j]]] for i in q for j in range(i + 1, n)] + [["scale", 0.0, ["I", 0]]]]
    items, vn = [], set()

    def v(name):
        vn.add(name)
        return ["v", name]

    for L in range(depth):
        left = [[g, k, v(f"{pre}_α_{L}{k + n * i}")] for i, g in enumerate(ops) for k in q]
        if analog:
            ents = [["HamEvo", h, v(f"{pre}_ent_t_{L}")]]
        else:
            ents = [ent(op, k, (k + 1) % n, f"{pre}_θ_ent__{L}{k}", vn) for k in range(n if per else n - 1)]
        mid = [["RX", k, v(f"{pre}_γ_{L}{k}")] for k in q]
        right = [[g, k, v(f"{pre}_β_{L}{k + n * i}")] for i, g in reversed(list(enumerate(ops))) for k in q]
        items += left + ents + mid + ents[::-1] + right
    mon.ev("iia")
    spec_case(mon, r, blk, ["chain", items], q, vn, {}, "iia")


def k_rydberg(r, mon):
    n = r.choice([1, 2, 3])
    kind = r.choice(["fm", "tower", "analog_fm", "hea", "layer"])
    x = r.choice(["phi", "x"])
    mon.ev("rydberg")
    if kind in ("fm", "tower"):
        w = [round(r.uniform(0.2, 3), 3) for _ in range(n)] if kind == "fm" and r.random() < 0.6 else None
        mx = r.choice([2 * math.pi * 10, 5.0, 20.0])
        mon.case(dict(what="rydberg_" + kind, n=n, w=w, max=mx))
        xv = round(r.uniform(0.05, 2.5), 3)
        vals, trained = {x: xv}, []
        if kind == "tower":
            blk = rydberg_tower_feature_map(n, x, mx)
            c = [i + 1.0 for i in range(n)]
        else:
            blk = rydberg_feature_map(n, x, mx, w)
            c = w or [round(r.uniform(0.2, 3), 3) for _ in range(n)]
            if w is None:
                trained = [f"w_{x}_{i}" for i in range(n)]
                vals.update(dict(zip(trained, c)))
        ps = names(blk)
        mon.check({k for k, p in ps.items() if p.trainable} == set(trained), "params", "trainable parameters of the rydberg feature map")
        psi = gen.state(r, n)
        want = psi
        for i in range(n):
            want = ref.embed(ref.phase(-c[i] * xv), [i], n) @ want
        sp = r.choice([7.0, 9.0])
        reg = qd.Register.line(n, spacing=sp)
        # every local rotation takes x / max_detuning * sum(weights) us, during which all the atoms interact
        h = np.diag(h_int({i: (i * sp, 0.0) for i in range(n)}, n, dict(interaction="NN", level=60))).real
        want = np.exp(-1j * h * n * xv * sum(c) / mx) * want
        got = build.npy(qd.run(reg, blk, values={k: torch.tensor([v], dtype=torch.float64) for k, v in vals.items()}, state=sim.tstate(psi)))
        mon.close(got[0], want, "executed", "rydberg feature map", tol=1e-4)
        return
    if kind == "analog_fm":
        op = r.choice(["AnalogRX", "AnalogRY", "AnalogRZ"])
        ft = r.choice([BasisSet.FOURIER, BasisSet.CHEBYSHEV])
        fr = r.choice([None, (0.0, 1.0), (-2.0, 3.0)])
        mult = r.choice([None, 0.5])
        nat = (0.0, 2 * math.pi) if ft == BasisSet.FOURIER else (-1.0, 1.0)
        sc, sh = affine(fr or nat, nat)
        f = fr or nat
        xv = round(min(f) + (max(f) - min(f)) * r.uniform(0.05, 0.95), 3)
        a = sc * xv + sh
        a = a if ft == BasisSet.FOURIER else math.acos(a)
        a *= mult or 1.0
        mon.case(dict(what=kind, op=op, ft=str(ft), fr=fr, mult=mult))
        blk = analog_feature_map(x, getattr(qd, op), ft, feature_range=fr, multiplier=mult)
        # a single atom does not interact
        reg = qd.Register.line(1)
        psi = gen.state(r, 1)
        u = {"AnalogRX": ref.rx, "AnalogRY": ref.ry, "AnalogRZ": ref.rz}[op](a)
        want = u @ psi
        got = build.npy(qd.run(reg, qd.chain(blk), values={x: torch.tensor([xv], dtype=torch.float64)}, state=sim.tstate(psi)))[0]
        if op == "AnalogRZ":  # generated by N, i.e. up to a global phase
            ph = np.vdot(got, want)
            got = got * ph / abs(ph)
        mon.close(got, want, "executed", "analog feature map", tol=1e-4)
        return
    n = max(n, 2)
    reg = qd.Register.line(n) if r.random() < 0.5 else qd.Register.all_to_all(n)
    edges = [(i, i + 1) for i in range(n - 1)] if reg.edges and len(reg.edges) == n - 1 else [(i, j) for i in range(n) for j in range(i + 1, n)]
    inter = ["add", [["kron", [["N", i], ["N", j]]] for i, j in edges] + [["scale", 0.0, ["I", 0]]]]

    def amap(o, w):
        return ["add", [["scale", 1.0 if w is None else w[i], [o, i]] for i in range(n)]]

    def layer(td, tdet, tw, phase, det, drv, scale):
        if phase is None:
            g = ["add", [["scale", scale, amap("X", drv)], inter]]
        else:
            g = ["add", [["scale", ["*", scale, ["cos", phase]], amap("X", drv)],
                         ["scale", ["*", -scale, ["sin", phase]], amap("Y", drv)], inter]]
        return [["HamEvo", g, td], ["HamEvo", inter, tw], ["HamEvo", amap("N", det), tdet]]

    if kind == "layer":
        nums = [round(r.uniform(-1, 1.5), 3) for _ in range(3)]
        det = [round(r.uniform(-1, 1), 3) for _ in range(n)] if r.random() < 0.5 else None
        drv = [round(r.uniform(-1, 1), 3) for _ in range(n)] if r.random() < 0.5 else None
        ph = round(r.uniform(-2, 2), 3) if r.random() < 0.5 else None
        sc = r.choice([1.0, 0.5, -2.0])
        mon.case(dict(what=kind, n=n, t=nums, det=det, drv=drv, phase=ph, scale=sc))
        blk = rydberg_hea_layer(reg, *nums, phase=ph, detunings=det, drives=drv, drive_scaling=sc)
        spec = ["chain", layer(nums[0], nums[1], nums[2], ph, det, drv, sc)]
        spec_case(mon, r, blk, spec, list(range(n)), [], {}, "rydberg_hea_layer", tol=1e-4)
        return
    depth, ad, adr, tp = r.choice([1, 2]), r.random() < 0.5, r.random() < 0.5, r.random() < 0.5
    pre = r.choice([None, "z"])
    mon.case(dict(what=kind, n=n, depth=depth, det=ad, drive=adr, phase=tp, prefix=pre))
    blk = rydberg_hea(reg, depth, ad, adr, tp, pre)
    px = "" if pre is None else "_" + pre
    det = [["v", f"detmap_{j}"] for j in range(n)] if ad else None
    drv = [["v", f"drivemap_{j}"] for j in range(n)] if adr else None
    ph = ["v", "phase"] if tp else None
    items = []
    for L in range(depth):
        items += layer(["v", f"At{px}_{L}"], ["v", f"Omega{px}_{L}"], ["v", f"wait{px}_{L}"], ph, det, drv, 1.0)
    spec = ["chain", items]
    spec_case(mon, r, blk, spec, list(range(n)), ref.names_of(spec, "v"), {}, "rydberg_hea", tol=2e-4)


def case(r, idx, mon):
    k = r.choice(["qft", "qft", "daqc", "fm", "fm", "expfm", "hea", "hea", "ala", "iia", "rydberg"])
    if k == "qft":
        k_qft(r, mon)
    elif k == "daqc":
        k_daqc(r, mon)
    elif k in ("fm", "expfm"):
        k_fm(r, mon, k == "expfm")
    elif k in ("hea", "ala"):
        k_hea(r, mon, k)
    elif k == "iia":
        k_iia(r, mon)
    else:
        k_rydberg(r, mon)


def _probe_rydberg_hea():
    """The interaction of the Rydberg ansatz is determined by the positions: C6/r^6 (docstring)."""
    us = []
    for sp in (6.0, 12.0):
        blk = rydberg_hea_layer(qd.Register.line(2, spacing=sp), 0.0, 0.0, 1.0)
        us.append(build.npy(block_to_tensor(blk))[0])
    if np.allclose(us[0], us[1]):
        return "rydberg_hea does not depend on the distance between the atoms"


PROBES = {"rydberg_hea_interaction": _probe_rydberg_hea}
