"""C30: models built from configurations are the documented circuits and observables."""
from __future__ import annotations

import itertools
import math

import numpy as np
import sympy
import torch

import qadence as qd
from qadence.constructors import ObservableConfig, analog_feature_map, hamiltonian_factory, rydberg_feature_map, rydberg_hea, rydberg_tower_feature_map
from qadence.ml_tools.config import AnsatzConfig, FeatureMapConfig
from qadence.types import AnsatzType, BasisSet, Interaction, MultivariateStrategy, ReuploadScaling, Strategy

from .. import build, gen, ref, sim
from .c17 import ENTS, ROTS, affine, ent, rot_layers

ID = "C30"
CASES = {"quick": 700, "thorough": 12000}
RULE = (
    "QNN.from_configs over random feature map configurations (up to three features, series or parallel, per-feature basis, scaling, ranges and "
    "repeats, trainable prefixes), ansatz configurations (HEA, IIA, ALA; digital, sDAQC, Rydberg) and observable configurations (interactions, "
    "detunings, scales and shifts as numbers, trainable or features), and QCNN: parameters, input order and outputs against the documented "
    "construction written as a spec and evaluated by the numpy reference; non-trivial: at least one feature"
)
MIN_EVENTS = {"forward": 500, "params": 500, "multi": 150, "series": 60, "parallel": 60, "repeats": 100, "ala": 50, "iia": 50, "sdaqc": 30,
              "transform": 60, "several_observables": 60, "qcnn": 40, "analog": 20, "operation_wins": 5}
ASSUMPTIONS = ["analog and Rydberg parts are compared with the same model written with the constructors that C17 judges",
               "QCNN with uncorrelated parameters and layers of even width"]
BASIS = {"Fourier": BasisSet.FOURIER, "Chebyshev": BasisSet.CHEBYSHEV}
SCALING = {"Constant": ReuploadScaling.CONSTANT, "Tower": ReuploadScaling.TOWER, "Exponential": ReuploadScaling.EXP}
NAT = {"Fourier": (0.0, 2 * math.pi), "Chebyshev": (-1.0, 1.0)}


def dict_or_single(r, inputs, pick):
    """A configuration value: one for all features, or one per feature."""
    if r.random() < 0.5:
        v = pick()
        return v, {k: v for k in inputs}
    d = {k: pick() for k in inputs}
    return d, d


def fm_layer(n, sup, x, op, basis, scaling, fr, tr, pre, vn):
    sc, sh = affine(fr or NAT[basis], tr or NAT[basis])
    fac = {"Constant": lambda i: 1.0, "Tower": lambda i: i + 1.0, "Exponential": lambda i: 2.0**i}[scaling]
    out = []
    for i, q in enumerate(sup):
        a = ["+", ["*", sc, ["f", x]], sh]
        if pre:
            vn.add(f"{pre}_{i}")
            a = ["*", ["v", f"{pre}_{i}"], a]
        if basis == "Chebyshev":
            a = ["acos", a]
        out.append([op, q, ["*", fac(i), a]])
    return out


def nn_ham(n):
    return ["add", [["kron", [["N", i], ["N", j]]] for i in range(n) for j in range(i + 1, n)] + [["scale", 0.0, ["I", 0]]]]


def ansatz_spec(n, a, depth, pre, vn):
    q = list(range(n))
    it, ie, items = itertools.count(), itertools.count(), []
    ops, op, per = a["ops"], a["ent"], a["periodic"]
    if a["type"] == "HEA":
        for d in range(depth):
            items += rot_layers(ops, q, pre, it)
            if a["strategy"] == "sdaqc":
                if n > 1:
                    vn.add(f"{pre}_t_{d}")
                    items.append(["HamEvo", a["h"] or nn_ham(n), ["v", f"{pre}_t_{d}"]])
                continue
            for k in range(0, n - 1, 2):
                items.append(ent(op, k, k + 1, f"{pre}_ent_{next(ie)}", vn))
            if n > 2:
                for k in range(1, n if per else n - 1, 2):
                    items.append(ent(op, k, (k + 1) % n, f"{pre}_ent_{next(ie)}", vn))
                if per and n % 2:
                    items.append(ent(op, n - 1, 0, f"{pre}_ent_{next(ie)}", vn))
        vn |= {f"{pre}_{i}" for i in range(depth * len(ops) * n)}
    elif a["type"] == "ALA":
        m = a["m"]
        for d in range(depth):
            items += rot_layers(ops, q, pre, it)
            start = 0 if d % 2 == 0 else -m // 2
            for j0 in [0, 1] if m > 2 else [0]:
                for j in range(j0, m - 1, 2):
                    for i in range(start, n, m):
                        if 0 <= i + j and i + j + 1 < n:
                            items.append(ent(op, i + j, i + j + 1, f"{pre}_ent_ent_{next(ie)}", vn))
        vn |= {f"{pre}_{i}" for i in range(depth * len(ops) * n)}
    else:

        def v(name):
            vn.add(name)
            return ["v", name]

        for L in range(depth):
            left = [[g, k, v(f"{pre}_α_{L}{k + n * i}")] for i, g in enumerate(ops) for k in q]
            if a["strategy"] == "sdaqc":
                ents = [["HamEvo", a["h"] or nn_ham(n), v(f"{pre}_ent_t_{L}")]]
            else:
                ents = [ent(op, k, (k + 1) % n, f"{pre}_θ_ent__{L}{k}", vn) for k in range(n if per else n - 1)]
            mid = [["RX", k, v(f"{pre}_γ_{L}{k}")] for k in q]
            right = [[g, k, v(f"{pre}_β_{L}{k + n * i}")] for i, g in reversed(list(enumerate(ops))) for k in q]
            items += left + ents + mid + ents[::-1] + right
    return items


def gen_ansatz(r, n, depths=(1, 1, 2, 3)):
    t = r.choice(["HEA", "HEA", "ALA", "IIA"])
    a = dict(type=t, depth=r.choice(depths), strategy="digital", periodic=False, h=None, prefix=r.choice(["theta", "w", "an_1"]))
    custom = r.random() < 0.6
    a["ops"] = [r.choice(ROTS) for _ in range(r.choice([1, 2, 3]))] if custom else (["RX", "RY"] if t == "IIA" else ["RX", "RY", "RX"])
    a["ent"] = r.choice(ENTS) if custom else "CNOT"
    args = dict(operations=[getattr(qd, o) for o in a["ops"]], entangler=getattr(qd, a["ent"])) if custom else {}
    if t == "ALA":
        a["m"] = r.randint(2, n)
    elif r.random() < 0.3:
        a["strategy"] = "sdaqc"
        args.pop("entangler", None)
        if r.random() < 0.5:
            a["h"] = gen.hamiltonian(r, n, None, terms=2)
            args["entangler"] = build.block(a["h"], {})
    elif r.random() < 0.4 and (t == "HEA" or n > 2):
        a["periodic"] = args["periodic"] = True
    cfg = AnsatzConfig(depth=a["depth"], ansatz_type=getattr(AnsatzType, t), m_block_qubits=a.get("m"), strategy_args=args,
                       ansatz_strategy=Strategy.SDAQC if a["strategy"] == "sdaqc" else Strategy.DIGITAL, param_prefix=a["prefix"],
                       tag=r.choice([None, "ansatz"]))
    return a, cfg


def gen_fm(r, n):
    nf = r.choice([0, 1, 1, 2, 2, 3])
    names = r.sample(["x", "y", "t", "phi_1", "u"], nf)
    par = r.random() < 0.5 and nf <= n
    if nf == 1 and r.random() < 0.3:
        names = ["x"]
    kw = dict(num_features=nf, multivariate_strategy=MultivariateStrategy.PARALLEL if par else MultivariateStrategy.SERIES)
    if nf != 1 or names != ["x"] or r.random() < 0.5:
        kw["inputs"] = list(names)
    raw_b, basis = dict_or_single(r, names, lambda: r.choice(list(BASIS)))
    raw_s, scal = dict_or_single(r, names, lambda: r.choice(list(SCALING)))
    raw_f, fr = dict_or_single(r, names, lambda: r.choice([None, (0.0, 1.0), (-2.0, 3.0)]))
    raw_r, rep = dict_or_single(r, names, lambda: r.choice([0, 0, 1, 2]))
    conv = lambda v, m: {k: m[x] for k, x in v.items()} if isinstance(v, dict) else m[v]  # noqa: E731
    op = r.choice(ROTS)
    pre = "fmw" if r.random() < 0.25 and all(b == "Fourier" for b in basis.values()) else None
    tr = {k: None for k in names}
    if r.random() < 0.4:
        tr = {k: (-0.9, 0.8) if basis[k] == "Chebyshev" else (0.0, 3.0) for k in names}
        kw["target_range"] = dict(tr)
        if r.random() < 0.5 and len(set(tr.values())) == 1:
            kw["target_range"] = next(iter(tr.values()))
    if op != "RX" or r.random() < 0.5:
        kw["operation"] = getattr(qd, op)
    cfg = FeatureMapConfig(basis_set=conv(raw_b, BASIS), reupload_scaling=conv(raw_s, SCALING), feature_range=raw_f, num_repeats=raw_r,
                           param_prefix=pre, tag=r.choice([None, "fm"]), **kw)
    d = dict(nf=nf, names=names, parallel=par, basis=basis, scaling=scal, fr=fr, tr=tr, repeats=rep, op=op, prefix=pre)
    return d, cfg


def fm_spec(n, d, vn):
    """list of layers"""
    if not d["nf"]:
        return []
    split = [list(map(int, s)) for s in np.array_split(np.arange(n), d["nf"])]
    layers = []
    for i in range(max(d["repeats"].values()) + 1):
        row = []
        for j, x in enumerate(d["names"]):
            if d["repeats"][x] >= i:
                pre = f"{d['prefix']}_{x}" if d["prefix"] else None
                row.append(fm_layer(n, split[j] if d["parallel"] else list(range(n)), x, d["op"], d["basis"][x], d["scaling"][x],
                                    d["fr"][x], d["tr"][x], pre, vn))
        layers += [sum(row, [])] if d["parallel"] else row
    return layers


def gen_obs(r, n, idx):
    inter = r.choice([None, "ZZ", "NN", "XY", "XYZ", "custom"])
    det = r.choice(["Z", "X", "Y", "N"]) if inter is None else r.choice([None, "Z", "X", "N"])
    mode = r.choice(["default", "number", "number", "train", "feature", "param"])
    terms = []
    for i in range(n):
        for j in range(i + 1, n):
            if inter:
                gs = {"ZZ": ["Z"], "NN": ["N"], "XY": ["X", "Y"], "XYZ": ["X", "Y", "Z"], "custom": None}[inter]
                if gs is None:
                    terms.append(["scale", 0.5, ["kron", [["X", i], ["Z", j]]]])
                else:
                    terms += [["kron", [[g, i], [g, j]]] for g in gs]
    if det:
        terms += [[det, i] for i in range(n)]
    kw, vals = {}, None
    sc, sh = 1.0, 0.0
    if mode == "number":
        sc, sh = round(r.uniform(-3, 3), 3), round(r.uniform(-2, 2), 3)
        kw = dict(scale=sc, shift=sh)
    elif mode in ("train", "feature"):
        k = "v" if mode == "train" else "f"
        sc, sh = [k, f"scale{idx}"], [k, f"shift{idx}"]
        kw = dict(scale=f"scale{idx}", shift=f"shift{idx}", trainable_transform=mode == "train")
    elif mode == "param":
        sc = ["v", f"scale{idx}"]
        kw = dict(scale=qd.VariationalParameter(f"scale{idx}"), shift=0.25)
        sh = 0.25
    spec = ["add", [["scale", sh, ["I", 0]], ["scale", sc, ["add", terms] if len(terms) > 1 else terms[0]]]]
    fn = {"ZZ": Interaction.ZZ, "NN": Interaction.NN, "XY": Interaction.XY, "XYZ": Interaction.XYZ, None: None,
          "custom": lambda i, j: 0.5 * qd.X(i) @ qd.Z(j)}[inter]
    return spec, ObservableConfig(interaction=fn, detuning=getattr(qd, det) if det else None, tag=r.choice([None, f"obs{idx}"]), **kw), mode


def evaluate(mon, r, q, n, items, obs, order, vn, ranges, what):
    have = {k for k in q.vparams}
    mon.check(have == vn, "params", f"trainable parameters of {what}: unexpected {sorted(have - vn)}, missing {sorted(vn - have)}")
    mon.check([str(i) for i in q.inputs] == order, "params", f"inputs {q.inputs} expected {order}")
    vv = {k: round(r.uniform(-3, 3), 4) for k in sorted(vn)}
    q.reset_vparams([vv[k] for k in q.vparams])
    batch = r.choice([1, 2, 3])
    x = np.array([[round(lo + (hi - lo) * r.uniform(0.03, 0.97), 4) for lo, hi in ranges] for _ in range(batch)]).reshape(batch, len(order))
    env = [{**vv, **dict(zip(order, row))} for row in x]
    psi = sim.ref_states(["chain", items], n, env)
    want = sim.ref_expect(obs, psi, n, env)
    t = torch.tensor(x, dtype=torch.float64)
    got = build.npy(q(t) if order else q())
    mon.close(got, want if len(got) == len(want) else want[:1], "forward", f"output of {what}", tol=2e-4)


def k_configs(r, mon):
    n = r.choice([2, 2, 3, 3, 4])
    d, fm = gen_fm(r, n)
    a, an = gen_ansatz(r, n)
    k = r.choice([1, 1, 2])
    raw = [gen_obs(r, n, i) for i in range(k)]
    if any(m == "feature" for _, _, m in raw):
        # the inputs of the QNN are those of the feature map: feature transforms are fed as a dictionary below
        pass
    obs, ocs = [o for o, _, _ in raw], [c for _, c, _ in raw]
    reg = n if r.random() < 0.7 else qd.Register.all_to_all(n)
    mon.case(dict(n=n, fm=d, ansatz=a, obs=obs), d["nf"] > 0)
    vn = set().union(*[ref.names_of(o, "v") for o in obs])
    layers = fm_spec(n, d, vn)
    items = []
    for i, ly in enumerate(layers):
        items += ly
        if i + 1 < len(layers):
            items += ansatz_spec(n, a, 1, f"fm_{i}", vn)
    items += ansatz_spec(n, a, a["depth"], a["prefix"], vn)
    for key, on in [("multi", d["nf"] > 1), ("series", d["nf"] > 1 and not d["parallel"]), ("parallel", d["nf"] > 1 and d["parallel"]),
                    ("repeats", any(d["repeats"].values())), ("ala", a["type"] == "ALA"), ("iia", a["type"] == "IIA"),
                    ("sdaqc", a["strategy"] == "sdaqc"), ("transform", any(m in ("train", "feature") for *_, m in raw)), ("several_observables", k > 1)]:
        if on:
            mon.ev(key)
    feats = sorted(set().union(*[ref.names_of(o, "f") for o in obs]))
    kw = {}
    q = None
    if feats:
        # every input has to be in the feature map's list for a QNN: compare through the model interface instead
        from qadence.ml_tools.constructors import create_ansatz, create_fm_blocks, create_observable

        for o, c in zip(obs, ocs):
            blk = create_observable(reg, c)
            env = {f: round(r.uniform(-2, 2), 3) for f in ref.names_of(o)}
            vals = {f: torch.tensor([v], dtype=torch.float64) for f, v in env.items()}
            m = build.npy(qd.block_to_tensor(blk, vals, qubit_support=tuple(range(n))))[0]
            mon.close(m, ref.mat_of(o, env, n), "forward", "observable with feature transform", tol=1e-5)
        return
    q = qd.QNN.from_configs(reg, ocs[0] if k == 1 and r.random() < 0.5 else ocs, fm, an, **kw)
    mon.check(q.out_features == k, "params", f"out_features {q.out_features}")
    ranges = [d["fr"][x] or NAT[d["basis"][x]] for x in d["names"]]
    evaluate(mon, r, q, n, items, obs, d["names"], vn, ranges, f"QNN.from_configs ({a['type']}, {d['nf']} features)")


def k_qcnn(r, mon):
    n, depth = r.choice([(4, [1]), (4, [3]), (4, [1, 1]), (6, [1]), (6, [3]), (8, [1, 1]), (8, [1, 3, 1]), (8, [1, 1, 1]), (8, [3, 1])])
    ops = r.choice([["RX", "RZ"], ["RX"], ["RX", "RZ", "RX"]])
    op = r.choice(["CZ", "CNOT"])
    ni = r.randint(1, n)
    fmb, fmg = r.choice(["Fourier", "Chebyshev"]), r.choice(["RX", "RY"])
    meas = r.random() < 0.5
    mon.case(dict(what="qcnn", n=n, depth=depth, ops=ops, ent=op, inputs=ni, fm=[fmb, fmg], random_meas=meas))
    q = qd.QCNN(ni, n, depth, [getattr(qd, o) for o in ops], getattr(qd, op), meas, fmb, getattr(qd, fmg))
    vn = set()
    order = [f"φ_{i}" for i in range(ni)]
    items = []
    for i, sup in enumerate(np.array_split(np.arange(n), ni)):
        items += fm_layer(n, list(map(int, sup)), order[i], fmg, fmb, "Constant", None, None, None, vn)
    idx = list(range(n))
    for L, reps in enumerate(depth):
        for rep in range(reps):
            it = itertools.count()

            def th():
                k = f"θ_{L}_{rep}_{next(it)}"
                vn.add(k)
                return ["v", k]

            off = rep % 2 if L < 2 else 0
            ps = list(zip(idx[off::2], idx[off + 1 :: 2]))
            for c, t in ps:
                for o in ops:
                    items += [[o, c, th()], [o, t, th()]]
                items.append([op, t, c])
                items += [["RZ", c, th()], ["RY", t, th()], [op, c, t], ["RY", t, th()], [op, t, c]]
                for o in ops:
                    items += [[o, c, th()], [o, t, th()]]
                if rep == reps - 1:
                    items.append([op, c, t])
        idx = idx[1::2]
    if meas:
        vn |= {f"w{i}" for i in range(n)}
        obs = ["add", [["scale", ["v", f"w{i}"], ["Z", i]] for i in range(n)]]
    else:
        obs = ["add", [["Z", i] for i in range(n)]]
    mon.ev("qcnn")
    evaluate(mon, r, q, n, items, [obs], order, vn, [NAT[fmb]] * ni, "QCNN")


def same_model(mon, r, q, circ, obs, feats, what):
    m = qd.QuantumModel(circ, obs)
    a, b = {k for k in q.vparams}, {k for k in m.vparams}
    mon.check(a == b, "params", f"trainable parameters of {what}: {sorted(a ^ b)} differ")
    vv = {k: round(r.uniform(-1, 1), 3) for k in sorted(b)}
    q.reset_vparams([vv[k] for k in q.vparams])
    m.reset_vparams([vv[k] for k in m.vparams])
    x = torch.tensor([[round(r.uniform(0.05, 0.9), 3) for _ in feats] for _ in range(2)], dtype=torch.float64)
    got = build.npy(q(x) if feats else q())
    want = build.npy(m.expectation({k: x[:, i] for i, k in enumerate(feats)}))
    mon.close(got, want, "forward", f"output of {what}", tol=1e-5)


def k_analog(r, mon):
    n = r.choice([2, 2, 3])
    reg = qd.Register.line(n, spacing=r.choice([7.0, 9.0]))
    which = r.choice(["analog", "rydberg", "tower", "rydberg_hea", "digital_op"])
    oc = ObservableConfig(detuning=qd.Z)
    ob = qd.add(*[qd.Z(i) for i in range(n)])
    mon.ev("analog")
    an = AnsatzConfig(depth=1)
    hea = qd.hea(n, 1)
    feats = ["x", "y"][: r.choice([1, 2])]
    kw = dict(num_features=len(feats), inputs=list(feats), multivariate_strategy=MultivariateStrategy.SERIES)
    mid = lambda i: qd.hea(n, 1, param_prefix=f"fm_{i}")  # noqa: E731
    mon.case(dict(what=which, n=n, feats=feats))
    if which == "analog":
        op = r.choice([None, "AnalogRX", "AnalogRY"])
        if op:
            kw["operation"] = getattr(qd, op)
        fm = FeatureMapConfig(feature_map_strategy=Strategy.ANALOG, **kw)
        blocks = [analog_feature_map(f, getattr(qd, op or "AnalogRX"), BasisSet.FOURIER) for f in feats]
    elif which in ("rydberg", "tower"):
        fm = FeatureMapConfig(feature_map_strategy=Strategy.RYDBERG,
                              reupload_scaling=ReuploadScaling.CONSTANT if which == "rydberg" else ReuploadScaling.TOWER, **kw)
        blocks = [rydberg_feature_map(n, f) if which == "rydberg" else rydberg_tower_feature_map(n, f) for f in feats]
    elif which == "digital_op":
        # the operation has preference over the strategy
        st, op = r.choice([(Strategy.RYDBERG, "RY"), (Strategy.ANALOG, "RZ"), (Strategy.DIGITAL, "AnalogRX"), (Strategy.RYDBERG, "AnalogRY")])
        fm = FeatureMapConfig(feature_map_strategy=st, operation=getattr(qd, op), **kw)
        if op.startswith("Analog"):
            blocks = [analog_feature_map(f, getattr(qd, op), BasisSet.FOURIER) for f in feats]
        else:
            blocks = [qd.feature_map(n, param=f, op=getattr(qd, op)) for f in feats]
        mon.ev("operation_wins")
    else:
        args = {k: r.random() < 0.5 for k in ("addressable_detuning", "addressable_drive", "tunable_phase") if r.random() < 0.6}
        depth = r.choice([1, 2])
        an = AnsatzConfig(depth=depth, ansatz_strategy=Strategy.RYDBERG, strategy_args=args)
        full = dict(addressable_detuning=True, addressable_drive=False, tunable_phase=False)
        full.update(args)
        hea = rydberg_hea(reg, n_layers=depth, additional_prefix="theta", **full)
        mid = lambda i: rydberg_hea(reg, n_layers=1, additional_prefix=f"fm_{i}", **full)  # noqa: E731
        fm = FeatureMapConfig(**kw)
        blocks = [qd.feature_map(n, param=f) for f in feats]
    seq = []
    for i, b in enumerate(blocks):
        seq.append(b)
        if i + 1 < len(blocks):
            seq.append(mid(i))
    q = qd.QNN.from_configs(reg, oc, fm, an)
    same_model(mon, r, q, qd.QuantumCircuit(reg, *seq, hea), ob, feats, which)


def case(r, idx, mon):
    u = r.random()
    if u < 0.1:
        k_qcnn(r, mon)
    elif u < 0.2:
        k_analog(r, mon)
    else:
        k_configs(r, mon)
