"""C08: serialization round trips preserve the object and its behaviour."""
from __future__ import annotations

import json
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np
import sympy
import torch

import qadence as qd
from qadence.blocks.block_to_tensor import block_to_tensor
from qadence.measurements import Measurements
from qadence.serialization import deserialize, load, save, serialize
from qadence.types import SerializationFormat

from .. import build, gen, ref, sim
from .c02 import operator

ID = "C08"
CASES = {"quick": 1600, "thorough": 24000}
RULE = (
    "random blocks (every gate, incl. U, multi-controlled, projector, matrix and Hamiltonian-evolution blocks, tags, noise), "
    "circuits on custom registers, parameter expressions, quantum models and QNNs (trained parameters) through dict, JSON text "
    "and .json/.pt files; behaviour of the result against the numpy reference; non-trivial: has a parameter or is composite"
)
MIN_EVENTS = {"block_matrix": 300, "circuit_state": 100, "model_expectation": 80, "qnn_expectation": 40, "expression": 150,
              "equal": 500, "trained": 40, "original_unchanged": 500, "tags": 300}
ASSUMPTIONS = ["tolerance 2e-5 on behaviour", "JSON models carry initial parameter values only (documented save_params=False)"]


def tagged(r, s, p=0.2):
    """Insert tags at random places (not inside generators or observables)."""
    if s[0] in ("chain", "kron"):
        s = [s[0], [tagged(r, b, p) for b in s[1]]]
    if s[0] in ("chain", "kron") or s[0] in ref.ROT or s[0] in ref.FIXED or s[0] in ref.CFIXED or s[0] in ref.CROT or s[0] == "HamEvo":
        if r.random() < p:
            return ["tag", "tag" + str(r.randrange(100)), s]
    return s


def untag(s):
    if s[0] == "tag":
        return untag(s[2])
    if s[0] in ("chain", "kron", "add"):
        return [s[0], [untag(b) for b in s[1]]]
    if s[0] == "scale":
        return [s[0], s[1], untag(s[2])]
    return s


def tags(b):
    out = [(type(b).__name__, b.tag)]
    for c in getattr(b, "blocks", ()):
        out += tags(c)
    if isinstance(b, qd.blocks.ScaleBlock):
        out += tags(b.block)
    return out


def expr_val(e, env):
    return complex(sympy.N(e.xreplace({s: sympy.Float(env[s.name], 17) for s in e.free_symbols})))


def attrs(e):
    return sorted((s.name, s.trainable, getattr(s, "is_time", False), float(s.value)) for s in e.free_symbols)


def fresh(r):
    """Forget the symbols of this process, as a new process that loads the object would not know them."""
    if r.random() < 0.5:
        sympy.core.cache.clear_cache()


def trip(r, obj, kind, mon):
    """One of the round trips; returns the reconstructed object and whether trained parameters travel."""
    way = r.choice(["dict", "json", "file_json", "file_pt"])
    mon.ev("way_" + way)
    model = kind in ("model", "qnn")
    if way in ("dict", "json"):
        if model and way == "dict" and r.random() < 0.6:
            d = serialize(obj, save_params=True)
            fresh(r)
            return deserialize(d, as_torch=True), True
        d = serialize(obj)
        if way == "json":
            d = json.loads(json.dumps(d))
        fresh(r)
        return deserialize(d), False
    tmp = tempfile.mkdtemp(prefix="vf_c08_")
    try:
        fmt = SerializationFormat.JSON if way == "file_json" else SerializationFormat.PT
        ext = way[5:]
        if model and ext == "pt" and r.random() < 0.4:
            obj.save(tmp, "m.pt")
            fresh(r)
            return type(obj).load(os.path.join(tmp, "m.pt"), as_torch=True), True
        if r.random() < 0.5:
            save(obj, tmp, "obj", fmt)
            name = "obj." + ext
        else:
            save(obj, Path(tmp), format=fmt)
            (name,) = os.listdir(tmp)
            mon.check(name == f"{type(obj).__name__}.{ext}", "file_name", f"file {name}")
        p = os.path.join(tmp, name)
        fresh(r)
        return load(p if r.random() < 0.5 else Path(p)), model and ext == "pt"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def case(r, idx, mon):
    kind = r.choice(["block", "block", "block", "circuit", "circuit", "model", "model", "qnn", "expr", "register"])
    n = r.randint(1, 4)
    p = gen.P(r, nf=2, nv=2)
    if kind == "expr":
        sp = p(3)
        if isinstance(sp, (int, float)):
            sp = p.expr(2)
        if isinstance(sp, (int, float)):
            return
        mon.case(dict(kind=kind, spec=sp, vvals=p.vvals))
        e = build.param(sp, p.vvals)
        before = attrs(e)
        e2, _ = trip(r, e, kind, mon)
        env = {k: r.uniform(-0.9, 0.9) for k in ref.pnames(sp)}
        mon.close(expr_val(e2, env), complex(ref.pval(sp, env)), "expression", "value of the expression", tol=1e-9)
        mon.check(attrs(e2) == before, "expression", f"symbols {attrs(e2)} != {before}")
        for q in e.free_symbols:
            fresh(r)
            q2 = qd.Parameter._from_dict(q._to_dict())
            mon.check((q2.name, q2.trainable, float(q2.value)) == (q.name, q.trainable, float(q.value)), "expression", f"parameter {q2} for {q}")
        mon.check(attrs(e) == before, "original_unchanged", f"original symbols {attrs(e)} != {before}")
        return
    if kind == "register":
        pts = {i: (r.uniform(-5, 5), r.uniform(-5, 5)) for i in range(r.randint(1, 6))}
        k = len(pts)
        edges = [(i, j) for i in range(k) for j in range(i + 1, k) if r.random() < 0.4]
        sp = r.choice([1.0, 3.5, 8.0])
        mon.case(dict(kind=kind, pts=pts, edges=edges, sp=sp))
        reg = qd.Register.from_coordinates([pts[i] for i in range(k)], spacing=sp)
        reg2, _ = trip(r, reg, kind, mon)
        mon.check(reg2 == reg, "equal", "register differs after a round trip")
        mon.check(all(np.allclose(reg.coords[i], reg2.coords[i]) for i in range(k)) and set(reg.edges) == set(reg2.edges), "register",
                  "coordinates or edges differ")
        return
    if kind == "block" and r.random() < 0.35:
        spec = gen.hamiltonian(r, n, p, ops=("X", "Y", "Z", "N", "I"))
        if r.random() < 0.3:
            spec = ["add", [spec, ["scale", gen.nz(r), ["Proj", *(lambda q: ["".join(r.choice("01") for _ in q)] * 2 + [q])(gen.sub(r, n, r.randint(1, min(2, n))))]]]]
    else:
        spec = tagged(r, gen.circuit(r, n, p))
    plain = untag(spec)
    blk = build.block(spec, p.vvals)
    used_f = ref.names_of(plain, "f")
    batch = r.choice([1, 2])
    fenv = sim.used_env(p, [plain], batch, mixed=False)
    batch = sim.eff_batch(fenv)
    envl = sim.envs(p.vvals, fenv, batch)
    vals = build.values(fenv, fenv)
    if kind == "block":
        mon.case(dict(kind=kind, n=n, spec=spec, vvals=p.vvals, fenv=fenv), bool(ref.names_of(plain)) or spec[0] in ("chain", "kron", "add"))
        before, tg, text = sorted(map(str, blk.qubit_support)), tags(blk), str(blk)
        b2, _ = trip(r, blk, kind, mon)
        sup = tuple(range(n))
        M = np.array([ref.mat_of(plain, e, n) for e in envl])
        mon.close(build.npy(block_to_tensor(b2, vals, qubit_support=sup)), fit(M, plain), "block_matrix", "matrix after the round trip")
        mon.close(build.npy(block_to_tensor(blk, vals, qubit_support=sup)), fit(M, plain), "original_unchanged", "matrix of the original afterwards")
        mon.check(str(blk) == text and tags(blk) == tg, "original_unchanged", "the original changed")
        mon.check(tags(b2) == tg, "tags", f"tags/types {tags(b2)} != {tg}")
        mon.check(sorted(map(str, b2.qubit_support)) == before, "support", "support")
        mon.check(bool(blk == b2) and bool(b2 == blk), "equal", "the result is not equal to the original")
        return
    N = n + r.choice([0, 0, 1])
    reg = N
    if r.random() < 0.5:
        reg = r.choice([qd.Register.line, qd.Register.circle, qd.Register.all_to_all])(N, spacing=r.choice([1.0, 7.5]))
    circ = qd.QuantumCircuit(reg, blk)
    psi = sim.ref_states(plain, N, envl)
    if kind == "circuit":
        mon.case(dict(kind=kind, N=N, spec=spec, vvals=p.vvals, fenv=fenv))
        c2, _ = trip(r, circ, kind, mon)
        mon.check(c2.n_qubits == N and c2.register == circ.register, "register", "register of the circuit")
        mon.close(build.npy(qd.run(c2, values=vals)), fitb(psi, plain), "circuit_state", "state after the round trip")
        mon.close(build.npy(qd.run(circ, values=vals)), fitb(psi, plain), "original_unchanged", "state of the original afterwards")
        mon.check(tags(c2.block) == tags(blk), "tags", "tags of the circuit")
        mon.check(bool(c2 == circ), "equal", "circuits differ")
        mon.check([q.name for q in c2.unique_parameters] == [q.name for q in circ.unique_parameters], "params", "unique parameters")
        return
    obs = [gen.hamiltonian(r, N, p if r.random() < 0.3 else None) for _ in range(r.choice([1, 1, 2]))]
    fenv = sim.used_env(p, [plain] + obs, batch, mixed=False)
    batch = sim.eff_batch(fenv)
    vals = build.values(fenv, fenv)
    used_v = sorted(set().union(*[ref.names_of(s, "v") for s in [plain] + obs]))
    cfg = sim.config(r)
    mode = "ad" if gen.param_generator(plain) else r.choice(["ad", "ad", "gpsr"])
    obl = [build.block(o, p.vvals) for o in obs]
    ob = obl if len(obl) > 1 or r.random() < 0.5 else obl[0]
    no_obs = kind == "model" and r.random() < 0.15
    kw = dict(diff_mode=mode, configuration=cfg or None)
    meas = None
    if kind == "model" and r.random() < 0.15:
        meas = Measurements(Measurements.TOMOGRAPHY, options={"n_shots": 100})
    if kind == "qnn":
        names = sorted(fenv)
        r.shuffle(names)
        m = qd.QNN(circ, ob, inputs=names, **kw)
        m2in = torch.stack([vals[k].reshape(-1).expand(batch) for k in names], -1) if names else None
    else:
        names = None
        m = qd.QuantumModel(circ, None if no_obs else ob, measurement=meas, **kw)
    trained = r.random() < 0.6
    vv = dict(p.vvals)
    if trained:
        with torch.no_grad():
            for k, t in m.named_parameters():
                nm = k.split(".")[-1]
                if nm in used_v and t.requires_grad:
                    vv[nm] = round(r.uniform(-2, 2), 4)
                    t.copy_(torch.tensor(vv[nm]))
    mon.case(dict(kind=kind, N=N, spec=spec, obs=obs, vvals=p.vvals, trained=vv, fenv=fenv, cfg=cfg, mode=mode, no_obs=no_obs, inputs=names))
    m2, carried = trip(r, m, kind, mon)
    mon.check(type(m2) is type(m), "type", f"type {type(m2)}")
    want_v = vv if carried else p.vvals
    if carried and trained:
        mon.ev("trained")
    envl = sim.envs(want_v, fenv, batch)
    psi = sim.ref_states(plain, N, envl)
    st = build.npy(m2.run(vals))
    mon.close(st, psi if len(st) == len(psi) else psi[:1], "model_state", "state of the deserialized model")
    got_p = {k.split(".")[-1]: float(t) for k, t in m2.named_parameters() if t.requires_grad and t.numel() == 1}
    if not no_obs:
        mon.check(set(got_p) == set(used_v), "params", f"trainable parameters {sorted(got_p)} != {used_v}")
        mon.check(all(abs(got_p[k] - want_v[k]) < 1e-5 for k in used_v), "params", f"parameter values {got_p}", want=want_v)
        if meas is None:
            out = build.npy(m2.expectation(vals))
            E = sim.ref_expect(obs, psi, N, envl)
            mon.close(out, E if len(out) == len(E) else E[:1], "model_expectation" if kind == "model" else "qnn_expectation", "expectation of the deserialized model")
    if kind == "qnn":
        mon.check([str(i) for i in m2.inputs] == names, "inputs", f"inputs {m2.inputs} != {names}")
        if names:
            mon.close(build.npy(m2(m2in)), E, "qnn_expectation", "forward of the deserialized QNN")
    # the original is as before, and independent of the copy
    with torch.no_grad():
        for t in m2.parameters():
            if t.requires_grad:
                t.add_(0.37)
    envl0 = sim.envs(vv, fenv, batch)
    psi0 = sim.ref_states(plain, N, envl0)
    st = build.npy(m.run(vals))
    mon.close(st, psi0 if len(st) == len(psi0) else psi0[:1], "original_unchanged", "original model after changing the copy")


def fit(M, spec):
    """matrices: one per batch element, or a single one when no feature is used."""
    return M if ref.names_of(spec, "f") else M[:1]


fitb = fit
