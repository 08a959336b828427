"""C18: the overlap of two parametric states, by every method."""
from __future__ import annotations

import math

import numpy as np
import torch

import qadence as qd
from qadence.types import OverlapMethod

from .. import build, gen, ref, sim

ID = "C18"
CASES = {"quick": 900, "thorough": 15000}
RULE = (
    "pairs of random circuits on one to three qubits with no, one shared, or two distinct feature parameters and up to three trainable ones, "
    "evaluated by all overlap methods with and without shots, with initial states, batches of different sizes, gradients of the trainable "
    "parameters; against the squared inner product of the reference states; non-trivial: both circuits depend on parameters"
)
MIN_EVENTS = {"exact": 150, "compute_uncompute": 100, "swap_test": 100, "hadamard_test": 100, "jensen_shannon": 30, "shots": 100, "matrix": 150,
              "shared": 100, "gradient": 100, "state": 20, "identical": 25, "utility": 100}
ASSUMPTIONS = ["with shots: deviations of six standard deviations are violations; n_qubits <= 3",
               "one feature parameter per circuit (more are documented as unsupported)"]
METHODS = [OverlapMethod.EXACT, OverlapMethod.COMPUTE_UNCOMPUTE, OverlapMethod.SWAP_TEST, OverlapMethod.HADAMARD_TEST, OverlapMethod.JENSEN_SHANNON]


def probe_shared():
    """<phi(0.3)|phi(1.1)> with the same feature in both states"""
    x = qd.FeatureParameter("phi")
    c = qd.QuantumCircuit(1, qd.RX(0, x))
    a, b = {"phi": torch.tensor([0.3])}, {"phi": torch.tensor([1.1])}
    bad = [m for m in METHODS[1:4] if abs(float(qd.Overlap(c, c, method=m)(a, b)) - math.cos(0.4) ** 2) > 1e-4]
    if bad:
        return f"{[str(m) for m in bad]} ignore the ket's values of a feature shared by bra and ket"
    return None


PROBES = {"shared_feature": probe_shared}


def js(p, q):
    def h(a):
        a = a[a > 1e-15]
        return -np.sum(a * np.log(a))

    return h((p + q) / 2) - (h(p) + h(q)) / 2


def rename(spec, names):
    if isinstance(spec, list):
        if len(spec) == 2 and spec[0] == "f" and isinstance(spec[1], str):
            return ["f", names]
        return [rename(x, names) for x in spec]
    return spec


def no_t(s):
    """(the adjoint of T cannot be executed: open finding of C05)"""
    return [("S" if s[0] == "T" else s[0])] + [no_t(x) if isinstance(x, list) else x for x in s[1:]] if s and isinstance(s[0], str) else [
        no_t(x) if isinstance(x, list) else x for x in s]


def circ(r, n, p, feat):
    for _ in range(20):
        s = no_t(gen.circuit(r, n, p, size=r.randint(2, 6), hamevo_p=0.07))
        used = ref.names_of(s, "f")
        if feat is None and not used:
            return s
        if feat is not None:
            if not used:
                s = ["chain", [s, ["RX", r.randrange(n), ["f", feat]]]]
            return rename(s, feat)
    return ["chain", [["H", 0], ["RY", n - 1, 0.7 if feat is None else ["f", feat]]]]


def case(r, idx, mon):
    n = r.randint(1, 3)
    p = gen.P(r, nf=1, nv=r.randint(0, 3), kinds="nfffvv")
    kind = r.choice(["none", "bra", "ket", "shared", "shared", "two", "two", "two"])
    fb = "phi" if kind in ("bra", "shared", "two") else None
    fk = {"ket": "phi", "shared": "phi", "two": "psi"}.get(kind)
    pb = p if fb else gen.P(r, nf=0, nv=len(p.vvals), kinds="nvv")
    if not fb:
        pb.vvals = p.vvals
    pk = p if fk else gen.P(r, nf=0, nv=len(p.vvals), kinds="nvv")
    if not fk:
        pk.vvals = p.vvals
    sb, sk = circ(r, n, pb, fb), circ(r, n, pk, fk)
    same = r.random() < 0.3 and kind in ("none", "shared", "two")
    if same:
        sk = rename(sb, fk)
    vv = dict(p.vvals)
    for s in (sb, sk):
        for k in ref.names_of(s, "v"):
            vv.setdefault(k, round(r.uniform(-2, 2), 3))
    method = METHODS[idx % 5] if idx % 2 else r.choice(METHODS)
    nb = r.choice([1, 2, 3])
    nk = nb if kind == "shared" else r.choice([1, 2, 4])
    xb = [round(r.uniform(-2, 2), 3) for _ in range(nb)] if fb else None
    xk = [round(r.uniform(-2, 2), 3) for _ in range(nk)] if fk else None
    # (known finding: methods with a single circuit use one value of a shared feature for both states)
    if kind == "shared" and (r.random() < 0.4 or method not in (OverlapMethod.EXACT, OverlapMethod.JENSEN_SHANNON)):
        xk = list(xb)
    shots = 0
    if method == OverlapMethod.JENSEN_SHANNON:
        shots = 6000
    elif r.random() < 0.2 and method != OverlapMethod.EXACT:
        shots = r.choice([500, 2000])
    state = method == OverlapMethod.EXACT and shots == 0 and r.random() < 0.3
    mon.case(dict(n=n, bra=sb, ket=sk, vvals=vv, kind=kind, xb=xb, xk=xk, method=str(method), shots=shots, state=state), bool(fb or fk))
    bc, kc = build.circuit(n, sb, vv), build.circuit(n, sk, vv)
    ib = np.asarray(gen.state(r, n)) if state else None
    ik = np.asarray(gen.state(r, n)) if state else None

    def prob(v):
        eb = [{**v, **({fb: x} if fb else {})} for x in (xb or [0])]
        ek = [{**v, **({fk: x} if fk else {})} for x in (xk or [0])]
        B = sim.ref_states(sb, n, eb, ib)
        K = sim.ref_states(sk, n, ek, ik)
        return B, K

    def overlap(v):
        B, K = prob(v)
        if kind == "two":
            return np.abs(B.conj() @ K.T) ** 2
        m = max(len(B), len(K))
        B, K = np.broadcast_to(B, (m, 2**n)), np.broadcast_to(K, (m, 2**n))
        return np.abs(np.sum(B.conj() * K, 1)) ** 2

    want = overlap(vv)
    B, K = prob(vv)
    if method == OverlapMethod.JENSEN_SHANNON:
        P, Q = np.abs(B) ** 2, np.abs(K) ** 2
        if kind == "two":
            want = np.array([[1 - js(a, b) for b in Q] for a in P])
        else:
            m = max(len(P), len(Q))
            want = np.array([1 - js(P[i % len(P)], Q[i % len(Q)]) for i in range(m)])
    if kind != "two":
        want = want[:, None]
    ov = qd.Overlap(bc, kc, method=method)
    kw = {}
    if shots:
        torch.manual_seed(r.randrange(10**6))
        kw["n_shots"] = shots
    if state:
        kw.update(bra_state=sim.tstate(ib), ket_state=sim.tstate(ik))
    tb = {fb: torch.tensor(xb, dtype=torch.float64)} if fb else {}
    tk = {fk: torch.tensor(xk, dtype=torch.float64)} if fk else {}
    if r.random() < 0.3:  # single values as scalars
        tb, tk = ({k: t[0] if len(t) == 1 else t for k, t in d.items()} for d in (tb, tk))
    got = ov(tb, tk, **kw) if r.random() < 0.5 else ov(bra_param_values=tb, ket_param_values=tk, **kw)
    g = build.npy(got)
    if g.shape != want.shape and g.size and want.shape[0] == 1 and kind != "two":
        g = g.reshape(-1, 1)
    mon.ev(str(getattr(method, "value", method)).lower())
    mon.ev({"two": "matrix", "shared": "shared"}.get(kind, "single"))
    what = f"overlap by {method} ({kind})"
    if not shots:
        mon.close(g, want, "value", what, tol=2e-5)
    else:
        mon.ev("shots")
        mon.check(g.shape == want.shape, "value", f"{what}: shape {g.shape} instead of {want.shape}")
        if g.shape == want.shape:
            if method == OverlapMethod.JENSEN_SHANNON:
                tol = np.full(want.shape, 0.06)
            elif method == OverlapMethod.COMPUTE_UNCOMPUTE:
                tol = 6 * np.sqrt(want * (1 - want).clip(0) / shots) + 8 / shots
            elif method == OverlapMethod.SWAP_TEST:
                pr = (1 + want) / 2
                tol = 12 * np.sqrt(pr * (1 - pr).clip(0) / shots) + 16 / shots
            elif method == OverlapMethod.EXACT:
                tol = np.full(want.shape, 1e-5)
            else:
                s = 6 / math.sqrt(shots)
                tol = np.full(want.shape, 2 * 1.5 * s + 2 * s * s)
            bad = np.abs(g - want) > tol
            mon.check(not bad.any(), "value", f"{what} with {shots} shots: {g.tolist()} expected {want.tolist()} within {tol.tolist()}")
    if same and kind != "two" and (kind == "none" or xb == xk) and not state and not shots:
        mon.close(g, np.ones_like(g), "identical", f"{what} of a state with itself", tol=2e-5)
    vn = sorted(set(ref.names_of(sb, "v")) | set(ref.names_of(sk, "v")))
    if vn and not shots and got.requires_grad:
        # gradients of the sum with respect to the trainable parameters
        got.sum().backward()
        grads = {}
        for name, q in ov.named_parameters():
            if q.grad is not None:
                key = name.split(".")[-1]
                grads[key] = grads.get(key, 0.0) + float(q.grad.sum())
        for k in vn:
            d = lambda h: (overlap({**vv, k: vv[k] + h}).sum() - overlap({**vv, k: vv[k] - h}).sum()) / (2 * h)  # noqa: E731
            num = (4 * d(5e-4) - d(1e-3)) / 3
            mon.check(abs(grads.get(k, 0.0) - num) < 2e-4 * max(1.0, abs(num)), "gradient", f"gradient of {what} by {k}: {grads.get(k)} expected {num}")
    if state:
        mon.ev("state")
    if r.random() < 0.3:
        utility(r, mon, n)


def utility(r, mon, n):
    from qadence.divergences import js_divergence, norm_difference
    from qadence.overlap import fidelity, overlap_exact

    k = r.choice([1, 2, 4])
    a = np.array([gen.state(r, n) for _ in range(k)])
    b = np.array([gen.state(r, n) for _ in range(k)])
    w = np.abs(np.sum(a.conj() * b, 1)) ** 2
    ta, tb = torch.tensor(a), torch.tensor(b)
    mon.close(build.npy(overlap_exact(ta, tb)), w, "utility", "overlap_exact")
    mon.close(build.npy(fidelity(ta, tb)), w, "utility", "fidelity")
    from collections import Counter

    keys = [format(i, f"0{n}b") for i in range(2**n)]
    ca = Counter({x: r.randint(1, 50) for x in r.sample(keys, r.randint(1, len(keys)))})
    cb = Counter({x: r.randint(1, 50) for x in r.sample(keys, r.randint(1, len(keys)))})
    pa = np.array([ca[x] for x in keys]) / sum(ca.values())
    pb = np.array([cb[x] for x in keys]) / sum(cb.values())
    mon.close(js_divergence(ca, cb), js(pa, pb), "utility", "js_divergence")
    mon.close(norm_difference(ca, cb), np.linalg.norm(pa - pb), "utility", "norm_difference")
