"""C32: the information content of a loss landscape and the gradient bounds drawn from it."""
from __future__ import annotations

import math
from statistics import NormalDist

import numpy as np
import torch

import qadence as qd
from qadence.ml_tools import TrainConfig, Trainer
from qadence.ml_tools.information import InformationContent

ID = "C32"
CASES = {"quick": 120, "thorough": 3500}
RULE = (
    "InformationContent over random models (linear, networks with frozen layers, QNNs with constants, features and trainable observables), losses, data, "
    "thresholds in any order and numbers of variations: the parameters of every loss evaluation are logged by a hook in the model, and the finite "
    "differences, symbols, transition probabilities, information content, maximum, sensitivity and bounds are recomputed from the log in numpy; "
    "non-trivial: more than one parameter"
)
MIN_EVENTS = {"evaluation": 3000, "derivative": 100, "symbols": 100, "probabilities": 100, "content": 100, "maximum": 100, "sensitivity": 60, "q": 100, "bounds": 80,
              "untouched": 100, "constants": 20, "trainer": 20}
ASSUMPTIONS = ["losses in double precision, landscape statistics in single precision (the class keeps them so): tolerance 1e-3 relative"]
LOG6 = math.log(6)


def model(r):
    k = r.choice(["linear", "mlp", "qnn", "qnn", "scalar"])
    if k == "linear":
        return k, torch.nn.Linear(1, r.randint(1, 3), bias=r.random() < 0.5, dtype=torch.float64)
    if k == "scalar":
        class S(torch.nn.Module):
            def __init__(self):
                super().__init__()
                self.a = torch.nn.Parameter(torch.tensor(0.3, dtype=torch.float64))
                self.frozen = torch.nn.Parameter(torch.tensor([0.7], dtype=torch.float64), requires_grad=False)
                self.b = torch.nn.Parameter(torch.tensor([[0.1, 0.2]], dtype=torch.float64))

            def forward(self, x):
                return torch.sin(self.a * x + self.frozen) @ torch.cos(self.b)

        return k, S()
    if k == "mlp":
        m = torch.nn.Sequential(torch.nn.Linear(1, 2, dtype=torch.float64), torch.nn.Tanh(), torch.nn.Linear(2, 1, dtype=torch.float64))
        if r.random() < 0.5:
            m[r.choice([0, 2])].requires_grad_(False)
        return k, m
    n = r.randint(1, 2)
    b = qd.chain(qd.kron(qd.RX(i, (i + 1) * qd.FeatureParameter("x")) for i in range(n)), qd.RY(0, round(r.uniform(-2, 2), 3)) if r.random() < 0.6 else qd.H(0), qd.hea(n, 1))
    o = qd.add(qd.Z(i) for i in range(n))
    if r.random() < 0.5:
        o = qd.VariationalParameter("scale") * o
    return k, qd.QNN(qd.QuantumCircuit(n, b), o, inputs=["x"])


def trainable(m):
    return [p for p in m.parameters() if p.requires_grad]


def vec(ps):
    return np.array([float(v) for p in ps for v in p.detach().reshape(-1)])


def case(r, idx, mon):
    torch.manual_seed(r.randrange(10**9))
    kind, m = model(r)
    N = sum(p.numel() for p in trainable(m))
    mult = r.randint(3, 6) if N > 3 else r.randint(8, 20)
    neps = r.randint(1, 8)
    eps = torch.tensor([10 ** r.uniform(-3, 1) for _ in range(neps)])
    if r.random() < 0.6:
        eps = eps.sort()[0]
    x = torch.rand(r.randint(1, 4), 1, dtype=torch.float64)
    y = torch.sin(2 * x)
    scale = r.choice([0.05, 1.0, 1.0, 10.0])
    via = r.random() < 0.25
    mon.case([kind, N, mult, [float(e) for e in eps], scale, via, r.random()], N > 1)
    log, losses = [], []
    const = [p for p in m.parameters() if not p.requires_grad]
    c0, t0 = vec(const), vec(trainable(m))
    if len(const):
        mon.ev("constants")

    def pre(mod, args):
        log.append((vec([p for p, q in zip(mod.parameters(), flags) if q]), vec([p for p, q in zip(mod.parameters(), flags) if not q])))

    flags = [p.requires_grad for p in m.parameters()]
    h = m.register_forward_pre_hook(pre)

    def loss_fn(model, batch):
        a, b = batch
        l = scale * ((model(a).reshape(len(a), -1).sum(1, keepdim=True) - b) ** 2).mean()
        losses.append(float(l.detach()))
        return l, {"metric": l}

    if via:
        # through the trainer, with its own number of variations (20 per parameter)
        mon.ev("trainer")
        if N * 20 > 130:
            mult, via = mult, False
    if via:
        mult = 20
        held = []
        init = InformationContent.__init__

        def grab(self, *a, **k):
            held.append(self)
            init(self, *a, **k)

        InformationContent.__init__ = grab
        try:
            from qadence.ml_tools import to_dataloader

            import shutil
            import tempfile

            d = tempfile.mkdtemp(prefix="vf_ic_", dir="/tmp")
            try:
                t = Trainer(m, torch.optim.Adam(trainable(m)), TrainConfig(max_iter=1, log_folder=d, create_subfolder_per_run=False), loss_fn,
                            train_dataloader=to_dataloader(x, y, batch_size=len(x)))
                eta = 0.3
                try:
                    got = t.get_ic_grad_bounds(eta=eta, epsilons=eps)
                except Exception as e:
                    got = e
            finally:
                shutil.rmtree(d, ignore_errors=True)
        finally:
            InformationContent.__init__ = init
        mon.check(len(held) == 1, "bounds", f"the trainer makes {len(held)} studies")
        ic = held[0]
    else:
        ic = InformationContent(m, loss_fn, (x, y), eps, variation_multiple=mult)
        got = None
    var = ic.all_variations.double().numpy()
    M = mult * N
    mon.check(ic.total_params == N and ic.n_variations == M and var.shape == (M, N), "evaluation", f"{ic.n_variations} variations of {ic.total_params} parameters, shape {var.shape}, instead of {mult} x {N}")
    mon.check(bool(((var >= 0) & (var <= 2 * math.pi + 1e-6)).all()) and (var.size < 8 or var.std() > 0.5), "evaluation", "variations are not spread over [0, 2 pi]")
    if var.size > 200:
        mon.check(abs(var.mean() - math.pi) < 6 * 1.82 / math.sqrt(var.size), "evaluation", f"mean variation {var.mean()}")
    if not via:
        steps = r.randint(0, 2)
        first = ic.randomized_finite_der() if steps else ic.discretize_derivatives()
        mon.check(len(losses) == M, "evaluation", f"{len(losses)} loss evaluations instead of {M}")
    L = np.array(losses[:M])
    for i in range(M):
        mon.close(log[i][0], var[i], "evaluation", f"parameters of loss evaluation {i}", tol=1e-5)
        mon.close(log[i][1], c0, "evaluation", f"constants in loss evaluation {i}", tol=1e-12)
    der = (L[1:] - L[:-1]) / (np.linalg.norm(var[1:] - var[:-1], axis=1) + 1e-8)
    d = ic.randomized_finite_der().detach().double().numpy()
    mon.check(d.shape == der.shape, "derivative", f"{d.shape} derivatives of {M} losses")
    big = max(1.0, np.abs(L).max())
    mon.close(d / big, der / big, "derivative", "normalised differences of consecutive losses", tol=1e-4)
    E = eps.double().numpy()
    sym = (d[None] > E[:, None]).astype(int) - (d[None] < -E[:, None]).astype(int)
    got_sym = ic.discretize_derivatives().numpy()
    mon.check(got_sym.shape == sym.shape and bool((got_sym == sym).all()), "symbols", f"symbols {got_sym.tolist()} of derivatives {d.tolist()} at {E.tolist()}")
    order = [(1, 0), (1, -1), (0, 1), (0, -1), (-1, 0), (-1, 1)]
    P = np.array([[((s[:-1] == a) & (s[1:] == b)).mean() for a, b in order] for s in sym])
    mon.close(ic.calculate_transition_probabilities_batch().numpy(), P, "probabilities", "transition probabilities", tol=1e-5)
    H = np.array([sum(-p * math.log(p) / LOG6 for p in row if p > 1e-4) for row in P])
    gotH = ic.calculate_IC.numpy()
    mon.close(gotH, H, "content", "information content", tol=1e-4)
    mx, me = ic.max_IC()
    mon.close(mx, H.max(), "maximum", "maximal information content", tol=1e-4)
    k = [i for i in range(neps) if abs(E[i] - me) < 1e-6 * E[i]]
    mon.check(bool(k) and max(H[i] for i in k) > H.max() - 1e-4, "maximum", f"the maximum {H.max()} is not attained at epsilon {me}: {H.tolist()} at {E.tolist()}")
    # the root of H = 4 h(q) + 2 h(1/2 - 2 q)
    def f(q):
        return (-4 * q * math.log(q) - 2 * (0.5 - 2 * q) * math.log(0.5 - 2 * q)) / LOG6

    for Hv in (mx, r.uniform(0.45, 0.99)):
        q = InformationContent.q_value(Hv)
        mon.check(0.001 - 1e-6 <= q <= 1 / 6 + 1e-4, "q", f"q({Hv}) = {q}")
        if Hv < f(0.001):
            mon.close(q, 0.001, "q", f"q({Hv}) below the range", tol=1e-5)
        elif Hv < 0.999:
            lo, hi = 0.001, 1 / 6
            for _ in range(60):
                mid = (lo + hi) / 2
                lo, hi = (mid, hi) if f(mid) < Hv else (lo, mid)
            # (the grid step is 1.7e-5; single precision is flat near the maximum)
            mon.check(abs(q - lo) < 4e-5 + (2e-3 if Hv > 0.99 else 0.0), "q", f"q({Hv}) = {q}, the root is {lo}")
    q = InformationContent.q_value(mx)
    nd = NormalDist()
    want = (me * math.sqrt(N) / nd.inv_cdf(1 - 2 * q), me * math.sqrt(N) / nd.inv_cdf(0.5 * (1 + 2 * q)))
    low = [e for e, v in zip(E, H) if v < 0.3 - 1e-6]
    amb = any(abs(v - 0.3) < 1e-5 for v in H)
    if got is not None:
        if isinstance(got, Exception):
            mon.check(not low or amb, "sensitivity", f"get_ic_grad_bounds raises {got!r}")
        else:
            mon.close(got[0] / want[0], 1.0, "bounds", "lower bound of the trainer", tol=1e-3)
            mon.close(got[1] / want[1], 1.0, "bounds", "upper bound of the trainer", tol=1e-3)
            if not amb:
                mon.check(bool(low), "sensitivity", f"sensitivity without an epsilon of content below 0.3: {H.tolist()}")
                mon.close(got[2] / (min(low) * math.sqrt(N) / nd.inv_cdf(1 - 0.45)), 1.0, "bounds", "sensitivity bound of the trainer", tol=1e-3)
    else:
        b = ic.get_grad_norm_bounds_max_IC()
        mon.close(b[0] / want[0], 1.0, "bounds", "lower bound", tol=1e-3)
        mon.close(b[1] / want[1], 1.0, "bounds", "upper bound", tol=1e-3)
    eta = r.choice([0.05, 0.1, 0.3, 0.5, 0.6])
    ok = [e for e, v in zip(E, H) if v < eta]
    if not any(abs(v - eta) < 1e-5 for v in H):
        mon.ev("sensitivity")
        try:
            s = ic.sensitivity_IC(eta)
            mon.check(bool(ok), "sensitivity", f"sensitivity {s} although no content is below {eta}: {H.tolist()}")
            mon.close(s / min(ok), 1.0, "sensitivity", f"smallest epsilon of content below {eta}", tol=1e-5)
            mon.close(ic.get_grad_norm_bounds_sensitivity_IC(eta) / (min(ok) * math.sqrt(N) / nd.inv_cdf(1 - 1.5 * eta)), 1.0, "bounds", "sensitivity bound", tol=1e-3)
        except (RuntimeError, IndexError, ValueError) as e:
            mon.check(not ok, "sensitivity", f"no sensitivity although contents are {H.tolist()}: {e!r}")
    h.remove()
    mon.close(vec(trainable(m)), t0, "untouched", "parameters of the model after the study", tol=0)
    mon.close(vec(const), c0, "untouched", "constants of the model after the study", tol=0)
    mon.check([p.requires_grad for p in m.parameters()] == flags, "untouched", "requires_grad flags change")
