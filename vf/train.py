"""Workloads for the training tools and an independent, straightforward training loop."""
from __future__ import annotations

import copy
import shutil
import tempfile

import numpy as np
import torch
from torch import nn

import qadence as qd
from qadence.ml_tools import TrainConfig, Trainer
from qadence.ml_tools.callbacks import Callback
from qadence.ml_tools.data import DictDataLoader, to_dataloader

STAGES = ["train_start", "train_end", "train_epoch_start", "train_epoch_end", "train_batch_start", "train_batch_end",
          "val_epoch_start", "val_epoch_end", "val_batch_start", "val_batch_end"]


class Quiet:
    """A recording writer with the interface of the experiment tracking writers."""

    def __init__(self):
        self.log = []

    def open(self, config, iteration=None):
        self.log.append(("open", iteration))

    def close(self):
        self.log.append(("close",))

    def write(self, iteration, metrics):
        self.log.append(("write", iteration, {k: float(v) for k, v in metrics.items()}))

    def print_metrics(self, result):
        self.log.append(("print", result.iteration, {k: float(v) for k, v in result.metrics.items()}))

    def plot(self, model, iteration, fns):
        self.log.append(("plot", iteration))

    def log_hyperparams(self, hp):
        self.log.append(("hparams", dict(hp)))

    def log_model(self, *a):
        self.log.append(("model",))


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vftrain_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def make_model(kind, seed):
    torch.manual_seed(seed)
    if kind == "linear":
        return nn.Linear(1, 1)
    if kind == "mlp":
        # dropout makes the outcome depend on the train / eval mode
        return nn.Sequential(nn.Linear(1, 3), nn.Tanh(), nn.Linear(3, 1))
    if kind == "bnorm":
        return nn.Sequential(nn.Linear(1, 2), nn.BatchNorm1d(2), nn.Linear(2, 1))
    if kind == "frozen":
        m = nn.Sequential(nn.Linear(1, 2), nn.Tanh(), nn.Linear(2, 1))
        m[0].bias.requires_grad_(False)
        return m
    assert kind == "qnn"
    x = qd.FeatureParameter("x")
    n = 2
    rng = np.random.default_rng(seed)
    ps = [qd.VariationalParameter(f"t{i}", value=float(rng.uniform(-1, 1))) for i in range(4)]
    b = qd.chain(qd.kron(qd.RX(0, x), qd.RX(1, 2 * x)), qd.kron(qd.RY(0, ps[0]), qd.RX(1, ps[1])), qd.CNOT(0, 1),
                 qd.kron(qd.RZ(0, ps[2]), qd.RY(1, ps[3])))
    return qd.QNN(qd.QuantumCircuit(n, b), qd.total_magnetization(n), inputs=["x"])


def make_opt(kind, model):
    ps = [p for p in model.parameters() if p.requires_grad]
    if kind == "sgd":
        return torch.optim.SGD(ps, lr=0.05)
    if kind == "momentum":
        return torch.optim.SGD(ps, lr=0.05, momentum=0.8)
    if kind == "adam":
        return torch.optim.Adam(ps, lr=0.03)
    if kind == "groups":
        return torch.optim.Adam([{"params": ps[:1], "lr": 0.05}, {"params": ps[1:], "lr": 0.01}])
    assert kind == "lbfgs"
    return torch.optim.LBFGS(ps, lr=0.1, max_iter=3)


def pvec(model):
    """All parameters and buffers of a model as one vector (ordered by name)."""
    sd = model.state_dict()
    vs = [sd[k].detach().double().reshape(-1).real for k in sorted(sd) if isinstance(sd[k], torch.Tensor)]
    return torch.cat(vs).numpy().copy()


def data(seed, n):
    g = torch.Generator().manual_seed(seed)
    x = torch.rand(n, 1, generator=g) * 2 - 1
    return x, torch.cos(2 * x) + 0.1 * torch.rand(n, 1, generator=g)


def loaders(sp):
    """(loader, list of batches of one epoch or None) from {kind, n, bs, seed, n2}."""
    k = sp["kind"]
    if k == "none":
        return None, [None]
    x, y = data(sp["seed"], sp["n"])
    if k == "infinite":
        return to_dataloader(x, y, batch_size=sp["bs"], infinite=True), None
    cut = lambda a, b, bs: [(a[i : i + bs], b[i : i + bs]) for i in range(0, len(a), bs)]
    if k == "finite":
        bs = cut(x, y, sp["bs"])
        ld = to_dataloader(x, y, batch_size=sp["bs"])
    else:
        x2, y2 = data(sp["seed"] + 1, sp["n2"])
        b1, b2 = cut(x, y, sp["bs"]), cut(x2, y2, sp["bs2"])
        bs = [{"a": p, "b": q} for p, q in zip(b1, b2)]
        ld = DictDataLoader({"a": to_dataloader(x, y, batch_size=sp["bs"]), "b": to_dataloader(x2, y2, batch_size=sp["bs2"])})
    if sp.get("maxb") is not None:
        bs = bs[: sp["maxb"]]
    return ld, bs


def loss_value(model, batch):
    mse = lambda x, y: ((model(x) - y) ** 2).mean()
    if batch is None:
        l = sum(((p - 0.3 * (i + 1)) ** 2).sum() for i, p in enumerate(model.parameters()) if p.requires_grad)
        n = torch.tensor(0.0)
    elif isinstance(batch, dict):
        l = mse(*batch["a"]) + 0.5 * mse(*batch["b"])
        n = torch.tensor(float(len(batch["a"][0])))
    else:
        l = mse(*batch)
        n = torch.tensor(float(len(batch[0])))
    return l, {"size": n, "twice": 2 * l}


def freeze(batch):
    if batch is None:
        return None
    if isinstance(batch, dict):
        return {k: freeze(v) for k, v in batch.items()}
    return tuple(t.detach().clone() for t in batch)


def same_batch(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same_batch(a[k], b[k]) for k in a)
    return len(a) == len(b) and all(s.dtype == t.dtype and torch.equal(s, t) for s, t in zip(a, b))


class Recorder:
    """Observes one training run: hooks, callbacks and loss evaluations in one ordered log."""

    def __init__(self, interrupt=None):
        self.log, self.interrupt, self.n, self.armed = [], interrupt, {}, False

    def emit(self, *e):
        self.log.append(e)
        if e[0] == "cb" and e[1] == "train_start":
            self.armed = True
        if e[0] == "hook" and e[1] == "on_train_end":
            self.armed = False
        if self.armed and self.interrupt:
            key, k = self.interrupt
            mine = e[0] if e[0] == "loss" else e[1]
            if mine == key:
                self.n[key] = self.n.get(key, 0) + 1
                if self.n[key] == k:
                    raise KeyboardInterrupt()


def flt(d):
    return {k: float(v) for k, v in d.items()}


def _hook(name):
    def f(self, *a):
        if getattr(self, "rec", None) is not None:
            arg = None
            if name.endswith("batch_end"):
                arg = (float(a[0][0]), flt(a[0][1]))
            elif name.endswith("epoch_end"):
                arg = [(float(l), flt(m)) for l, m in a[0]]
            elif name == "on_train_end":
                arg = tuple([[(float(l), flt(m)) for l, m in ep] for ep in x] for x in a)
            self.rec.emit("hook", name, arg)

    return f


HOOKS = ["on_train_start", "on_train_end", "on_train_epoch_start", "on_train_epoch_end", "on_val_epoch_start",
         "on_val_epoch_end", "on_train_batch_start", "on_train_batch_end", "on_val_batch_start", "on_val_batch_end",
         "on_test_batch_start", "on_test_batch_end"]
HookedTrainer = type("HookedTrainer", (Trainer,), {h: _hook(h) for h in HOOKS})


def recording_loss(rec):
    def loss_fn(model, batch):
        rec.emit("loss", model.training, torch.is_grad_enabled(), freeze(batch), pvec(model))
        return loss_value(model, batch)

    return loss_fn


def recording_callbacks(rec, stages=STAGES):
    def mk(stage):
        def f(trainer, config, writer):
            o = trainer.opt_result
            rec.emit("cb", stage, o.iteration, None if o.loss is None else float(o.loss), flt(o.metrics), pvec(trainer.model))

        return Callback(on=stage, called_every=1, callback=f)

    return [mk(s) for s in stages]


class Loop:
    """The documented training routine, written down directly (the specification)."""

    def __init__(self, model, opt, rec, cfg, train_batches, val_batches, loss=loss_value):
        self.model, self.opt, self.rec, self.cfg = model, opt, rec, cfg
        self.tb, self.vb, self.loss = train_batches, val_batches, loss
        self.step0, self.epoch, self.res = 0, 0, (0, None, {})
        self.writes, self.prints, self.plots = [], [], []
        self.on_event = lambda stage, loop: None
        self.stop = False

    # --- events
    def cb(self, stage):
        it, l, m = self.res
        if stage in ("train_start", "train_end") or it > 0:
            self.rec.emit("cb", stage, it, l, dict(m), pvec(self.model))
        self.on_event(stage, self)
        self.builtin(stage)

    def every(self, n):
        return n and self.res[0] > 0 and self.res[0] % n == 0

    def builtin(self, stage):
        c = self.cfg
        w = lambda: self.writes.append(("write", self.res[0], dict(self.res[2])))
        if stage == "train_start":
            self.plots.append(("plot", self.res[0]))
            if c.get("val_every"):
                w()
        if stage == "train_epoch_end":
            if c.get("verbose", True) and self.every(c.get("print_every", 0)):
                self.prints.append(("print", self.res[0], dict(self.res[2])))
            if self.every(c.get("plot_every", 0)):
                self.plots.append(("plot", self.res[0]))
            if self.every(c.get("write_every", 0)):
                w()
        if stage == "val_epoch_end" and self.every(c.get("val_every", 0)):
            w()
        if stage == "train_end":
            if c.get("plot_every", 0):
                self.plots.append(("plot", self.res[0]))
            if c.get("write_every", 0):
                w()

    def hook(self, name, arg=None):
        self.rec.emit("hook", name, arg)

    # --- phases
    def build(self, result):
        if isinstance(result, tuple):
            self.res = (self.epoch, result[0], result[1])
            return
        if not result:
            self.res = (self.epoch, None, {})
            return
        mean = lambda xs: float(np.mean(np.array(xs, dtype=np.float64)))
        self.res = (self.epoch, mean([l for l, _ in result]), {k: mean([m[k] for _, m in result]) for k in result[0][1]})

    def batch(self, phase, batch):
        self.cb(f"{phase}_batch_start")
        if phase == "train":
            out = {}

            def closure():
                self.opt.zero_grad()
                self.rec.emit("loss", self.model.training, True, freeze(batch), pvec(self.model))
                l, m = self.loss(self.model, batch)
                l.backward()
                out["r"] = (float(l), {k: float(v) for k, v in m.items()})
                return l.item()

            self.opt.step(closure)
            l, m = out["r"]
        else:
            with torch.no_grad():
                self.rec.emit("loss", self.model.training, False, freeze(batch), pvec(self.model))
                l, m = self.loss(self.model, batch)
                l, m = float(l), {k: float(v) for k, v in m.items()}
        res = (l, {**{f"{phase}_{k}": v for k, v in m.items()}, f"{phase}_loss": l})
        self.build(res)
        self.cb(f"{phase}_batch_end")
        return res

    def phase(self, phase, batches):
        self.cb(f"{phase}_epoch_start")
        self.model.train(phase == "train")
        out = []
        for b in batches():
            self.hook(f"on_{phase}_batch_start")
            res = self.batch(phase, b)
            out.append(res)
            self.hook(f"on_{phase}_batch_end", res)
        self.build(out)
        self.cb(f"{phase}_epoch_end")
        return out

    def fit(self):
        c = self.cfg
        self.epoch = self.step0
        self.res = (self.step0, None, {})
        self.stop = False
        if c.get("val_every"):
            self.phase("val", self.vb)
        self.cb("train_start")
        self.hook("on_train_start")
        tl, vl = [], []
        for e in range(self.step0, self.step0 + c["max_iter"] + 1):
            if self.stop:
                break
            try:
                self.epoch = e
                self.hook("on_train_epoch_start")
                t = self.phase("train", self.tb)
                tl.append(t)
                self.hook("on_train_epoch_end", t)
                if c.get("val_every") and e % c["val_every"] == 0:
                    self.hook("on_val_epoch_start")
                    v = self.phase("val", self.vb)
                    vl.append(v)
                    self.hook("on_val_epoch_end", v)
            except KeyboardInterrupt:
                self.stop = True
        self.hook("on_train_end", (tl, vl))
        self.build(tl[-1] if tl else None)
        self.cb("train_end")
        return tl, vl


def near(a, b, tol):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(near(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and bool(
            np.all((np.abs(a - b) <= tol * (1 + np.abs(b))) | (a == b) | (np.isnan(a) & np.isnan(b)))
        )
    if isinstance(a, torch.Tensor):
        return isinstance(b, torch.Tensor) and a.dtype == b.dtype and a.shape == b.shape and torch.equal(a, b)
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= tol * (1 + abs(b))
    return a == b and type(a) == type(b)


def compare_logs(mon, got, want, kind, what, tol=1e-4):
    brief = lambda e: [x if not isinstance(x, np.ndarray) else np.round(x, 4).tolist() for x in e]
    for i, (g, w) in enumerate(zip(got, want)):
        mon.ev(kind)
        if not near(g, w, tol):
            mon.fail(f"{what}: event {i} observed {str(brief(g))[:400]} expected {str(brief(w))[:400]}", kind=kind,
                     before=[str(brief(e))[:120] for e in got[max(0, i - 3) : i]])
    mon.check(len(got) == len(want), kind, f"{what}: {len(got)} events observed, {len(want)} expected; first extra "
              f"{str(brief((got if len(got) > len(want) else want)[min(len(got), len(want))]))[:200] if len(got) != len(want) else ''}")
