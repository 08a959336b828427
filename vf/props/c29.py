"""C29: learning-rate schedules, early stopping and gradient monitoring."""
from __future__ import annotations

import io
import math
from contextlib import redirect_stdout
from pathlib import Path

import numpy as np
import torch

from qadence.ml_tools import TrainConfig
from qadence.ml_tools.callbacks import (
    Callback,
    EarlyStopping,
    GradientMonitoring,
    LRSchedulerCosineAnnealing,
    LRSchedulerCyclic,
    LRSchedulerStepDecay,
)

from .. import train as T

ID = "C29"
CASES = {"quick": 480, "thorough": 9000}
RULE = (
    "training runs with one to three built-in callbacks (step decay, cyclic, cosine annealing, early stopping, gradient monitoring) at random "
    "stages and periods; the learning rate at every event, the stopping epoch, the recorded gradient statistics and the final parameters "
    "compared with an independent loop; non-trivial: more than one epoch"
)
MIN_EVENTS = {"lr": 4000, "schedule": 250, "stopped": 30, "ran_on": 30, "gradients": 200, "log": 4000}
ASSUMPTIONS = ["single process on cpu", "tolerance 1e-4"]

ENDS = ["train_epoch_end", "train_batch_end", "val_epoch_end", "val_batch_end", "train_epoch_start", "train_batch_start"]


def case(r, idx, mon):
    kind = r.choices(["linear", "mlp", "qnn"], [3, 4, 1])[0]
    optk = r.choice(["sgd", "momentum", "adam", "groups"])
    seed = r.randint(0, 10**6)
    tl = dict(kind="finite", n=r.randint(1, 6), bs=r.choice([1, 2, 3]), seed=seed)
    vl = dict(kind="finite", n=r.randint(1, 4), bs=r.choice([1, 2]), seed=seed + 1)
    cfg = dict(max_iter=r.randint(1, 12), val_every=r.choice([0, 1, 1, 2]))
    stages = [s for s in ENDS if cfg["val_every"] or not s.startswith("val")]
    cbs = []
    sched = r.choice(["step", "cyclic", "cosine", None, "step+cosine"])
    for s in (sched or "").split("+"):
        if not s:
            continue
        c = dict(what=s, on=r.choice(stages), every=r.choice([1, 1, 2, 3]))
        if s == "step":
            c["gamma"] = r.choice([0.5, 0.9, 1.1])
        elif s == "cyclic":
            c.update(base=r.choice([0.001, 0.01]), max=r.choice([0.05, 0.1]), step=r.choice([1, 2, 3, 5, 40]))
        else:
            c.update(t_max=r.choice([3, 7, 20, 50]), min=r.choice([0.0, 0.002]))
        cbs.append(c)
    if sched == "step+cosine":
        cbs = cbs[:1]
    if r.random() < 0.6:
        on = r.choice([s for s in stages if s.endswith("_end")])
        ph = on.split("_")[0]
        cbs.append(dict(what="stop", on=on, every=r.choice([1, 1, 2]), monitor=f"{ph}_{r.choice(['loss', 'twice', 'size'])}",
                        patience=r.randint(1, 4), mode=r.choice(["min", "min", "max"])))
    if r.random() < 0.35:
        cbs.append(dict(what="grad", on="train_batch_end", every=r.choice([1, 2])))
    lr = r.choice([None, 0.9, 1.6])
    fits = r.choice([1, 1, 2])
    mon.case(dict(kind=kind, opt=optk, tl=tl, vl=vl, cfg=cfg, cbs=cbs, lr=lr, fits=fits, seed=seed), cfg["max_iter"] > 1)
    model, refm = T.make_model(kind, seed), T.make_model(kind, seed)
    opt, refo = T.make_opt(optk, model), T.make_opt(optk, refm)
    if lr and optk in ("sgd", "momentum"):
        for o in (opt, refo):
            o.param_groups[0]["lr"] = lr * 0.5
    objs = []
    for c in cbs:
        a = dict(on=c["on"], called_every=c["every"])
        objs.append({
            "step": lambda: LRSchedulerStepDecay(gamma=c["gamma"], **a),
            "cyclic": lambda: LRSchedulerCyclic(base_lr=c["base"], max_lr=c["max"], step_size=c["step"], **a),
            "cosine": lambda: LRSchedulerCosineAnnealing(t_max=c["t_max"], min_lr=c["min"], **a),
            "stop": lambda: EarlyStopping(monitor=c["monitor"], patience=c["patience"], mode=c["mode"], **a),
            "grad": lambda: GradientMonitoring(**a),
        }[c["what"]]())
    rec, rrec = T.Recorder(), T.Recorder()
    lrs, want_lrs, grads = [], [], []

    def see(trainer, config, writer):
        lrs.append([g["lr"] for g in trainer.optimizer.param_groups])

    watch = [s for s in T.STAGES if cfg["val_every"] or not s.startswith("val")]
    (tload, tb), (vload, vb) = T.loaders(tl), T.loaders(vl)
    with T.scratch() as d, redirect_stdout(io.StringIO()):
        conf = TrainConfig(root_folder=Path(d), create_subfolder_per_run=True, verbose=False,
                           callbacks=objs + T.recording_callbacks(rec) + [Callback(on=s, called_every=1, callback=see) for s in watch], **cfg)
        tr = T.HookedTrainer(model, opt, conf, T.recording_loss(rec), tload, vload)
        tr.rec = rec
        tr.callback_manager.writer = T.Quiet()
        for _ in range(fits):
            tr.fit()
    # ---- specification
    loop = T.Loop(refm, refo, rrec, cfg, lambda: iter(tb), lambda: iter(vb))
    initial = [g["lr"] for g in refo.param_groups]
    est = {}

    def act(stage, lp):
        it = lp.res[0]
        for i, c in enumerate(cbs):
            if c["on"] != stage or not lp.every(c["every"]):
                continue
            gs = refo.param_groups
            if c["what"] == "step":
                for g in gs:
                    g["lr"] *= c["gamma"]
            elif c["what"] == "cyclic":
                # triangular wave of period 2*step between base (at 0) and max (at step)
                ph = it % (2 * c["step"])
                up = ph / c["step"] if ph <= c["step"] else 2 - ph / c["step"]
                for g in gs:
                    g["lr"] = c["base"] + (c["max"] - c["base"]) * up
            elif c["what"] == "cosine":
                for g, l0 in zip(gs, initial):
                    g["lr"] = c["min"] + (l0 - c["min"]) * 0.5 * (1 + math.cos(math.pi * it / c["t_max"]))
            elif c["what"] == "stop":
                # decide on the observed value (equal up to rounding, see the log comparison): ties are exact
                j = len(rrec.log) - 1
                seen = rec.log[j] if j < len(rec.log) else None
                v = seen[4].get(c["monitor"], 0.0) if seen is not None and seen[0] == "cb" else lp.res[2][c["monitor"]]
                hist = est.setdefault(i, [])
                hist.append(v)
                best = min if c["mode"] == "min" else max
                # number of observations since the first occurrence of the best value
                if len(hist) - 1 - hist.index(best(hist)) >= c["patience"]:
                    lp.stop = True
            else:
                st = {}
                for n, p in refm.named_parameters():
                    if p.grad is not None:
                        g = p.grad.detach()
                        st.update({n + "_mean": float(g.mean()), n + "_std": float(g.std()), n + "_max": float(g.max()), n + "_min": float(g.min())})
                grads.append(("write", it, st))
        if stage in watch and (stage in ("train_start", "train_end") or it > 0):
            want_lrs.append([g["lr"] for g in refo.param_groups])

    loop.on_event = act
    stops = []
    for _ in range(fits):
        est.clear()
        loop.fit()
        stops.append(loop.epoch < loop.step0 + cfg["max_iter"])
    T.compare_logs(mon, rec.log, rrec.log, "log", "training log with built-in callbacks")
    mon.check(len(lrs) == len(want_lrs), "lr", f"{len(lrs)} learning rates observed, {len(want_lrs)} expected")
    for i, (a, b) in enumerate(zip(lrs, want_lrs)):
        mon.close(a, b, "lr", f"learning rates at event {i} (callbacks {[c['what'] for c in cbs]})", tol=1e-6)
    if sched:
        mon.ev("schedule")
    if any(c["what"] == "stop" for c in cbs):
        mon.ev("stopped" if any(stops) else "ran_on")
    mon.check(T.near(T.pvec(model), T.pvec(refm), 1e-4), "log", "parameters after training")
    if any(c["what"] == "grad" for c in cbs):
        got = [e for e in tr.callback_manager.writer.log if e[0] == "write" and any(k.endswith("_std") for k in e[2])]
        fix = lambda es: [(a, b, {k: (0.0 if math.isnan(v) else v) for k, v in m.items()}) for a, b, m in es]
        T.compare_logs(mon, fix(got), fix([e for e in grads if e[2]]), "gradients", "gradient statistics")
