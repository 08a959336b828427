"""C23: checkpoints hold the state of the training at their iteration, and training resumes from the latest one."""
from __future__ import annotations

import copy
import io
import os
from contextlib import redirect_stdout
from pathlib import Path

import numpy as np
import torch

from qadence.ml_tools import TrainConfig
from qadence.ml_tools.callbacks.saveload import load_checkpoint, write_checkpoint

from .. import train as T

ID = "C23"
CASES = {"quick": 420, "thorough": 8000}
RULE = (
    "training histories of one to three runs over one log folder, each ended normally, by an interrupt or by a crash at a random event, "
    "the next run starting from a freshly initialised model and optimizer; direct save/load histories with random iteration numbers; "
    "best-checkpoint runs; judged by an independent loop that keeps its own checkpoints; non-trivial: something was restored"
)
MIN_EVENTS = {"log": 6000, "resumed": 100, "crashed": 30, "files": 150, "content": 300, "direct": 300, "best": 60}
ASSUMPTIONS = ["checkpoint writes themselves complete (a torn file is not modelled)", "single process on cpu", "tolerance 1e-4"]


class Boom(RuntimeError):
    pass


class Rec(T.Recorder):
    def emit(self, *e):
        try:
            super().emit(*e)
        except KeyboardInterrupt:
            if self.crash:
                raise Boom()
            raise


def state(model, opt):
    return copy.deepcopy(model.state_dict()), copy.deepcopy(opt.state_dict()), T.pvec(model)


def restore(model, opt, st):
    model.load_state_dict(copy.deepcopy(st[0]))
    opt.load_state_dict(copy.deepcopy(st[1]))


def opt_vec(opt):
    """The optimizer state as a vector: step counts, moments, learning rates."""
    out = []
    sd = opt.state_dict()
    for k in sorted(sd["state"]):
        for n in sorted(sd["state"][k]):
            v = sd["state"][k][n]
            if v is None:
                continue
            out.append(torch.as_tensor(v).double().reshape(-1))
    for g in sd["param_groups"]:
        out.append(torch.tensor([float(g["lr"])], dtype=torch.float64))
    return torch.cat(out).numpy()


def direct(r, mon):
    kind = r.choice(["linear", "mlp", "bnorm", "qnn"])
    optk = r.choice(["momentum", "adam", "groups"])
    its = sorted(r.sample([0, 1, 2, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 123456], r.randint(1, 6)))
    order = r.sample(its, len(its))
    best = r.random() < 0.3
    noise = r.random() < 0.4
    seed = r.randint(0, 10**6)
    mon.case(dict(what="direct", kind=kind, opt=optk, order=order, best=best, noise=noise, seed=seed), len(its) > 1)
    model = T.make_model(kind, seed)
    opt = T.make_opt(optk, model)
    saved = {}
    x, y = T.data(seed, 6)
    with T.scratch() as d:
        for it in order + (["best"] if best else []):
            for _ in range(r.randint(1, 2)):
                opt.zero_grad()
                T.loss_value(model, (x, y))[0].backward()
                opt.step()
            write_checkpoint(Path(d), model, opt, it)
            saved[it] = (T.pvec(model), opt_vec(opt))
            if r.random() < 0.2 and it != "best":
                # the same iteration written again: the last one counts
                opt.step()
                write_checkpoint(Path(d), model, opt, it)
                saved[it] = (T.pvec(model), opt_vec(opt))
        if noise:
            for nm in ("events.out.tfevents.1", "notes.txt", "data_5.npz"):
                open(os.path.join(d, nm), "w").write("x")
        pts = [f for f in os.listdir(d) if f.endswith(".pt")]
        mon.check(len(pts) == 2 * len(saved), "direct", f"files {sorted(pts)} for checkpoints {sorted(map(str, saved))}")
        m2 = T.make_model(kind, seed + 1)
        o2 = T.make_opt(optk, m2)
        m3, o3, it = load_checkpoint(Path(d), m2, o2)
        want = max(its)
        mon.check(it == want, "direct", f"latest checkpoint {it}, expected {want} among {its}")
        mon.check(m3 is m2 and o3 is o2, "direct", "the given model and optimizer are restored")
        mon.close(T.pvec(m2), saved[want][0], "content", f"model restored from iteration {want}", tol=1e-6)
        mon.close(opt_vec(o2), saved[want][1], "content", f"optimizer restored from iteration {want}", tol=1e-6)
        # the restored optimizer drives the restored model
        before = T.pvec(m2)
        o2.zero_grad()
        T.loss_value(m2, (x, y))[0].backward()
        o2.step()
        mon.check(np.max(np.abs(T.pvec(m2) - before)) > 1e-7, "direct", "the restored optimizer does not update the restored model")
        # a named checkpoint
        pick = r.choice(list(saved))
        sub = f"{pick:03d}" if isinstance(pick, int) else pick
        names = {t: [f for f in pts if f.startswith(t + "_") and f"_ckpt_{sub}_" in f] for t in ("model", "opt")}
        mon.check(all(len(v) == 1 for v in names.values()), "direct", f"checkpoint files of {pick}: {names}")
        m4 = T.make_model(kind, seed + 2)
        o4 = T.make_opt(optk, m4)
        _, _, it = load_checkpoint(Path(d), m4, o4, names["model"][0], names["opt"][0])
        mon.check(it == pick, "direct", f"iteration of the named checkpoint {pick}: {it}")
        mon.close(T.pvec(m4), saved[pick][0], "content", f"model of the named checkpoint {pick}", tol=1e-6)
        mon.close(opt_vec(o4), saved[pick][1], "content", f"optimizer of the named checkpoint {pick}", tol=1e-6)
        # an absent folder: nothing restored, folder created
        m5 = T.make_model(kind, seed + 3)
        v5 = T.pvec(m5)
        _, _, it = load_checkpoint(Path(d) / "new" / "deep", m5, T.make_opt(optk, m5))
        mon.check(it == 0 and os.path.isdir(os.path.join(d, "new", "deep")), "direct", "loading from an absent folder")
        mon.close(T.pvec(m5), v5, "direct", "model after loading from an absent folder")


def best_case(r, mon):
    kind = r.choice(["linear", "mlp", "qnn"])
    seed = r.randint(0, 10**6)
    lr = r.choice([0.05, 0.9, 2.2])
    cfg = dict(max_iter=r.randint(2, 8), val_every=r.choice([1, 1, 2, 3]))
    eps = r.choice([1e-5, 0.05])
    tl = dict(kind="finite", n=r.randint(2, 6), bs=2, seed=seed)
    vl = dict(kind="finite", n=r.randint(2, 6), bs=3, seed=seed + 5)
    mon.case(dict(what="best", kind=kind, lr=lr, cfg=cfg, eps=eps, tl=tl, vl=vl, seed=seed))
    crit = lambda v, b, e: bool(v < b - e)
    model, refm = T.make_model(kind, seed), T.make_model(kind, seed)
    opt, refo = [torch.optim.SGD(m.parameters(), lr=lr, momentum=0.5) for m in (model, refm)]
    (tload, tb), (vload, vb) = T.loaders(tl), T.loaders(vl)
    rec, nval = T.Recorder(), 0
    with T.scratch() as d, redirect_stdout(io.StringIO()):
        conf = TrainConfig(log_folder=Path(d) / "c", checkpoint_best_only=True, validation_criterion=crit, val_epsilon=eps, verbose=False,
                           checkpoint_every=r.choice([0, 1]), callbacks=T.recording_callbacks(rec, ["val_epoch_end"]), **cfg)
        tr = T.Trainer(model, opt, conf, T.loss_value, tload, vload)
        tr.callback_manager.writer = T.Quiet()
        tr.fit()
        loop = T.Loop(refm, refo, T.Recorder(), cfg, lambda: iter(tb), lambda: iter(vb))
        best, store, n = float("inf"), None, 0

        def on_event(stage, lp):
            nonlocal best, store, n, nval
            if stage != "val_epoch_end" or not lp.every(cfg["val_every"]):
                return
            # decide on the observed loss, which is the specified one up to rounding
            mon.check(nval < len(rec.log), "best", "a validation is missing")
            loss = rec.log[nval][3]
            mon.close(loss, lp.res[1], "best", f"validation loss {nval}", tol=1e-4)
            nval += 1
            if crit(loss, best, eps):
                best, store, n = loss, state(refm, refo), n + 1

        loop.on_event = on_event
        loop.fit()
        pts = sorted(f for f in os.listdir(Path(d) / "c") if f.endswith(".pt"))
        mon.check(len(pts) == (2 if store else 0), "best", f"checkpoints {pts}, {n} improvements")
        if store is None:
            return
        m2 = T.make_model(kind, seed + 1)
        o2 = torch.optim.SGD(m2.parameters(), lr=lr, momentum=0.5)
        load_checkpoint(Path(d) / "c", m2, o2)
        mon.close(T.pvec(m2), store[2], "best", f"best checkpoint (improvement {n}) model", tol=1e-4)
        restore(refm, refo, store)
        mon.close(opt_vec(o2), opt_vec(refo), "best", "best checkpoint optimizer", tol=1e-4)


def case(r, idx, mon):
    x = r.random()
    if x < 0.3:
        return direct(r, mon)
    if x < 0.5:
        return best_case(r, mon)
    kind = r.choices(["linear", "mlp", "bnorm", "qnn"], [3, 4, 2, 2])[0]
    optk = r.choice(["sgd", "momentum", "adam", "groups"])
    tl = dict(kind="finite", n=2 * r.randint(1, 3), bs=2, seed=r.randint(0, 10**6))
    vl = dict(kind="finite", n=2, bs=2, seed=r.randint(0, 10**6))
    runs = []
    for i in range(r.randint(1, 3)):
        runs.append(dict(max_iter=r.randint(0, 5), ckpt=r.choice([0, 1, 1, 2, 3]), val_every=r.choice([0, 0, 1, 2]),
                         end=r.choice(["normal", "normal", "interrupt", "crash"]),
                         at=(r.choice(["loss", "train_batch_end", "train_epoch_end", "on_train_epoch_end", "on_train_epoch_start"]), r.randint(1, 7)),
                         same=r.random() < 0.3, seed=r.randint(0, 10**6)))
    mon.case(dict(kind=kind, opt=optk, tl=tl, vl=vl, runs=runs), len(runs) > 1)
    store = {}  # iteration -> state, as the specification saves them
    (tload, tb), (vload, vb) = T.loaders(tl), T.loaders(vl)
    model = refm = None
    with T.scratch() as d:
        folder = Path(d) / "log"
        crashed = False
        for ri, run in enumerate(runs):
            cfg = dict(max_iter=run["max_iter"], val_every=run["val_every"])
            if model is None or not run["same"] or crashed:
                model, refm = T.make_model(kind, run["seed"]), T.make_model(kind, run["seed"])
                opt, refo = T.make_opt(optk, model), T.make_opt(optk, refm)
            inter = None if run["end"] == "normal" else run["at"]
            rec, rrec = Rec(inter), Rec(inter)
            rec.crash = rrec.crash = run["end"] == "crash"
            conf = TrainConfig(log_folder=folder, checkpoint_every=run["ckpt"], verbose=False, callbacks=T.recording_callbacks(rec), **cfg)
            tr = T.HookedTrainer(model, opt, conf, T.recording_loss(rec), tload, vload)
            tr.rec = rec
            tr.callback_manager.writer = T.Quiet()
            crashed = False
            with redirect_stdout(io.StringIO()):
                try:
                    m2, o2 = tr.fit()
                except Boom:
                    crashed = True
                    mon.ev("crashed")
            # specification
            loop = T.Loop(refm, refo, rrec, cfg, lambda: iter(tb), lambda: iter(vb))
            if store:
                last = max(store)
                restore(refm, refo, store[last])
                loop.step0 = last
                mon.ev("resumed")

            def on_event(stage, lp, run=run):
                if (stage == "train_start" and run["val_every"]) or (stage == "train_epoch_end" and lp.every(run["ckpt"])) or (
                    stage == "train_end" and run["ckpt"]
                ):
                    store[lp.res[0]] = state(refm, refo)

            loop.on_event = on_event
            ref_crash = False
            try:
                loop.fit()
            except Boom:
                ref_crash = True
            mon.check(crashed == ref_crash, "log", f"run {ri}: crash propagated {crashed}, expected {ref_crash}")
            T.compare_logs(mon, rec.log, rrec.log, "log", f"run {ri} resumed at {loop.step0}")
            mon.close(T.pvec(model), T.pvec(refm), "content", f"run {ri}: parameters", tol=1e-4)
            if tr.callback_manager.writer.log:
                mon.check(tr.callback_manager.writer.log[0] == ("open", loop.step0), "log", f"run {ri}: writer opened at {tr.callback_manager.writer.log[0]}")
            files = sorted(f for f in os.listdir(folder) if f.endswith(".pt")) if folder.exists() else []
            mon.check(len(files) == 2 * len(store), "files", f"run {ri}: checkpoints {files} expected iterations {sorted(store)}")
        # every checkpoint on disk holds the state of its iteration
        for it, st in store.items():
            m2 = T.make_model(kind, 12345)
            o2 = T.make_opt(optk, m2)
            mf = [f for f in files if f.startswith("model_") and f"_ckpt_{it:03d}_" in f]
            of = [f for f in files if f.startswith("opt_") and f"_ckpt_{it:03d}_" in f]
            mon.check(len(mf) == len(of) == 1, "files", f"files of iteration {it}: {mf} {of}")
            _, _, got = load_checkpoint(folder, m2, o2, mf[0], of[0])
            mon.check(got == it, "files", f"checkpoint {it} says iteration {got}")
            mon.close(T.pvec(m2), st[2], "content", f"checkpoint {it}: model", tol=1e-4)
            restore(refm, refo, st)
            mon.close(opt_vec(o2), opt_vec(refo), "content", f"checkpoint {it}: optimizer", tol=1e-4)
