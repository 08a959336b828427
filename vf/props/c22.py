"""C22: the training loop does what its configuration says, in order, exactly once."""
from __future__ import annotations

import copy
import io
import os
from contextlib import redirect_stdout

import numpy as np
import torch

from qadence.ml_tools import TrainConfig, Trainer
from qadence.ml_tools.callbacks import Callback

from .. import train as T

ID = "C22"
CASES = {"quick": 700, "thorough": 12000}
RULE = (
    "random training configurations (gradient-based and gradient-free optimizers, finite / infinite / dictionary / no data, batch limits, "
    "validation, writing, printing and plotting periods, user callbacks and conditions, interrupts at random points, repeated fits, "
    "testing), the ordered log of hooks, callbacks, loss evaluations and written metrics compared with an independent loop; "
    "non-trivial: more than one epoch"
)
MIN_EVENTS = {"log": 20000, "writer": 800, "returned": 300, "batches": 300, "test_loop": 60, "user_callback": 100, "interrupted": 40,
              "refit": 40, "gradient_free": 150, "mode_restored": 30, "tracked": 20}
ASSUMPTIONS = ["single process on cpu; models with a few parameters; metrics are scalar tensors", "tolerance 1e-4 on losses, metrics and parameters"]


def gen_loader(r, kinds):
    k = r.choice(kinds)
    n = r.randint(1, 9)
    return dict(kind=k, n=n, bs=r.choice([1, 2, 3, 4, n]), n2=r.randint(1, 9), bs2=r.randint(1, 4), seed=r.randint(0, 10**6))


def no_grad_case(r, mon):
    import nevergrad as ng

    from qadence.ml_tools.parameters import get_parameters, num_parameters, set_parameters

    kind = r.choice(["linear", "mlp", "frozen", "qnn"])
    ld = gen_loader(r, ["finite", "finite", "none", "dict"])
    max_iter = r.randint(1, 5)
    name = r.choice(["OnePlusOne", "NGOpt", "RandomSearch", "DE"])
    via_ctx = r.random() < 0.6
    seed = r.randint(0, 10**6)
    mon.case(dict(what="gradient_free", kind=kind, ld=ld, max_iter=max_iter, name=name, via_ctx=via_ctx, seed=seed))
    model = T.make_model(kind, seed)
    # the parameter vector view used by gradient-free optimization
    v = get_parameters(model).detach().clone()
    want = torch.cat([p.detach().reshape(-1) for p in model.parameters() if p.requires_grad])
    mon.check(torch.equal(v, want) and num_parameters(model) == len(want), "gradient_free", "get_parameters / num_parameters")
    other = {k: p.detach().clone() for k, p in model.named_parameters() if not p.requires_grad}
    set_parameters(model, v + 0.25)
    mon.check(torch.allclose(get_parameters(model), v + 0.25), "gradient_free", "set_parameters then get_parameters")
    set_parameters(model, v)
    mon.check(all(torch.equal(dict(model.named_parameters())[k], p) for k, p in other.items()), "gradient_free",
              "set_parameters touched a parameter that is not trainable")
    loader, batches = T.loaders(ld)
    evals, tells, asks = [], [], []
    opt = ng.optimizers.registry[name](budget=max_iter, parametrization=num_parameters(model))
    tell, ask = opt.tell, opt.ask

    def my_tell(c, loss, *a, **k):
        tells.append((np.array(c.value, dtype=float).copy(), float(loss)))
        return tell(c, loss, *a, **k)

    def my_ask(*a, **k):
        c = ask(*a, **k)
        asks.append(np.array(c.value, dtype=float).copy())
        return c

    opt.tell, opt.ask = my_tell, my_ask

    def loss_fn(m, b):
        l, met = T.loss_value(m, b)
        evals.append((get_parameters(m).detach().double().numpy().copy(), float(l), T.freeze(b)))
        return l, met

    with T.scratch() as d, redirect_stdout(io.StringIO()):
        cfg = TrainConfig(max_iter=max_iter, log_folder=d + "/x", verbose=False)
        torch_opt = torch.optim.SGD([p for p in model.parameters() if p.requires_grad], lr=0.1)
        if via_ctx:
            tr = T.Trainer(model, torch_opt, cfg, loss_fn, loader)
            tr.callback_manager.writer = T.Quiet()
            with tr.disable_grad_opt(opt):
                mon.check(tr.use_grad is False, "mode_restored", "gradient-free mode inside the context")
                m2, o2 = tr.fit()
            mon.check(tr.use_grad is True and tr.optimizer is torch_opt, "mode_restored", "mode after the gradient-free context")
            try:
                with tr.disable_grad_opt(opt):
                    raise KeyError("x")
            except KeyError:
                pass
            mon.check(tr.use_grad is True and tr.optimizer is torch_opt, "mode_restored", "mode after an error in the context")
        else:
            Trainer.set_use_grad(False)
            try:
                tr = T.Trainer(model, opt, cfg, loss_fn, loader)
                tr.callback_manager.writer = T.Quiet()
                m2, o2 = tr.fit()
                mon.check(o2 is opt, "returned", "optimizer returned by fit")
            finally:
                Trainer.set_use_grad(True)
    total = (max_iter + 1) * len(batches)
    mon.check(len(tells) == total and len(evals) == total, "gradient_free", f"{len(tells)} tells / {len(evals)} evaluations for {total} batches")
    for i, ((pt, lt), (pe, le, b)) in enumerate(zip(tells, evals)):
        mon.close(pt, pe, "gradient_free", f"tell {i}: parameters told to the optimizer vs parameters evaluated", tol=1e-5)
        mon.close(lt, le, "gradient_free", f"tell {i}: loss", tol=1e-5)
        mon.check(T.same_batch(b, batches[i % len(batches)]), "batches", f"batch of evaluation {i}")
        if i:
            mon.close(pe, asks[i - 1], "gradient_free", f"evaluation {i} uses the parameters last asked", tol=1e-5)
    mon.close(get_parameters(model).detach().double().numpy(), asks[-1], "gradient_free", "parameters after training", tol=1e-5)
    mon.check(m2 is model, "returned", "model returned by fit")


def case(r, idx, mon):
    if r.random() < 0.12:
        return no_grad_case(r, mon)
    kind = r.choices(["linear", "mlp", "bnorm", "frozen", "qnn"], [3, 4, 2, 2, 2])[0]
    optk = r.choice(["sgd", "momentum", "adam", "groups", "lbfgs"])
    kinds = ["finite", "finite", "finite", "dict", "infinite", "none"]
    if kind == "bnorm":
        kinds = ["finite", "infinite"]
    tl = gen_loader(r, kinds)
    val_every = r.choice([0, 0, 1, 2, 3])
    vl = gen_loader(r, ["finite", "finite", "dict"] + ([] if tl["kind"] == "infinite" else ["infinite"]))
    ml = gen_loader(r, ["finite", "dict"]) if r.random() < 0.25 else None
    if kind == "bnorm":
        # batch statistics need at least two rows
        for l in (tl, vl) + ((ml,) if ml else ()):
            l["kind"] = "finite"
            l["n"], l["bs"] = 2 * r.randint(1, 4), 2
        optk = "adam" if optk == "lbfgs" else optk
    if tl["kind"] == "infinite" or vl["kind"] == "infinite":
        optk = "adam" if optk == "lbfgs" else optk
    maxb = r.choice([None, None, 1, 2])
    for l in (tl, vl) + ((ml,) if ml else ()):
        l["maxb"] = maxb
    cfg = dict(max_iter=r.choice([0, 1, 2, 3, 4, 6]), val_every=val_every, write_every=r.choice([0, 1, 2, 3]),
               print_every=r.choice([0, 0, 1, 2]), plot_every=r.choice([0, 0, 1, 2]), verbose=r.random() < 0.7)
    dtype = r.choice([None, None, None, torch.float64]) if kind != "qnn" else None
    inter = None
    if r.random() < 0.3:
        inter = (r.choice(["loss", "train_batch_end", "train_batch_start", "train_epoch_end", "val_batch_end", "val_epoch_end",
                           "on_train_epoch_start", "on_train_batch_end", "on_val_batch_start"]), r.randint(1, 6))
    refits = 2 if r.random() < 0.25 else 1
    if inter and ("infinite" in (tl["kind"], vl["kind"]) or optk == "lbfgs"):
        refits = 1  # (an interrupted torch LBFGS cannot be continued)
    in_fit, default_loss = r.random() < 0.4, tl["kind"] == vl["kind"] == "finite" and r.random() < 0.15
    if default_loss and inter and inter[0] == "loss":
        inter = None
    if default_loss and ml:
        ml["kind"] = "finite"
    user = None
    if r.random() < 0.5:
        user = dict(on=r.choice(T.STAGES), every=r.choice([0, 1, 2, 3]), cond=r.choice([None, 0, 1]), extra=r.choice([None, 7]), fn=r.random() < 0.5)
    seed = r.randint(0, 10**6)
    track = r.random() < 0.08
    mon.case(dict(kind=kind, opt=optk, tl=tl, vl=vl, ml=ml, cfg=cfg, dtype=str(dtype), inter=inter, refits=refits, in_fit=in_fit,
                  default_loss=default_loss, user=user, seed=seed, track=track), cfg["max_iter"] > 0)
    model, ref_model = T.make_model(kind, seed), T.make_model(kind, seed)
    opt, ref_opt = T.make_opt(optk, model), T.make_opt(optk, ref_model)
    rec, ref_rec = T.Recorder(inter), T.Recorder(inter)
    tload, tb = T.loaders(tl)
    vload, vb = T.loaders(vl)
    mload, mb = T.loaders(ml) if ml else (None, None)
    seen = []
    if user:
        def uf(trainer, config, writer):
            seen.append((trainer.opt_result.iteration, trainer.opt_result.extra.get("k")))

        def modify(res):
            res.extra["k"] = user["extra"]
            return res

        ucb = Callback(on=user["on"], called_every=user["every"], callback=uf,
                       callback_condition=None if user["cond"] is None else (lambda o: o.iteration % 2 == user["cond"]),
                       modify_optimize_result=None if user["extra"] is None else modify if user["fn"] else {"k": user["extra"]})
    loss_name = r.choice(["mse", "mse", None, "cross_entropy"])
    loss_fn = loss_name if default_loss else T.recording_loss(rec)
    hp = {"lr": 0.1, "note": "x"} if r.random() < 0.3 else {}
    with T.scratch() as d:
        conf = TrainConfig(root_folder=d, create_subfolder_per_run=True, hyperparams=dict(hp), dtype=dtype,
                           callbacks=T.recording_callbacks(rec) + ([ucb] if user else []), **cfg)
        tr = T.HookedTrainer(model, opt, conf, loss_fn, None if in_fit else tload, vload, mload if mload and r.random() < 0.5 else None,
                             max_batches=maxb)
        tr.rec = rec
        if not track:
            tr.callback_manager.writer = T.Quiet()
        outs = []
        with redirect_stdout(io.StringIO()):
            for i in range(refits):
                try:
                    outs.append(tr.fit(tload if in_fit else None, vload if in_fit and val_every else None))
                except KeyboardInterrupt:
                    mon.fail("an interrupt during training is not handled gracefully")
        folders = sorted(os.listdir(d))
        if track:
            tracked = read_scalars(d)
        if ml:
            n0 = len(rec.log)
            rec.interrupt = None
            with redirect_stdout(io.StringIO()):
                test_out = tr.test(mload if tr.test_dataloader is None or r.random() < 0.5 else None)
            test_log = rec.log[n0:]
            rec.log = rec.log[:n0]
    # ---- the specification, on copies
    if dtype is not None:
        ref_model.to(dtype)
        cast = lambda b: None if b is None else ({k: cast(v) for k, v in b.items()} if isinstance(b, dict) else tuple(t.to(dtype) for t in b))
        tb, vb, mb = [None if x is None else [cast(b) for b in x] for x in (tb, vb, mb)]
    losses = [e for e in rec.log if e[0] == "loss"]

    def feeder(sp, batches, training):
        if batches is not None:
            return lambda: iter(batches)
        q = [e[3] for e in losses if e[1] == training]

        def it():
            b = q.pop(0) if q else None  # (an interrupt may come before the batch is used)
            if b is not None:
                check_infinite(mon, sp, b, dtype)
            yield b

        return it

    lf = T.loss_value
    if default_loss:
        def lf(m, b):
            if loss_name == "cross_entropy":
                l = -(b[1] * torch.log_softmax(m(b[0]), 1)).sum(1).mean()
                return l, {"cross_entropy": l}
            l = ((m(b[0]) - b[1]) ** 2).mean()
            return l, {"mse": l}

    loop = T.Loop(ref_model, ref_opt, ref_rec, cfg, feeder(tl, tb, True), feeder(vl, vb, False), lf)
    want_seen = []
    if user:
        def on_event(stage, lp):
            it = lp.res[0]
            if stage != user["on"]:
                return
            if stage in ("train_start", "train_end") or (
                user["every"] and it > 0 and it % user["every"] == 0 and (user["cond"] is None or it % 2 == user["cond"])
            ):
                want_seen.append((it, user["extra"]))

        loop.on_event = on_event
    for i in range(refits):
        loop.fit()
    got, want = rec.log, ref_rec.log
    if default_loss:
        want = [e for e in want if e[0] != "loss"]
    T.compare_logs(mon, got, want, "log", "training log")
    if loop.stop:
        mon.ev("interrupted")
    if refits > 1:
        mon.ev("refit", 1)
    for m2, o2 in outs:
        mon.check(m2 is model and o2 is opt, "returned", "fit returns the trained model and the optimizer")
    mon.close(T.pvec(model), T.pvec(ref_model), "returned", "parameters after training", tol=1e-4)
    if tb is not None:
        mon.ev("batches", len(losses))
    mon.check(seen == want_seen, "user_callback", f"user callback {user}: observed {seen[:12]} expected {want_seen[:12]}")
    mon.check(len(folders) == refits, "returned", f"{refits} runs logged in {folders}")
    if track:
        merged = sorted((t, s, round(v, 4)) for _, g in tracked for t, s, v in g)
        exp = sorted((t, w[1], round(v, 4)) for w in loop.writes for t, v in w[2].items())
        mon.check(len(merged) == len(exp) and all(a[:2] == b[:2] and abs(a[2] - b[2]) <= 2e-3 * (1 + abs(b[2])) for a, b in zip(merged, exp)),
                  "tracked", f"scalars in the event files {merged[:6]}... ({len(merged)}) expected {exp[:6]}... ({len(exp)})")
    else:
        wl = tr.callback_manager.writer.log
        T.compare_logs(mon, [e for e in wl if e[0] == "write"], loop.writes, "writer", "written metrics")
        T.compare_logs(mon, [e for e in wl if e[0] == "print"], loop.prints, "writer", "printed metrics")
        T.compare_logs(mon, [e for e in wl if e[0] == "plot"], loop.plots, "writer", "plots")
        mon.check([e for e in wl if e[0] == "hparams"] == [("hparams", hp)] * (refits if hp else 0), "writer", "hyperparameters logged")
        # every write happens between the opening and the closing of its run
        depth = 0
        for e in wl:
            if e[0] == "open":
                mon.check(depth == 0 and e[1] == 0, "writer", f"writer opened at {e[1:]}")
                depth += 1
            elif e[0] == "close":
                mon.check(depth == 1, "writer", "writer closed")
                depth -= 1
            else:
                mon.check(depth == 1, "writer", f"{e[0]} outside an open writer")
        mon.check(depth == 0, "writer", "writer left open")
    if ml:
        ref_model.eval()
        exp = []
        for b in mb:
            with torch.no_grad():
                l, m = lf(ref_model, b)
            exp.append((float(l), {**{f"test_{k}": float(v) for k, v in m.items()}, "test_loss": float(l)}))
        got_t = [(float(l), T.flt(m)) for l, m in test_out]
        mon.check(T.near(got_t, exp, 1e-4), "test_loop", f"test results {got_t} expected {exp}")
        if not default_loss:
            ev = [e for e in test_log if e[0] == "loss"]
            mon.check(len(ev) == len(mb) and all(not e[1] and not e[2] and T.same_batch(e[3], b) for e, b in zip(ev, mb)), "test_loop",
                      "test evaluations (mode, gradients, batches)")


def check_infinite(mon, sp, b, dtype):
    x, y = T.data(sp["seed"], sp["n"])
    if dtype is not None:
        x, y = x.to(dtype), y.to(dtype)
    mon.check(len(b[0]) == sp["bs"], "batches", f"batch of {len(b[0])} rows, {sp['bs']} asked")
    rows = [(float(a), float(c)) for a, c in zip(x, y)]
    got = [(float(a), float(c)) for a, c in zip(b[0], b[1])]
    mon.check(all(g in rows for g in got), "batches", "a row of the batch is not a row of the data")
    full, rest = divmod(sp["bs"], sp["n"])
    cnt = [got.count(w) for w in rows]
    mon.check(all(c in (full, full + (1 if rest else 0)) for c in cnt), "batches", f"rows repeated before the pass ends: {cnt}")


def read_scalars(root):
    from tensorboard.backend.event_processing.event_file_loader import EventFileLoader

    out = []
    for f in sorted(os.listdir(root)):
        vals = []
        for fn in sorted(os.listdir(os.path.join(root, f))):
            if "tfevents" not in fn:
                continue
            for e in EventFileLoader(os.path.join(root, f, fn)).Load():
                for v in e.summary.value:
                    t = v.tensor
                    if len(t.float_val):
                        vals.append((v.tag, e.step, float(t.float_val[0])))
        out.append((f, vals))
    return out
