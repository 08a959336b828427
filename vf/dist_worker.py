"""Runs one distributed training scenario (C31) and records what every process does.

usage: python -m vf.dist_worker SCENARIO.json
Each process appends its events to <dir>/rank<r>.jsonl; the offline checker is vf/props/c31.py.
"""
from __future__ import annotations

import json
import os
import random
import signal
import sys
import time

import torch
import torch.distributed as dist

S = json.loads(os.environ.get("VF_SCENARIO", "{}"))
FIT = int(os.environ.get("VF_FIT", "0"))
D = S.get("dir", "/nonexistent")
R0 = int(os.environ.get("RANK", "0"))  # (as given by torchrun)


def rank():
    return dist.get_rank() if dist.is_initialized() else int(os.environ.get("RANK", "-1"))


def log(kind, **kw):
    with open(os.path.join(D, f"rank{rank()}.jsonl"), "a") as f:
        f.write(json.dumps(dict(k=kind, t=time.monotonic(), **kw)) + "\n")


def written(path):
    if not isinstance(path, int):
        p = os.path.abspath(os.fsdecode(path))
        if p.startswith(D + "/out"):
            log("write", path=os.path.relpath(p, D))


def audit(event, args):
    # files opened for writing below the run folder
    if event == "open" and isinstance(args[1], str) and args[1] and args[1][0] in "wax":
        written(args[0])
    elif event in ("os.rename", "os.remove"):
        written(args[0])


_save = torch.save


def save(obj, f, *a, **kw):
    if isinstance(f, (str, os.PathLike)):  # written in C++: no audit event
        written(f)
    return _save(obj, f, *a, **kw)


if D != "/nonexistent":
    sys.addaudithook(audit)
    torch.save = save


def make_model(kind):
    if kind == "qnn":
        import qadence as qd

        fm = qd.kron(qd.RX(i, qd.FeatureParameter("x") * (i + 1)) for i in range(2))
        c = qd.QuantumCircuit(2, qd.chain(fm, qd.hea(2, 1), fm))
        return qd.QNN(c, qd.hamiltonian_factory(2, detuning=qd.Z), inputs=["x"])
    g = torch.Generator().manual_seed(S["seed"])
    if kind == "linear":
        m = torch.nn.Linear(1, 2, dtype=torch.float64)
    else:
        m = torch.nn.Sequential(torch.nn.Linear(1, 3, dtype=torch.float64), torch.nn.Tanh(), torch.nn.Linear(3, 1, dtype=torch.float64))
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.rand(p.shape, generator=g, dtype=torch.float64) - 0.5)
    return m


def make_opt(kind, m):
    ps = [p for p in m.parameters() if p.requires_grad]
    if kind == "adam":
        return torch.optim.Adam(ps, lr=S["lr"])
    return torch.optim.SGD(ps, lr=S["lr"], momentum=0.6 if kind == "momentum" else 0.0)


def vec(m):
    return [float(v) for p in m.parameters() if p.requires_grad for v in p.detach().reshape(-1)]


def pure_loss(model, batch):
    if isinstance(batch, dict):
        ls = [pure_loss(model, b) for b in batch.values()]
        return sum(ls) / len(ls)
    x, y = batch
    return ((model(x) - y) ** 2).mean()


_n = 0
_rng = None


def loss_fn(model, batch):
    """The user's loss: records the parameters and the samples it is evaluated on."""
    global _n, _rng
    if _rng is None:
        _rng = random.Random(f"{S['seed']}:{rank()}")
    if S.get("delay"):
        time.sleep(_rng.random() * S["delay"])
    xs = {k: v[0].reshape(-1).tolist() for k, v in batch.items()} if isinstance(batch, dict) else batch[0].reshape(-1).tolist()
    log("eval", train=model.training, grad=torch.is_grad_enabled(), p=vec(model), xs=xs, n=_n, fit=FIT)
    c = S.get("crash")
    if c and c["rank"] == rank() and c["n"] == _n:
        log("crash")
        if c["how"] == "kill":
            os.kill(os.getpid(), signal.SIGKILL)
        raise RuntimeError("injected fault")
    _n += 1
    l = pure_loss(model, batch)
    return l, {"twice": 2 * l.detach(), "rank": torch.tensor(float(rank()), dtype=torch.float64)}


def on_batch(trainer, config, writer):
    o = trainer.opt_result
    log("batch_end", n=_n - 1, fit=FIT, loss=float(o.loss), metrics={k: float(v) for k, v in o.metrics.items()}, rank=o.rank)


def on_epoch(trainer, config, writer):
    o = trainer.opt_result
    log("epoch_end", n=_n - 1, fit=FIT, loss=float(o.loss), metrics={k: float(v) for k, v in o.metrics.items()})


def on_end(trainer, config, writer):
    log("end", p=vec(trainer.model), ws=trainer.accelerator.world_size)


def loader(n, b, infinite, off=0.0):
    from qadence.ml_tools import to_dataloader

    x = off + torch.arange(n, dtype=torch.float64).reshape(-1, 1) / 64
    return to_dataloader(x, torch.sin(3 * x), batch_size=b, infinite=infinite)


def data(infinite):
    from qadence.ml_tools import DictDataLoader

    if S.get("dict"):
        return DictDataLoader({"a": loader(S["N"], S["B"], infinite), "b": loader(S["N2"], S["B"], infinite, 1.0)})
    return loader(S["N"], S["B"], infinite)


def fn(model, opt, dl, acc):
    """A user's training function distributed with Accelerator.distribute (as in the documentation)."""
    model, opt, dl = acc.prepare(model, opt, dl)
    for e in range(S["epochs"]):
        for b in dl:
            b = acc.prepare_batch(b)
            opt.zero_grad()
            l, m = loss_fn(model, b)
            l.backward()
            opt.step()
            r = acc.rank
            d = {"loss": l, "r": torch.tensor(float(r)), "num": 2.5}
            red = {op: {k: float(v) for k, v in acc.all_reduce_dict(d, op=op).items()} for op in ("mean", "sum", "max")}
            log("reduce", n=_n - 1, fit=FIT, loss=float(l.detach()), **red)
        log("epoch_end", epoch=e)
        src = e % acc.world_size
        log("bcast", src=src, got=acc.broadcast({"from": acc.rank, "e": e} if acc.rank == src else None, src=src))
    log("end", p=vec(model), ws=acc.world_size)


def main():
    import logging

    from qadence.ml_tools import TrainConfig, Trainer
    from qadence.ml_tools.callbacks import Callback, EarlyStopping
    from qadence.ml_tools.train_utils.accelerator import Accelerator

    logging.disable(logging.WARNING)
    torch.manual_seed(S["seed"])
    m = make_model(S["model"])
    opt = make_opt(S["opt"], m)
    out = dict(start=vec(m), error=None)
    try:
        if S["mode"] == "fn":
            acc = Accelerator(nprocs=S["W"], compute_setup="cpu", backend="gloo")
            acc.distribute(fn)(m, opt, data(False), acc)
        else:
            cbs = [Callback(on="train_batch_end", callback=on_batch, called_every=1), Callback(on="train_epoch_end", callback=on_epoch, called_every=1),
                   Callback(on="train_end", callback=on_end)]
            if S.get("stop"):
                cbs.append(EarlyStopping(on="train_epoch_end", called_every=1, monitor="train_loss", patience=S["stop"], mode="max"))
            cfg = TrainConfig(max_iter=S["epochs"], nprocs=S["W"], compute_setup="cpu", backend="gloo", callbacks=cbs, all_reduce_metrics=S["reduce"],
                              log_folder=os.path.join(D, "out"), create_subfolder_per_run=False, print_every=S.get("print", 0),
                              write_every=S.get("write", 0), checkpoint_every=S.get("ckpt", 0), plot_every=0, val_every=S.get("val_every", 0))
            t = Trainer(m, opt, cfg, loss_fn, train_dataloader=data(S["infinite"]),
                        val_dataloader=loader(S["NV"], S["B"], False, 2.0) if S.get("val_every") else None)
            for i in range(S.get("fits", 1)):
                os.environ["VF_FIT"] = str(i)
                r = t.fit()
                out["same"] = r[0] is m and r[1] is opt
    except Exception as e:
        out["error"] = type(e).__name__ + ": " + str(e)[-600:]
    import psutil

    kids = [p for p in psutil.Process().children(recursive=True) if "resource_tracker" not in " ".join(p.cmdline())]
    out["children"] = len(kids)
    out["final"] = vec(m)
    with open(os.path.join(D, f"result{R0}.json"), "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
