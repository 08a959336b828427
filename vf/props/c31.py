"""C31: distributed training."""
from __future__ import annotations

import glob
import json
import math
import os
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time
from collections import Counter

import numpy as np
import torch

from ..run import VERIF

ID = "C31"
CASES = {"quick": 20, "thorough": 600}
RULE = (
    "training runs distributed over 2-4 CPU processes (Trainer.fit and functions wrapped by Accelerator.distribute): models (linear, neural network, QNN), "
    "optimizers, dataset and batch sizes, finite, infinite and dictionary loaders, validation, early stopping, checkpoints, repeated fits, a random delay "
    "of every process before each step, and processes that fail or are killed at a random step; every process records the parameters and samples of each "
    "evaluation, the metrics of each batch and the files it writes, and an offline checker replays the merged logs; non-trivial: more than one sample"
)
MIN_EVENTS = {"evaluation": 300, "partition": 30, "in_step": 100, "update": 100, "metric": 80, "epoch_metric": 10, "final": 14, "files": 14, "fault": 4, "processes": 20, "torchrun": 2}
ASSUMPTIONS = ["CPU processes on one host with the gloo backend, 2-4 processes; early stopping is the only reason for stopping early",
               "circuits are trained in processes started as torchrun does (spawned processes: open finding), faults are injected into spawned processes",
               "runs in which PyTorch itself aborts a process at its exit (seen without qadence in about 1 of 50 runs here) are repeated"]


def scenario(r):
    W = r.choice([2, 2, 3, 3, 4])
    mode = "fn" if r.random() < 0.2 else "fit"
    s = dict(mode=mode, W=W, seed=r.randrange(10**6), N=r.randint(2, 17), B=r.choice([1, 2, 3, 4, 8]), epochs=r.randint(1, 4), lr=r.choice([0.02, 0.1]),
             opt=r.choice(["sgd", "momentum", "adam"]), model=r.choice(["linear", "mlp"]), delay=r.choice([0, 0.02, 0.1]), reduce=r.random() < 0.5,
             infinite=r.random() < 0.2, dict=False, N2=r.randint(2, 17), val_every=0, NV=r.randint(1, 9), fits=1)
    if mode == "fit":
        if r.random() < 0.3:
            s["val_every"] = r.choice([1, 2])
        if r.random() < 0.25:
            s["dict"] = True
        x = r.random()
        if x < 0.2:
            s["fits"] = 2
            s["opt"] = r.choice(["momentum", "adam"])
        elif x < 0.45:
            s["stop"] = r.randint(1, 2)
            s["epochs"] = 6
        if s["fits"] == 2 and r.random() < 0.5:
            s["val_every"] = 0
        s["ckpt"], s["write"], s["print"] = r.choice([0, 1, 2] if s["fits"] == 1 else [1] if s["val_every"] else [0, 1]), r.choice([0, 1]), r.choice([0, 1])
    else:
        s["infinite"] = False
    if r.random() < 0.3:
        s["launch"] = "torchrun"
        s["fits"] = 1
        if r.random() < 0.7:
            s["model"], s["opt"] = "qnn", r.choice(["sgd", "momentum"])
    return s


def free_port():
    with socket.socket() as k:
        k.bind(("127.0.0.1", 0))
        return k.getsockname()[1]


def execute(s):
    for attempt in range(6):
        d = tempfile.mkdtemp(prefix="vf_dist_", dir="/tmp")
        s["dir"] = d
        env = dict(os.environ, VF_SCENARIO=json.dumps(s), OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
        for k in ("RANK", "LOCAL_RANK", "WORLD_SIZE", "MASTER_ADDR", "MASTER_PORT"):
            env.pop(k, None)
        if s.get("launch") == "torchrun":  # the processes torchrun starts, with the environment it gives them
            env.update(TORCHELASTIC_RUN_ID="vf", WORLD_SIZE=str(s["W"]), MASTER_ADDR="127.0.0.1", MASTER_PORT=str(free_port()))
            envs = [dict(env, RANK=str(i), LOCAL_RANK=str(i)) for i in range(s["W"])]
        else:
            envs = [env]
        ps = [subprocess.Popen([sys.executable, "-m", "vf.dist_worker"], cwd=VERIF, env=e, stdout=open(f"{d}/out{i}.log", "wb"), stderr=subprocess.STDOUT,
                               start_new_session=True) for i, e in enumerate(envs)]
        end = time.monotonic() + 150
        try:
            for p in ps:
                try:
                    p.wait(max(1, end - time.monotonic()))
                except subprocess.TimeoutExpired:
                    pass
        finally:
            for p in ps:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
        out = "".join(open(f"{d}/out{i}.log", errors="replace").read() for i in range(len(ps)))
        # another process took the port, or PyTorch aborted a process at its exit (plain gloo programs without qadence do, too)
        if attempt < 5 and ("address already in use" in out.lower() or "EADDRINUSE" in out or "terminate called without an active exception" in out):
            shutil.rmtree(d, ignore_errors=True)
            continue
        break
    logs = {}
    for i in range(s["W"]):
        f = f"{d}/rank{i}.jsonl"
        logs[i] = [json.loads(x) for x in open(f)] if os.path.exists(f) else []
    res = [json.load(open(f"{d}/result{i}.json")) if os.path.exists(f"{d}/result{i}.json") else None for i in range(len(ps))]
    return d, logs, res, out


def reference(s):
    """The user's model, loss and optimizer in this process."""
    os.environ["VF_SCENARIO"] = "{}"
    from .. import dist_worker as w

    w.S = s
    m = w.make_model(s["model"])
    return w, m


def setp(m, v):
    i = 0
    with torch.no_grad():
        for p in m.parameters():
            if p.requires_grad:
                p.copy_(torch.tensor(v[i : i + p.numel()], dtype=p.dtype).reshape(p.shape))
                i += p.numel()


def tens(xs):
    x = torch.tensor(xs, dtype=torch.float64).reshape(-1, 1)
    return x, torch.sin(3 * x)


def probe_qnn():
    """fit with nprocs = 2 of a QNN in spawned processes."""
    import random

    s = scenario(random.Random(1))
    s.update(mode="fit", model="qnn", opt="sgd", W=2, epochs=1, fits=1, ckpt=0, write=0, print=0, val_every=0, dict=False, infinite=False)
    s.pop("launch", None)
    s.pop("stop", None)
    d, logs, res, out = execute(s)
    shutil.rmtree(d, ignore_errors=True)
    return None if res[0] and res[0]["error"] is None else f"training failed: {res[0] and res[0]['error']}"


PROBES = {"qnn_spawn": probe_qnn}


def check_partition(mon, parts, n, off, W, what, infinite, B):
    """The processes' samples of one epoch: parts[rank] = list of batches."""
    mon.ev("partition")
    ids = [[[round((v - off) * 64) for v in b] for b in p] for p in parts]
    for p in ids:
        for b in p:
            mon.check(all(0 <= i < n for i in b), "evaluation", f"{what}: foreign samples {b}")
    if infinite:
        for p in ids:
            mon.check(len(p) == 1 and len(p[0]) == B, "partition", f"{what}: {p} is not one batch of {B} samples")
            c = Counter(p[0])
            mon.check(max(c.values()) <= math.ceil(B / n), "partition", f"{what}: samples {p[0]} repeat before a full pass over {n}")
        return
    per = math.ceil(n / W)
    for p in ids:
        want = [B] * (per // B) + ([per % B] if per % B else [])
        mon.check([len(b) for b in p] == want, "partition", f"{what}: batches of sizes {[len(b) for b in p]}, not {want}")
    c = Counter(i for p in ids for b in p for i in b)
    mon.check(set(c) == set(range(n)), "partition", f"{what}: samples {sorted(set(range(n)) - set(c))} of {n} are used by no process")
    mon.check(sum(c.values()) - n == per * W - n and max(c.values()) <= math.ceil(per * W / n), "partition", f"{what}: samples are duplicated: {c}")


def result(mon, e, want, what, tol=1e-8):
    mon.close(e["loss"], want["loss"], "metric", f"the loss of one {what}", tol=tol)
    for a, v in (("train_loss", want["loss"]), ("train_twice", 2 * want["loss"]), ("train_rank", want["rank"])):
        mon.close(e["metrics"].get(a, np.nan), v, "metric", f"metric {a} of one {what}", tol=tol)


def case(r, idx, mon):
    s = scenario(r)
    if idx % 5 == 4:
        s.update(crash=dict(rank=r.randrange(s["W"]), n=r.randint(0, 3), how=r.choice(["raise", "kill"])), fits=1)
        s.pop("launch", None)
        s["model"] = "mlp"
        s["epochs"] = max(s["epochs"], 4)
        s.pop("stop", None)
    mon.case(dict(s), s["N"] > 1)
    if s.get("launch"):
        mon.ev("torchrun")
    d = None
    try:
        d, logs, res, out = execute(s)
        check(s, logs, res, out, d, mon)
    finally:
        if d:
            shutil.rmtree(d, ignore_errors=True)


def check(s, logs, results, out, d, mon):
    W = s["W"]
    res = None if None in results else results[0]
    mon.check(res is not None, "processes", f"the run ended without a result: {out[-1500:]}")
    if s.get("crash"):
        mon.check(any(e["k"] == "crash" for e in logs[s["crash"]["rank"]]), "fault", "the fault was not reached")
        mon.check(res["error"] is not None, "fault", "training returned normally although one of its processes failed")
        mon.check(s["crash"]["how"] == "kill" or "injected fault" in res["error"], "fault", f"the error of the failing process is lost: {res['error']}")
    else:
        mon.check(res["error"] is None, "processes", f"training failed: {res['error']} {out[-1500:]}")
    mon.check(res["children"] == 0, "processes", f"{res['children']} processes are left behind")
    # the same user code runs in every process
    for i in range(W):
        mon.check(any(e["k"] == "eval" for e in logs[i]), "processes", f"process {i} of {W} did nothing")
    # (circuits have parameters in single precision)
    tol, tolm = (2e-4, 2e-4) if s["model"] == "qnn" else (1e-8, 1e-6)
    w, m = reference(s)
    setp(m, res["start"])
    evs = {i: [e for e in logs[i] if e["k"] == "eval"] for i in range(W)}
    steps = min(len(e) for e in evs.values())
    if not s.get("crash"):
        mon.check(all(len(e) == steps for e in evs.values()), "in_step", f"the processes evaluate the loss {[len(e) for e in evs.values()]} times")
    # structure of the run
    per, B = math.ceil(s["N"] / W), s["B"]
    nb = 1 if s["infinite"] else math.ceil(per / B)
    if s["dict"] and not s["infinite"]:
        nb = min(nb, math.ceil(math.ceil(s["N2"] / W) / B))
    nv = math.ceil(math.ceil(s["NV"] / W) / B) if s["val_every"] else 0
    E = s["epochs"] + (s["mode"] == "fit")  # (fit runs max_iter + 1 epochs, the first one being epoch 0)
    plan = []
    for i in range(s["fits"]):
        plan.append("fit")
        if nv:
            plan.append("val")
        e0 = i * s["epochs"] if s.get("ckpt") else 0  # (the second fit continues from the last checkpoint)
        for e in range(E):
            plan.append("train")
            if nv and (e + e0) % s["val_every"] == 0:
                plan.append("val")
    size = {"fit": 0, "val": nv, "train": nb}
    total = sum(size[x] for x in plan)
    if s.get("stop"):
        mon.check(steps <= total, "in_step", f"{steps} evaluations instead of at most {total}")
    elif not s.get("crash"):
        mon.check(steps == total, "in_step", f"{steps} evaluations instead of {total}")
    ends = {i: {(e["fit"], e["n"]): e for e in logs[i] if e["k"] == "epoch_end" and "n" in e} for i in range(W)}
    hist = []
    k = 0
    theta = res["start"]
    opt = None
    red = {i: {(e["fit"], e["n"]): e for e in logs[i] if e["k"] in ("batch_end", "reduce")} for i in range(W)}
    for ph in plan:
        if ph == "fit":
            if opt is None or not s["ckpt"]:
                opt = w.make_opt(s["opt"], m)
            setp(m, theta)
            continue
        seg = {i: evs[i][k : k + size[ph]] for i in range(W)}
        k += size[ph]
        full = min(len(x) for x in seg.values()) == size[ph]
        for j in range(size[ph]):
            row = [seg[i][j] for i in range(W) if j < len(seg[i])]
            for e in row:
                mon.check(e["train"] == (ph == "train") or s["mode"] == "fn", "evaluation", f"a {ph} batch in {'training' if e['train'] else 'evaluation'} mode")
                mon.check(e["grad"] == (ph == "train"), "evaluation", f"gradients {'enabled' if e['grad'] else 'disabled'} in a {ph} batch")
                mon.close(e["p"], theta, "in_step", f"parameters of process {row.index(e)} of {W} in {ph} batch {j}: the update of the averaged gradients", tol=tol)
            if ph == "train" and len(row) == W:
                gs, ls = [], []
                for e in row:
                    m.zero_grad()
                    b = {a: tens(v) for a, v in e["xs"].items()} if isinstance(e["xs"], dict) else tens(e["xs"])
                    l = w.pure_loss(m, b)
                    l.backward()
                    ls.append(float(l.detach()))
                    gs.append([p.grad.clone() if p.grad is not None else torch.zeros_like(p) for p in m.parameters() if p.requires_grad])
                for q, p in enumerate([p for p in m.parameters() if p.requires_grad]):
                    p.grad = sum(g[q] for g in gs) / W
                opt.step()
                theta = w.vec(m)
                mon.ev("update")
                # metrics of this batch
                for i in range(W):
                    e = red[i].get((row[i]["fit"], row[i]["n"]))
                    if e is None:
                        continue
                    if s["mode"] == "fn":
                        ops = dict(mean=np.mean, sum=np.sum, max=np.max)
                        for o, f in ops.items():
                            want = dict(loss=f(ls), r=f(range(W)), num=f([2.5] * W))
                            mon.check(set(e[o]) == set(want), "metric", f"keys {set(e[o])}")
                            for a, v in want.items():
                                mon.close(e[o][a], v, "metric", f"{o} of {a} over the processes", tol=tolm if a != "num" else 1e-5)
                    else:
                        # (callbacks at the end of a batch run before the metrics are averaged)
                        for own in (True, False):
                            want = dict(loss=ls[i] if own else np.mean(ls), rank=i if own else (W - 1) / 2)
                            if not s["reduce"] or abs(e["loss"] - want["loss"]) < tol / 10:
                                break
                        result(mon, e, want, "batch", tol)
                        mon.check(e["rank"] == i, "metric", f"the result of process {i} carries rank {e['rank']}")
                hist.append([np.mean(ls)] * W if s["reduce"] else ls)
                last = [e["n"] for e in row]
        if ph == "train" and full and s["mode"] == "fit":
            for i in range(W):
                e = ends[i].get((row[i]["fit"], last[i]))
                if e is not None:
                    mon.ev("epoch_metric")
                    result(mon, e, dict(loss=np.mean([h[i] for h in hist]), rank=(W - 1) / 2 if s["reduce"] else i), "epoch", tol)
        hist = []
        if full and size[ph]:
            if ph == "val":
                check_partition(mon, [[e["xs"] for e in seg[i]] for i in range(W)], s["NV"], 2.0, W, "validation", False, B)
            elif s["dict"]:
                if s["infinite"] or (math.ceil(math.ceil(s["N"] / W) / B) == nb):
                    check_partition(mon, [[e["xs"]["a"] for e in seg[i]] for i in range(W)], s["N"], 0.0, W, "training (a)", s["infinite"], B)
                if s["infinite"] or (math.ceil(math.ceil(s["N2"] / W) / B) == nb):
                    check_partition(mon, [[e["xs"]["b"] for e in seg[i]] for i in range(W)], s["N2"], 1.0, W, "training (b)", s["infinite"], B)
            else:
                check_partition(mon, [[e["xs"] for e in seg[i]] for i in range(W)], s["N"], 0.0, W, "training", s["infinite"], B)
        if s.get("stop") and k >= steps:
            break
    if s["mode"] == "fn":
        for i in range(W):
            for e in logs[i]:
                if e["k"] == "bcast":
                    mon.check(e["got"]["from"] == e["src"], "metric", f"broadcast from {e['src']} delivered {e['got']} to {i}")
    # files are written by the main process only
    writes = {i: [e["path"] for e in logs[i] if e["k"] == "write"] for i in range(W)}
    for i in range(1, W):
        mon.check(not writes[i], "files", f"process {i} wrote {writes[i][:3]}")
    if s.get("crash"):
        return
    for i in range(W):
        end = [e for e in logs[i] if e["k"] == "end"]
        mon.check(len(end) == s["fits"], "final", f"process {i} ended training {len(end)} times")
        mon.check(end[-1]["ws"] == W, "processes", f"{end[-1]['ws']} processes instead of {W}")
        mon.close(end[-1]["p"], theta, "final", f"final parameters of process {i}", tol=tol)
    for q in results:
        mon.check(q["error"] is None and q["children"] == 0, "processes", f"training failed: {q['error']} {q['children']}")
        mon.close(q["final"], theta, "final", "parameters of the model after fit", tol=tol)
    if s["mode"] == "fit":
        mon.check(res.get("same") is True or s.get("launch") == "torchrun", "final", "fit does not return the model and optimizer it was given")
        ck = sorted(glob.glob(d + "/out/**/model_*.pt", recursive=True), key=lambda f: os.path.getmtime(f))
        if s["ckpt"]:
            mon.check(bool(ck), "files", "no checkpoint of the model")
        if s["ckpt"] and s["model"] == "qnn":
            from pathlib import Path

            from qadence.ml_tools.callbacks.saveload import load_model

            m2, it = load_model(Path(d + "/out"), w.make_model("qnn"), os.path.basename(ck[-1]))
            if steps == total:
                mon.close(w.vec(m2), theta, "files", f"parameters loaded from the last checkpoint {ck[-1]}", tol=tol)
        elif s["ckpt"]:
            best = os.path.basename(ck[-1])
            q = torch.load(ck[-1], weights_only=False)
            sd = q[-1] if isinstance(q, tuple) else q
            vals = [float(v) for x in sd.values() for v in x.reshape(-1)]
            if steps == total:
                mon.close(vals, theta, "files", f"parameters of the last checkpoint {best}", tol=tol)
