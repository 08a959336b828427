"""C13: data loaders and parameter vectors deliver the user's numbers, each exactly once per pass."""
from __future__ import annotations

from collections import Counter

import numpy as np
import torch
from torch.utils.data import DataLoader, TensorDataset

from qadence.ml_tools import DictDataLoader, get_parameters, num_parameters, set_parameters, to_dataloader
from qadence.ml_tools.data import InfiniteTensorDataset, data_to_device
from qadence.ml_tools.tensors import numpy_to_tensor, promote_to, promote_to_tensor
from qadence.ml_tools.train_utils.accelerator import Accelerator

ID = "C13"
CASES = {"quick": 1500, "thorough": 40000}
RULE = (
    "random data sets (1-3 tensors of 1-40 rows, several shapes and dtypes, rows that carry their index) in finite and infinite loaders of every batch "
    "size, iterated repeatedly, partially and simultaneously; dictionaries of loaders; moving tensors, containers, datasets and loaders (of random "
    "sampling settings) to a device or dtype; batches prepared by the accelerator; random histories of get/set of the parameter vector of random "
    "modules; every delivered row is recognised and a checker follows each pass; non-trivial: more than one row"
)
MIN_EVENTS = {"row": 20000, "pass": 1500, "finite": 300, "infinite": 300, "interleaved": 100, "refused": 30, "dict": 150, "move": 250, "loader_moved": 80,
              "batch": 150, "get": 300, "set": 300, "promote": 100}
ASSUMPTIONS = ["device cpu (the only one here); loaders without worker processes"]
DT = [torch.float64, torch.float32, torch.int64, torch.complex128]


def dataset(r, n, tag=0):
    """Tensors whose rows carry (row index, tensor number)."""
    ts = []
    for k in range(r.randint(1, 3)):
        shape = r.choice([(), (1,), (2,), (3, 2)])
        t = torch.arange(n).reshape((n,) + (1,) * len(shape)) * 10 + k + 1000 * tag
        ts.append((t * torch.ones((n,) + shape, dtype=torch.int64)).to(r.choice(DT)))
    return ts


def decode(t, k, tag=0):
    """The row a delivered sample comes from."""
    v = t.reshape(-1)
    v = v.real if v.is_complex() else v
    i = round(float(v[0]))
    ok = bool((v == v[0]).all()) and (i - 1000 * tag) % 10 == k
    return (i - 1000 * tag) // 10 if ok else None


def rows(mon, batch, ts, what, tag=0):
    """Row indices of a batch; all tensors of it have to agree."""
    mon.check(len(batch) == len(ts), "row", f"{what}: {len(batch)} tensors in a batch of {len(ts)}")
    per = []
    for k, (b, t) in enumerate(zip(batch, ts)):
        mon.check(b.dtype == t.dtype, "row", f"{what}: dtype {b.dtype} of {t.dtype} data")
        mon.check(tuple(b.shape[1:]) == tuple(t.shape[1:]), "row", f"{what}: rows of shape {tuple(b.shape[1:])}, not {tuple(t.shape[1:])}")
        ix = [decode(x, k, tag) for x in b]
        mon.check(all(i is not None and 0 <= i < len(t) for i in ix), "row", f"{what}: rows {ix} are not of the data set")
        per.append(ix)
    mon.check(all(p == per[0] for p in per), "row", f"{what}: tensors of a batch show rows {per}")
    mon.ev("row", len(per[0]))
    return per[0]


class Passes:
    """Follows one iterator over an endless stream: every pass shows every row once."""

    def __init__(self, n, what):
        self.n, self.what, self.seen = n, what, []

    def add(self, mon, ix):
        for i in ix:
            self.seen.append(i)
            if len(self.seen) == self.n:
                mon.check(sorted(self.seen) == list(range(self.n)), "pass", f"{self.what}: a full pass shows rows {self.seen}")
                self.seen = []
        mon.check(len(set(self.seen)) == len(self.seen), "pass", f"{self.what}: rows repeat before a full pass: {self.seen}")


def finite(r, mon, n, ts):
    B = r.randint(1, n + 3)
    dl = to_dataloader(*ts, batch_size=B)
    mon.ev("finite")
    mon.check(len(dl) == -(-n // B), "finite", f"{len(dl)} batches of {B} for {n} rows")
    if r.random() < 0.3:
        next(iter(dl))  # an abandoned iterator
    its = [iter(dl) for _ in range(r.randint(1, 3))]
    done = {i: [] for i in range(len(its))}
    live = list(done)
    while live:
        i = r.choice(live)
        try:
            b = next(its[i])
        except StopIteration:
            live.remove(i)
            continue
        ix = rows(mon, b, ts, "finite loader")
        want = min(B, n - len(done[i]))
        mon.check(len(ix) == want, "finite", f"a batch of {len(ix)} rows instead of {want}")
        done[i] += ix
    for i, d in done.items():
        mon.check(d == list(range(n)), "pass", f"finite loader: a pass shows rows {d}")


def infinite(r, mon, n, ts):
    B = r.randint(1, n + 3)
    mon.ev("infinite")
    raw = r.random() < 0.3
    dl = InfiniteTensorDataset(*ts) if raw else to_dataloader(*ts, batch_size=B, infinite=True)
    if len(ts) > 1 and r.random() < 0.3:
        bad = list(ts)
        k = r.randrange(len(ts))
        bad[k] = torch.cat([ts[k], ts[k][:1]]) if r.random() < 0.5 or n < 2 else ts[k][:-1]
        try:
            next(iter(to_dataloader(*bad, batch_size=B, infinite=True)))
            mon.fail(f"data of {[len(t) for t in bad]} rows is accepted")
        except ValueError:
            mon.ev("refused")
        try:
            to_dataloader(*bad, batch_size=B)
            mon.fail(f"finite data of {[len(t) for t in bad]} rows is accepted")
        except Exception:
            mon.ev("refused")
    its = [(iter(dl), Passes(n, "infinite loader"))]
    if len(ts) and r.random() < 0.5:
        mon.ev("interleaved")
    for _ in range(r.randint(2, 3) * (n if raw else -(-n // B)) + 2):
        if len(its) < 3 and r.random() < 0.2:
            its.append((iter(dl), Passes(n, "another infinite loader")))
            mon.ev("interleaved")
        it, p = r.choice(its)
        b = next(it)
        if raw:
            b = tuple(x[None] for x in b)
        ix = rows(mon, b, ts, "infinite loader")
        mon.check(len(ix) == (1 if raw else B), "infinite", f"a batch of {len(ix)} rows instead of {B}")
        p.add(mon, ix)
    # the shuffled order is not that of the data (n! orders)
    if n >= 25:
        d = [i for b in zip(range(n), iter(InfiniteTensorDataset(*ts))) for i in rows(mon, tuple(x[None] for x in b[1]), ts, "infinite data")]
        mon.check(d != list(range(n)), "infinite", "rows of an infinite loader are not shuffled")


def dicts(r, mon):
    sets = {}
    for j, k in enumerate(r.sample(["a", "b", "data", "colloc"], r.randint(1, 3))):
        n = r.randint(1, 12)
        sets[k] = (dataset(r, n, j + 1), n, r.randint(1, n + 1), r.random() < 0.4, j + 1)
    dl = DictDataLoader({k: to_dataloader(*ts, batch_size=B, infinite=inf) for k, (ts, n, B, inf, _) in sets.items()})
    fin = [-(-n // B) for ts, n, B, inf, _ in sets.values() if not inf]
    mon.ev("dict")
    for rep in range(r.randint(1, 3)):
        seen = {k: [] for k in sets}
        P = {k: Passes(v[1], f"infinite loader {k}") for k, v in sets.items()}
        cnt = 0
        stop = r.randint(1, 6) if (not fin or r.random() < 0.3) else None
        for b in dl:
            mon.check(list(b) == list(sets), "dict", f"keys {list(b)} of loaders {list(sets)}")
            for k, (ts, n, B, inf, tag) in sets.items():
                ix = rows(mon, b[k], ts, f"loader {k}", tag)
                mon.check(len(ix) == (B if inf else min(B, n - len(seen[k]))), "dict", f"{k}: a batch of {len(ix)} rows")
                seen[k] += ix
                if inf:
                    P[k].add(mon, ix)
            cnt += 1
            if cnt == stop:
                break
        if stop is None or cnt < stop:
            mon.check(cnt == min(fin), "dict", f"{cnt} batches, not those of the shortest loader: {fin}")
        for k, (ts, n, B, inf, tag) in sets.items():
            if not inf:
                mon.check(seen[k] == list(range(n))[: len(seen[k])], "pass", f"loader {k} shows rows {seen[k]}")


def nest(r, depth=0):
    x = r.random()
    if depth > 2 or x < 0.45:
        return torch.tensor([r.randint(-9, 9) for _ in range(r.randint(0, 3))], dtype=r.choice([torch.float64, torch.float32]))
    if x < 0.55:
        return None
    if x < 0.8:
        return [nest(r, depth + 1) for _ in range(r.randint(0, 3))]
    return {k: nest(r, depth + 1) for k in r.sample("abcd", r.randint(0, 3))}


def same(mon, got, src, dtype, what):
    if isinstance(src, torch.Tensor):
        mon.check(isinstance(got, torch.Tensor) and got.dtype == (dtype or src.dtype), "move", f"{what}: {src.dtype} moved to {dtype} is {getattr(got, 'dtype', got)}")
        mon.check(got.shape == src.shape and bool((got.to(src.dtype) == src).all()), "move", f"{what}: {src} became {got}")
    elif isinstance(src, dict):
        mon.check(isinstance(got, dict) and list(got) == list(src), "move", f"{what}: keys {got} of {list(src)}")
        for k in src:
            same(mon, got[k], src[k], dtype, what)
    elif isinstance(src, (list, tuple)):
        mon.check(isinstance(got, (list, tuple)) and len(got) == len(src), "move", f"{what}: {got}")
        for g, s in zip(got, src):
            same(mon, g, s, dtype, what)
    else:
        mon.check(got is None, "move", f"{what}: None became {got}")


def moves(r, mon, n, ts):
    mon.ev("move")
    x = nest(r)
    dtype = r.choice([None, torch.float64, torch.float32])
    kw = dict(dtype=dtype) if dtype else {}
    same(mon, data_to_device(x, device="cpu", **kw), x, dtype, "data_to_device")
    dev = torch.device("cpu")
    same(mon, data_to_device(TensorDataset(*ts), dev).tensors, ts, None, "TensorDataset")
    same(mon, data_to_device(InfiniteTensorDataset(*ts), dev).tensors, ts, None, "InfiniteTensorDataset")
    for bad in (3.5, "x", object()):
        try:
            data_to_device(bad, dev)
            mon.fail(f"data_to_device accepts {bad!r}")
        except ValueError:
            mon.ev("refused")
    # loaders keep their settings
    B = r.randint(1, n + 2)
    how = r.choice(["plain", "drop", "shuffle", "infinite", "batch_sampler", "single", "dict"])
    mon.ev("loader_moved")
    if how == "dict":
        src = DictDataLoader({"u": to_dataloader(*ts, batch_size=B), "v": to_dataloader(*ts, batch_size=B)})
        got = data_to_device(src, dev)
        bs = list(got)
        mon.check(len(bs) == -(-n // B) and all(list(b) == ["u", "v"] for b in bs), "move", f"a moved dictionary of loaders yields {len(bs)} batches of {n} rows")
        for k in "uv":
            d = [i for b in bs for i in rows(mon, b[k], ts, "moved loader")]
            mon.check(d == list(range(n)), "pass", f"a moved loader shows rows {d}")
        return
    if how == "infinite":
        it = iter(data_to_device(to_dataloader(*ts, batch_size=B, infinite=True), dev))
        p = Passes(n, "moved infinite loader")
        for _ in range(2 * n // B + 2):
            ix = rows(mon, next(it), ts, "moved loader")
            mon.check(len(ix) == B, "move", f"batches of {len(ix)} instead of {B} rows in a moved loader")
            p.add(mon, ix)
        return
    ds = TensorDataset(*ts)
    if how == "batch_sampler":
        plan = [[r.randrange(n) for _ in range(r.randint(1, 3))] for _ in range(r.randint(1, 4))]
        got = [rows(mon, b, ts, "moved loader") for b in data_to_device(DataLoader(ds, batch_sampler=plan), dev)]
        mon.check(got == plan, "move", f"batches {got} of a moved loader instead of {plan}")
    elif how == "single":
        got = [rows(mon, tuple(x[None] for x in b), ts, "moved loader")[0] for b in data_to_device(DataLoader(ds, batch_size=None), dev)]
        mon.check(got == list(range(n)), "pass", f"a moved loader shows rows {got}")
    else:
        dl = data_to_device(DataLoader(ds, batch_size=B, shuffle=how == "shuffle", drop_last=how == "drop"), dev)
        for _ in range(2):
            bs = [rows(mon, b, ts, "moved loader") for b in dl]
            want = [B] * (n // B) + ([n % B] if n % B and how != "drop" else [])
            mon.check([len(b) for b in bs] == want, "move", f"a moved loader ({how}) yields batches of {[len(b) for b in bs]} rows, not {want}")
            d = [i for b in bs for i in b]
            if how == "shuffle":
                mon.check(sorted(d) == list(range(n)), "pass", f"a moved loader shows rows {d}")
                if n >= 25:
                    mon.check(d != sorted(d), "move", "a moved loader does not shuffle")
            else:
                mon.check(d == list(range(len(d))), "pass", f"a moved loader shows rows {d}")


def batches(r, mon, n, ts):
    mon.ev("batch")
    dtype = r.choice([None, torch.float64, torch.float32])
    acc = Accelerator(nprocs=1, compute_setup="cpu", dtype=dtype)
    dd = acc.execution.data_dtype
    fs = [t.double() + 0.25 if not t.is_complex() else t.real + 0.25 for t in ts]
    kind = r.choice(["tuple", "list", "dict", "tensor", "none"])
    if kind == "none":
        mon.check(acc.prepare_batch(None) is None, "batch", "no batch is prepared to something")
        return
    if kind == "tensor":
        same(mon, acc.prepare_batch(fs[0]), fs[0], dd, "prepared batch")
    elif kind == "dict":
        b = {str(i): [f] if r.random() < 0.5 else f for i, f in enumerate(fs)}
        same(mon, acc.prepare_batch(b), b, dd, "prepared batch")
    else:
        got = acc.prepare_batch(fs if kind == "list" else tuple(fs))
        mon.check(isinstance(got, tuple), "batch", f"a prepared batch is a {type(got)}")
        same(mon, got, fs, dd, "prepared batch")
    # in one process data loaders are used as they are
    dl = to_dataloader(*ts, batch_size=2)
    a, b, c = acc.prepare(dl, None, DictDataLoader({"a": dl}))
    mon.check(a is dl and b is None and [len(list(x)) for x in (c.dataloaders["a"],)] == [len(dl)], "batch", "loaders are changed without distribution")
    d = {"a": torch.tensor(r.uniform(-1, 1)), "b": torch.tensor([1.0, 2.0])}
    got = acc.all_reduce_dict(d, op=r.choice(["mean", "sum", "max"]))
    mon.check(set(got) == set(d) and all(bool((got[k] == d[k]).all()) for k in d), "batch", f"reduction over one process changes {d} to {got}")
    mon.check(acc.broadcast(d, src=0) is d, "batch", "broadcast within one process")


class Mod(torch.nn.Module):
    def __init__(self, r):
        super().__init__()
        for i in range(r.randint(1, 4)):
            shape = r.choice([(), (1,), (3,), (2, 2), (2, 1, 3)])
            self.register_parameter(f"p{i}", torch.nn.Parameter(torch.rand(shape, dtype=torch.float64), requires_grad=r.random() < 0.8))
        if r.random() < 0.5:
            self.sub = torch.nn.Linear(2, 2, dtype=torch.float64)
        self.register_buffer("buf", torch.rand(3))
        if all(not p.requires_grad for p in self.parameters()):
            next(self.parameters()).requires_grad_(True)


def params(r, mon):
    m = Mod(r)
    ps = list(m.named_parameters())
    model = {k: p.detach().clone() for k, p in ps}
    buf = m.buf.clone()
    ids = {k: id(p) for k, p in ps}
    for _ in range(r.randint(2, 6)):
        if r.random() < 0.5:
            mon.ev("get")
            want = torch.cat([model[k].reshape(-1) for k, p in ps if p.requires_grad])
            got = get_parameters(m)
            mon.check(got.shape == want.shape and bool((got == want).all()), "get", f"get_parameters returns {got} instead of {want}")
            mon.check(num_parameters(m) == len(want), "get", f"{num_parameters(m)} parameters instead of {len(want)}")
        else:
            mon.ev("set")
            N = sum(p.numel() for _, p in ps if p.requires_grad)
            v = torch.rand(N, dtype=torch.float64)
            w = v.clone()
            set_parameters(m, v)
            i = 0
            for k, p in ps:
                if p.requires_grad:
                    model[k] = w[i : i + p.numel()].reshape(p.shape)
                    i += p.numel()
            if r.random() < 0.5:
                v.zero_()  # the vector stays the user's
        if r.random() < 0.3:
            k, p = r.choice(ps)
            p.requires_grad_(not p.requires_grad)
            if not any(q.requires_grad for _, q in ps):
                p.requires_grad_(True)
        for k, p in m.named_parameters():
            mon.check(id(p) == ids[k] and p.shape == model[k].shape and bool((p.detach() == model[k]).all()), "set", f"parameter {k} is {p} instead of {model[k]}")
        mon.check(bool((m.buf == buf).all()), "set", "buffers change")


def promote(r, mon):
    mon.ev("promote")
    x = round(r.uniform(-3, 3), 3)
    g = r.random() < 0.5
    t = promote_to_tensor(x, requires_grad=g)
    mon.check(tuple(t.shape) == (1, 1) and abs(float(t) - x) < 1e-6 and t.requires_grad == g, "promote", f"{x} is promoted to {t}")
    mon.check(abs(promote_to(t, float) - x) < 1e-6, "promote", f"{t} as a number is {promote_to(t, float)}")
    a = np.array([[r.uniform(-3, 3) for _ in range(r.randint(1, 3))]])
    t = promote_to_tensor(a, requires_grad=g)
    mon.check(t.requires_grad == g and bool((t.detach().numpy() == a).all()), "promote", f"{a} is promoted to {t}")
    b = promote_to(t, np.ndarray)
    mon.check(isinstance(b, np.ndarray) and bool((b == a).all()), "promote", f"{t} as an array is {b}")
    mon.check(promote_to(t, torch.Tensor) is t, "promote", "a tensor is not kept")
    q = numpy_to_tensor(a, dtype=torch.float32)
    mon.check(q.dtype == torch.float32 and bool(np.allclose(q.numpy(), a, atol=1e-6)), "promote", f"{a} as float32 is {q}")


def case(r, idx, mon):
    n = r.choice([1, 2, 3, r.randint(1, 12), r.randint(1, 12), r.randint(25, 40)])
    ts = dataset(r, n)
    what = r.choice(["finite", "infinite", "infinite", "dict", "move", "move", "batch", "params", "params", "promote"])
    mon.case([what, n, [(str(t.dtype), list(t.shape)) for t in ts], r.random()], n > 1)
    import random

    random.seed(r.randrange(10**9))
    torch.manual_seed(r.randrange(10**9))
    if what in ("dict", "params", "promote"):
        {"dict": dicts, "params": params, "promote": promote}[what](r, mon)
    else:
        {"finite": finite, "infinite": infinite, "move": moves, "batch": batches}[what](r, mon, n, ts)
