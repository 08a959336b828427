"""Driver: runs one property's monitored workload in parallel and writes its evidence.

usage: python -m vf.run C01 [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE]
                            [--only IDX] [--workers N]
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (harness error,
too few observations).
"""
from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VF_REPO", "/repo"))


class Violation(Exception):
    """Raised by a monitor: the observed behaviour breaks the property."""

    def __init__(self, what, **detail):
        super().__init__(what)
        self.what, self.detail = what, detail


class CaseTimeout(Exception):
    pass


def _short(o, n=6000):
    try:
        s = json.dumps(o, default=str)
    except Exception:
        s = repr(o)
    return s if len(s) <= n else s[:n] + "..."


class Mon:
    """What a case reports: observed events, distinct non-trivial cases, samples."""

    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.events = Counter()
        self.distinct = set()
        self.samples = []
        self.spec = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def ev(self, kind, n=1):
        self.events[kind] += n

    def case(self, spec, nontrivial=True):
        """Declare the case being run (used for replay, distinctness and samples)."""
        self.spec = spec
        if nontrivial:
            h = hashlib.blake2b(_short(spec, 10**9).encode(), digest_size=8).digest()
            if h not in self.distinct:
                self.distinct.add(h)
                if len(self.samples) < 2:
                    self.samples.append(_short(spec, 1500))

    def fail(self, what, **detail):
        raise Violation(what, **detail)

    def check(self, cond, kind, what, **detail):
        self.events[kind] += 1
        if not cond:
            raise Violation(what, kind=kind, **detail)

    def close(self, a, b, kind, what, tol=2e-5, **detail):
        """Monitor: array a (observed) equals array b (specified)."""
        import numpy as np

        a, b = np.asarray(a), np.asarray(b)
        self.events[kind] += 1
        if a.shape != b.shape:
            raise Violation(f"{what}: shape {a.shape} != expected {b.shape}", kind=kind, **detail)
        if a.size == 0:
            return
        d = np.abs(a - b)
        lim = tol * (1 + np.abs(b))
        if not np.all(d <= lim):
            k = int(np.nanargmax(np.where(np.isnan(d), np.inf, d - lim)))
            raise Violation(
                f"{what}: observed {a.reshape(-1)[k]!r} expected {b.reshape(-1)[k]!r} "
                f"(max deviation {float(np.nanmax(d)) if not np.all(np.isnan(d)) else 'nan'})",
                kind=kind,
                **detail,
            )


def sut_exception(tb):
    """Did the exception come out of the code under test?"""
    for f in traceback.extract_tb(tb):
        if os.path.realpath(f.filename).startswith(REPO + os.sep):
            return True
    return False


def run_one(mod, idx, seed, tier, mon, timeout=240):
    r = random.Random(f"{mod.ID}:{seed}:{idx}")
    mon.spec = None

    def onalarm(*_):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(timeout)
    try:
        seed_libs(r)
        mod.case(r, idx, mon)
        return None
    except Violation as v:
        return dict(kind="violation", what=v.what, detail=v.detail, spec=mon.spec, idx=idx)
    except CaseTimeout:
        return dict(kind="violation", what=f"case did not terminate within {timeout} s", spec=mon.spec, idx=idx)
    except (MemoryError, OSError) as e:
        k = "violation" if sut_exception(e.__traceback__) else "error"
        return dict(kind=k, what=f"{type(e).__name__}: {e}", detail={"traceback": traceback.format_exc()[-3500:]},
                    spec=mon.spec, idx=idx)
    except Exception as e:
        # every generated input is valid: no exception is raised on a tree where the property holds
        k = "violation"
        return dict(
            kind=k,
            what=f"unexpected {type(e).__name__} on a valid input: {str(e)[:300]}",
            detail={"traceback": traceback.format_exc()[-3500:]},
            spec=mon.spec,
            idx=idx,
        )
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def seed_libs(r):
    import numpy as np

    s = r.getrandbits(31)
    np.random.seed(s)
    random.seed(s)
    if "torch" in sys.modules:
        import torch

        torch.manual_seed(s)


def worker(mod, w, nw, n, seed, tier, deadline, stop, q):
    try:
        warnings.simplefilter("ignore")
        import logging

        logging.disable(logging.CRITICAL)
        mon = Mon(mod.ID, seed, tier)
        fails, done = [], 0
        if hasattr(mod, "init_worker"):
            mod.init_worker()
        for idx in range(w, n, nw):
            if time.time() > deadline or stop.is_set():
                break
            res = run_one(mod, idx, seed, tier, mon)
            done += 1
            if res is not None:
                fails.append(res)
                if len(fails) >= 3:
                    stop.set()
                    break
        q.put((w, done, dict(mon.events), mon.distinct, mon.samples, fails))
    except BaseException:
        q.put((w, 0, {}, set(), [], [dict(kind="error", what=traceback.format_exc()[-3000:], idx=-1)]))


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--only", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VF_WORKERS", "8")))
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    warnings.simplefilter("ignore")
    try:
        mod = importlib.import_module(f"vf.props.{a.prop.lower()}")
    except Exception as e:
        if not sut_exception(e.__traceback__):
            traceback.print_exc()
            print("ERROR: harness does not load")
            return 2
        # the public API the property is about cannot even be imported
        traceback.print_exc()
        rp = write_replay(a.prop, dict(kind="violation", what=f"import failed: {e}", idx=-1), a.seed, tier)
        print(f"VIOLATION property={a.prop} replay={rp}")
        return 1
    if a.replay:
        rec = json.load(open(a.replay))
        a.seed, tier, a.only = rec["seed"], rec["tier"], rec["idx"]
    if a.only is not None:
        import logging

        logging.disable(logging.CRITICAL)
        mon = Mon(mod.ID, a.seed, tier)
        if hasattr(mod, "init_worker"):
            mod.init_worker()
        res = run_one(mod, a.only, a.seed, tier, mon, timeout=3600)
        print(_short(mon.spec, 4000))
        print(json.dumps(dict(mon.events)))
        if res is None:
            print("held")
            return 0
        print(res["what"])
        for k, v in (res.get("detail") or {}).items():
            print(k, ":", v)
        if res["kind"] == "violation":
            print(f"VIOLATION property={a.prop} replay={a.replay or '-'}")
            return 1
        return 2

    n = a.cases or mod.CASES[tier]
    budget = a.budget or (getattr(mod, "BUDGET", {}).get(tier) or (420 if tier == "quick" else 3000))
    deadline = t0 + budget
    nw = max(1, min(a.workers, n))
    ctx = mp.get_context(getattr(mod, "START", "fork"))
    q, stop = ctx.Queue(), ctx.Event()

    def start(w):
        p = ctx.Process(target=worker, args=(mod, w, nw, n, a.seed, tier, deadline, stop, q), daemon=False)
        p.start()
        return p

    def gather(ps):
        """Results of the workers; those that die without one are missing."""
        got = {}
        while len(got) < len(ps):
            try:
                res = q.get(timeout=2)
                got[res[0]] = res
            except Exception:
                if time.time() > (deadline + 320 if tier == "thorough" else min(deadline + 320, t0 + 850)):
                    break
                if not any(p.is_alive() for w, p in ps.items() if w not in got):
                    time.sleep(1)
                    while not q.empty():
                        res = q.get()
                        got[res[0]] = res
                    break
        for p in ps.values():
            p.join(timeout=2)
            if p.is_alive():
                p.kill()
        return got

    got = gather({w: start(w) for w in range(nw)})
    missing = [w for w in range(nw) if w not in got]
    if missing and not stop.is_set():
        # ended from outside (memory): once more, two at a time
        deadline = max(deadline, min(time.time() + 240, t0 + 600))
        for i in range(0, len(missing), 2):
            got.update(gather({w: start(w) for w in missing[i : i + 2]}))
    results = list(got.values())
    dead = nw - len(results)
    events, distinct, samples, fails, done = Counter(), set(), [], [], 0
    for w, d, ev, ds, sm, fl in sorted(results, key=lambda x: x[0]):
        done += d
        events.update(ev)
        distinct |= ds
        samples += sm
        fails += fl
    if dead:
        fails.append(dict(kind="error", what=f"{dead} workers died", idx=-1))

    # probes of listed findings (deterministic, one concrete failing input each)
    kf = {f["probe"]: f for f in known() if f["property"] == mod.ID}
    probes = getattr(mod, "PROBES", {})
    kf_lines, n_probe = [], 0
    import logging

    logging.disable(logging.CRITICAL)
    for name, fn in probes.items():
        n_probe += 1
        try:
            msg = fn()
        except Exception as e:
            msg = f"{type(e).__name__}: {str(e)[:200]}" if sut_exception(e.__traceback__) else None
            if msg is None:
                fails.append(dict(kind="error", what=traceback.format_exc()[-2000:], idx=-1))
        if msg:
            f = kf.get(name)
            if f and f.get("status") == "open":
                kf_lines.append(f"KNOWN-FINDING: property={mod.ID} {f['what']}")
            else:
                fails.append(dict(kind="violation", what=f"probe {name}: {msg}", idx=-1, spec=name))

    viol = [f for f in fails if f["kind"] == "violation"]
    errs = [f for f in fails if f["kind"] != "violation"]
    minev = getattr(mod, "MIN_EVENTS", {})
    thin = [k for k, v in minev.items() if events[k] < int(v * (min(1, done / n) if a.cases is None else 0))]
    want = n if a.cases is None else 0
    short = done < 0.25 * want and not viol
    cov = {
        "evaluations": done,
        "distinct_nontrivial": len(distinct),
        "rule": mod.RULE,
        "samples": samples[:6] or ["(none)"],
        "monitor_events": dict(sorted(events.items())),
        "known_finding_probes_run": n_probe,
        "workers": nw,
        "cases_planned": n,
    }
    evid = {
        "property": mod.ID,
        "tier": tier,
        "seed": a.seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{mod.ID}.json"), "w") as fh:
        json.dump(evid, fh, indent=1, default=str)
    for l in kf_lines:
        print(l)
    print(f"{mod.ID} [{tier} seed={a.seed}] cases={done}/{n} distinct={len(distinct)} wall={evid['wall_s']}s "
          f"events={dict(sorted(events.items()))}")
    if viol:
        viol.sort(key=lambda f: len(_short(f.get("spec"))))
        rp = write_replay(mod.ID, viol[0], a.seed, tier)
        for f in viol[: 12 if a.v else 3]:
            print(f"  case {f['idx']}: {f['what']}")
            if a.v:
                print("    spec:", _short(f.get("spec"), 1500))
                print("    ", (f.get("detail") or {}).get("traceback", "")[-700:] or _short(f.get("detail"), 700))
        print(f"VIOLATION property={mod.ID} replay={rp}")
        return 1
    if errs:
        for f in errs[:3]:
            print(f"  ERROR case {f['idx']}: {f['what']}", _short(f.get("detail"), 3000).replace("\\n", "\n"))
        return 2
    if short or thin:
        print(f"  NO ANSWER: done={done}/{n} thin={thin}")
        return 2
    return 0


def write_replay(prop, f, seed, tier):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{seed}-{f['idx']}.json")
    with open(p, "w") as fh:
        json.dump(dict(property=prop, seed=seed, tier=tier, **f), fh, indent=1, default=str)
    return p


if __name__ == "__main__":
    sys.exit(main())
