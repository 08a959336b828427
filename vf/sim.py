"""Shared pieces of the simulation-semantics monitors."""
from __future__ import annotations

import numpy as np
import torch

import qadence as qd
from qadence.types import AlgoHEvo, BackendName, DiffMode, Endianness

from . import build, gen, ref

BIG, LITTLE = Endianness.BIG, Endianness.LITTLE


def envs(vvals, fenv, batch):
    """List of `batch` name->float environments."""
    out = []
    for b in range(batch):
        e = dict(vvals)
        for k, v in fenv.items():
            e[k] = v[b] if len(v) > 1 else v[0]
        out.append(e)
    return out


def ref_states(spec, n, envl, init=None):
    """(batch, 2^n) reference final states; init None | (2^n,) | (batch, 2^n)."""
    out = []
    for b, e in enumerate(envl):
        s = ref.zero_state(n) if init is None else (init if init.ndim == 1 else init[b])
        out.append(ref.act(spec, e, s, n) if n > 5 else ref.mat_of(spec, e, n) @ s)
    return np.array(out)


def ref_expect(obs_list, psi, n, envl):
    """(batch, n_obs) reference expectation values (real parts)."""
    out = np.zeros((len(psi), len(obs_list)))
    for j, o in enumerate(obs_list):
        for b in range(len(psi)):
            e = envl[b] if len(envl) > 1 else envl[0]
            out[b, j] = np.real(psi[b].conj() @ (ref.act(o, e, psi[b], n) if n > 5 else ref.mat_of(o, e, n) @ psi[b]))
    return out


def used_env(p, specs, batch, mixed=True):
    """Feature values for the features used in specs; some of size 1, some of size batch."""
    used = set().union(set(), *[ref.names_of(s, "f") for s in specs])
    fenv = {k: v for k, v in p.env(batch).items() if k in used}
    if mixed and batch > 1 and len(fenv) > 1:
        for k in sorted(fenv)[1:]:
            if p.r.random() < 0.3:
                fenv[k] = fenv[k][:1]
    return fenv


def eff_batch(fenv):
    return max([len(v) for v in fenv.values()] or [1])


def tstate(s):
    t = torch.tensor(s, dtype=torch.cdouble)
    return t if t.ndim == 2 else t.unsqueeze(0)


def config(r):
    """A backend configuration that must not change exact results."""
    c = {}
    if r.random() < 0.3:
        c["use_single_qubit_composition"] = True
    if r.random() < 0.2:
        c["use_gradient_checkpointing"] = True
    if r.random() < 0.3:
        c["loop_expectation"] = True
    return c
