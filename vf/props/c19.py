"""C19: library of states and state functions."""
from __future__ import annotations

import numpy as np
import torch

import qadence as qd
from qadence import states
from qadence.types import StateGeneratorType

from .. import build, gen, ref, sim

ID = "C19"
CASES = {"quick": 1600, "thorough": 30000}
RULE = (
    "state constructors and their block counterparts, random states of each generator type, density-matrix functions "
    "(partial trace with permutations, purity, entropy, fidelity), normalisation, overlap on random pure/mixed batched states; "
    "non-trivial: more than one qubit"
)
MIN_EVENTS = {"named": 100, "random": 100, "density": 60, "partial_trace": 60, "scalar": 60, "fidelity": 60, "pmf": 60}
ASSUMPTIONS = ["n_qubits <= 5 (8 for named states)", "tolerance 2e-5 (entropy 1e-4: eigenvalues below 1e-12 are clamped)"]


def mixed(r, n, rank, batch):
    rng = np.random.default_rng(r.getrandbits(32))
    a = rng.normal(size=(batch, 2**n, rank)) + 1j * rng.normal(size=(batch, 2**n, rank))
    rho = a @ np.conj(np.swapaxes(a, 1, 2))
    return rho / np.trace(rho, axis1=1, axis2=2)[:, None, None]


def ptrace(rho, n, keep):
    t = rho.reshape((rho.shape[0],) + (2,) * (2 * n))
    rest = [q for q in range(n) if q not in keep]
    perm = [0] + [1 + q for q in keep] + [1 + q for q in rest] + [1 + n + q for q in keep] + [1 + n + q for q in rest]
    k, m = 2 ** len(keep), 2 ** len(rest)
    t = t.transpose(perm).reshape(rho.shape[0], k, m, k, m)
    return np.einsum("bimjm->bij", t)


def psd_sqrt(a):
    w, v = np.linalg.eigh(a)
    return (v * np.sqrt(np.clip(w, 0, None))) @ v.conj().T


def case(r, idx, mon):
    what = r.choice(["named", "random", "density", "partial_trace", "scalar", "fidelity", "pmf"])
    n = r.choice([1, 2, 3, 4, 5, 5, 8]) if what == "named" else r.choice([1, 2, 3, 4, 5]) if what in ("random",) else r.choice([1, 2, 3, 4])
    batch = r.choice([1, 2, 3])
    mon.case(dict(what=what, n=n, batch=batch, s=r.getrandbits(40)), n > 1)
    D = 2**n
    if what == "named":
        z = np.zeros((batch, D), complex)
        z[:, 0] = 1
        o = np.zeros((batch, D), complex)
        o[:, -1] = 1
        u = np.full((batch, D), 1 / np.sqrt(D), complex)
        g = (z + o) / np.sqrt(2)
        for nm, w in (("zero", z), ("one", o), ("uniform", u), ("ghz", g)):
            mon.close(build.npy(getattr(states, nm + "_state")(n, batch)), w, "named", f"{nm}_state")
            blk = getattr(states, nm + "_block")(n)
            mon.close(build.npy(qd.run(n, blk)), w[:1], "named", f"{nm}_block")
        bs = ["".join(r.choice("01") for _ in range(n)) for _ in range(batch)]
        w = np.array([np.eye(D, dtype=complex)[int(b, 2)] for b in bs])
        mon.close(build.npy(states.product_state(list(bs))), w, "named", "product_state(list)")
        b = states.rand_bitstring(n)
        mon.check(len(b) == n and set(b) <= {"0", "1"}, "named", f"rand_bitstring {b}")
        s = build.npy(states.rand_product_state(n, batch))
        mon.check(s.shape == (batch, D) and np.all((np.abs(s) > 0).sum(1) == 1) and np.allclose(s.sum(1), 1), "named", "rand_product_state")
        s = build.npy(qd.run(n, states.rand_product_block(n)))
        mon.check(np.isclose(np.abs(s).max(), 1), "named", "rand_product_block")
    elif what == "random":
        for t in StateGeneratorType:
            s = states.random_state(n, batch, type=t)
            a = build.npy(s)
            mon.check(a.shape == (batch, D), "random", f"{t}: shape {a.shape}")
            mon.check(np.allclose((np.abs(a) ** 2).sum(1), 1, atol=1e-6), "random", f"{t}: not normalised")
            mon.check(states.is_normalized(s), "random", "is_normalized")
            if batch > 1 and n > 1:
                mon.check(np.abs(a[0] - a[1]).max() > 1e-6, "random", f"{t}: identical states in a batch")
            b = build.npy(states.random_state(n, batch, type=t))
            mon.check(np.abs(a - b).max() > 1e-6, "random", f"{t}: two calls returned the same state")
        if n <= 2 and r.random() < 0.15:
            # moments of the Haar measure, each within 6 standard errors
            t = r.choice([StateGeneratorType.HAAR_MEASURE_FAST, StateGeneratorType.HAAR_MEASURE_SLOW])
            M = 1500
            a = build.npy(states.random_state(n, M, type=t))
            p = np.abs(a) ** 2
            v1 = (D - 1) / (D**2 * (D + 1))
            e4 = 24 / (D * (D + 1) * (D + 2) * (D + 3)) - (2 / (D * (D + 1))) ** 2
            mon.check(np.abs(p.mean(0) - 1 / D).max() < 6 * np.sqrt(v1 / M), "haar", f"{t}: occupation of a basis state", got=p.mean(0).tolist())
            mon.check(np.abs((p**2).mean(0) - 2 / (D * (D + 1))).max() < 6 * np.sqrt(e4 / M), "haar", f"{t}: spread of the occupations", got=(p**2).mean(0).tolist())
            for k in (1, 2):
                ph = (a**k).mean(0)
                lim = 6 * np.sqrt((1 / D if k == 1 else 2 / (D * (D + 1))) / M)
                mon.check(np.abs(ph).max() < lim, "haar", f"{t}: phases are not uniform (moment {k})", got=np.abs(ph).tolist())
            for i in range(D):
                for j in range(i):
                    m = np.abs((a[:, i] * a[:, j].conj()).mean())
                    mon.check(m < 6 * np.sqrt(1 / (D * (D + 1)) / M), "haar", f"{t}: amplitudes {i},{j} are correlated", got=m)
    elif what == "density":
        psi = gen.state(r, n, batch)
        rho = states.density_mat(torch.tensor(psi))
        mon.close(build.npy(rho), np.einsum("bi,bj->bij", psi, psi.conj()), "density", "density_mat")
        mon.close(build.npy(states.density_mat(rho)), build.npy(rho), "density", "density_mat of a density matrix")
        x = torch.tensor(psi * r.uniform(0.2, 5))
        mon.close(build.npy(states.normalize(x)), psi, "density", "normalize")
        mon.close(build.npy(states.normalize(x[0])), psi[0], "density", "normalize (1d)")
        mon.check(states.is_normalized(torch.tensor(psi)) and states.is_normalized(torch.tensor(psi[0])), "density", "is_normalized")
        bad = psi.copy()
        bad[r.randrange(batch)] *= 1.001
        mon.check(not states.is_normalized(torch.tensor(bad)), "density", "is_normalized accepts a non-normalised batch element")
    elif what == "partial_trace":
        rho = mixed(r, n, r.randint(1, D), batch)
        keep = gen.sub(r, n, r.randint(1, n))
        from pyqtorch.utils import DensityMatrix

        out = states.partial_trace(DensityMatrix(torch.tensor(rho)), list(keep))
        mon.close(build.npy(out), ptrace(rho, n, keep), "partial_trace", f"partial trace keeping {keep}")
    elif what == "scalar":
        from pyqtorch.utils import DensityMatrix

        rho = mixed(r, n, r.randint(1, D), batch)
        T = DensityMatrix(torch.tensor(rho))
        w = np.clip(np.linalg.eigvalsh(rho), 0, None)
        for k in (2, 3):
            mon.close(build.npy(states.purity(T, k)), (w**k).sum(1), "scalar", f"purity {k}")
        mon.close(build.npy(states.purity(T)), (w**2).sum(1), "scalar", "purity")
        ent = -np.where(w > 1e-12, w * np.log2(np.where(w > 1e-12, w, 1)), 0).sum(1)
        mon.close(build.npy(states.von_neumann_entropy(T)), ent, "scalar", "von Neumann entropy", tol=1e-4)
    elif what == "fidelity":
        from pyqtorch.utils import DensityMatrix

        a, b = mixed(r, n, r.randint(1, D), batch), mixed(r, n, r.randint(1, D), batch)
        f = np.array([np.trace(psd_sqrt(psd_sqrt(x) @ y @ psd_sqrt(x))).real for x, y in zip(a, b)])
        A, B = DensityMatrix(torch.tensor(a)), DensityMatrix(torch.tensor(b))
        mon.close(build.npy(states.fidelity(A, B)), f, "fidelity", "fidelity", tol=1e-4)
        mon.close(build.npy(states.fidelity(B, A)), f, "fidelity", "fidelity is symmetric", tol=1e-4)
        s, t = gen.state(r, n, batch), gen.state(r, n, batch)
        ov = np.abs((s.conj() * t).sum(1)) ** 2
        got = build.npy(states.overlap(torch.tensor(s), torch.tensor(t)))
        mon.close(np.diag(got) if got.ndim == 2 else got, ov, "fidelity", "overlap")
        ph = np.exp(1j * r.uniform(0, 6))
        mon.check(states.equivalent_state(torch.tensor(s[:1]), torch.tensor(ph * s[:1])), "fidelity", "equal up to a phase")
        if ov[0] < 0.99:
            mon.check(not states.equivalent_state(torch.tensor(s[:1]), torch.tensor(t[:1])), "fidelity", "different states equivalent")
    else:
        psi = gen.state(r, n, batch)
        d = states.pmf(torch.tensor(psi))
        mon.close(build.npy(d.probs), np.abs(psi) ** 2, "pmf", "pmf")
