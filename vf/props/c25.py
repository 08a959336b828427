"""C25: the JAX (horqrux) backend computes what the circuit means."""
from __future__ import annotations

import numpy as np
import torch

import qadence as qd
from qadence.types import BackendName, Endianness

from .. import build, gen, ref, sim

ID = "C25"
CASES = {"quick": 420, "thorough": 8000}
RULE = (
    "random circuits of up to 4 qubits of every gate the backend supports, Hamiltonian evolutions with fixed and parametric generators, symbolic "
    "parameters, initial states, both endiannesses, batches, several (parametric) observables: states, expectations, JAX gradients (AD, shift rules, "
    "second order), jit, samples and matrices against a numpy simulation; gates it does not support must be refused; non-trivial: more than one qubit"
)
MIN_EVENTS = {"state": 50, "expectation": 100, "batched": 30, "gradient": 25, "psr": 15, "sample": 30, "matrix": 30, "little": 20, "hamevo": 40,
              "refused": 3, "second": 2, "agree": 30}
ASSUMPTIONS = [
    "n_qubits <= 4, batches for expectations only (the backend runs and samples one parameter set at a time), separate circuit/observable parameters "
    "are documented as unsupported; the shift rules of this backend know a single gap of 2 (uncontrolled rotations); tolerance 2e-5",
]
GATES = ["X", "Y", "Z", "H", "I", "SWAP", "RX", "RY", "RZ", "CRX", "CRY", "CRZ", "CZ", "CNOT", "MCRX", "MCRY", "MCRZ", "MCZ"]
ROT = ["X", "Y", "Z", "H", "CNOT", "CZ", "SWAP", "RX", "RY", "RZ"]
HQ = BackendName.HORQRUX


def evo(r, n, p):
    qs = gen.sub(r, n, r.randint(1, min(3, n)))
    return ["HamEvo", gen.hamiltonian(r, n, p if r.random() < 0.4 else None, terms=r.randint(1, 3), qs=qs), p(1)]


def circ_spec(r, n, p, gates=GATES, evos=True):
    spec = gen.circuit(r, n, p, size=r.randint(1, 7), allow=gates)
    if evos and r.random() < 0.4:
        items = spec[1] if spec[0] == "chain" else [spec]
        items = list(items)
        for _ in range(r.randint(1, 2)):
            items.insert(r.randint(0, len(items)), evo(r, n, p))
        spec = ["chain", items]
    return spec


def jvals(fenv):
    import jax.numpy as jnp

    return {k: jnp.array(np.array(v, float)) for k, v in fenv.items()}


def setup(r, mon, what, gates=GATES, evos=True, batch=1, nobs=0, pobs=True):
    n = r.choice([1, 2, 2, 3, 3, 4])
    p = gen.P(r, nf=r.randint(0, 2), nv=r.randint(0, 2))
    if nobs and r.random() < 0.08:  # no parameters at all
        gates, evos, pobs = ["X", "Y", "Z", "H", "CNOT", "CZ", "SWAP"], False, None
    spec = circ_spec(r, n, p, gates, evos)
    obs = [gen.pauli_string(r, n) if pobs is None else gen.hamiltonian(r, n, p if pobs and r.random() < 0.4 else None) for _ in range(nobs)]
    fenv = sim.used_env(p, [spec] + obs, batch)
    init = gen.state(r, n) if r.random() < 0.4 else None
    mon.case(dict(what=what, n=n, spec=spec, obs=obs, vvals=p.vvals, fenv=fenv, init=init is not None), n > 1)
    envl = sim.envs(p.vvals, fenv, sim.eff_batch(fenv))
    psi = sim.ref_states(spec, n, envl, init)
    mon.ev("hamevo", int("HamEvo" in str(spec)))
    return n, p, spec, obs, fenv, init, envl, psi


def jstate(init):
    import jax.numpy as jnp

    return None if init is None else jnp.array(np.asarray(init).reshape(1, -1))


def k_state(r, mon):
    import jax

    n, p, spec, _, fenv, init, envl, psi = setup(r, mon, "state")
    circ = build.circuit(n, spec, p.vvals)
    kw = {} if init is None else {"state": jstate(init)}
    little = r.random() < 0.3
    if little:
        kw["endianness"] = Endianness.LITTLE
    if r.random() < 0.5:
        out = qd.run(circ, values=jvals(fenv), backend=HQ, **kw)
    else:
        from qadence.backends import backend_factory

        b = backend_factory("horqrux", "ad")
        c, _, fn, ps = b.convert(circ)
        out = b.run(c, fn(ps, jvals(fenv)), **kw)
        if r.random() < 0.3:
            f = jax.jit(lambda q: b.run(c, fn(q, jvals(fenv)), **kw))
            mon.close(np.asarray(f(ps)).reshape(-1), np.asarray(out).reshape(-1), "state", "jit changes the state")
    want = ref.reverse_bits_vec(psi[0]) if little else psi[0]
    mon.close(np.asarray(out).reshape(-1), want, "little" if little else "state", "state")
    if r.random() < 0.4:
        kw.pop("endianness", None)
        kt = {} if init is None else {"state": sim.tstate(init)}
        a = build.npy(qd.run(circ, values=build.values(fenv, fenv), **kt))
        o = np.asarray(qd.run(circ, values=jvals(fenv), backend=HQ, **kw)).reshape(-1)
        mon.close(o, a[0], "agree", "the two simulators disagree")


def k_expect(r, mon):
    batch = r.choice([1, 1, 2, 3])
    nobs = r.randint(1, 3)
    n, p, spec, obs, fenv, init, envl, psi = setup(r, mon, "expectation", batch=batch, nobs=nobs)
    B = len(envl)
    E = sim.ref_expect(obs, psi, n, envl)
    circ = build.circuit(n, spec, p.vvals)
    kw = {} if init is None else {"state": jstate(init)}
    ob = [build.block(o, p.vvals) for o in obs]
    route = r.choice(["function", "native", "single"] if nobs == 1 else ["function", "native"])
    if route == "native":
        from qadence.backends import backend_factory

        b = backend_factory("horqrux", r.choice(["ad", "ad", "gpsr"]) if "HamEvo" not in str(spec) and not any(ref.params_of(o) for o in obs) else "ad")
        c, o, fn, ps = b.convert(circ, ob)
        out = b.expectation(c, o, fn(ps, jvals(fenv)), **kw)
    else:
        out = qd.expectation(circ, ob[0] if route == "single" else ob, values=jvals(fenv), backend=HQ, **kw)
    out = np.asarray(out)
    if B * nobs > 1:
        mon.check(out.shape == (B, nobs), "batched", f"shape {out.shape} for a batch of {B} and {nobs} observables")
    else:
        mon.check(out.size == 1, "expectation", f"shape {out.shape} of one value")
    mon.close(out.reshape(B, nobs), E, "batched" if B > 1 else "expectation", "expectation")
    if init is None and r.random() < 0.3:
        a = build.npy(qd.expectation(circ, ob, values=build.values(fenv, fenv)))
        mon.close(out.reshape(B, nobs), np.broadcast_to(a, (B, nobs)), "agree", "the two simulators disagree")


def k_grad(r, mon):
    import jax
    from qadence.backends import backend_factory

    psr = r.random() < 0.45
    batch, nobs = r.choice([1, 1, 2, 3]), r.choice([1, 1, 2])
    n, p, spec, obs, fenv, init, envl, psi = setup(
        r, mon, "gradient", gates=ROT if psr else GATES, evos=not psr, batch=batch, nobs=nobs, pobs=not psr)
    B = len(envl)
    circ = build.circuit(n, spec, p.vvals)
    b = backend_factory("horqrux", "gpsr" if psr else "ad")
    c, o, fn, ps = b.convert(circ, [build.block(x, p.vvals) for x in obs])
    kw = {} if init is None else {"state": jstate(init)}
    vals = jvals(fenv)
    w = np.array([[round(r.uniform(0.3, 2), 2) for _ in obs] for _ in envl])

    def f(ps, vals):
        return (b.expectation(c, o, fn(ps, vals), **kw).reshape(B, nobs) * w).sum()

    used = ref.names_of(spec).union(*[ref.names_of(x) for x in obs])
    vn = [k for k in ps if k in p.vvals and k in used]
    fns = [k for k in fenv]
    if not vn and not fns:
        return
    gp, gv = jax.grad(f, argnums=(0, 1))(ps, vals)

    def val(k=None, d=0.0, which=None):
        es = [{**e, k: e[k] + d} if k is not None and which in (None, i) else e for i, e in enumerate(envl)]
        return float((sim.ref_expect(obs, sim.ref_states(spec, n, es, init), n, es) * w).sum())

    def num(k, which=None, h=1e-3):
        g = lambda d: val(k, d, which)
        return (8 * (g(h) - g(-h)) - (g(2 * h) - g(-2 * h))) / (12 * h)

    mon.close(np.array(float(f(ps, vals))), np.array(val()), "expectation", "expectation")
    kind = "psr" if psr else "gradient"
    for k in vn:
        mon.close(np.array(float(np.asarray(gp[k]).sum())), np.array(num(k)), kind, f"d/d{k}", tol=2e-4)
    for k in fns:
        m = len(fenv[k])
        want = np.array([num(k, None if m == 1 else i) for i in range(m)])
        mon.close(np.asarray(gv[k]).reshape(-1), want, kind, f"d/d{k}", tol=2e-4)
    if psr and B == 1 and r.random() < 0.4:
        k = r.choice(vn + fns)
        isp = k in vn

        def fk(x):
            return f({**ps, k: x}, vals) if isp else f(ps, {**vals, k: x})

        x0 = (ps if isp else vals)[k]
        h2 = jax.grad(lambda x: jax.grad(fk)(x).sum())(x0)
        h = 2e-3
        g = lambda d: val(k, d)
        want = (-g(2 * h) + 16 * g(h) - 30 * g(0) + 16 * g(-h) - g(-2 * h)) / (12 * h * h)
        mon.close(np.array(float(np.asarray(h2).sum())), np.array(want), "second", f"d2/d{k}2", tol=3e-3)


def k_sample(r, mon):
    n, p, spec, _, fenv, init, envl, psi = setup(r, mon, "sample")
    shots = r.choice([1, 50, 2000, 2000])
    circ = build.circuit(n, spec, p.vvals)
    kw = {} if init is None else {"state": jstate(init)}
    little = r.random() < 0.3
    if little:
        kw["endianness"] = Endianness.LITTLE
    out = qd.sample(circ, values=jvals(fenv), n_shots=shots, backend=HQ, **kw)
    mon.check(len(out) == 1 and sum(out[0].values()) == shots, "sample", f"{out} for {shots} shots")
    pr = np.abs(psi[0]) ** 2
    if little:
        pr = ref.reverse_bits_vec(pr)
    for i, q in enumerate(pr):
        c = out[0].get(f"{i:0{n}b}", 0)
        mon.check(abs(c - shots * q) <= 6 * np.sqrt(shots * q * (1 - q)) + 2, "sample", f"{c} counts of {i:0{n}b} for {shots * q:.2f}")
    mon.check(all(len(k) == n and set(k) <= {"0", "1"} for k in out[0]), "sample", f"{dict(out[0])}")


def k_matrix(r, mon):
    from qadence.backends.jax_utils import block_to_jax, jarr_to_tensor, tensor_to_jnp, values_to_jax

    n = r.choice([1, 2, 3, 4])
    s = gen.hamiltonian(r, n, ops=("X", "Y", "Z", "I"))
    if r.random() < 0.4:
        s = ["chain", [s, gen.hamiltonian(r, n)]]
    if r.random() < 0.3:
        s = ["scale", gen.nz(r), s]
    mon.case(dict(what="matrix", n=n, spec=s), n > 1)
    b = build.block(s, {})
    qs = tuple(range(n))
    mon.close(np.asarray(block_to_jax(b, qubit_support=qs)), ref.mat_of(s, {}, n), "matrix", "block_to_jax")
    x = torch.tensor(np.random.default_rng(r.getrandbits(30)).normal(size=(2, 3)))
    mon.close(build.npy(jarr_to_tensor(tensor_to_jnp(x))), x.numpy(), "matrix", "torch to jax and back")
    mon.close(np.asarray(values_to_jax({"x": x})["x"]), x.numpy(), "matrix", "values_to_jax")


def k_other(r, mon):
    """A gate this backend lacks is refused or correct, never something else."""
    n = r.choice([1, 2, 3])
    p = gen.P(r, nf=0, nv=0)
    spec = gen.circuit(r, n, p, size=r.randint(1, 3), hamevo_p=0.1, matrix_p=0.1)
    mon.case(dict(what="other", n=n, spec=spec), n > 1)
    circ = build.circuit(n, spec, p.vvals)
    try:
        out = qd.run(circ, backend=HQ)
    except (NotImplementedError, TypeError, AttributeError, ValueError, KeyError) as e:
        names = {x[0] for x in ref.leaves(spec)}
        mon.check(bool(names - set(GATES) - {"HamEvo"}) or "HamEvo" in str(spec), "refused", f"refused {sorted(names)}: {e!r}")
        return
    psi = sim.ref_states(spec, n, [{}])
    mon.close(np.asarray(out).reshape(-1), psi[0], "state", "state")


def case(r, idx, mon):
    if idx // 8 % 13 == 12:
        import jax

        jax.clear_caches()  # (compiled programs are kept otherwise)
    f = r.choice([k_state] * 4 + [k_expect] * 5 + [k_grad] * 3 + [k_sample] * 2 + [k_matrix] * 2 + [k_other])
    f(r, mon)
