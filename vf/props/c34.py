"""C34: evolutions under time-dependent Hamiltonians solve the Schroedinger equation."""
from __future__ import annotations

import math

import numpy as np
import sympy
import torch

import qadence as qd
from qadence.blocks.block_to_tensor import block_to_tensor
from qadence.serialization import deserialize, serialize

from .. import build, gen, ref, sim

ID = "C34"
CASES = {"quick": 260, "thorough": 12000}
RULE = (
    "circuits of gates and evolutions under Hamiltonians whose terms have coefficients of time and parameters (nested sums, products and scales; features, "
    "variational parameters, constants; parameter names that mean something to sympy), durations as numbers, names and expressions, several time "
    "parameters, qubits in any order; states, expectation values, samples, first and second derivatives, matrices, daggers, serialized copies, QNNs and "
    "looped batches against a fourth-order Magnus integration in numpy; non-trivial: terms at different times do not commute"
)
MIN_EVENTS = {"state": 100, "expectation": 50, "derivative": 15, "matrix": 30, "dagger": 35, "serialized": 30, "loop": 15, "qnn": 20, "sample": 15, "inputs": 250,
              "hamiltonian": 20, "refused": 8, "dissipative": 12, "set": 15}
ASSUMPTIONS = ["default solver (DP5) with tolerance 2e-5 (pyqtorch's Krylov solver takes the Hamiltonian constant in a step and need not converge)",
               "one value per parameter and evaluation (batches are looped: pyqtorch's solver refuses batches of Hamiltonians), derivatives by automatic "
               "differentiation and the adjoint mode (parameter shift rules refuse such circuits) with respect to all parameters but durations (open finding)"]
HOSTILE = ["E", "S", "N", "I", "Q", "beta", "gamma", "lamda", "pi2", "zeta", "omega", "w_1_2", "x", "phi", "theta", "a_1", "O", "C", "exp", "test"]


class Sys:
    """Names and values of a case and a numeric evaluator of its coefficients."""

    def __init__(self, r):
        self.r = r
        names = r.sample(HOSTILE, 4)
        self.f, self.v = names[: r.choice([0, 1, 1, 2])], names[2 : 2 + r.choice([0, 1, 2])]
        self.vals = {k: round(r.uniform(-1.2, 1.2), 3) or 0.4 for k in self.f + self.v}
        self.times = r.sample(["t", "s", "time_1"], 2)

    def sym(self, k):
        if k in self.f:
            return qd.FeatureParameter(k)
        if k in self.v:
            return qd.VariationalParameter(k, value=self.vals[k])
        return qd.TimeParameter(k)

    def coef(self, t, timed=None):
        """A coefficient as a tree: numbers, names and functions of them."""
        r = self.r
        c = round(r.uniform(0.3, 1.6), 2) * r.choice([1, 1, -1])
        timed = r.random() < 0.65 if timed is None else timed
        x = None
        if timed:
            k = abs(round(r.uniform(0.4, 2.5), 2))
            x = r.choice([t, ["*", c, t], ["^", t, 2], ["sin", ["*", k, t]], ["cos", ["+", ["*", k, t], 0.3]], ["exp", ["*", -k, t]], ["^", ["+", 1.5, t], -1],
                          ["+", 0.5, ["*", c, t]], ["sqrt", ["+", 1.2, t]], ["tanh", ["*", k, t]]])
        ks = self.f + self.v
        if ks and r.random() < 0.55:
            k = r.choice(ks)
            p = r.choice([k, k, ["*", c, k], ["^", k, 2], ["cos", k], ["+", k, 0.7], ["*", k, r.choice(ks)]])
            if timed and r.random() < 0.25:
                return ["sin", ["+", ["*", p, t], 0.2]]
            x = p if x is None else [r.choice("*+"), x, p]
        return c if x is None else x

    def sympy(self, e):
        if isinstance(e, (int, float)):
            return e
        if isinstance(e, str):
            return self.sym(e)
        a = [self.sympy(x) for x in e[1:]]
        return {"+": lambda: a[0] + a[1], "*": lambda: a[0] * a[1], "^": lambda: a[0] ** a[1]}.get(e[0], lambda: getattr(sympy, e[0])(a[0]))()

    def num(self, e, env):
        if isinstance(e, (int, float)):
            return e
        if isinstance(e, str):
            return env[e]
        a = [self.num(x, env) for x in e[1:]]
        return {"+": lambda: a[0] + a[1], "*": lambda: a[0] * a[1], "^": lambda: a[0] ** a[1]}.get(e[0], lambda: getattr(np, e[0])(a[0]))()

    def names(self, e):
        return {e} if isinstance(e, str) else set() if not isinstance(e, list) else set().union(*[self.names(x) for x in e[1:]])


def ham(r, S, qs, t, depth=0):
    """A Hermitian tree: ["op", pauli spec] | ["sc", coef, tree] | ["add", [trees]] | ["kron", [trees]] (disjoint qubits)."""
    x = r.random()
    if depth and (x < 0.45 or depth >= 3):
        return ["op", gen.pauli_string(r, 9, ops=("X", "Y", "Z", "N"), maxw=2, qs=qs)]
    if x < 0.7 and depth:
        return ["sc", S.coef(t), ham(r, S, qs, t, depth + 1)]
    if x < 0.78 and len(qs) > 1 and depth:
        k = r.randint(1, len(qs) - 1)
        q = list(qs)
        r.shuffle(q)
        return ["kron", [ham(r, S, q[:k], t, 3), ["sc", S.coef(t), ["op", [r.choice("XYZ"), q[k]]]]]]
    return ["add", [["sc", S.coef(t, timed=i == 0 and depth == 0 or None), ham(r, S, qs, t, depth + 1)] if r.random() < 0.8 or i == 0 else ham(r, S, qs, t, depth + 1) for i in range(r.randint(2, 3))]]


def hblock(S, h):
    if h[0] == "op":
        return build.block(h[1], {})
    if h[0] == "sc":
        b, c = hblock(S, h[2]), S.sympy(h[1])
        return c * b
    bs = [hblock(S, x) for x in h[1]]
    return qd.add(*bs) if h[0] == "add" else qd.kron(*bs)


def hnum(S, h, env, n):
    if h[0] == "op":
        return ref.mat_of(h[1], {}, n)
    if h[0] == "sc":
        return S.num(h[1], env) * hnum(S, h[2], env, n)
    ms = [hnum(S, x, env, n) for x in h[1]]
    return sum(ms) if h[0] == "add" else ms[0] @ ms[1]


def hnames(S, h):
    if h[0] == "op":
        return set()
    return S.names(h[1]) | hnames(S, h[2]) if h[0] == "sc" else set().union(*[hnames(S, x) for x in h[1]])


def hqubits(h):
    return set(ref.support(h[1])) if h[0] == "op" else hqubits(h[2]) if h[0] == "sc" else set().union(*[hqubits(x) for x in h[1]])


def ex(A):
    """exp(-i A) of a Hermitian matrix."""
    w, v = np.linalg.eigh(A)
    return (v * np.exp(-1j * w)) @ v.conj().T


def evolve(H, T, d, steps=60):
    steps = max(steps, int(30 * T * max(np.linalg.norm(H(T * x), 2) for x in (0, 0.5, 1))))
    n, a = math.sqrt(3) / 6, 0.25 + math.sqrt(3) / 6
    U, dt = np.eye(d, dtype=complex), T / steps
    for i in range(steps):
        h1, h2 = H((i + 0.5 - n) * dt), H((i + 0.5 + n) * dt)
        U = ex(dt * ((0.5 - a) * h1 + a * h2)) @ ex(dt * (a * h1 + (0.5 - a) * h2)) @ U
    return U


class Prog:
    """A circuit of gates and time-dependent evolutions."""

    def __init__(self, r, S, n, evos):
        self.S, self.n, self.items = S, n, []
        for i in range(evos):
            for _ in range(r.choice([0, 1, 1])):
                q = r.randrange(n)
                ks = S.f + S.v
                g = r.choice(["H", "RX", "RY", "RZ", "CNOT"])
                if g == "CNOT" and n > 1:
                    self.items.append(["gate", ["CNOT", *r.sample(range(n), 2)]])
                elif g in ("RX", "RY", "RZ"):
                    self.items.append(["rot", g, q, r.choice(ks) if ks and r.random() < 0.6 else round(r.uniform(-2, 2), 2)])
                else:
                    self.items.append(["gate", ["H", q]])
            qs = r.sample(range(n), r.randint(1, n))
            t = r.choice(S.times)
            h = ham(r, S, qs, t)
            u = r.random()
            d = round(r.uniform(0.2, 1.0), 2)
            ks = S.f + S.v
            if u < 0.4 or not ks:
                dur = d
            elif u < 0.6:
                dur = f"dur{i}" if r.random() < 0.6 else None
                S.vals[dur or "duration"] = d
            else:
                dur = ["+", ["^", r.choice(ks), 2], 0.3]
            self.items.append(["evo", h, t, dur])
        if r.random() < 0.5:
            self.items.append(["gate", ["H", r.randrange(n)]])

    def names(self):
        out = set()
        for x in self.items:
            if x[0] == "rot":
                out |= self.S.names(x[3])
            elif x[0] == "evo":
                out |= hnames(self.S, x[1]) - {x[2]} | self.durnames(x[3])
        return out

    def durnames(self, d):
        return {d or "duration"} if d is None or isinstance(d, str) else self.S.names(d)

    def one(self, x):
        S = self.S
        if x[0] == "gate":
            return build.block(x[1], {})
        if x[0] == "rot":
            return getattr(qd, x[1])(x[2], S.sympy(x[3]))
        kw = {} if x[3] is None else {"duration": x[3] if isinstance(x[3], (str, float)) else S.sympy(x[3])}
        return qd.HamEvo(hblock(S, x[1]), S.sym(x[2]), **kw)

    def block(self, pad=True):
        bs = [self.one(x) for x in self.items]
        if pad:
            bs += [qd.I(q) for q in range(self.n)]
        return qd.chain(*bs)

    def duration(self, x, vals):
        return vals[x[3] or "duration"] if x[3] is None or isinstance(x[3], str) else self.S.num(x[3], vals)

    def mat(self, vals, steps=60):
        U = np.eye(2**self.n, dtype=complex)
        for x in self.items:
            if x[0] == "gate":
                M = ref.mat_of(x[1], {}, self.n)
            elif x[0] == "rot":
                M = ref.mat_of([x[1], x[2], float(self.S.num(x[3], vals))], {}, self.n)
            else:
                qs = sorted(hqubits(x[1]))
                M = evolve(lambda s: hnum(self.S, x[1], {**vals, x[2]: s}, self.n), self.duration(x, vals), 2**self.n, steps)
            U = M @ U
        return U


def case(r, idx, mon):
    S = Sys(r)
    n = r.choice([1, 2, 2, 3])
    kind = r.choice(["state", "state", "expectation", "expectation", "derivative", "derivative", "matrix", "dagger", "dagger", "serialized", "loop", "qnn", "sample", "refused", "dissipative", "set"])
    P = Prog(r, S, n, 1 if kind in ("matrix", "refused", "dissipative", "derivative") else r.choice([1, 1, 2]))
    obs = gen.hamiltonian(r, n, terms=r.randint(1, 3))
    e = next(x for x in P.items if x[0] == "evo")
    env = dict(S.vals)
    d = 2**n
    ha, hb = (hnum(S, e[1], {**env, e[2]: s}, n) for s in (0.05, 0.15))
    mon.case(dict(kind=kind, n=n, items=P.items, vals=S.vals, f=S.f, v=S.v, obs=obs), bool(np.abs(ha @ hb - hb @ ha).max() > 1e-9))
    if kind == "dissipative":
        return dissipative(r, S, P, e, n, obs, mon)
    used = P.names()
    feats = {k for k in used if k not in S.v}
    values = {k: torch.tensor([env[k]], dtype=torch.float64) for k in feats}
    tol = 2e-5
    cfg = {"n_steps_hevo": r.choice([10, 20, 40])}
    M = P.mat(env)
    psi = M[:, 0]
    O = ref.mat_of(obs, {}, n)
    expect = float(np.real(psi.conj() @ O @ psi))
    block = P.block()
    circ = qd.QuantumCircuit(n, block)
    mode = r.choice(["ad", "ad", "adjoint"])
    model = qd.QuantumModel(circ, build.block(obs, {}), configuration=dict(cfg), diff_mode=mode)
    mon.check({str(x) for x in model.inputs} == feats, "inputs", f"inputs {model.inputs} of a model with features {sorted(feats)}")
    mon.check(set(model.vparams) == {k for k in used if k in S.v}, "inputs", f"variational parameters {list(model.vparams)} instead of {sorted(used & set(S.v))}")
    if kind == "state":
        mon.close(build.npy(model.run(values))[0], psi, "state", "state after a time-dependent evolution", tol=tol)
        b = r.choice([1, 2, 3])
        st = np.array([ref.rand_state(r, n) if hasattr(ref, "rand_state") else rand_state(r, d) for _ in range(b)])
        got = build.npy(qd.run(circ, values, state=torch.tensor(st), configuration=dict(cfg)))
        mon.close(got, (M @ st.T).T, "state", "states from initial states", tol=tol)
        mon.close(build.npy(model.run(values))[0], psi, "state", "the same state again", tol=tol)
    elif kind == "expectation":
        mon.close(float(model.expectation(values)), expect, "expectation", "expectation value", tol=5e-5 * (1 + np.abs(O).sum()))
        mon.close(float(qd.expectation(circ, build.block(obs, {}), values, configuration=dict(cfg))), expect, "expectation", "expectation value of the function", tol=5e-5 * (1 + np.abs(O).sum()))
        mon.close(build.npy(model.run(values))[0], psi, "state", "state after a time-dependent evolution", tol=tol)
    elif kind == "sample":
        shots = 4000
        c = model.sample(values, n_shots=shots)[0]
        mon.check(sum(c.values()) == shots, "sample", f"{sum(c.values())} shots")
        p = np.abs(psi) ** 2
        for i in range(d):
            k = c.get(format(i, f"0{n}b"), 0)
            mon.check(abs(k - shots * p[i]) < 6 * math.sqrt(shots * p[i] * (1 - p[i])) + 3, "sample", f"{k} of {shots} samples of {i}, probability {p[i]}")
    elif kind == "derivative":
        # not with respect to the durations
        dur = set().union(*[P.durnames(x[3]) if not isinstance(x[3], float) else set() for x in P.items if x[0] == "evo"])
        ks = sorted(used - dur)
        mon.ev("derivative", 0)
        if not ks:
            return mon.close(build.npy(model.run(values))[0], psi, "state", "state after a time-dependent evolution", tol=tol)
        k = r.choice(ks)
        if k in S.v:
            x = dict(model.named_parameters())[f"_params.{k}"]
        else:
            x = values[k] = values[k].requires_grad_(True)
        ev = model.expectation(values)
        (g,) = torch.autograd.grad(ev.sum(), x, create_graph=True)

        def f(v):
            m = P.mat({**env, k: v}, 40)[:, 0]
            return float(np.real(m.conj() @ O @ m))

        h, v = 2e-3, env[k]
        f1, f2, f3, f4 = f(v - 2 * h), f(v - h), f(v + h), f(v + 2 * h)
        s = 1 + np.abs(O).sum()
        mon.close(float(g), (8 * (f3 - f2) - (f4 - f1)) / (12 * h), "derivative", f"derivative with respect to {k} ({mode})", tol=2e-4 * s)
        if g.requires_grad and r.random() < 0.5:
            (g2,) = torch.autograd.grad(g.sum(), x, allow_unused=True)
            want = (-f1 - f4 + 16 * (f2 + f3) - 30 * f(v)) / (12 * h * h)
            mon.close(float(g2) if g2 is not None else 0.0, want, "derivative", f"second derivative with respect to {k}", tol=3e-3 * s)
    elif kind == "matrix":
        evo = P.one(e)
        qs = evo.qubit_support
        small = Prog.__new__(Prog)
        small.S, small.n, small.items = S, n, [e]
        M1 = small.mat(env)
        vals = {k: values[k] for k in feats & (hnames(S, e[1]) | (P.durnames(e[3]) if not isinstance(e[3], float) else set()))}
        mon.check(bool(evo.is_time_dependent), "matrix", "the evolution is not time-dependent")
        got = build.npy(block_to_tensor(evo, vals, qubit_support=tuple(range(n))))[0]
        mon.close(got, M1, "matrix", "matrix of the evolution", tol=1e-6)
        mon.close(build.npy(block_to_tensor(block, values))[0], M, "matrix", "matrix of the circuit's block", tol=1e-6)
        s = round(r.uniform(0, 1), 2)
        H = hblock(S, e[1])
        mon.check(bool(H.is_time_dependent) == (e[2] in hnames(S, e[1])), "hamiltonian", "time dependence of the Hamiltonian")
        hv = {k: values[k] for k in feats & hnames(S, e[1])}
        mon.close(build.npy(block_to_tensor(H, {**hv, e[2]: torch.tensor([s])}, qubit_support=tuple(range(n))))[0], hnum(S, e[1], {**env, e[2]: s}, n), "hamiltonian", f"Hamiltonian at time {s}", tol=1e-6)
    elif kind == "dagger":
        dag = block.dagger()
        if r.random() < 0.5:
            mon.close(build.npy(block_to_tensor(dag, values))[0], M.conj().T, "dagger", "matrix of the dagger", tol=1e-6)
            if r.random() < 0.4:
                mon.close(build.npy(block_to_tensor(dag.dagger(), values))[0], M, "dagger", "matrix of the dagger's dagger", tol=1e-6)
        st = rand_state(r, d)
        got = build.npy(qd.run(qd.QuantumCircuit(n, qd.chain(block, dag)), values, state=torch.tensor(st)[None], configuration=dict(cfg)))[0]
        mon.close(got, st, "dagger", "state after the block and its dagger", tol=4e-5)
        got = build.npy(qd.run(circ.dagger(), values, state=torch.tensor(st)[None], configuration=dict(cfg)))[0]
        mon.close(got, M.conj().T @ st, "dagger", "state after the circuit's dagger", tol=4e-5)
        mon.close(build.npy(model.run(values))[0], psi, "state", "state of the circuit", tol=tol)
    elif kind == "serialized":
        b2 = deserialize(serialize(block))
        # (equality of expressions is structural, and sympy does not always parse its own output to the same tree)
        mon.close(build.npy(qd.run(qd.QuantumCircuit(n, b2), values, configuration=dict(cfg)))[0], psi, "serialized", "state of a deserialized block", tol=tol)
        m2 = deserialize(serialize(model))
        mon.close(build.npy(m2.run(values))[0], psi, "serialized", "state of a deserialized model", tol=tol)
        mon.close(float(m2.expectation(values)), expect, "serialized", "expectation of a deserialized model", tol=5e-5 * (1 + np.abs(O).sum()))
    elif kind == "loop":
        b = r.randint(2, 3)
        rows = [{k: env[k] if j == 0 else round(env[k] + (0.1 + r.random()) * 0.3, 3) for k in feats} for j in range(b)]
        m = qd.QuantumModel(circ, build.block(obs, {}), configuration=dict(cfg, loop_expectation=True))
        vals = {k: torch.tensor([row[k] for row in rows], dtype=torch.float64) for k in feats}
        got = build.npy(m.expectation(vals)).reshape(-1)
        for j in range(b if feats else 1):
            p = P.mat({**env, **rows[j]}, 40)[:, 0]
            mon.close(got[j], float(np.real(p.conj() @ O @ p)), "loop", f"expectation of row {j}", tol=5e-5 * (1 + np.abs(O).sum()))
    elif kind == "qnn":
        order = sorted(feats)
        r.shuffle(order)
        qnn = qd.QNN(circ, build.block(obs, {}), inputs=order if len(order) > 1 else None, configuration=dict(cfg))
        mon.check(qnn.in_features == len(feats), "qnn", f"{qnn.in_features} input features instead of {len(feats)}")
        x = torch.tensor([[env[k] for k in order]], dtype=torch.float64)
        got = qnn(x) if order else qnn()
        mon.close(float(got), expect, "qnn", "output of the network", tol=5e-5 * (1 + np.abs(O).sum()))
    elif kind == "set":
        # features become variational and back
        ks = sorted(feats)
        if ks:
            k = r.choice(ks)
            model.set_as_variational([k])
            mon.check(k in model.vparams, "set", f"{k} is not variational")
            want = float(model.vparams[k])
            p = P.mat({**env, k: want})[:, 0]
            mon.close(build.npy(model.run({a: b for a, b in values.items() if a != k}))[0], p, "set", f"state with variational {k}", tol=tol)
        else:
            mon.ev("set")
            mon.close(build.npy(model.run(values))[0], psi, "state", "state", tol=tol)
    elif kind == "refused":
        # a Trotter formula of a Hamiltonian that changes in time
        try:
            b = P.one(e).digital_decomposition()
        except NotImplementedError:
            b = None
        mon.check(b is None, "refused", f"digital decomposition of a time-dependent evolution: {b}")
        mon.close(build.npy(model.run(values))[0], psi, "state", "state", tol=tol)


def rand_state(r, d):
    v = np.array([complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(d)])
    return v / np.linalg.norm(v)


def dissipative(r, S, P, e, n, obs, mon):
    """With jump operators: a Lindblad equation."""
    from pyqtorch.utils import SolverType
    from scipy.linalg import expm

    if n > 2:
        n = 2
        if max(hqubits(e[1])) > 1:
            e = ["evo", relabel(e[1]), e[2], e[3]]
        obs = gen.hamiltonian(r, n, terms=2)
    env = dict(S.vals)
    if hqubits(e[1]) != set(range(n)):
        # pyqtorch integrates master equations on all qubits of the circuit only
        e = ["evo", ["add", [e[1], *[["op", ["Z", q]] for q in range(n) if q not in hqubits(e[1])]]], e[2], e[3]]
    qs = sorted(hqubits(e[1]))
    jumps = [["scale", round(r.uniform(0.1, 0.6), 2), [r.choice(["X", "Y", "Z", "N"]), r.choice(qs)]] for _ in range(r.choice([1, 2]))]
    kw = {} if e[3] is None else {"duration": e[3] if isinstance(e[3], (str, float)) else S.sympy(e[3])}
    evo = qd.HamEvo(hblock(S, e[1]), S.sym(e[2]), noise_operators=[build.block(j, {}) for j in jumps], **kw)
    pre = [["H", q] for q in range(n) if r.random() < 0.6]
    block = qd.chain(*[build.block(b, {}) for b in pre], evo, *[qd.I(q) for q in range(n)])
    d = 2**n
    I = np.eye(d)
    D = 0
    for L in [ref.mat_of(j, {}, n) for j in jumps]:
        LL = L.conj().T @ L
        D = D + np.kron(L, L.conj()) - 0.5 * (np.kron(LL, I) + np.kron(I, LL.T))
    psi = ref.zero_state(n)
    for b in pre:
        psi = ref.mat_of(b, {}, n) @ psi
    rho = np.outer(psi, psi.conj()).reshape(-1)
    T, steps = P.duration(e, env), 60
    for i in range(steps):
        H = hnum(S, e[1], {**env, e[2]: (i + 0.5) * T / steps}, n)
        rho = expm((-1j * (np.kron(H, I) - np.kron(I, H.T)) + D) * T / steps) @ rho
    rho = rho.reshape(d, d)
    names = hnames(S, e[1]) - {e[2]} | (P.durnames(e[3]) if not isinstance(e[3], float) else set())
    values = {k: torch.tensor([env[k]], dtype=torch.float64) for k in names if k not in S.v}
    model = qd.QuantumModel(qd.QuantumCircuit(n, block), observable=build.block(obs, {}), configuration={"n_steps_hevo": 25, "ode_solver": SolverType.DP5_ME})
    O = ref.mat_of(obs, {}, n)
    mon.close(build.npy(model.run(values))[0], rho, "dissipative", "density matrix of a dissipative evolution", tol=3e-3)
    mon.close(float(model.expectation(values)), np.real(np.trace(O @ rho)), "dissipative", "expectation", tol=3e-3 * (1 + np.abs(O).sum()))


def relabel(h):
    q = sorted(hqubits(h))
    m = {x: i % 2 for i, x in enumerate(q)}

    def go(h):
        if h[0] == "op":
            s = sorted(ref.support(h[1]))
            return ["op", ref.relabel(h[1], {x: i for i, x in enumerate(s)})]
        if h[0] == "sc":
            return ["sc", h[1], go(h[2])]
        return ["add", [go(x) for x in h[1]]]

    return go(h)


def p_duration():
    """Derivative with respect to a duration that is used elsewhere, too."""
    t, v = qd.TimeParameter("t"), qd.VariationalParameter("v", value=0.8)
    m = qd.QuantumModel(qd.QuantumCircuit(1, qd.chain(qd.HamEvo(t * qd.X(0), t, duration=v), qd.RX(0, v))), qd.Z(0))
    m.expectation({}).sum().backward()
    g = float(next(p for p in m.parameters() if p.requires_grad).grad)
    want = -(2 * 0.8 + 1) * math.sin(0.8**2 + 0.8)
    if abs(g - want) > 1e-3:
        return f"the derivative with respect to the duration of a time-dependent evolution is missing (pyqtorch integrates up to float(duration)): {g:.4f} instead of {want:.4f}"
    return None


PROBES = {"duration_gradient": p_duration}
