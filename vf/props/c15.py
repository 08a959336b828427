"""C15: Hamiltonian and observable constructors."""
from __future__ import annotations

import numpy as np
import torch

import qadence as qd
from qadence import Register, hamiltonian_factory
from qadence.blocks.block_to_tensor import block_to_tensor
from qadence.constructors import (ObservableConfig, ising_hamiltonian, ising_hamiltonian_config, total_magnetization,
                                  total_magnetization_config, zz_hamiltonian, zz_hamiltonian_config)
from qadence.constructors.hamiltonians import Interaction
from qadence.ml_tools.constructors import create_observable

from .. import build, gen, ref, sim

ID = "C15"
CASES = {"quick": 1600, "thorough": 30000}
RULE = (
    "hamiltonian_factory over registers, interactions (named and custom), detunings, strengths (default, list, array, tensor, "
    "random, parametric), all-pairs option, plus the predefined Hamiltonians and observable configurations with scale/shift; "
    "oracle: numpy sum over the register's edges/nodes; non-trivial: more than one term"
)
MIN_EVENTS = {"matrix": 600, "parametric": 100, "random": 40, "hermitian": 600, "predefined": 100, "observable": 100,
              "param_names": 80}
ASSUMPTIONS = ["at most 6 qubits", "ising_hamiltonian_config: all-to-all registers of at least 3 qubits (see DESIGN)"]

OPS = {"X": ref.X, "Y": ref.Y, "Z": ref.Z, "N": ref.N}


def two(n, i, j, it):
    e = lambda a, b: ref.embed(np.kron(OPS[a], OPS[b]), [i, j], n)
    if it == "custom":
        return e("X", "Z") + 0.5 * e("Z", "Y")
    return {"ZZ": lambda: e("Z", "Z"), "NN": lambda: e("N", "N"), "XY": lambda: e("X", "X") + e("Y", "Y"),
            "XYZ": lambda: e("X", "X") + e("Y", "Y") + e("Z", "Z")}[it]()


def custom(i, j):
    return qd.X(i) @ qd.Z(j) + 0.5 * qd.Z(i) @ qd.Y(j)


def strengths(r, k):
    """(argument, values)"""
    v = [gen.nz(r) for _ in range(k)]
    kind = r.choice(["none", "list", "np", "torch"])
    if kind == "none":
        return None, [1.0] * k
    if kind == "list":
        return list(v), v
    if kind == "np":
        return np.array(v), v
    return torch.tensor(v, dtype=torch.float64), v


def register(r):
    k = r.choice(["int", "line", "circle", "square", "rect", "tri", "graph", "all"])
    if k == "int":
        n = r.randint(1, 6)
        return n, Register(n)
    if k == "line":
        reg = Register.line(r.randint(1, 6), spacing=r.choice([1.0, 4.0]))
    elif k == "circle":
        reg = Register.circle(r.randint(3, 6))
    elif k == "square":
        reg = Register.square(2)
    elif k == "rect":
        reg = Register.rectangular_lattice(2, r.randint(1, 3))
    elif k == "tri":
        reg = Register.triangular_lattice(1, r.randint(1, 3))
    elif k == "all":
        reg = Register.all_to_all(r.randint(2, 6))
    else:
        import networkx as nx

        n = r.randint(2, 5)
        g = nx.Graph()
        for q in gen.sub(r, n, n):
            g.add_node(q, pos=(q, (q * q) % 3))
        for i in range(n):
            for j in range(n):
                if i != j and r.random() < 0.3:
                    g.add_edge(i, j)
        reg = Register(g)
    return reg, reg


def tens(b, n, vals={}):
    return build.npy(block_to_tensor(b, vals, qubit_support=tuple(range(n))))


def case(r, idx, mon):
    what = r.choice(["factory", "factory", "factory", "param", "random", "predef", "obs"])
    arg, reg = register(r)
    n = reg.n_qubits
    it = r.choice(["ZZ", "NN", "XY", "XYZ", "custom", None])
    det = r.choice(["X", "Y", "Z", "N", None])
    allp = r.random() < 0.3
    edges = list(reg.all_node_pairs) if allp else list(reg.edges)
    if not edges and det is None or (it is None and det is None):
        det = "Z"
    if what in ("factory", "param", "random"):
        iarg = None if it is None else (custom if it == "custom" else Interaction[it])
        darg = None if det is None else getattr(qd, det)
        kw = dict(interaction=iarg, detuning=darg, use_all_node_pairs=allp)
        if r.random() < 0.5:  # rely on the defaults
            kw = {k: v for k, v in kw.items() if v not in (None, False)}
        mon.case(dict(what=what, n=n, edges=edges, it=it, det=det, allp=allp, s=r.getrandbits(30)), n > 1)
        if what == "factory":
            sa, sv = strengths(r, len(edges)) if it else (None, [1.0] * len(edges))
            da, dv = strengths(r, n) if det else (None, [1.0] * n)
            h = hamiltonian_factory(arg, interaction_strength=sa, detuning_strength=da, **kw)
            vals = {}
        elif what == "random":
            h = hamiltonian_factory(arg, random_strength=True, **kw)
            h2 = hamiltonian_factory(arg, random_strength=True, **kw)
            M, M2 = tens(h, n), tens(h2, n)
            mon.check(np.abs(M - M2).max() > 1e-9, "random", "random strengths repeat")
            # recover the strengths by projecting on each (orthogonal) detuning term
            if it is None:
                for q in range(n):
                    P = ref.embed(OPS["Z"] if det == "N" else OPS[det], [q], n)
                    c = np.trace(P @ M[0]).real / 2**n
                    c = -2 * c if det == "N" else c
                    mon.check(-1 - 1e-6 <= c <= 1 + 1e-6 and abs(c) > 1e-12, "random", f"random strength {c} out of [-1, 1]")
            return
        else:
            h = hamiltonian_factory(arg, interaction_strength="g" if it else None, detuning_strength="d" if det else None, **kw)
            names = (["g_%s%s" % tuple(e) for e in edges] if it else []) + ([f"d_{q}" for q in reg.nodes] if det else [])
            from qadence.blocks.utils import parameters

            got = {p.name for p in parameters(h) if not p.is_number}
            mon.check(got == set(names), "param_names", f"parameters {sorted(got)}", want=sorted(names))
            tr = {p.name: p.value for p in parameters(h) if not p.is_number}
            sv = [float(tr["g_%s%s" % tuple(e)]) for e in edges] if it else []
            dv = [float(tr[f"d_{q}"]) for q in reg.nodes] if det else []
            vals = {}
            mon.ev("parametric")
        W = np.zeros((2**n, 2**n), complex)
        if it:
            for (i, j), s in zip(edges, sv):
                W = W + s * two(n, i, j, it)
        if det:
            for q, s in zip(reg.nodes, dv):
                W = W + s * ref.embed(OPS[det], [q], n)
        M = tens(h, n, vals)
        mon.close(M[0], W, "matrix", "Hamiltonian matrix")
        mon.close(M[0], M[0].conj().T, "hermitian", "Hermitian")
    elif what == "predef":
        n = r.randint(2, 5)
        mon.case(dict(what=what, n=n, s=r.getrandbits(30)))
        zt, xt = [gen.nz(r) for _ in range(n)], [gen.nz(r) for _ in range(n)]
        zz = np.array([[gen.nz(r) for _ in range(n)] for _ in range(n)])
        S1 = lambda o, c: sum(ci * ref.embed(OPS[o], [i], n) for i, ci in enumerate(c))
        S2 = lambda w: sum(w[i, j] * two(n, i, j, "ZZ") for i in range(n) for j in range(i + 1, n))
        one = [1.0] * n
        mon.close(tens(total_magnetization(n), n)[0], S1("Z", one), "predefined", "total_magnetization")
        mon.close(tens(total_magnetization(n, zt), n)[0], S1("Z", zt), "predefined", "total_magnetization(z)")
        mon.close(tens(zz_hamiltonian(n), n)[0], S1("Z", one) + S2(np.ones((n, n))), "predefined", "zz_hamiltonian")
        mon.close(tens(zz_hamiltonian(n, np.array(zt), zz), n)[0], S1("Z", zt) + S2(zz), "predefined", "zz_hamiltonian(z, zz)")
        mon.close(tens(ising_hamiltonian(n), n)[0], S1("X", one) + S1("Z", one) + S2(np.ones((n, n))), "predefined", "ising_hamiltonian")
        mon.close(tens(ising_hamiltonian(n, np.array(xt), np.array(zt), zz), n)[0], S1("X", xt) + S1("Z", zt) + S2(zz), "predefined",
                  "ising_hamiltonian(x, z, zz)")
    else:
        n = r.randint(3, 5)
        sc, sh = gen.nz(r), gen.nz(r)
        mode = r.choice(["num", "feat", "var", "default"])
        kind = r.choice(["tm", "zz", "ising", "cfg"])
        mon.case(dict(what=what, n=n, sc=sc, sh=sh, mode=mode, kind=kind))
        kw = {"num": dict(scale=sc, shift=sh), "feat": dict(scale="sc", shift="sh", trainable_transform=False),
              "var": dict(scale="sc", shift="sh", trainable_transform=True), "default": {}}[mode]
        a, b = (sc, sh) if mode in ("num", "feat") else (1.0, 0.0)
        det2 = r.choice("XYZN")
        if kind == "tm":
            c, W = total_magnetization_config(**kw), sum(ref.embed(ref.Z, [i], n) for i in range(n))
        elif kind == "zz":
            c = zz_hamiltonian_config(**kw)
            W = sum(ref.embed(ref.Z, [i], n) for i in range(n)) + sum(two(n, i, j, "ZZ") for i in range(n) for j in range(i + 1, n))
        elif kind == "ising":
            c = ising_hamiltonian_config(**kw)
            W = sum(ref.embed(ref.Z + ref.X, [i], n) for i in range(n)) + sum(two(n, i, j, "ZZ") for i in range(n) for j in range(i + 1, n))
        else:
            c = ObservableConfig(detuning=getattr(qd, det2), interaction=Interaction.XY, **kw)
            W = sum(ref.embed(OPS[det2], [i], n) for i in range(n)) + sum(two(n, i, j, "XY") for i in range(n) for j in range(i + 1, n))
        o = create_observable(n, c)
        vals = build.values(dict(sc=[sc], sh=[sh]), {"sc", "sh"}) if mode == "feat" else {}
        m = qd.QuantumModel(qd.QuantumCircuit(n, qd.kron(qd.RY(i, 0.3 * (i + 1)) for i in range(n))), o)
        if mode == "feat":
            mon.check(not m.vparams and {x.name for x in m.inputs} == {"sc", "sh"}, "observable", f"scale and shift are not features: {list(m.vparams)}, {m.inputs}")
        if mode == "var":
            mon.check({"sc", "sh"} == set(m.vparams), "observable", "scale and shift are not trainable", got=list(m.vparams))
            a, b = float(m.vparams["sc"]), float(m.vparams["sh"])
        psi = ref.mat_of(["chain", [["RY", i, 0.3 * (i + 1)] for i in range(n)]], {}, n)[:, 0]
        want = a * (psi.conj() @ W @ psi).real + b
        mon.close(build.npy(m.expectation(vals)), np.array([[want]]), "observable", f"<scale H + shift> ({kind}, {mode})")
