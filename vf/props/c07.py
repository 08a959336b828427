"""C07: bit-order conventions are consistent everywhere."""
from __future__ import annotations

from collections import Counter

import numpy as np
import torch

import qadence as qd
from qadence import states, utils
from qadence.blocks.block_to_tensor import block_to_tensor
from qadence.transpile import invert_endianness
from qadence.types import ResultType

from .. import build, gen, ref, sim
from .c02 import reverse_mat

ID = "C07"
CASES = {"quick": 2000, "thorough": 40000}
RULE = (
    "asymmetric random circuits, bitstrings, integers, arrays and counters in both endiannesses through run, sample, "
    "block matrices, product states, bit/integer conversions and inversion; non-trivial: not invariant under bit reversal"
)
MIN_EVENTS = {"run_little": 100, "sample_little": 60, "bits_int": 300, "invert_tensor": 60, "invert_counter": 60,
              "product_state": 100, "matrix_little": 60, "roundtrip": 100}
ASSUMPTIONS = ["n_qubits <= 10 for circuits, <= 30 bits for integers"]
BIG, LITTLE = sim.BIG, sim.LITTLE


def case(r, idx, mon):
    what = r.choice(["run", "run", "sample", "bits", "product", "invert", "matrix"])
    n = r.choice([1, 2, 3, 3, 4, 5]) if what == "matrix" or r.random() < 0.93 else r.randint(6, 10)
    p = gen.P(r, nf=r.choice([0, 1]), nv=0)
    if what in ("run", "sample", "matrix"):
        spec = gen.circuit(r, n, p, size=r.randint(1, 6)) if n <= 5 else ["chain", gen.wide(r, n, p, lambda k: gen.circuit(r, k, p, size=3))]
        batch = r.choice([1, 2])
        fenv = sim.used_env(p, [spec], batch, mixed=False)
        envl = sim.envs({}, fenv, sim.eff_batch(fenv))
        init = gen.state(r, n) if what == "run" and r.random() < 0.3 else None
        psi = sim.ref_states(spec, n, envl, init)
        rev = ref.reverse_bits_vec(psi)
        vals = build.values(fenv, set(fenv))
        mon.case(dict(what=what, n=n, spec=spec, fenv=fenv, init=init is not None), bool(np.abs(psi - rev).max() > 1e-6))
        circ = build.circuit(n, spec, {})
    if what == "run":
        kw = dict(state=sim.tstate(init)) if init is not None else {}
        for ent in ("run", "model", "backend"):
            if ent == "run":
                big = qd.run(circ, values=vals, endianness=BIG, **kw)
                lit = qd.run(circ, values=vals, endianness=LITTLE, **kw)
            elif ent == "model":
                m = qd.QuantumModel(circ)
                big = m.run(vals, endianness=BIG, **kw)
                lit = m.run(vals, endianness=LITTLE, **kw)
            else:
                b = qd.backend_factory("pyqtorch", diff_mode=None)
                c = b.convert(circ)
                big = b.run(c.circuit, c.embedding_fn(c.params, vals), endianness=BIG, **kw)
                lit = b.run(c.circuit, c.embedding_fn(c.params, vals), endianness=LITTLE, **kw)
            mon.close(build.npy(big), psi, "run_big", f"big-endian state ({ent})")
            mon.close(build.npy(lit), rev, "run_little", f"little-endian state ({ent})")
            mon.close(build.npy(invert_endianness(lit)), psi, "roundtrip", "inverting a little-endian state")
    elif what == "sample":
        m = qd.QuantumModel(circ)
        for end, ps in ((BIG, psi), (LITTLE, rev)):
            if r.random() < 0.5:
                cs = qd.sample(circ, values=vals, n_shots=200, endianness=end)
            else:
                cs = m.sample(vals, n_shots=200, endianness=end)
            mon.check(len(cs) == len(ps), "sample_len", "number of counters")
            for c, s in zip(cs, ps):
                pr = np.abs(s) ** 2
                for k, v in c.items():
                    mon.check(len(k) == n and pr[int(k, 2)] > 1e-9, "sample_little" if end == LITTLE else "sample_big",
                              f"impossible outcome {k} ({end})")
                top = int(np.argmax(pr))
                if pr[top] > 0.5:
                    mon.check(c[format(top, f"0{n}b")] > 40, "sample_top", f"likely outcome missing ({end})", c=dict(c))
    elif what == "matrix":
        blk = build.block(spec, {})
        M = np.array([ref.mat_of(spec, e, n) for e in envl])
        sup = tuple(range(n))
        mon.close(build.npy(block_to_tensor(blk, vals, qubit_support=sup, endianness=LITTLE)), reverse_mat(M),
                  "matrix_little", "little-endian matrix")
        mon.close(build.npy(block_to_tensor(blk, vals, qubit_support=sup, endianness=BIG)), M, "matrix_big", "big-endian matrix")
    elif what == "bits":
        k = r.randint(1, 30)
        b = "".join(r.choice("01") for _ in range(k))
        mon.case(dict(what=what, b=b), b != b[::-1])
        mon.check(utils.basis_to_int(b, BIG) == int(b, 2), "bits_int", f"basis_to_int({b}, BIG)")
        mon.check(utils.basis_to_int(b, LITTLE) == int(b[::-1], 2), "bits_int", f"basis_to_int({b}, LITTLE)")
        v = r.getrandbits(k)
        s = format(v, f"0{k}b")
        mon.check(utils.int_to_basis(v, k, BIG) == s, "bits_int", f"int_to_basis({v}, {k}, BIG)")
        mon.check(utils.int_to_basis(v, k, LITTLE) == s[::-1], "bits_int", f"int_to_basis({v}, {k}, LITTLE)")
        mon.check(utils.int_to_basis(v) == format(v, "b"), "bits_int", f"int_to_basis({v})", got=utils.int_to_basis(v))
        for e in (BIG, LITTLE):
            mon.check(utils.basis_to_int(utils.int_to_basis(v, k, e), e) == v, "roundtrip", "int -> bits -> int")
        c = Counter({"".join(r.choice("01") for _ in range(k)): r.randint(1, 50) for _ in range(5)})
        for e in (BIG, LITTLE):
            w = {int(x if e == BIG else x[::-1], 2): y for x, y in c.items()}
            mon.check(dict(utils.samples_to_integers(c, e)) == w, "bits_int", f"samples_to_integers {e}", c=dict(c))
        m = min(k, 5)
        for e in (BIG, LITTLE):
            want = [format(i, f"0{m}b")[:: 1 if e == BIG else -1] for i in range(2**m)]
            mon.check(list(utils.nqubits_to_basis(m, ResultType.STRING, e)) == want, "bits_int", "nqubits_to_basis")
            for rt in (ResultType.TORCH, ResultType.NUMPY):
                arr = np.asarray(utils.nqubits_to_basis(m, rt, e))
                mon.close(arr.astype(float), np.array([[float(ch) for ch in w] for w in want]), "bits_int",
                          f"nqubits_to_basis {rt} {e}")
    elif what == "product":
        b = "".join(r.choice("01") for _ in range(n))
        mon.case(dict(what=what, b=b), b != b[::-1])
        for e in (BIG, LITTLE):
            w = np.zeros((1, 2**n), complex)
            w[0, int(b if e == BIG else b[::-1], 2)] = 1
            mon.close(build.npy(states.product_state(b, endianness=e)), w, "product_state", f"product_state({b}, {e})")
        blk = states.product_block(b)
        mon.close(build.npy(qd.run(n, blk)), np.eye(2**n, dtype=complex)[int(b, 2)][None], "product_state", "product_block")
        cs = qd.sample(qd.QuantumCircuit(n, blk), n_shots=7)
        mon.check(dict(cs[0]) == {b: 7}, "product_state", f"sampling product_block({b}) gives {dict(cs[0])}")
        cs = qd.sample(qd.QuantumCircuit(n, blk), n_shots=7, endianness=LITTLE)
        mon.check(dict(cs[0]) == {b[::-1]: 7}, "product_state", f"little-endian sampling of {b} gives {dict(cs[0])}")
        # the bit of qubit i is the i-th character
        zs = build.npy(qd.expectation(qd.QuantumCircuit(n, blk), [qd.Z(i) for i in range(n)]))[0]
        mon.close(zs, np.array([1.0 if ch == "0" else -1.0 for ch in b]), "product_state", "Z per qubit")
    else:
        a = gen.state(r, n, batch=r.randint(1, 3))
        c = Counter({"".join(r.choice("01") for _ in range(n)): r.randint(1, 50) for _ in range(4)})
        mon.case(dict(what=what, n=n, c=dict(c), s=r.random()), n > 1)
        t = torch.tensor(a)
        keep = t.clone()
        mon.close(build.npy(invert_endianness(t)), ref.reverse_bits_vec(a), "invert_tensor", "tensor")
        mon.check(bool((t == keep).all()), "invert_tensor", "input tensor changed")
        mon.close(np.asarray(invert_endianness(a)), ref.reverse_bits_vec(a), "invert_tensor", "array")
        w = {k[::-1]: v for k, v in c.items()}
        mon.check(dict(invert_endianness(c)) == w, "invert_counter", "counter", c=dict(c))
        mon.check([dict(x) for x in invert_endianness([c, invert_endianness(c)])] == [w, dict(c)], "invert_counter", "list of counters")
        mon.close(build.npy(invert_endianness(invert_endianness(t))), a, "roundtrip", "double inversion")
