"""C06: transpilation passes preserve the operator and leave their input alone."""
from __future__ import annotations

import itertools

import numpy as np
import torch

import qadence as qd
from qadence import transpile as tp
from qadence.blocks import AddBlock, ChainBlock, KronBlock
from qadence.blocks.block_to_tensor import block_to_tensor
from qadence.types import LTSOrder

from .. import build, gen, ref, sim
from .c02 import operator, relabel, reverse_mat

ID = "C06"
CASES = {"quick": 2400, "thorough": 40000}
RULE = (
    "random nested blocks/circuits through flatten (every type subset), scale pushing, chain/kron exchange, identity "
    "filling, digitalize, reassign, endianness inversion and random compositions of passes; matrix and execution "
    "before/after against the numpy reference, input unchanged; non-trivial: the pass changed the structure"
)
MIN_EVENTS = {"flatten": 200, "scale": 100, "chain_single": 100, "fill": 100, "digitalize": 100, "reassign": 100,
              "invert": 100, "compose": 100, "input_unchanged": 1000, "structure_changed": 400}
ASSUMPTIONS = ["tolerance 2e-5", "digitalize: Pauli generators (commuting terms: exact)"]


def commuting(s, n):
    """A sum of Pauli strings that commute because every qubit sees one Pauli only."""


def pauli_ham(r, n, p):
    letters = [r.choice("XYZ") for _ in range(n)]
    terms = []
    for _ in range(r.randint(1, 4)):
        qs = gen.sub(r, n, r.randint(1, min(3, n)))
        if r.random() < 0.5:
            qs = sorted(qs)
        t = [[letters[q], q] for q in qs]
        t = t[0] if len(t) == 1 else ["kron", t]
        x = r.random()
        if x < 0.4:
            t = ["scale", gen.nz(r), t]
        elif x < 0.6:
            t = ["scale", p(1), t]
        terms.append(t)
    s = terms[0] if len(terms) == 1 else ["add", terms]
    if len(terms) > 2 and r.random() < 0.3:
        s = ["add", [terms[0], ["scale", gen.nz(r), ["add", terms[1:]]]]]
    return s


def layered(r, n, p):
    """chain of krons of single-qubit gates on the same qubits, possibly nested/interleaved."""
    pairs = r.random() < 0.25

    def layer(qs):
        its = []
        at = r.randrange(len(qs) - 1) if pairs and len(qs) > 1 else None
        for i, q in enumerate(qs):
            if at is not None and i in (at, at + 1):
                if i == at:
                    g = r.choice(["CNOT", "CZ", "SWAP"])
                    its.append([g, qs[at], qs[at + 1]])
                continue
            g = r.choice(["RX", "RY", "RZ", "H", "X", "S"])
            its.append([g, q, p()] if g[0] == "R" else [g, q])
        return ["kron", its]
    qs = gen.sub(r, n, r.randint(1, n))
    if r.random() < 0.6:
        qs = sorted(qs)
    ls = []
    for _ in range(r.randint(2, 3)):
        if r.random() < 0.3:
            qs = qs[:]
            r.shuffle(qs)
        ls.append(layer(qs))
    s = ["chain", ls]
    if r.random() < 0.5:
        s = ["chain", [s, gen.gate(r, n, p), ["chain", [layer(qs), layer(qs)]]]]
    return s


def nested(r, n, p, d=3):
    """Deeply nested sums/products/scalings."""
    x = r.random()
    if d == 0 or x < 0.2:
        return gen.gate(r, n, p)
    if x < 0.5:
        return ["chain", [nested(r, n, p, d - 1) for _ in range(r.randint(1, 3))]]
    if x < 0.7:
        return ["add", [nested(r, n, p, d - 1) for _ in range(r.randint(2, 3))]]
    if x < 0.85:
        return ["scale", p(1), nested(r, n, p, d - 1)]
    qs = gen.sub(r, n, n)
    parts = []
    while qs:
        k = r.randint(1, min(2, len(qs)))
        g, qs = qs[:k], qs[k:]
        inner = nested(r, k, p, d - 1)
        parts.append(relabel(inner, g))
    return ["kron", parts] if len(parts) > 1 else parts[0]


def case(r, idx, mon):
    n = r.choice([1, 2, 3, 3, 4])
    p = gen.P(r, nf=r.choice([0, 1, 2]), nv=r.choice([0, 1, 2]))
    what = r.choice(["flatten", "flatten", "scale", "chain_single", "fill", "digitalize", "reassign", "invert", "compose"])
    runnable = True
    if what in ("flatten", "scale"):
        spec = nested(r, n, p)
        runnable = False
    elif what == "chain_single":
        spec = layered(r, n, p)
    elif what == "digitalize":
        if r.random() < 0.7:
            a = [["HamEvo", pauli_ham(r, n, p), p(1)]]
        else:
            a = [["U", r.randrange(n), p(1), p(1), p(1)]]
        b = [gen.gate(r, n, p) for _ in range(r.randint(0, 2))]
        c = [["U", r.randrange(n), p(1), p(1), p(1)]] if r.random() < 0.3 else []
        spec = ["chain", b + a + c]
    elif what in ("reassign", "invert"):
        spec = gen.circuit(r, n, p, size=r.randint(1, 5), hamevo_p=0.15)
    elif what == "fill":
        k = r.randint(1, n)
        spec = relabel(gen.circuit(r, k, p, size=r.randint(1, 4)), gen.sub(r, n, k))
    else:
        spec = gen.circuit(r, n, p, size=r.randint(1, 4)) if r.random() < 0.5 else layered(r, n, p)
    batch = r.choice([1, 1, 2])
    fenv = sim.used_env(p, [spec], batch, mixed=False)
    envl = sim.envs(p.vvals, fenv, sim.eff_batch(fenv))
    sup = tuple(range(n))
    want = np.array([ref.mat_of(spec, e, n) for e in envl])
    vals = build.values(fenv, set(fenv))
    blk = build.block(spec, p.vvals)
    if r.random() < 0.5:
        for i, b in enumerate(walk(blk)):
            if r.random() < 0.3:
                qd.tag(b, f"t{i}")
    tags = [b.tag for b in walk(blk)]
    before = str(blk)
    rec = dict(what=what, n=n, spec=spec, vvals=p.vvals, fenv=fenv)
    mon.case(rec)

    def tens(b, s=sup):
        return build.npy(block_to_tensor(b, vals, qubit_support=s))

    circ = qd.QuantumCircuit(n, blk)
    out, outc = None, None
    if what == "flatten":
        types = [t for t in (ChainBlock, KronBlock, AddBlock) if r.random() < 0.6] or [ChainBlock, KronBlock, AddBlock]
        r.shuffle(types)
        out = tp.flatten(blk) if r.random() < 0.3 else tp.flatten(blk, types)
        if out is not None and r.random() < 0.3:
            outc = tp.flatten(circ, types)
    elif what == "scale":
        out = tp.scale_primitive_blocks_only(blk)
    elif what == "chain_single":
        out = tp.chain_single_qubit_ops(blk)
    elif what == "fill":
        outc = tp.fill_identities(circ)
        mon.check(set(outc.block.qubit_support) == set(sup), "fill_support", "not every qubit is covered",
                  got=outc.block.qubit_support)
        out = outc.block
    elif what == "digitalize":
        out = tp.digitalize(blk, LTSOrder.BASIC)
        outc = tp.digitalize(circ, LTSOrder.BASIC)
        names = [type(b).__name__ for b in qd.blocks.primitive_blocks(out)] if hasattr(qd.blocks, "primitive_blocks") else []
        mon.check("HamEvo" not in names and "U" not in names, "digital_gates", "non-digital block left", names=names)
    elif what == "reassign":
        tgt = gen.sub(r, n + 2, n)
        m = {i: tgt[i] for i in range(n)}
        out = tp.reassign(blk, m)
        big = tuple(range(n + 2))
        w2 = np.array([ref.mat_of(relabel(spec, tgt), e, n + 2) for e in envl])
        mon.close(tens(out, big), w2, "reassign", "operator after moving the qubits")
        o2 = build.npy(qd.run(qd.QuantumCircuit(n + 2, out), values=vals))
        mon.close(o2, w2[:, :, 0], "reassign_run", "execution after moving the qubits")
        out = tp.reassign(out, {v: k for k, v in m.items()})
    elif what == "invert":
        outc = qd.transpile.invert_endianness(circ)
        got = build.npy(qd.run(outc, values=vals))
        mon.close(ref.reverse_bits_vec(got), want[:, :, 0], "invert", "state of the inverted circuit")
        ib = qd.transpile.invert_endianness(blk, n)
        mon.close(reverse_mat(tens(ib)), want, "invert", "matrix of the inverted block")
        outc = qd.transpile.invert_endianness(outc)
        out = outc.block
    else:
        passes = [tp.flatten, tp.chain_single_qubit_ops, tp.scale_primitive_blocks_only,
                  lambda b: tp.flatten(b, [ChainBlock]), lambda b: tp.flatten(b, [KronBlock])]
        fs = [r.choice(passes) for _ in range(r.randint(2, 4))]
        out = tp.transpile(*fs)(blk)
        # the composition applies the last function first
        acc = blk
        for f in reversed(fs):
            acc = f(acc)
        mon.check(str(acc) == str(out), "compose_order", "composition order")
        if r.random() < 0.5:
            outc = tp.transpile(*[tp.blockfn_to_circfn(f) for f in fs])(circ)
    mon.ev(what)
    mon.ev("structure_changed", int(str(out) != before))
    mon.close(tens(out), want, "matrix_preserved", f"matrix after {what}")
    if runnable:
        psi = gen.state(r, n)
        w = np.array([m @ psi for m in want])
        got = build.npy(qd.run(qd.QuantumCircuit(n, out), values=vals, state=sim.tstate(psi)))
        # an exactly digitalised evolution is exact including the phase
        mon.close(got, w, "execution_preserved", f"execution after {what}")
    if outc is not None:
        mon.check(outc.n_qubits == n, "circuit_size", "number of qubits of the circuit changed")
        mon.close(tens(outc.block), want, "circuit_preserved", f"circuit after {what}")
    mon.check(str(blk) == before and str(circ.block) == before, "input_unchanged", f"{what} changed its input")
    mon.check([b.tag for b in walk(blk)] == tags, "tags_unchanged", f"{what} changed the tags of its input", tags=tags)
    mon.close(tens(blk), want, "input_unchanged", f"{what} changed its input")


def walk(b):
    yield b
    for c in getattr(b, "blocks", None) or ([b.block] if isinstance(b, qd.blocks.ScaleBlock) else []):
        yield from walk(c)


def _probe_order():
    """The decomposition order requested for a non-commuting generator is honoured."""
    h = qd.HamEvo(qd.X(0) + qd.Z(0), 0.7)
    want = ref.mat_of(["HamEvo", ["add", [["X", 0], ["Z", 0]]], 0.7], {}, 1)

    def err(order):
        b = h.digital_decomposition(approximation=order)
        return float(np.abs(build.npy(block_to_tensor(b))[0] - want).max())

    e1, e2 = err(LTSOrder.BASIC), err(LTSOrder.ST2)
    if not e2 < e1 - 1e-6:
        return f"ST2 has the error of the basic Trotter formula ({e1:.4f} vs {e2:.4f})"


PROBES = {"trotter_order": _probe_order}
