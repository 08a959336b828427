"""C27: block arithmetic, equality, supports and structural queries."""
from __future__ import annotations

import copy
from collections import Counter

import numpy as np
import sympy
import torch

import qadence as qd
from qadence.blocks.block_to_tensor import block_to_tensor
from qadence.blocks.utils import (
    block_is_commuting_hamiltonian, block_is_qubit_hamiltonian, expression_to_uuids, get_blocks_by_expression, get_pauli_blocks,
    has_duplicate_vparams, parameters, primitive_blocks, unique_parameters, unroll_block_with_scaling, uuid_to_block,
)
from qadence.parameters import evaluate
from qadence.qubit_support import QubitSupport

from .. import build, gen, ref, sim

ID = "C27"
CASES = {"quick": 3000, "thorough": 60000}
RULE = (
    "random histories of block arithmetic (*, @, +, -, /, **, unary and in-place forms, sum, numbers of Python, NumPy and PyTorch, parameters, complex "
    "scalars, generators) on blocks of every kind with shared operands, every result and operand against numpy matrices; pairs of blocks that are equal or "
    "differ in one place; structural queries against a traversal of the spec; qubit supports against sets; non-trivial: two or more operands"
)
MIN_EVENTS = {"op": 1500, "operand": 800, "equal": 300, "unequal": 300, "symmetric": 500, "support": 300, "primitives": 150, "params": 150, "tags": 100,
              "pauli": 80, "unroll": 60, "commuting": 60, "contains": 200, "qubitsupport": 150, "refused": 80, "iteration": 80, "expression": 100}
ASSUMPTIONS = ["at most 4 qubits for matrices (13 for supports); equality is judged on the operator only (tags excepted); tolerance 1e-9 relative"]


def mat(b, vals, n):
    m = build.npy(block_to_tensor(b, vals, qubit_support=tuple(range(n))))
    return m[0]


def shape(b):
    """The block's structure, without the (shared) values of its parameters."""

    def strip(d):
        if isinstance(d, dict):
            return {k: strip(v) for k, v in d.items() if k != "value"}
        return [strip(x) for x in d] if isinstance(d, (list, tuple)) else d

    return str(strip(b._to_dict()))


def k_algebra(r, mon):
    n = r.choice([1, 2, 3, 3, 4])
    p = gen.P(r, nf=r.randint(0, 2), nv=r.randint(0, 1))
    env = {**p.vvals, **{k: round(r.uniform(-0.9, 0.9), 3) for k in p.fn}}
    vals = {k: torch.tensor([v], dtype=torch.float64) for k, v in env.items()}
    pool = []
    for _ in range(r.randint(2, 3)):
        s = r.choice([lambda: gen.gate(r, n, p), lambda: gen.gate(r, n, p), lambda: gen.hamiltonian(r, n, p, terms=r.randint(1, 3)),
                      lambda: gen.circuit(r, n, p, size=2), lambda: ["N", r.randrange(n)], lambda: gen.hamevo(r, n, p)])()
        pool.append((build.block(s, p.vvals), s))
    seeds = [s for _, s in pool]
    ops = [r.choice(["mul", "mul", "matmul", "matmul", "add", "add", "sub", "sub", "num", "num", "rnum", "par", "div", "divp", "neg", "pos", "pow", "imul",
                     "iadd", "isub", "imatmul", "sum", "gen", "cplx", "npnum", "tnum", "radd"]) for _ in range(r.randint(2, 6))]
    mon.case(dict(what="algebra", n=n, seeds=seeds, ops=ops), True)
    for o in ops:
        i, j = r.randrange(len(pool)), r.randrange(len(pool))
        if r.random() < 0.5:
            i = len(pool) - 1
        (a, sa), (b, sb) = pool[i], pool[j]
        before = shape(a), shape(b)
        c = r.choice([2, -1, 0.5, -1.75, round(r.uniform(-3, 3), 3)])
        if o == "mul":
            x, s = a * b, ["chain", [sa, sb]]
        elif o in ("matmul", "imatmul"):
            if ref.support(sa) & ref.support(sb):
                try:
                    a @ b
                    ok = False
                except Exception:
                    ok = True
                mon.check(ok, "refused", "tensor product of overlapping blocks accepted")
                continue
            x, s = a @ b, ["kron", [sa, sb]]
            if o == "imatmul":
                x = a
                x @= b
        elif o == "add":
            x, s = a + b, ["add", [sa, sb]]
        elif o == "radd":
            x, s = 0 + a, sa
        elif o == "sub":
            x, s = a - b, ["add", [sa, ["scale", -1.0, sb]]]
        elif o == "num":
            x, s = a * c, ["scale", c, sa]
        elif o == "rnum":
            x, s = c * a, ["scale", c, sa]
        elif o == "npnum":
            x, s = np.float64(c) * a, ["scale", c, sa]
        elif o == "tnum":
            x, s = a * torch.tensor(float(c), dtype=torch.float64), ["scale", c, sa]
        elif o == "par":
            q = p.sym(2)
            x, s = build.param(q, p.vvals) * a, ["scale", q, sa]
        elif o == "div":
            x, s = a / c, ["scale", 1 / c, sa]
        elif o == "divp":
            q = ["+", 2.0, ["tanh", p.sym(1)]]
            x, s = a / build.param(q, p.vvals), ["scale", ["/", 1, q], sa]
        elif o == "neg":
            x, s = -a, ["scale", -1.0, sa]
        elif o == "pos":
            x, s = +a, sa
        elif o == "pow":
            k = r.randint(1, 3)
            x, s = a**k, ["chain", [sa] * k]
        elif o == "imul":
            x, s = a, ["chain", [sa, sb]]
            x *= b
        elif o == "iadd":
            x, s = a, ["add", [sa, sb]]
            x += b
        elif o == "isub":
            x, s = a, ["add", [sa, ["scale", -1.0, sb]]]
            x -= b
        elif o == "sum":
            x, s = sum([a, b, a]), ["add", [sa, sb, sa]]
        elif o == "cplx":
            z = r.choice([1j, -1j, 0.5j, 2j])
            x, s = z * a, None
        else:
            f, k = r.choice([(qd.chain, "chain"), (qd.add, "add")])
            x, s = f(y for y in [a, b, b]), [k, [sa, sb, sb]]
        got = mat(x, vals, n)
        want = z * ref.mat_of(sa, env, n) if s is None else ref.mat_of(s, env, n)
        mon.close(got, want, "op", f"{o} of {sa} and {sb}", tol=1e-8)
        # the operands stay what they were
        mon.check(before == (shape(a), shape(b)), "operand", f"{o} changed its operands")
        mon.close(mat(a, vals, n), ref.mat_of(sa, env, n), "operand", f"operand {sa} of {o}", tol=1e-8)
        if s is not None and len(str(s)) < 3000:
            mon.check(set(x.qubit_support) == ref.support(s) and x.n_qubits == max(ref.support(s)) + 1 and x.n_supports == len(ref.support(s)), "support",
                      f"support {x.qubit_support} ({x.n_qubits}, {x.n_supports}) of {s}")
            pool.append((x, s))
    for a, b in [("block", 3), (3, "block")]:
        u, v = [pool[0][0] if t == "block" else t for t in (a, b)]
        for f in (lambda: u + v, lambda: u - v, lambda: u @ v):
            try:
                f()
                ok = False
            except Exception:
                ok = True
            mon.check(ok, "refused", "sum, difference or tensor product of a block and a number accepted")
    try:
        pool[0][0] / pool[1][0]
        ok = False
    except Exception:
        ok = True
    mon.check(ok, "refused", "division by a block accepted")


def edit(r, s, n, p):
    """A copy of the spec that differs in one place."""
    s = copy.deepcopy(s)
    spots = []

    def walk(x):
        spots.append(x)
        if x[0] in ("chain", "kron", "add"):
            for y in x[1]:
                walk(y)
        elif x[0] in ("scale", "tag"):
            walk(x[2])
        elif x[0] == "HamEvo":
            walk(x[1])

    walk(s)
    x = r.choice(spots)
    op = x[0]
    if op in ("chain", "add", "kron"):
        k = r.choice(["swap", "drop", "dup"])
        i, j = r.randrange(len(x[1])), r.randrange(len(x[1]))
        if k == "swap":
            x[1][i], x[1][j] = x[1][j], x[1][i]
        elif k == "drop" and len(x[1]) > 1:
            x[1].pop(i)
        elif op != "kron":
            x[1][i] = copy.deepcopy(x[1][j])
    elif op in ("X", "Y", "Z", "H", "S", "T", "I", "N", "SDagger"):
        x[0] = r.choice(["X", "Y", "Z"])
    elif op in ("CNOT", "CZ", "SWAP") or op in ref.CROT:
        if r.random() < 0.5 and op in ref.CROT:
            x[3] = gen.num(r)
        else:
            x[1], x[2] = x[2], x[1]
    elif op == "scale":
        x[1] = gen.nz(r)
    elif op in ref.ROT:
        if r.random() < 0.5:
            x[2] = r.choice([gen.num(r), p(1)])
        else:
            x[0] = r.choice(["RX", "RY", "RZ", "PHASE"])
    elif op == "HamEvo":
        x[2] = gen.num(r)
    elif op == "U":
        i = r.randint(2, 4)
        x[i] = gen.num(r)
    elif op in ref.MCFIXED or op in ref.MCROT:
        x[1][0], x[2] = x[2], x[1][0]
    elif op == "Matrix":
        x[1] = gen.unitary(r, len(x[2]))
    return s


def k_eq(r, mon):
    n = r.choice([1, 2, 2, 3])
    p = gen.P(r, nf=r.randint(1, 2), nv=1)
    k = r.random()
    if k < 0.5:
        s = gen.hamiltonian(r, n, p, terms=r.randint(1, 5))
    elif k < 0.6:
        # a single block
        q = gen.sub(r, n, r.randint(1, n))
        s = r.choice([lambda: gen.gate(r, n, p), lambda: ["Matrix", gen.unitary(r, len(q)), q], lambda: gen.hamevo(r, n, p)])()
    else:
        s = gen.circuit(r, n, p, size=r.randint(1, 5))
    t = s
    for _ in range(r.randint(1, 2)):
        t = edit(r, t, n, p)
    mon.case(dict(what="eq", s=s, t=t), len(ref.leaves(s)) > 1)
    try:
        a, a2, b = build.block(s, p.vvals), build.block(s, p.vvals), build.block(t, p.vvals)
    except AssertionError:  # an edit that makes tensor factors overlap
        return
    mon.check((a == a2) is True and not (a != a2), "equal", f"two builds of {s} are unequal")
    same = bool(a == b)
    mon.check(same == bool(b == a), "symmetric", f"{s} == {t} is {same} one way only")
    mon.check(bool(a != b) == (not same), "symmetric", f"!= of {s} and {t}")
    mon.check(a in qd.QuantumCircuit(n, a2) or s[0] in ("chain", "kron", "add"), "contains", f"{s} not found in its circuit")
    if s[0] not in ("chain", "kron", "add", "scale", "tag") and t[0] not in ("chain", "kron", "add"):
        mon.check((b in qd.QuantumCircuit(n, a2)) == same, "contains", f"{t} found in the circuit of {s}")
    lv = [x[0] for x in flat(s)]
    mon.check(bool(a.is_identity) == (set(lv) == {"I"}), "identity", f"is_identity of {s}")
    if r.random() < 0.2:
        i = build.block(ident(r, s), p.vvals)
        mon.check(i.is_identity is True, "identity", "identities not recognised")
    if same:
        for _ in range(2):
            env = {**{k: round(r.uniform(-2, 2), 3) for k in p.vn}, **{k: round(r.uniform(-0.9, 0.9), 3) for k in p.fn}}
            mon.close(ref.mat_of(s, env, n), ref.mat_of(t, env, n), "equal", f"{s} == {t} although their matrices differ", tol=1e-8)
    else:
        mon.check(s != t, "unequal", f"{s} compared unequal to itself")
    c, d = qd.QuantumCircuit(n, a), qd.QuantumCircuit(n, b)
    mon.check(bool(c == d) == same and c == qd.QuantumCircuit(n, a2), "equal", "circuits compare differently from their blocks")
    mon.check(not (c == qd.QuantumCircuit(n + 1, a2)), "unequal", "circuits on different registers are equal")


def flat(s, out=None):
    out = [] if out is None else out
    if s[0] in ("chain", "kron", "add"):
        for b in s[1]:
            flat(b, out)
    elif s[0] in ("scale", "tag"):
        flat(s[2], out)
    else:
        out.append(s)
    return out


def ident(r, s):
    """The same structure with identities as leaves."""
    if s[0] in ("chain", "kron", "add"):
        return [s[0], [ident(r, b) for b in s[1]]]
    if s[0] in ("scale", "tag"):
        return [s[0], s[1], ident(r, s[2])]
    return ["I", min(ref.support(s))]


def k_query(r, mon):
    n = r.choice([2, 3, 4])
    p = gen.P(r, nf=r.randint(1, 2), nv=r.randint(1, 2))
    items = [gen.circuit(r, n, p, size=r.randint(1, 3)) for _ in range(r.randint(1, 3))]
    if r.random() < 0.5:
        items.append(gen.hamiltonian(r, n, p))
    tags = {}
    for i, s in enumerate(items):
        if r.random() < 0.5:
            t = r.choice(["A", "B"])
            items[i] = ["tag", t, s]
            tags.setdefault(t, []).append(i)
    spec = ["chain", items]
    mon.case(dict(what="query", spec=spec), True)
    b = build.block(spec, p.vvals)
    circ = qd.QuantumCircuit(n, b)
    lv = flat(spec)
    prim = primitive_blocks(b)
    mon.check(len(prim) == len(lv), "primitives", f"{len(prim)} primitive blocks for {len(lv)}")
    for x, s in zip(prim, lv):
        mon.check(x == build.block(s, p.vvals), "primitives", f"{x} for {s}")
    pauli = [s for s in lv if s[0] in ("X", "Y", "Z", "I", "N")]
    got = get_pauli_blocks(b)
    mon.check(len(got) == len(pauli) and all(x == build.block(s, p.vvals) for x, s in zip(got, pauli)), "pauli", f"{len(got)} Pauli blocks for {pauli}")
    mon.check(block_is_qubit_hamiltonian(b) == (len(pauli) == len(lv)), "pauli", "block_is_qubit_hamiltonian")
    # parameters
    names = ref.names_of(spec)
    up = unique_parameters(b)
    mon.check({x.name for x in up} == names and len(up) == len(names), "params", f"unique parameters {up} for {names}")
    mon.check({x.name for x in circ.unique_parameters} == names and circ.num_unique_parameters == len(names), "params", "unique parameters of the circuit")
    cnt = Counter(x for q in ref.params_of(spec) for x in (ref.pnames(q) or {"#"}))
    got = Counter(("#" if x.is_number else x.name) for x in parameters(b) if not isinstance(x, sympy.Array))
    mats = sum(s[0] == "HamEvoM" for s in lv)
    got.pop("#", None)
    cnt.pop("#", None)
    evo = gen.param_generator(spec)  # (such an evolution also lists the parameters of its generator)
    nested = str(spec).count("'scale'") > 0  # (nested scales are merged)
    mon.check(got == cnt or ((evo or nested) and set(got) == set(cnt)), "params", f"parameters {got} for {cnt} (and {mats} matrices)")
    dup = any(sum(x in ref.pnames(q, "v") for q in ref.params_of(spec)) > 1 for x in p.vn)
    if not mats and not evo and not nested:
        mon.check(has_duplicate_vparams(b) == dup, "params", f"has_duplicate_vparams {not dup}")
    mon.check(b.is_parametric == bool(names), "params", "is_parametric")
    u2b = uuid_to_block(b)
    nexp = len(ref.params_of(spec))
    plain = "HamEvo" not in str(spec) and "['scale', " not in str(spec)
    mon.check(not plain or len(u2b) == nexp, "params", f"{len(u2b)} uuids for {nexp} expressions")
    for e, us in expression_to_uuids(b).items():
        mon.check(get_blocks_by_expression(b, e) == [u2b[u] for u in us] and all(e in u2b[u].parameters.expressions() for u in us), "expression",
                  f"blocks of the expression {e}")
    mon.check(sum(len(us) for us in expression_to_uuids(b).values()) == len(u2b), "expression", "uuids are lost")
    # containment
    for x in set(p.fn + p.vn):
        q = build.param(["v", x] if x in p.vn else ["f", x], p.vvals)
        mon.check((q in b) == (x in names) and (q in circ) == (x in names), "contains", f"{x} in block: {q in b}, in circuit: {q in circ}")

    def direct(s):
        """Blocks reachable through chains, tensor products and sums only."""
        out = []
        for y in s[1]:
            out.append(y)
            z = y[2] if y[0] == "tag" else y
            if z[0] in ("chain", "kron", "add"):
                out += direct(z)
        return out

    for s in r.sample(direct(spec), min(3, len(direct(spec)))):
        x = build.block(s, p.vvals)
        mon.check(x in b and x in circ, "contains", f"{s} is not found in the block")
    g = ["RX", r.randrange(n), 0.123456]
    mon.check(build.block(g, {}) not in b, "contains", f"{g} found")
    # tags
    for t in ("A", "B", "C"):
        found = circ.get_blocks_by_tag(t)
        want = [items[i] for i in tags.get(t, [])]
        mon.check(len(found) == len(want) and all(x is b.blocks[i] for x, i in zip(found, tags.get(t, []))), "tags", f"{len(found)} blocks tagged {t} for {len(want)}")
    # iteration
    mon.check(len(b) == len(items) and [x is y for x, y in zip(b, b.blocks)] == [True] * len(items) and b[0] is b.blocks[0], "iteration", "iteration over a chain")
    mon.check(sum(1 for _ in b for _ in b) == len(items) ** 2, "iteration", "nested iteration over one block")
    mon.check([x is y for x, y in zip(circ, b.blocks)] == [True] * len(items), "iteration", "iteration over a circuit")
    mon.check(not circ.is_empty() and qd.QuantumCircuit(2, qd.chain()).is_empty(), "iteration", "is_empty")
    if b.n_qubits > 1:
        try:
            qd.QuantumCircuit(b.n_qubits - 1, b)
            ok = False
        except Exception:
            ok = True
        mon.check(ok, "refused", "a circuit on fewer qubits than its block")


def k_pauli(r, mon):
    n = r.choice([2, 3, 4])
    p = gen.P(r, nf=1, nv=1)
    same = r.random() < 0.4
    basis = {q: r.choice("XYZ") for q in range(n)}
    h = gen.hamiltonian(r, n, p, terms=r.randint(2, 6))
    if r.random() < 0.3:
        h = ["scale", gen.nz(r), h]
    if same:
        for s in flat(h):
            s[0] = basis[s[1]]
    mon.case(dict(what="pauli", h=h), True)
    b = build.block(h, p.vvals)
    env = {**p.vvals, **{k: 0.37 for k in p.fn}}
    vals = {k: torch.tensor([v], dtype=torch.float64) for k, v in env.items()}
    before = shape(b)
    terms = unroll_block_with_scaling(b)
    total = np.zeros((2**n, 2**n), complex)
    for x, c in terms:
        c = c if isinstance(c, (int, float)) else evaluate(c, {s.name: env[s.name] for s in getattr(c, "free_symbols", ())})
        total += complex(c) * mat(x, vals, n)
    mon.close(total, ref.mat_of(h, env, n), "unroll", f"the unrolled terms of {h}", tol=1e-9)
    mon.check(before == shape(b), "unroll", "unrolling changed the block")
    com = block_is_commuting_hamiltonian(b)
    if com:
        ms = [mat(x, vals, n) for x, _ in terms]
        mon.check(all(np.allclose(x @ y, y @ x, atol=1e-9) for x in ms for y in ms), "commuting", f"{h} declared commuting")
    else:
        mon.check(not same, "commuting", f"{h} (one Pauli operator per qubit) declared non-commuting")
    diag = all(s[0] in ("Z", "I") for s in flat(h))
    mon.check(b._is_diag_pauli == diag, "pauli", "_is_diag_pauli")


def k_support(r, mon):
    qs = [r.randrange(13) for _ in range(r.randint(1, 6))]
    mon.case(dict(what="support", qs=qs), len(qs) > 1)
    bs = [qd.X(q) if r.random() < 0.6 else qd.CNOT(q, q + 1) for q in qs]
    want = set().union(*[set(b.qubit_support) for b in bs])
    for f in (qd.chain, qd.add):
        b = f(*bs)
        mon.check(len(b.qubit_support) == len(want) and set(b.qubit_support) == want, "support", f"{b.qubit_support} for {want}")
        mon.check(b.n_qubits == max(want) + 1 and b.n_supports == len(want), "support", f"{b.n_qubits} qubits, {b.n_supports} supports for {want}")
    overlap = sum(len(b.qubit_support) for b in bs) != len(want)
    try:
        k = qd.kron(*bs)
        mon.check(not overlap, "refused", f"tensor product on {[b.qubit_support for b in bs]}")
        mon.check(set(k.qubit_support) == want, "support", f"{k.qubit_support} for {want}")
    except AssertionError:
        mon.check(overlap, "refused", f"tensor product on {[b.qubit_support for b in bs]} refused")
    A, B = [tuple(gen.sub(r, 13, r.randint(1, 5))) for _ in range(2)]
    a, b = QubitSupport(*A), QubitSupport(B)
    g = QubitSupport("global")
    mon.check(set(a + b) == set(A) | set(B) and len(a + b) == len(set(A) | set(B)), "qubitsupport", f"{a} + {b} = {a + b}")
    mon.check(a.is_disjoint(b) == (not set(A) & set(B)) and b.is_disjoint(A) == a.is_disjoint(B), "qubitsupport", f"{a} disjoint from {b}")
    mon.check(set(g + a) == set(range(max(A) + 1)) == set(a + g), "qubitsupport", f"global + {a} = {g + a}")
    mon.check(g.is_global and not a.is_global and not g.is_disjoint(a) and not a.is_disjoint(g) and (g + g).is_global, "qubitsupport", "global support")
    mon.check(QubitSupport(a) == a and set(sum([a, b], start=QubitSupport())) == set(A) | set(B), "qubitsupport", "sums of supports")
    for bad in ((-1,), (0, -2), (3, -1, 2)):
        try:
            QubitSupport(*bad)
            ok = False
        except ValueError:
            ok = True
        mon.check(ok, "refused", f"support {bad} accepted")


def case(r, idx, mon):
    f = r.choice([k_algebra] * 4 + [k_eq] * 4 + [k_query] * 2 + [k_pauli] * 2 + [k_support])
    f(r, mon)
