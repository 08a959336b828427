"""C14: register geometry."""
from __future__ import annotations

import json
import math

import networkx as nx
import numpy as np

import qadence as qd
from qadence import Register
from qadence.analog import IdealDevice, RealisticDevice
from qadence.serialization import deserialize, serialize
from qadence.types import LatticeTopology

from .. import build, gen

ID = "C14"
CASES = {"quick": 2500, "thorough": 40000}
RULE = (
    "every register constructor (line, circle, square, rectangular, triangular, honeycomb, all-to-all, coordinates, custom "
    "graphs) over sizes and spacings, rescaling, derived distances, equality, serialization; non-trivial: >= 2 qubits"
)
MIN_EVENTS = {"min_distance": 500, "distances": 500, "edges": 500, "rescale": 200, "scale_free": 200, "json": 200,
              "eq": 200, "caller_graph": 60}
ASSUMPTIONS = ["at most 24 qubits", "relative tolerance 1e-6"]


def make(r, kind, spacing, dev):
    kw = dict(spacing=spacing, device_specs=dev)
    if spacing == 1.0 and dev == IdealDevice() and r.random() < 0.7:
        kw = {}  # the defaults
    if kind == "line":
        n = r.randint(1, 9)
        return (lambda **k: Register.line(n, **{**kw, **k})), n, {(i, i + 1) for i in range(n - 1)}, (n,)
    if kind == "circle":
        n = r.randint(3, 9)
        return (lambda **k: Register.circle(n, **{**kw, **k})), n, {tuple(sorted((i, (i + 1) % n))) for i in range(n)}, (n,)
    if kind == "square":
        s = r.randint(2, 5)
        n = 4 * (s - 1)
        return (lambda **k: Register.square(s, **{**kw, **k})), n, {tuple(sorted((i, (i + 1) % n))) for i in range(n)}, (s,)
    if kind == "rectangular_lattice":
        a, b = r.randint(1, 4), r.randint(1, 4)
        return (lambda **k: Register.rectangular_lattice(a, b, **{**kw, **k})), a * b, "near", (a, b)
    if kind == "triangular_lattice":
        a, b = r.randint(1, 3), r.randint(1, 4)
        g = nx.triangular_lattice_graph(a, b)
        return (lambda **k: Register.triangular_lattice(a, b, **{**kw, **k})), len(g), ("near", g), (a, b)
    if kind == "honeycomb_lattice":
        a, b = r.randint(1, 3), r.randint(1, 2)
        g = nx.hexagonal_lattice_graph(a, b)
        return (lambda **k: Register.honeycomb_lattice(a, b, **{**kw, **k})), len(g), ("near", g), (a, b)
    n = r.randint(1, 7)
    return ((lambda **k: Register.all_to_all(n, **{**kw, **k})), n, {(i, j) for i in range(n) for j in range(i + 1, n)}, (n,))


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * (1 + abs(b))


def geometry(reg, mon, n, spacing, what):
    mon.check(reg.n_qubits == n and set(reg.support) == set(range(n)), "size", f"{what}: {reg.n_qubits} qubits, support {reg.support}")
    xs = {k: np.array(v, float) for k, v in reg.coords.items()}
    pairs = {(i, j) for i in range(n) for j in range(i + 1, n)}
    mon.check(set(map(tuple, reg.all_node_pairs)) == pairs, "pairs", f"{what}: all_node_pairs")
    d = reg.distances
    mon.check(set(d) == pairs, "distances", f"{what}: keys of distances")
    for (i, j), v in d.items():
        mon.check(close(v, float(np.linalg.norm(xs[i] - xs[j]))), "distances", f"{what}: distance {i},{j} is {v}")
    for (i, j), v in reg.edge_distances.items():
        mon.check(close(v, float(np.linalg.norm(xs[i] - xs[j]))), "distances", f"{what}: edge distance {i},{j}")
    mon.check(set(map(frozenset, reg.edge_distances)) == set(map(frozenset, reg.edges)), "edges", f"{what}: edge_distances keys")
    m = min(d.values()) if d else 0.0
    mon.check(close(reg.min_distance, m), "min_distance", f"{what}: min_distance {reg.min_distance} != {m}")
    if spacing is not None and n > 1:
        mon.check(close(m, spacing, 1e-5), "min_distance", f"{what}: closest qubits at {m}, spacing {spacing}")


def case(r, idx, mon):
    kinds = ["line", "circle", "square", "rectangular_lattice", "triangular_lattice", "honeycomb_lattice", "all_to_all"]
    kind = r.choice(kinds + ["coords", "graph"])
    spacing = r.choice([1.0, 0.5, 8.0, 2.5, 10, round(r.uniform(0.1, 20), 3)])
    dev = r.choice([IdealDevice(), RealisticDevice()])
    if kind in kinds:
        mk, n, edges, args = make(r, kind, spacing, dev)
        mon.case(dict(kind=kind, args=args, spacing=spacing), n > 1)
        reg = mk()
        geometry(reg, mon, n, spacing, f"{kind}{args}")
        got = {tuple(sorted(e)) for e in reg.edges}
        if edges == "near" or isinstance(edges, tuple):
            if isinstance(edges, tuple):
                same = nx.is_isomorphic(nx.Graph(list(got)), nx.Graph(edges[1].edges))
                mon.check(same, "edges", f"{kind}{args}: another lattice")
            near = {p for p, v in reg.distances.items() if v < spacing * 1.001}
            mon.check(got == near, "edges", f"{kind}{args}: edges are not the nearest neighbours", got=sorted(got), want=sorted(near))
        else:
            mon.check(got == edges, "edges", f"{kind}{args}: edges {sorted(got)}")
        # spacing only scales
        base = mk(spacing=1.0)
        for k, v in base.distances.items():
            mon.check(close(reg.distances[k], v * spacing, 1e-5), "scale_free", f"{kind}{args}: spacing changed the shape")
        if kind == "line":
            d = reg.distances
            for i, j in d:
                mon.check(close(d[(i, j)], (j - i) * spacing), "shape", "line: not equidistant")
        if kind == "circle":
            c = np.mean([v for v in reg.coords.values()], axis=0)
            rad = [np.linalg.norm(np.array(v) - c) for v in reg.coords.values()]
            mon.check(max(rad) - min(rad) < 1e-5 * spacing * n, "shape", "circle: not on a circle")
        if kind == "square":
            s = args[0]
            a = np.array(list(reg.coords.values()))
            ext = a.max(0) - a.min(0)
            mon.check(np.allclose(ext, (s - 1) * spacing, rtol=1e-5), "shape", "square: wrong extent")
            on = np.isclose(a, a.max(0), atol=1e-6 * spacing).any(1) | np.isclose(a, a.min(0), atol=1e-6 * spacing).any(1)
            mon.check(bool(on.all()), "shape", "square: a qubit is not on the boundary")
        if kind == "rectangular_lattice":
            a = np.array(list(reg.coords.values()))
            ext = sorted(np.round((a.max(0) - a.min(0)) / spacing).astype(int).tolist())
            mon.check(ext == sorted((args[0] - 1, args[1] - 1)), "shape", f"rectangular: extent {ext}")
            u = {tuple(np.round(x / spacing).astype(int)) for x in a}
            mon.check(len(u) == n, "shape", "rectangular: not a grid")
        lt = Register.lattice(LatticeTopology(kind), *args, spacing=spacing)
        mon.check(lt.coords == reg.coords and set(lt.edges) == set(reg.edges), "lattice", "Register.lattice differs")
        if kind == "all_to_all":
            alt = Register(n, spacing=spacing)
            mon.check(alt.coords == reg.coords, "lattice", "Register(n) is not all_to_all")
    else:
        n = r.randint(2, 6)
        pts = [(round(r.uniform(-5, 5), 3), round(r.uniform(-5, 5), 3)) for _ in range(n)]
        mind = min(math.dist(pts[i], pts[j]) for i in range(n) for j in range(i + 1, n))
        if mind < 0.05:
            return
        sp = r.choice([None, spacing])
        mon.case(dict(kind=kind, pts=pts, spacing=sp))
        if kind == "coords":
            mk = lambda **k: Register.from_coordinates(list(pts), **{**dict(spacing=sp, device_specs=dev), **k})
            edges = set()
        else:
            g = nx.Graph()
            for i, q in enumerate(pts):
                g.add_node(i, pos=q)
            edges = {(i, j) for i in range(n) for j in range(i + 1, n) if r.random() < 0.5}
            g.add_edges_from(edges)
            mk = lambda **k: Register(g, **{**dict(spacing=sp, device_specs=dev), **k})
        reg = mk()
        geometry(reg, mon, n, sp, kind)
        f = 1.0 if sp is None else sp / mind
        for i in range(n):
            mon.check(all(close(a, b * f, 1e-6) for a, b in zip(reg.coords[i], pts[i])), "coords", f"{kind}: coordinates of {i}",
                      got=reg.coords[i], want=pts[i], f=f)
        mon.check({tuple(sorted(e)) for e in reg.edges} == edges, "edges", f"{kind}: edges")
        if kind == "graph":
            mon.check(all(g.nodes[i]["pos"] == pts[i] for i in range(n)), "caller_graph", "the caller's graph was modified")
            other = Register(g, spacing=3.3 * (sp or 1.0))
            geometry(reg, mon, n, sp, "graph after building another register from the same graph")
    mon.check(reg.device_specs == dev, "device", "device_specs lost")
    # rescaling returns a new register
    k = round(r.uniform(0.2, 5), 3)
    before = dict(reg.coords)
    res = reg.rescale_coords(k)
    for q, v in reg.distances.items():
        mon.check(close(res.distances[q], v * k), "rescale", f"rescale_coords({k}): distance {q}")
    mon.check(set(res.edges) == set(reg.edges) and res.device_specs == dev, "rescale", "rescale_coords changed edges or device")
    mon.check(all(np.allclose(before[q], reg.coords[q]) for q in before), "rescale", "rescale_coords changed the register")
    # serialization
    back = deserialize(json.loads(json.dumps(serialize(reg), default=list)))
    mon.check(set(back.coords) == set(reg.coords) and all(np.allclose(back.coords[q], reg.coords[q], rtol=1e-9) for q in reg.coords),
              "json", "coordinates after a round trip", got=back.coords, want=reg.coords)
    mon.check({tuple(sorted(e)) for e in back.edges} == {tuple(sorted(e)) for e in reg.edges}, "json", "edges after a round trip")
    mon.check(back.device_specs == dev, "json", "device after a round trip")
    # equality
    mon.check(mk() == reg, "eq", "equal constructions differ")
    if reg.n_qubits > 1:
        mon.check(res != reg or abs(k - 1) < 1e-9, "eq", "a rescaled register compares equal")
