"""C25: instance files, random instances and sampling helpers."""
import math
import os
import random
import tempfile
from collections import OrderedDict

import numpy as np
from qiskit import QuantumCircuit
from qiskit.opflow import CircuitStateFn, DictStateFn, VectorStateFn

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.applications import Maxcut, Tsp, VehicleRouting, StableSet
from qiskit_optimization.applications.optimization_application import OptimizationApplication

import qpio
from qpio import q

KINDS = ["gset", "tsplib", "tsp", "vrp", "likely", "likely", "route", "graph", "gsetresult"]
RULE = ("random instance files with shuffled lines and the variants of spacing, blank lines and end markers the formats allow, "
        "supported and unsupported types; random instances over sizes, ranges and seeds; states and distributions in every accepted form")
ASSUMPTIONS = ["file coordinates are multiples of 1/2", "files are well formed; nodes are numbered from one",
               "state functions, which are sampled, have one state of probability at least 0.8"]


def models(ctx):
    ctx.model("MCInstances")
    if ctx.thorough:
        ctx.model("MCInstances", "SPECIFICATION Spec\nCONSTANTS N = 4\n MaxLines = 4\nINVARIANTS Faithful Symmetric\nCHECK_DEADLOCK FALSE\n", timeout=900)


def groups(ctx):
    return [("TraceInstances", [{"seed": ctx.seed * 100003 + i, "kind": KINDS[i % len(KINDS)]} for i in range(ctx.pick(2700, 18000))])]


def execute(spec):
    rng = random.Random(spec["seed"])
    qpio.seed_all(spec["seed"])
    return {"kind": spec["kind"], "events": [globals()["do_" + spec["kind"]](rng)]}


def written(text):
    handle, name = tempfile.mkstemp(suffix=".txt", prefix="verif_c25_")
    with os.fdopen(handle, "w") as out:
        out.write(text)
    return name


def do_gset(rng):
    n = qpio.count(rng, 2, 7)
    pairs = [(i, j) for i in range(1, n + 1) for j in range(i + 1, n + 1)]
    rng.shuffle(pairs)
    lines = []
    for a, b in pairs[:rng.randint(0, len(pairs))]:
        if rng.random() < 0.5:
            a, b = b, a
        lines.append({"a": a, "b": b, "w": rng.choice([1, -1, 5, 1, rng.randint(-9, 9) or 2])})
    text = "{} {}\n".format(n, len(lines)) + "".join(
        "{}{}{}{}{}{}".format(e["a"], rng.choice([" ", "  ", "\t"]), e["b"], " ", e["w"], rng.choice(["\n", " \n"])) for e in lines)
    if rng.random() < 0.3:
        text = text.rstrip("\n")
    name = written(text)
    try:
        mat = Maxcut.parse_gset_format(name)
    finally:
        os.remove(name)
    g = Maxcut(mat).graph
    return {"ev": "gset", "n": n, "lines": lines, "mat": [[q(v, 1) for v in row] for row in mat],
            "graph": [[q(g.edges[i, j]["weight"], 1) if g.has_edge(i, j) else 0 for j in range(n)] for i in range(n)]}


def do_gsetresult(rng):
    x = [rng.randint(0, 1) for _ in range(rng.randint(1, 6))]
    res = Maxcut.get_gset_result(np.array(x))
    keys = sorted(res)
    return {"ev": "gsetresult", "x": x, "keys": [int(k) for k in keys], "vals": [q(res[k], 1) for k in keys]}


def edges_of(graph, dist=False):
    out = []
    for i, j in graph.edges:
        a, b = min(i, j), max(i, j)
        e = {"a": a + 1, "b": b + 1, "w": q(graph.edges[i, j]["weight"], 1)}
        if dist:
            (x0, y0), (x1, y1) = graph.nodes[a]["pos"], graph.nodes[b]["pos"]
            e["d"] = round(1000 * math.hypot(x0 - x1, y0 - y1))
        out.append(e)
    return out


def do_tsplib(rng):
    n = qpio.count(rng, 2, 7)
    lim = rng.choice([4, 20, 200, 4000])
    nodes = [{"id": i + 1, "x": rng.randint(-lim, lim), "y": rng.randint(0, lim)} for i in range(n)]
    if rng.random() < 0.3:      # cities at the corners
        for e in nodes[:rng.randint(2, 4)]:
            e["x"], e["y"] = rng.choice([-lim, lim]), rng.choice([0, lim])
        if rng.random() < 0.5:
            nodes[0].update(x=-lim, y=-lim)
            nodes[1].update(x=lim, y=lim)
    if rng.random() < 0.5:
        rng.shuffle(nodes)
    typ = "TSP" if rng.random() < 0.8 else rng.choice(["ATSP", "HCP", "CVRP", "TSP2"])
    ew = "EUC_2D" if rng.random() < 0.85 else rng.choice(["GEO", "EXPLICIT", "EUC_3D", "CEIL_2D"])
    sep = rng.choice([": ", " : ", ":"])
    head = ["NAME{}inst{}".format(sep, n), "TYPE{}{}".format(sep, typ), "COMMENT{}nodes at random".format(sep),
            "DIMENSION{}{}".format(sep, n), "EDGE_WEIGHT_TYPE{}{}".format(sep, ew)]
    if rng.random() < 0.3:
        rng.shuffle(head)

    def num(v):
        v = v / 2
        return rng.choice(["{:.1f}".format(v), "{:e}".format(v), str(v)]) if v != int(v) or rng.random() < 0.5 else str(int(v))

    body = ["{}{} {} {}".format(rng.choice(["", " ", "  "]), e["id"], num(e["x"]), num(e["y"])) for e in nodes]
    if rng.random() < 0.2:
        body.insert(rng.randint(0, n), rng.choice(["", "  "]))
    tail = rng.choice([[], ["EOF"], ["EOF", ""], [""]])
    name = written("\n".join(head + ["NODE_COORD_SECTION"] + body + tail) + rng.choice(["", "\n"]))
    ev = {"ev": "tsplib", "typ": typ, "ew": ew, "nodes": nodes, "raised": "", "n": 0, "edges": [], "pos": []}
    try:
        graph = Tsp.parse_tsplib_format(name).graph
        ev.update(n=graph.number_of_nodes(), edges=edges_of(graph), pos=[[q(c, 2) for c in graph.nodes[i]["pos"]] for i in range(n)])
    except QiskitOptimizationError:
        ev["raised"] = "QiskitOptimizationError"
    finally:
        os.remove(name)
    return ev


def same(a, b):
    ga, gb = a.graph, b.graph
    return sorted(edges_of(ga), key=str) == sorted(edges_of(gb), key=str) and all(
        list(ga.nodes[i]["pos"]) == list(gb.nodes[i]["pos"]) for i in ga.nodes)


def rnd(rng, make):
    n = qpio.count(rng, 2, 6)
    low = rng.choice([0, 0, -20, 10])
    high = low + rng.choice([1, 10, 100, 1000])
    seed = rng.choice([0, 0, 1, 7, rng.randint(0, 10 ** 6)])
    kw = {} if (low, high) == (0, 100) and rng.random() < 0.5 else {"low": low, "high": high}
    a = make(n, seed, kw)
    np.random.seed(rng.randint(0, 10 ** 6))
    random.seed(rng.randint(0, 10 ** 6))
    from qiskit.utils import algorithm_globals
    if rng.random() < 0.5:
        algorithm_globals.random_seed = rng.randint(0, 10 ** 6)
    algorithm_globals.random.random(rng.randint(1, 5))
    b = make(n, seed, kw)
    g = a.graph
    return a, {"ev": "random", "size": n, "n": g.number_of_nodes(), "edges": edges_of(g, True), "low": low, "high": high,
               "pos": [[round(1000 * float(c)) for c in g.nodes[i]["pos"]] for i in g.nodes], "again": same(a, b), "asked": [], "kept": []}


def do_tsp(rng):
    return rnd(rng, lambda n, seed, kw: Tsp.create_random_instance(n, seed=seed, **kw))[1]


def do_vrp(rng):
    vehicles, depot = rng.choice([1, 2, 3]), rng.choice([0, 1])
    app, ev = rnd(rng, lambda n, seed, kw: VehicleRouting.create_random_instance(n, seed=seed, num_vehicle=vehicles, depot=depot, **kw))
    ev.update(asked=[vehicles, depot], kept=[app.num_vehicles, app.depot])
    return ev


def do_graph(rng):
    n = qpio.count(rng, 2, 8)
    m = rng.randint(0, n * (n - 1) // 2)
    seed = rng.choice([0, 1, rng.randint(0, 10 ** 6)])
    g, h = (Maxcut.random_graph(n, m, seed), StableSet.random_graph(n, m, seed))
    return {"ev": "graph", "size": n, "num": m, "nodes": g.number_of_nodes(), "edges": g.number_of_edges(),
            "again": sorted(g.edges) == sorted(h.edges) and sorted(g.nodes) == list(range(n))}


def do_likely(rng):
    n = qpio.count(rng, 1, 5)
    dim = 2 ** n
    form = rng.choice(["array", "array", "counts", "probs", "ordered", "dictfn", "vectorfn", "circuitfn"] if n <= 5 else ["array", "counts", "ordered"])
    if form in ("dictfn", "vectorfn", "circuitfn"):
        k = rng.randrange(dim)
        ws = [0] * dim
        ws[k] = 90
        if dim > 1:
            ws[rng.choice([j for j in range(dim) if j != k])] = 10
    else:
        ws = [rng.choice([0, 0, 1, 2, 3, 5, 9]) for _ in range(dim)]
        if not any(ws):
            ws[rng.randrange(dim)] = 1
    total = sum(ws)
    amp = np.array([math.sqrt(w / total) * rng.choice([1, -1, 1j, -1j]) for w in ws])

    def key(i):
        return format(i, "0{}b".format(n))

    items = [(key(i), w) for i, w in enumerate(ws) if w or rng.random() < 0.2]
    rng.shuffle(items)
    if form == "array":
        state = amp if rng.random() < 0.5 else np.real(np.sqrt(np.array(ws) / total)) * np.array([rng.choice([1, -1]) for _ in ws])
    elif form == "counts":
        state = dict(items)
    elif form == "probs":
        state = {k: w / total for k, w in items}
    elif form == "ordered":
        state = OrderedDict(items)
    elif form == "dictfn":
        state = DictStateFn({key(i): complex(a) for i, a in enumerate(amp) if a != 0})
    elif form == "vectorfn":
        state = VectorStateFn(amp)
    else:
        circ = QuantumCircuit(n)
        circ.initialize(amp, range(n))
        state = CircuitStateFn(circ)
    x = OptimizationApplication.sample_most_likely(state)
    return {"ev": "likely", "n": n, "ws": ws, "x": [q(v, 1) for v in x]}


def do_route(rng):
    n = qpio.count(rng, 2, 6)
    mat = [[0 if i == j else rng.randint(1, 9) for j in range(n)] for i in range(n)]
    z = list(range(n))
    rng.shuffle(z)
    z = z[:rng.randint(2, n)]
    return {"ev": "route", "mat": mat, "z": [i + 1 for i in z], "val": q(Tsp.tsp_value(z, np.array(mat)), 1)}
