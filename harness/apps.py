"""Application classes: building instances, recording programs and interpretations."""
import itertools

import networkx as nx
import numpy as np

from qiskit_optimization.algorithms import OptimizationResult, OptimizationResultStatus
from qiskit_optimization.applications import (Clique, ExactCover, GraphPartition, Knapsack, Maxcut, NumberPartition,
                                              SetPacking, StableSet, Tsp, VehicleRouting, VertexCover)

import qpio
from qpio import attempt, q, val

S = 2
GRAPH = {"maxcut": Maxcut, "partition": GraphPartition, "stable": StableSet, "cover": VertexCover, "clique": Clique}
SETS = {"exact": ExactCover, "packing": SetPacking}


def graph_input(rng, n, edges, weighted):
    """The graph in one of the accepted formats; edges: (u, v, w) with u, v in 0..n-1."""
    nodes = list(range(n))
    rng.shuffle(nodes)
    edges = [(u, v, w if weighted else S) for u, v, w in edges]
    rng.shuffle(edges)
    edges = [(u, v, w) if rng.random() < 0.5 else (v, u, w) for u, v, w in edges]
    touched = {u for e in edges for u in e[:2]}
    forms = ["nx", "nx"]
    if weighted and all(w != 0 for _, _, w in edges):
        forms.append("array")
    if not weighted:
        forms.append("array")
    if touched == set(range(n)) and edges:
        forms.append("list")
    form = rng.choice(forms)
    if form == "nx":
        g = nx.Graph()
        g.add_nodes_from(nodes)
        for u, v, w in edges:
            if weighted:
                g.add_edge(u, v, weight=val(w, S))
            else:
                g.add_edge(u, v)
        return g
    if form == "array":
        a = np.zeros((n, n)) if rng.random() < 0.5 or any(w % S for _, _, w in edges) else np.zeros((n, n), dtype=int)
        for u, v, w in edges:
            a[u, v] = a[v, u] = val(w, S)
        return a
    return [(u, v, {"weight": val(w, S)}) if weighted else (u, v) for u, v, w in edges]


def frozen(data):
    if isinstance(data, nx.Graph):
        return repr((sorted(data.nodes), sorted((min(u, v), max(u, v), sorted(d.items())) for u, v, d in data.edges(data=True))))
    if isinstance(data, np.ndarray):
        return repr(data.tolist())
    return repr(data)


def give(rng, x, qp):
    """The assignment as a vector or as a result."""
    arr = np.array(x, dtype=rng.choice([int, float]))
    if rng.random() < 0.5:
        return arr
    return OptimizationResult(arr, 0.0, qp.variables, OptimizationResultStatus.SUCCESS)


def ints(obj):
    if isinstance(obj, (list, tuple, np.ndarray)):
        return [ints(o) for o in obj]
    return q(obj, 1)


def plus1(obj):
    return [plus1(o) for o in obj] if isinstance(obj, list) else obj + 1


def out_of(app, raw):
    raw = ints(raw)
    if app in ("maxcut", "partition", "stable", "cover", "clique", "knapsack", "vrp"):
        return plus1(raw)
    if app == "tsp":
        return [plus1(e) if isinstance(e, list) else [e + 1] for e in raw]
    if app == "numbers":
        return [[v * S for v in part] for part in raw]
    return raw


def interp_event(rng, app, t, obj, x, qp):
    raw = obj.interpret(give(rng, x, qp))
    return {"ev": "interp", "app": app, "t": t, "x": x, "out": out_of(app, raw)}


def qp_event(app, t, qp, pts=(), whole=False):
    return {"ev": "qp", "app": app, "t": t, "p": qpio.project(qp, S), "pts": [list(x) for x in pts], "all": whole}


def bits(i, n):
    return [(i >> k) & 1 for k in range(n)]


def some_points(rng, n, count):
    if 2 ** n <= count:
        return [bits(i, n) for i in range(2 ** n)]
    return [[rng.randint(0, 1) for _ in range(n)] for _ in range(count)]


def biased(rng, n, count):
    return [[int(rng.random() < d) for _ in range(n)] for d in [rng.choice([0.1, 0.3, 0.5, 0.7]) for _ in range(count)]]


def flips(rng, pts):
    """The points and their neighbours, so that objects and near objects are both met."""
    res = []
    for x in pts:
        res.append(x)
        y = list(x)
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.randrange(len(y))
            y[k] = 1 - y[k]
        res.append(y)
    return res


def graph_points(rng, app, n, edges, size):
    """Points around the objects of a graph too large for all assignments."""
    adj = {(u, v) for u, v, _ in edges} | {(v, u) for u, v, _ in edges}
    pts = biased(rng, n, 6)
    for _ in range(12):
        order = list(range(n))
        rng.shuffle(order)
        if app == "partition":
            on = set(order[:n // 2])
        elif app in ("stable", "cover", "clique"):
            on = set()
            for v in order:
                if all(((u, v) in adj) == (app == "clique") for u in on) and (size is None or len(on) < size):
                    on.add(v)
            if app == "cover":
                on = set(order) - on
        else:
            on = set(order[:rng.randint(0, n)])
        pts.append([int(v in on) for v in range(n)])
    return flips(rng, pts)


def reject_event(rng, obj, n):
    bad = rng.choice([[0] * n, "0" * n, {0: 1}, None])
    ok, res = attempt(obj.interpret, bad)
    return {"ev": "reject", "exc": "" if ok else type(res).__name__}


def graph_case(rng, app, n, edges, weighted, interps, size=None):
    data = graph_input(rng, n, edges, weighted)
    before = frozen(data)
    t = {"S": S, "n": n, "edges": [{"u": u + 1, "v": v + 1, "w": w if weighted else S} for u, v, w in edges], "size": -1}
    if app == "clique":
        obj = Clique(data, size) if size is not None or rng.random() < 0.5 else Clique(data)
        t["size"] = -1 if size is None else size
    else:
        obj = GRAPH[app](data)
    events = []
    qp = obj.to_quadratic_program()
    pts = graph_points(rng, app, n, edges, size) if n > 9 else []
    events.append(qp_event(app, t, qp, pts))
    for x in some_points(rng, n, interps):
        events.append(interp_event(rng, app, t, obj, x, qp))
    if app == "clique":
        t = dict(t, size=rng.randint(0, n) if rng.random() < 0.7 else -1)
        obj.size = None if t["size"] < 0 else t["size"]
    if rng.random() < 0.3 or app == "clique":
        events.append(qp_event(app, t, obj.to_quadratic_program(), pts))
    events.append({"ev": "same", "before": before, "after": frozen(data)})
    if rng.random() < 0.1:
        events.append(reject_event(rng, obj, n))
    return {"kind": app, "events": events}


def set_case(rng, app, subs, interps, objects=()):
    before = repr(subs)
    obj = SETS[app](subs)
    t = {"S": S, "subs": [list(s) for s in subs]}
    qp = obj.to_quadratic_program()
    n = len(subs)
    pts = flips(rng, biased(rng, n, 8) + list(objects) * 4) if n > 9 else []
    events = [qp_event(app, t, qp, pts)]
    for x in some_points(rng, n, interps):
        events.append(interp_event(rng, app, t, obj, x, qp))
    if rng.random() < 0.3:
        events.append(qp_event(app, t, obj.to_quadratic_program(), pts))
    events.append({"ev": "same", "before": before, "after": repr(subs)})
    return {"kind": app, "events": events}


def knapsack_case(rng, v, w, cap, interps):
    data = ([val(a, S) for a in v], [val(a, S) for a in w], val(cap, S))
    before = repr(data)
    obj = Knapsack(*data)
    t = {"S": S, "val": v, "wgt": w, "cap": cap}
    qp = obj.to_quadratic_program()
    pts = []
    if len(v) > 9:
        for _ in range(10):
            order, room, x = list(range(len(v))), cap, [0] * len(v)
            rng.shuffle(order)
            for i in order:
                if w[i] <= room:
                    x[i], room = 1, room - w[i]
            pts.append(x)
        pts = flips(rng, pts + biased(rng, len(v), 6))
    events = [qp_event("knapsack", t, qp, pts)]
    for x in some_points(rng, len(v), interps):
        events.append(interp_event(rng, "knapsack", t, obj, x, qp))
    if rng.random() < 0.4:
        t = dict(t, cap=rng.randint(0, sum(w) + 1))
        obj.max_weight = val(t["cap"], S)
        events.append(qp_event("knapsack", t, obj.to_quadratic_program(), pts))
    events.append({"ev": "same", "before": before, "after": repr(data)})
    return {"kind": "knapsack", "events": events}


def number_case(rng, num, interps, objects=()):
    data = [val(a, S) for a in num]
    before = repr(data)
    obj = NumberPartition(data)
    t = {"S": S, "num": num}
    qp = obj.to_quadratic_program()
    pts = flips(rng, biased(rng, len(num), 6) + list(objects) * 4) if len(num) > 9 else []
    events = [qp_event("numbers", t, qp, pts)]
    for x in some_points(rng, len(num), interps):
        raw = [[q(v, S) for v in part] for part in obj.interpret(give(rng, x, qp))]
        events.append({"ev": "interp", "app": "numbers", "t": t, "x": x, "out": raw})
    events.append({"ev": "same", "before": before, "after": repr(data)})
    return {"kind": "numbers", "events": events}


def full_edges(rng, n, w):
    return [(i, j, w[i][j]) for i in range(n) for j in range(i + 1, n)]


def weights(rng, n, lo=-2, hi=12):
    m = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            m[i][j] = m[j][i] = rng.randint(lo, hi) or 1
    return m


def near(rng, x, flips):
    x = list(x)
    for _ in range(flips):
        k = rng.randrange(len(x))
        x[k] = 1 - x[k]
    if rng.random() < 0.5:
        a, b = rng.randrange(len(x)), rng.randrange(len(x))
        x[a], x[b] = x[b], x[a]
    return x


def tour_point(y):
    n = len(y)
    return [1 if y[k] == i else 0 for i in range(n) for k in range(n)]


def tsp_case(rng, n, samples, interps):
    w = weights(rng, n)
    data = graph_input(rng, n, full_edges(rng, n, w), True)
    before = frozen(data)
    obj = Tsp(data)
    t = {"S": S, "n": n, "W": w}
    qp = obj.to_quadratic_program()

    def perm():
        y = list(range(n))
        rng.shuffle(y)
        return tour_point(y)

    pts = [near(rng, perm(), rng.randint(0, 3)) for _ in range(samples)] if n > 3 else []
    events = [qp_event("tsp", t, qp, pts)]
    for _ in range(interps):
        x = perm() if rng.random() < 0.7 else near(rng, perm(), rng.randint(0, 2))
        events.append(interp_event(rng, "tsp", t, obj, x, qp))
    for _ in range(3):
        y = list(range(n))
        rng.shuffle(y)
        y = y[:rng.randint(1, n)] if rng.random() < 0.3 else y
        events.append({"ev": "tourvalue", "W": w, "y": [i + 1 for i in y],
                       "v": q(Tsp.tsp_value(y, np.array([[val(c, S) for c in r] for r in w])), S)})
    events.append({"ev": "same", "before": before, "after": frozen(data)})
    return {"kind": "tsp", "events": events}


def route_point(rng, n, d, k):
    """A random route set of k vehicles (or nearly one)."""
    cust = [i for i in range(n) if i != d]
    rng.shuffle(cust)
    cuts = sorted(rng.sample(range(1, len(cust)), min(k, len(cust)) - 1))
    arcs = set()
    for a, b in zip([0] + cuts, cuts + [len(cust)]):
        path = [d] + cust[a:b] + [d]
        arcs |= set(zip(path, path[1:]))
    if rng.random() < 0.3 and len(cust) > 2:  # split off a subtour
        m = rng.randint(2, len(cust) - 1)
        sub = cust[:m]
        arcs = set(zip(sub, sub[1:] + sub[:1]))
        rest = cust[m:]
        # all degrees right if there are enough customers left
        cuts = sorted(rng.sample(range(1, len(rest)), min(k, len(rest)) - 1))
        for a, b in zip([0] + cuts, cuts + [len(rest)]):
            path = [d] + rest[a:b] + [d]
            arcs |= set(zip(path, path[1:]))
    return [1 if (i, j) in arcs else 0 for i, j in itertools.permutations(range(n), 2)]


def vrp_case(rng, n, samples, interps, whole=False):
    w = weights(rng, n)
    data = graph_input(rng, n, full_edges(rng, n, w), True)
    before = frozen(data)
    k, d = rng.randint(1, min(rng.choice([3, 3, 4]), n - 1)), rng.randrange(n)
    if k == 2 and d == 0 and rng.random() < 0.5:
        obj = VehicleRouting(data)
    else:
        obj = VehicleRouting(data, num_vehicles=k, depot=d)
    events = []
    for again in range(2):
        if again:
            if rng.random() < 0.5:
                break
            k, d = rng.randint(1, min(rng.choice([3, 3, 4]), n - 1)), rng.randrange(n)
            obj.num_vehicles = k
            obj.depot = d
        t = {"S": S, "n": n, "W": w, "K": k, "d": d + 1}
        qp = obj.to_quadratic_program()
        pts = []
        if n > 3:
            pts = [near(rng, route_point(rng, n, d, k), rng.choice([0, 0, 1, 2, 3])) for _ in range(samples)]
        events.append(qp_event("vrp", t, qp, pts, whole and not again))
        for _ in range(interps):
            events.append(interp_event(rng, "vrp", t, obj, route_point(rng, n, d, k), qp))
    events.append({"ev": "same", "before": before, "after": frozen(data)})
    return {"kind": "vrp", "events": events}
