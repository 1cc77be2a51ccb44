"""C26: pictures of solutions."""
import itertools
import os
import random

import networkx as nx
import numpy as np

import apps
from qpio import q

RULE = ("random graphs with shuffled node order in all input formats, random assignments, tours and route sets, with and without "
        "positions, as vector or result; the drawn dots, names and lines are read back from the picture")
ASSUMPTIONS = ["matplotlib with a backend without screen", "simple graphs labelled 0..n-1, at most 9 nodes"]
KINDS = ["maxcut", "partition", "stable", "cover", "clique", "tsp", "vrp"]


def models(ctx):
    ctx.model("MCDrawing")
    cfg = 'SPECIFICATION Spec\nCONSTANTS N = {}\n By = "{}"\n Ks = {{{}}}\nINVARIANTS {}\nCHECK_DEADLOCK FALSE\n'
    ctx.refute("MCDrawing", cfg.format(3, "place", "1", "Shown"))
    if ctx.thorough:
        ctx.model("MCDrawing", cfg.format(4, "node", "1, 2, 3", "Shown Faithful"))


def groups(ctx):
    os.environ["MPLCONFIGDIR"] = os.path.join(ctx.scratch, "matplotlib")
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
    return [("TraceDrawing", [{"seed": ctx.seed * 100003 + i, "app": KINDS[i % 7]} for i in range(ctx.pick(700, 5000))])]


def read(axes, n, given):
    """What the picture shows."""
    from matplotlib.collections import LineCollection, PathCollection
    from matplotlib.colors import to_rgba
    place, labels = {}, []
    for text in axes.texts:
        at = tuple(float(c) for c in text.get_position())
        place[at] = int(text.get_text()) + 1
        labels.append({"node": int(text.get_text()) + 1, "x": q(at[0], 1) if given else 0, "y": q(at[1], 1) if given else 0})
    colors = {to_rgba("k")[:3]: 0, to_rgba("r")[:3]: 1}

    def node(point):
        for at, i in place.items():
            if abs(at[0] - point[0]) + abs(at[1] - point[1]) < 1e-9:
                return i
        return 0

    def color(rows, k):
        rgb = tuple(float(c) for c in rows[k % len(rows)])[:3]
        return colors.setdefault(rgb, len(colors))

    markers, edges, marks = [], [], []
    for coll in axes.collections:
        if isinstance(coll, PathCollection):
            for k, at in enumerate(np.asarray(coll.get_offsets())):
                markers.append({"node": node(at), "c": color(coll.get_facecolors(), k)})
        elif isinstance(coll, LineCollection):
            for k, seg in enumerate(coll.get_segments()):
                u, v = node(seg[0]), node(seg[-1])
                c = color(coll.get_edgecolors(), k)
                if c == 0:
                    edges.append({"u": u, "v": v})
                else:
                    marks.append({"u": u, "v": v, "c": c})
    return {"labels": labels, "markers": markers, "edges": edges, "marks": marks}


def positions(rng, n):
    spots = rng.sample(list(itertools.product(range(-9, 10), repeat=2)), n)
    return spots


def execute(spec):
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot
    rng = random.Random(spec["seed"])
    app = spec["app"]
    apps.S = 2
    if app in apps.GRAPH:
        n = rng.randint(2, 9)
        dens = rng.choice([0.2, 0.5, 0.8])
        edges = [(u, v, rng.choice([2, 4, 1, -2, 7])) for u, v in itertools.combinations(range(n), 2) if rng.random() < dens]
        data = apps.graph_input(rng, n, edges, rng.random() < 0.5)
        obj = apps.GRAPH[app](data)
        t = {"S": 2, "n": n, "edges": [{"u": u + 1, "v": v + 1, "w": w} for u, v, w in edges]}

        def point():
            return [rng.randint(0, 1) for _ in range(n)]
    else:
        n = rng.randint(2, 6)
        w = apps.weights(rng, n)
        data = apps.graph_input(rng, n, apps.full_edges(rng, n, w), True)
        if app == "tsp":
            obj = apps.Tsp(data)
            t = {"S": 2, "n": n, "W": w}

            def point():
                return apps.tour_point(rng.sample(range(n), n))
        else:
            k, d = rng.randint(1, min(3, n - 1)), rng.randrange(n)
            obj = apps.VehicleRouting(data, num_vehicles=k, depot=d)
            t = {"S": 2, "n": n, "W": w, "K": k, "d": d + 1}

            def point():
                return apps.route_point(rng, n, d, k)
    qp = obj.to_quadratic_program()
    events = []
    for shown in [True, True, rng.random() < 0.7]:
        x = point() if shown else []
        given = rng.random() < 0.7
        spots = positions(rng, n) if given else []
        pos = {i: (np.array(at, dtype=float) if rng.random() < 0.5 else at) for i, at in enumerate(spots)}
        if rng.random() < 0.5:
            pos = dict(sorted(pos.items(), key=lambda _: rng.random()))
        before = repr((sorted(pos.items(), key=str), x)) + apps.frozen(data) + apps.frozen(obj.graph)
        fig = pyplot.figure()
        try:
            args = [apps.give(rng, x, qp) if shown else None]
            if given:
                args.append(pos)
            elif rng.random() < 0.5:
                args.append(None)
            if not shown and not given and rng.random() < 0.5:
                args = []
            obj.draw(*args)
            if len(fig.axes) != 1:
                raise AssertionError("not one picture")
            events.append({"ev": "picture", "app": app, "t": t, "x": x, "shown": shown, "given": given,
                           "pos": [list(at) for at in spots], "pic": read(fig.axes[0], n, given)})
        finally:
            pyplot.close(fig)
        events.append({"ev": "same", "before": before,
                       "after": repr((sorted(pos.items(), key=str), x)) + apps.frozen(data) + apps.frozen(obj.graph)})
    return {"kind": app, "events": events}
