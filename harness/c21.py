"""C21: graph applications."""
import itertools
import random

import apps

RULE = ("all labelled graphs on up to 4 nodes for every application plus random weighted graphs (negative, fractional, zero and "
        "default weights, shuffled node order, all input formats, self loops excluded); all assignments judged; graphs of 10 to 13 nodes at points around their objects")
ASSUMPTIONS = ["graphs of at most 7 (quick) or 8 (thorough) nodes for all assignments, 13 otherwise, labelled 0..n-1", "weights are multiples of 1/2"]
KINDS = ["maxcut", "partition", "stable", "cover", "clique"]


def models(ctx):
    ctx.model("MCApps")
    if ctx.thorough:
        ctx.model("MCApps", 'SPECIFICATION Spec\nCONSTANTS Family = {"maxcut", "partition", "stable", "cover", "clique"}\n MaxN = 5\n'
                  'INVARIANTS EncodingExact Duality CutSymmetric\nCHECK_DEADLOCK FALSE\n')


def groups(ctx):
    specs = []
    for n in range(1, 5):
        pairs = list(itertools.combinations(range(n), 2))
        for mask in range(2 ** len(pairs)):
            for app in KINDS:
                specs.append({"seed": mask * 7 + n, "app": app, "n": n, "mask": mask})
    for i in range(ctx.pick(1200, 8000)):
        specs.append({"seed": ctx.seed * 100003 + i, "app": KINDS[i % 5], "n": 0, "max": ctx.pick(7, 8)})
    for i in range(ctx.pick(100, 1000)):
        specs.append({"seed": ctx.seed * 100003 + i, "app": KINDS[i % 5], "n": 0, "max": 10 + i // 5 % 4, "large": True})
    return [("TraceApps", specs)]


def execute(spec):
    rng = random.Random(spec["seed"])
    apps.S = 2 ** 14 if rng.random() < 0.1 else 2
    n = spec["n"]
    weighted = rng.random() < 0.7
    if n:
        pairs = list(itertools.combinations(range(n), 2))
        edges = [(u, v) for k, (u, v) in enumerate(pairs) if spec["mask"] >> k & 1]
    else:
        n = spec["max"] if "large" in spec else rng.choice([4, 5, 5, 6, spec["max"]])
        dens = rng.choice([0.2, 0.5, 0.8, 1.0])
        edges = [e for e in itertools.combinations(range(n), 2) if rng.random() < dens]
    edges = [(u, v, rng.choice([2, 2, 4, 1, 3, -2, 0, 7]) * (apps.S // 2 if rng.random() < 0.3 else 1)) for u, v in edges]
    size = rng.choice([None, None, rng.randint(0, n), rng.randint(1, n)])
    return apps.graph_case(rng, spec["app"], n, edges, weighted, 6, size)
