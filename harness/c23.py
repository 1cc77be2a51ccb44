"""C23: routing applications."""
import random

import apps

RULE = ("complete weighted graphs; tours on up to 3 nodes and routes on up to 4 nodes judged at all assignments, larger ones at all "
        "visiting orders and at thousands of assignments near tours and route sets; interpretation of tours and routes")
ASSUMPTIONS = ["at most 5 nodes, and 12 (tours) or 11 (routes) in a few cases", "every edge carries a weight"]


def models(ctx):
    ctx.model("MCApps", "MCAppsRoutes.cfg")
    if ctx.thorough:
        ctx.model("MCApps", 'SPECIFICATION Spec\nCONSTANTS Family = {"vrp"}\n MaxN = 5\n'
                  'INVARIANTS EncodingExact RoutesCover\nCHECK_DEADLOCK FALSE\n')


def groups(ctx):
    specs = []
    for i in range(ctx.pick(480, 3200)):
        specs.append({"seed": ctx.seed * 100003 + i, "app": "tsp"})
        specs.append({"seed": ctx.seed * 100003 + i, "app": "vrp", "whole": i < ctx.pick(8, 60)})
    for i in range(ctx.pick(10, 80)):
        specs.append({"seed": ctx.seed * 100003 + i, "app": "tsp", "large": [6, 7, 8, 11, 12][i % 5]})
        specs.append({"seed": ctx.seed * 100003 + i, "app": "vrp", "whole": False, "large": [6, 6, 7, 7, 8][i % 5]})
    specs.append({"seed": ctx.seed, "app": "vrp", "whole": False, "large": 11})
    return [("TraceApps", specs)]


def execute(spec):
    rng = random.Random(spec["seed"])
    apps.S = 2 ** 14 if rng.random() < 0.1 else 2
    if spec["app"] == "tsp":
        n = rng.choice([1, 2, 3, 3, 4, 4, 5])
        if n == 1:
            n = 2
        return apps.tsp_case(rng, spec.get("large", n), 60 if "large" not in spec else 25, 5)
    if spec["whole"]:
        return apps.vrp_case(rng, 4, 0, 5, True)
    if "large" in spec:
        return apps.vrp_case(rng, spec["large"], 20, 5)
    return apps.vrp_case(rng, rng.choice([2, 3, 3, 4, 4, 5]), 60, 5)
