"""C20: Goemans-Williamson rounding."""
import random
from unittest import mock

import cvxpy
import networkx as nx
import numpy as np

from qiskit_optimization import QuadraticProgram
from qiskit_optimization.algorithms import GoemansWilliamsonOptimizer, OptimizationResultStatus
from qiskit_optimization.applications import Maxcut

import qpio
from qpio import q

W = 1000000
FINE = 2048
RULE = ("random weighted graphs (negative weights, bipartite, disconnected) as programs written by the application or by hand in "
        "other coefficient forms, all settings, random seeds; relaxation failures injected; every returned cut judged, the "
        "relaxation compared with all cuts")
ASSUMPTIONS = ["2 to 12 nodes, weights multiples of 1/2", "relaxation values within the accuracy of the solver (about 1 percent)"]


def models(ctx):
    ctx.model("MCCuts")


def groups(ctx):
    return [("TraceCuts", [{"seed": ctx.seed * 100003 + i, "fail": i % 15 == 0} for i in range(ctx.pick(450, 3000))])]


def graph(rng, fine):
    n = rng.randint(2, 5) if fine else qpio.count(rng, 2, 6, 0.1)
    w = [[0] * n for _ in range(n)]
    kind = rng.choice(["any", "any", "signed", "bipartite", "tree"])
    side = [rng.randint(0, 1) for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            if kind == "tree" and (i, j) != (rng.randrange(j), j) and w[j] != [0] * n:
                continue
            if kind == "bipartite" and side[i] == side[j]:
                continue
            if rng.random() < 0.75:
                v = rng.randint(1, 6) if kind != "signed" else rng.randint(-6, 6)
                if fine and rng.random() < 0.4:
                    v *= FINE // 2
                w[i][j] = w[j][i] = v
    if not any(map(any, w)):
        w[0][1] = w[1][0] = 2
    return w


def program(rng, w, S):
    n = len(w)
    if rng.random() < 0.5:
        g = nx.Graph()
        g.add_nodes_from(range(n))
        for i in range(n):
            for j in range(i + 1, n):
                if w[i][j]:
                    g.add_edge(i, j, weight=w[i][j] / S)
        return Maxcut(g).to_quadratic_program()
    names = ["v{}".format(i) for i in range(n)]
    lin = [sum(row) for row in w]
    quad = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            if rng.random() < 0.5:
                quad[i][j] = -2 * w[i][j]
            else:
                quad[i][j] = quad[j][i] = -w[i][j]
    p = {"S": S, "vars": [{"name": v, "type": "B", "lb": 0, "ub": S} for v in names], "sense": -1, "const": 0, "lin": lin, "quad": quad,
         "lc": [], "qc": []}
    return qpio.build(p, rng, plain=False, warm=lambda old: GoemansWilliamsonOptimizer(1).solve(old) if rng.random() < 0.2 else None)


def execute(spec):
    rng = random.Random(spec["seed"])
    fine = rng.random() < 0.1
    S = FINE if fine else 2
    w = graph(rng, fine)
    qp = program(rng, w, S)
    num = rng.choice([1, 3, 8, 10, 20])
    seed = rng.randint(0, 1000)
    kw = {}
    sort = rng.random() < 0.7
    if not sort or rng.random() < 0.5:
        kw["sort_cuts"] = sort
    unique = rng.random() < 0.6
    if not unique or rng.random() < 0.5:
        kw["unique_cuts"] = unique
    if spec["fail"]:
        opt = GoemansWilliamsonOptimizer(num, seed=seed, **kw)
        err = rng.choice([cvxpy.SolverError, cvxpy.DCPError, cvxpy.DGPError])

        def broken(*_, **__):
            raise err("injected")
        with mock.patch.object(cvxpy.Problem, "solve", broken):
            res = opt.solve(qp)
        return {"kind": "cuts", "events": [{"ev": "failed", "failed": res.status == OptimizationResultStatus.FAILURE, "nox": res.x is None,
                                            "samples": len([s for s in res.samples or [] if s.x is not None])}]}

    def run():
        return GoemansWilliamsonOptimizer(num, seed=seed, **kw).solve(qp)

    res = run()
    other = run()
    full = GoemansWilliamsonOptimizer(num, seed=seed, sort_cuts=sort, unique_cuts=False).solve(qp)
    again = [list(map(int, s.x)) for s in res.samples] == [list(map(int, s.x)) for s in other.samples]
    return {"kind": "cuts", "events": [{
        "ev": "cuts", "p": qpio.project(qp, S), "w": w, "num": num, "sort": sort, "unique": unique, "again": again,
        "all": sorted({tuple(q(v, 1) for v in e.x) for e in full.samples}),
        "samples": [{"x": [q(v, 1) for v in s.x], "fval": q(s.fval, S), "prob": round(s.probability * W),
                     "ok": s.status == OptimizationResultStatus.SUCCESS} for s in res.samples],
        "x": [q(v, 1) for v in res.x], "fval": q(res.fval, S), "ok": res.status == OptimizationResultStatus.SUCCESS,
        "chi": [[round(1000 * float(v)) for v in row] for row in res.sdp_solution]}]}
