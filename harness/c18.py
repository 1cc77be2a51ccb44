"""C18: multi-start local search."""
import inspect
import math
import random
from unittest import mock

import numpy as np
import scipy.optimize

from qiskit_optimization.algorithms import CobylaOptimizer, OptimizationResultStatus, SlsqpOptimizer
from qiskit_optimization.algorithms import cobyla_optimizer, slsqp_optimizer
from qiskit_optimization.algorithms.multistart_optimizer import MultiStartOptimizer

import qpio
from qpio import q

S = 2
RULE = ("random continuous programs (free, half-bounded and boxed variables, linear and quadratic constraints of all senses, both "
        "objective senses) with arbitrary answers of the local solver, ties included; the objective, gradient, bounds and constraint "
        "functions handed to the local solver are compared at sample points; separable convex problems are solved for real")
ASSUMPTIONS = ["answers and sample points are multiples of 1/2", "functions handed to the local solver are read off when the SciPy routine is called"]


def models(ctx):
    ctx.model("MCMultiStart")
    ctx.model("MCMultiStart", "SPECIFICATION Spec\nCONSTANTS Trials = 4\n Pts = {0, 1, 2, 4, 5, 6}\n Sense <- Neg\nINVARIANTS BestOfAll\n"
                              "PROPERTIES Kept\nCHECK_DEADLOCK FALSE\n")


def groups(ctx):
    n = ctx.pick(1500, 10000)
    modes = ["sub", "slsqp", "cobyla", "slsqp", "cobyla", "real"]
    return [("TraceMultiStart", [{"seed": ctx.seed * 100003 + i, "mode": modes[i % 6]} for i in range(n)])]


def program(rng):
    n = rng.randint(1, 4)
    p = qpio.rnd_program(rng, n, "C", scale=S, coef=2, nl=rng.choice([0, 1, 2, 3]), nq=rng.choice([0, 0, 1, 2]),
                         full_quad=rng.random() < 0.3, bound=3, cont_inf=True, quad_density=0.5)
    for v in p["vars"]:
        r = rng.random()
        if r < 0.15:
            v["lb"], v["ub"] = -qpio.INF, qpio.INF
        elif r < 0.25:  # bounds beyond the clip
            v["lb"], v["ub"] = (300, qpio.INF) if rng.random() < 0.5 else (-qpio.INF, -300)
        elif r < 0.3 and v["lb"] > -qpio.INF:
            v["ub"] = v["lb"]
    qpio.nonempty(p, rng)
    return p


def value(c, x):
    """Left-hand side in units of 1/(4 S)."""
    r = 2 * sum(a * b for a, b in zip(c["lin"], x))
    if "quad" in c:
        r += sum(c["quad"][i][j] * x[i] * x[j] for i in range(len(x)) for j in range(len(x)))
    return r


def points(rng, p, n):
    pts = [[rng.randint(-6, 6) for _ in range(n)] for _ in range(14)]
    for c in p["lc"] + p["qc"]:  # one of the points on the boundary
        v = value(c, rng.choice(pts))
        if v % 4 == 0 and rng.random() < 0.8:
            c["rhs"] = v // 4
    return pts


def execute(spec):
    rng = random.Random(spec["seed"])
    np.random.seed(spec["seed"] % (2 ** 31))
    if spec["mode"] == "real":
        return real(rng)
    p = program(rng)
    n = len(p["vars"])
    pts = points(rng, p, n)
    qp = qpio.build(p, rng, plain=False, warm=lambda old: SlsqpOptimizer().solve(old))
    trials = rng.choice([1, 1, 2, 3, 5])
    clip = rng.choice([100, 100, 5, 40])
    settings = {"trials": trials, "clip": clip}
    if trials == 1 and rng.random() < 0.5:
        del settings["trials"]
    if clip == 100 and rng.random() < 0.5:
        del settings["clip"]
    events, xs, starts, given = [], [], [], []

    def answer(x0):
        starts.append([float(v) for v in x0])
        x = [rng.randint(-6, 6) for _ in range(n)]
        if xs and rng.random() < 0.2:
            x = rng.choice(xs)
        xs.append(x)
        events.append({"ev": "trial", "p": p, "x0": [round(1000 * v) for v in x0], "x": x, "clip": clip, "trials": trials})
        return np.array([v / 2 for v in x])

    def functions(obj, grad, bounds, funs):
        def at(f):
            return [f(np.array([v / 2 for v in x])) for x in pts]
        events.append({
            "ev": "funs", "p": p, "pts": pts, "obj": [q(v, 4 * S) for v in at(obj)],
            "grad": [[q(v, 2 * S) for v in g] for g in at(grad)] if grad else [],
            "bounds": [[q(a, S), q(b, S)] for a, b in bounds],
            "funs": [{"eq": eq, "vals": [q(v, 4 * S) for v in at(f)]} for eq, f in funs]})

    full = False
    asked = []
    mode = spec["mode"]
    if mode == "sub":
        class Local(MultiStartOptimizer):
            def get_compatibility_msg(self, problem):
                return ""

            def solve(self, problem):
                return self.multi_start_solve(lambda x0: (answer(x0), ("rest", len(xs))), problem)

        if rng.random() < 0.5:
            opt = Local(**settings)
        else:
            opt = Local(*[v for v in [7, 3][:rng.randint(0, 2)]])
            opt.trials, opt.clip = trials, clip
        res = opt.solve(qp)
    elif mode == "slsqp":
        full = rng.random() < 0.5
        kw = {"iter": rng.choice([7, 100]), "acc": rng.choice([1e-3, 1e-6])}
        sig = inspect.signature(scipy.optimize.fmin_slsqp)

        def fake(*args, **kwargs):
            b = sig.bind(*args, **kwargs)
            b.apply_defaults()
            a = b.arguments
            funs = [(True, f) for f in a["eqcons"]] + [(False, f) for f in a["ieqcons"]]
            if not xs:
                functions(a["func"], a["fprime"], a["bounds"], funs)
            given.append([str(a["iter"]), str(a["acc"]), str(bool(a["full_output"]))])
            x = answer(a["x0"])
            k = len(xs)
            return (x, 1000.0 + k, k, 0, "message {}".format(k)) if a["full_output"] else x

        asked = [str(kw["iter"]), str(kw["acc"]), str(full)]
        opt = SlsqpOptimizer(**settings, full_output=full, **kw)
        with mock.patch.object(scipy.optimize, "fmin_slsqp", fake), mock.patch.object(slsqp_optimizer, "fmin_slsqp", fake, create=True):
            res = opt.solve(qp)
    else:
        kw = {"rhobeg": rng.choice([0.5, 1.0]), "rhoend": rng.choice([1e-3, 1e-4]), "maxfun": rng.choice([50, 1000])}
        sig = inspect.signature(scipy.optimize.fmin_cobyla)

        def fake(*args, **kwargs):
            b = sig.bind(*args, **kwargs)
            b.apply_defaults()
            a = b.arguments
            if not xs:
                functions(a["func"], None, [], [(False, f) for f in a["cons"]])
            given.append([str(a["rhobeg"]), str(a["rhoend"]), str(a["maxfun"])])
            return answer(a["x0"])

        asked = [str(kw["rhobeg"]), str(kw["rhoend"]), str(kw["maxfun"])]
        opt = CobylaOptimizer(**settings, **kw)
        with mock.patch.object(scipy.optimize, "fmin_cobyla", fake), mock.patch.object(cobyla_optimizer, "fmin_cobyla", fake, create=True):
            res = opt.solve(qp)
    if not xs:  # the local solver is not reached through the functions watched here
        return {"kind": "multistart", "events": []}
    rest = 0
    if mode == "sub":
        rest = res.raw_results[1] if res.raw_results else -1
    elif full:
        rest = res.its if (res.fx, res.imode, res.smode) == (1000.0 + res.its, 0, "message {}".format(res.its)) else -1
    wide = any(v["ub"] > v["lb"] for v in p["vars"])
    vary = not (trials >= 3 and wide and any(a == b for a, b in zip(starts[1:], starts[2:])))
    # bounds beyond the clip leave no room on that side
    if all(v["ub"] == v["lb"] or (v["ub"] >= qpio.INF and v["lb"] >= clip * S) or (v["lb"] <= -qpio.INF and v["ub"] <= -clip * S)
           for v in p["vars"]):
        vary = True
    events.append({"ev": "end", "p": p, "trials": trials, "xs": xs, "x": [q(v, 2) for v in res.x], "fval": q(res.fval, 4 * S),
                   "ok": res.status == OptimizationResultStatus.SUCCESS, "rest": rest, "vary": vary,
                   "asked": [asked] * len(given), "given": given})
    return {"kind": "multistart", "events": events}


def real(rng):
    n = rng.randint(1, 3)
    sense = rng.choice([1, -1])
    p = qpio.rnd_program(rng, n, "C", scale=S, coef=1)
    t = [rng.randint(-6, 6) for _ in range(n)]
    p["sense"] = sense
    p["quad"] = [[0] * n for _ in range(n)]
    for i, v in enumerate(p["vars"]):
        a = rng.choice([1, 2])
        v["lb"] = rng.randint(-5, 3)
        v["ub"] = v["lb"] + rng.randint(1, 6)
        p["quad"][i][i] = sense * a * S
        p["lin"][i] = -2 * sense * a * t[i]
    qp = qpio.build(p, rng, plain=False, warm=lambda old: SlsqpOptimizer().solve(old))
    opt = rng.choice([SlsqpOptimizer, CobylaOptimizer])(trials=rng.choice([1, 2, 3]))
    res = opt.solve(qp)
    return {"kind": "multistart", "events": [{"ev": "real", "p": p, "t": t, "x": [round(1000 * float(v)) for v in res.x]}]}
