"""C15: recursive elimination."""
import random

import numpy as np

from qiskit_optimization.algorithms import (IntermediateResult, OptimizationResultStatus, RecursiveMinimumEigenOptimizer)
from qiskit_optimization.converters import QuadraticProgramToQubo

import c10
import convlib
import qpio
from qpio import q
from stubs import StubOptimizer

S = 2
RULE = ("random constrained and unconstrained programs, arbitrary weighted samples in every round (ties and zero correlations "
        "included, correlation matrices lower, upper or full), all minimum sizes and history modes; every round's problem and the reconstruction judged at all assignments")
ASSUMPTIONS = ["at most 6 binary variables after conversion", "sample probabilities are exact fractions of at most 4096 parts"]
HIST = {"ALL": IntermediateResult.ALL_ITERATIONS, "LAST": IntermediateResult.LAST_ITERATION, "NO": IntermediateResult.NO_ITERATIONS}


def models(ctx):
    ctx.model("MCRecursive")
    if ctx.thorough:
        ctx.model("MCRecursive", "SPECIFICATION Spec\nCONSTANTS MinVars = 2\n N = 4\nINVARIANTS Best\nCHECK_DEADLOCK FALSE\n", timeout=900)


def groups(ctx):
    return [("TraceRecursive", [{"seed": ctx.seed * 100003 + i} for i in range(ctx.pick(1800, 12000))])]


def execute(spec):
    rng = random.Random(spec["seed"])
    S = globals()["S"]
    if rng.random() < 0.5:
        S, mag = qpio.magnitude(rng, S, False)
        p = qpio.rnd_program(rng, qpio.count(rng, 1, 6, 0.01), "B", scale=S, lim=mag, full_quad=rng.random() < 0.3)
    else:
        p = c10.instance(rng, S, 6)
        if rng.random() < 0.3:
            p = qpio.finer(p, rng)
            S = p["S"]
    qp = qpio.build(p, rng, plain=False, warm=lambda old: QuadraticProgramToQubo().convert(old))
    kwargs, pen = {}, None
    how = rng.choice(["default", "penalty", "conv"])
    if how == "penalty":
        pen = kwargs["penalty"] = rng.choice([4, 10.5])
    elif how == "conv":
        pen = rng.choice([None, 6])
        kwargs["converters"] = QuadraticProgramToQubo(pen)
    elif not p["lc"] and all(v["type"] == "B" for v in p["vars"]) and rng.random() < 0.4:
        kwargs["converters"] = []       # nothing to convert
    conv = QuadraticProgramToQubo(pen)
    dst = conv.convert(qp)
    m = dst.get_num_vars()
    dec, _, _ = convlib.decoding(conv, m, len(p["vars"]))
    given, results = [], []
    form = rng.choice(["lower", "lower", "upper", "full"])  # which triangle of the correlation matrix is filled

    class Rounds(StubOptimizer):
        def solve(self, problem):
            res = super().solve(problem)
            if form == "upper":
                corr = res.get_correlations().T
                res.get_correlations = lambda: corr
            elif form == "full":
                full = res.get_correlations()
                full = full + full.T + np.eye(len(full))
                res.get_correlations = lambda: full
            results.append(res)
            return res

    def samples(problem):
        n = problem.get_num_vars()
        total = 64
        if rng.random() < 0.12:     # many samples, all or most of them rare
            total = 4096
            k = rng.randint(20, 40)
            ws = [rng.randint(1, 30) for _ in range(k)]
            if rng.random() < 0.6:
                ws.insert(rng.randint(0, k), total - sum(ws))
            else:
                total = sum(ws)
        else:
            k = rng.choice([1, 1, 2, 3, 5])
            cuts = sorted(rng.sample(range(1, total), k - 1))
            ws = [b - a for a, b in zip([0] + cuts, cuts + [total])]
        rows = [([rng.randint(0, 1) for _ in range(n)], w) for w in ws]
        given.append(rows)
        return [(np.array(x, dtype=rng.choice([int, float])), w / total) for x, w in rows]

    rounds = Rounds(samples)
    finals = []

    def answer(problem):
        x = [rng.randint(0, 1) for _ in range(problem.get_num_vars())]
        finals.append(x)
        return [(x, 1.0)]

    final = StubOptimizer(answer) if rng.random() < 0.7 else None
    min_vars = rng.randint(1, 4)
    if min_vars > 1 or rng.random() < 0.5:
        kwargs["min_num_vars"] = min_vars
    if final is not None:
        kwargs["min_num_vars_optimizer"] = final
    history = rng.choice(["ALL", "LAST", "NO", None])
    if history:
        kwargs["history"] = HIST[history]
    res = RecursiveMinimumEigenOptimizer(rounds, **kwargs).solve(qp)
    reps = [{"v": k, "by": v[0], "sgn": int(v[1])} for k, v in res.replacements.items()]
    progs = [qpio.project(o, S) for o in rounds.problems]
    last = qpio.project(final.problems[0], S) if final is not None else None
    events = []
    for r, prog in enumerate(progs):
        nxt = progs[r + 1] if r + 1 < len(progs) else last
        if nxt is None:  # the default final optimizer: the last problem is not visible
            nxt = replaced(progs[r], reps[-1])
        gone = [v["name"] for v in prog["vars"] if v["name"] not in [w["name"] for w in nxt["vars"]]]
        rep = [e for e in reps if gone and e["v"] == gone[0]]
        events.append({"ev": "round", "p": prog, "min": min_vars, "samples": [{"x": x, "w": w} for x, w in given[r]],
                       "found": len(rep) == 1, "rep": rep[0] if rep else 0, "next": nxt})
    if final is not None:
        events.append({"ev": "final", "p": last, "min": min_vars})
    hist = res.history
    events.append({
        "ev": "result", "min": min_vars, "known": final is not None, "y": finals[0] if finals else [], "dec": dec, "src": p,
        "x": [q(v, 1) for v in res.x], "fval": q(res.fval, S), "ok": res.status == OptimizationResultStatus.SUCCESS, "reps": reps,
        "history": history or "LAST", "histlen": len(hist[0]), "histmatch": all(a is b for a, b in zip(hist[0], results)),
        "histlast": hist[1] is not None})
    return {"kind": "recursive", "d": qpio.project(dst, S), "events": events}


def replaced(p, rep):
    """The program after a replacement, for the one step that cannot be observed (values from the previous one)."""
    names = [v["name"] for v in p["vars"]]
    v, b, g = names.index(rep["v"]), names.index(rep["by"]), rep["sgn"]
    n = len(names)
    lin = list(p["lin"])
    quad = {}
    const = p["const"]

    def add(i, j, c):
        quad[min(i, j), max(i, j)] = quad.get((min(i, j), max(i, j)), 0) + c

    def expand(i):  # variable i as (constant, [(index, factor)])
        return (0, [(i, 1)]) if i != v else ((0, [(b, 1)]) if g == 1 else (1, [(b, -1)]))

    new_lin = [0] * n
    for i in range(n):
        c0, ts = expand(i)
        const += lin[i] * c0
        for t, f in ts:
            new_lin[t] += lin[i] * f
    for i in range(n):
        for j in range(n):
            c = p["quad"][i][j]
            if c:
                (a0, at), (b0, bt) = expand(i), expand(j)
                const += c * a0 * b0
                for t, f in at:
                    new_lin[t] += c * f * b0
                for t, f in bt:
                    new_lin[t] += c * f * a0
                for t, f in at:
                    for u, h in bt:
                        add(t, u, c * f * h)
    keep = [i for i in range(n) if i != v]
    return dict(p, vars=[p["vars"][i] for i in keep], const=const, lin=[new_lin[i] for i in keep],
                quad=[[quad.get((i, j), 0) if i <= j else 0 for j in keep] for i in keep])
