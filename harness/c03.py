"""C03: feasibility verdicts are exact."""
import random

import numpy as np

import qpio
from qpio import attempt, exc_name, val
from qiskit_optimization.problems import LinearConstraint, QuadraticConstraint

RULE = "random programs with bounds and constraints of every sense and sense spelling; points inside, outside and exactly on bounds and right-hand sides"
ASSUMPTIONS = ["data are multiples of 1/4 or (some cases) of 2^-20, tiny or with up to 25 binary digits, so that equality is decided without rounding"]


def models(ctx):
    ctx.model("MCFeas")


def groups(ctx):
    return [("TraceFeas", [{"kind": "feas", "seed": ctx.seed * 100003 + i} for i in range(ctx.pick(1500, 12000))])]


def near(rng, p, x, X):
    """Moves right-hand sides onto (or one unit beside) the value at x, so boundaries are met."""
    for c in p["lc"] + p["qc"]:
        if rng.random() < 0.5:
            v = sum(a * b for a, b in zip(c["lin"], x)) * X
            if "quad" in c:
                v += sum(c["quad"][i][j] * x[i] * x[j] for i in range(len(x)) for j in range(len(x)))
            if v % (X * X) == 0:
                c["rhs"] = v // (X * X) + rng.choice([0, 0, 1, -1])


def small(p, pts, X):
    """Halves the coefficients of constraints whose value is out of the range of the specification's arithmetic."""
    for c in p["lc"] + p["qc"]:
        while any(sum(abs(a * b) for a, b in zip(c["lin"], x)) * X
                  + sum(abs(a * x[i] * x[j]) for i, r in enumerate(c.get("quad", [])) for j, a in enumerate(r)) >= 2 ** 29 for x in pts):
            c["lin"] = [a // 2 for a in c["lin"]]
            if "quad" in c:
                c["quad"] = [[a // 2 for a in r] for r in c["quad"]]


def execute(spec):
    rng = random.Random(spec["seed"])
    n = qpio.count(rng, 1, 5)
    types = rng.choice(["B", "I", "C", "BIC", "IC", "BI"])
    S, mag = qpio.magnitude(rng, 4, n <= 3)
    p = qpio.rnd_program(rng, n, types, scale=S, lim=mag, nl=rng.randint(0, 3), nq=rng.randint(0, 2), cont_inf=True, clash=True,
                         coef=rng.choice([2, 6]))
    X = 1 if mag else rng.choice([1, 1, 2])
    inf = 8 if not mag else 2 * S

    def point():
        x = []
        for v in p["vars"]:
            lo = v["lb"] if v["lb"] > -qpio.INF else -inf
            hi = v["ub"] if v["ub"] < qpio.INF else inf
            k = rng.random()
            if k < 0.25:
                w = lo * X // S
            elif k < 0.5:
                w = hi * X // S
            elif k < 0.6:
                w = lo * X // S - 1
            elif k < 0.7:
                w = hi * X // S + 1
            else:
                w = rng.randint(min(lo, hi) * X // S, max(lo, hi) * X // S)
            x.append(w)
        return x

    pts = [point() for _ in range(6)]
    small(p, pts, X)
    near(rng, p, pts[0], X)
    # bounds exactly on the grid of the points
    qp = qpio.build(p, rng, plain=False, warm=lambda old: [old.get_feasibility_info([val(v, X) for v in x]) for x in pts])
    events = []
    for x in pts:
        vals = [val(v, X) for v in x]
        arg = rng.choice([vals, np.array(vals, dtype=float), [float(v) for v in vals], np.array(vals)])
        ok, var, cons = qp.get_feasibility_info(arg)
        events.append({
            "ev": "point", "x": x, "X": X, "feasible": bool(ok), "isfeasible": bool(qp.is_feasible(arg)),
            "vars": [v.name for v in var],
            "lcs": [c.name for c in cons if isinstance(c, LinearConstraint)],
            "qcs": [c.name for c in cons if isinstance(c, QuadraticConstraint)],
            "after": qpio.project(qp, S),
        })
    ok, res = attempt(qp.is_feasible if rng.random() < 0.5 else qp.get_feasibility_info,
                      [0] * (n + rng.choice([-1, 1])))
    events.append({"ev": "wronglength", "exc": "" if ok else exc_name(res)})
    return {"kind": "feas", "p": p, "events": events}
