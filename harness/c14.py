"""C14: exact back ends return true optima."""
import random

from qiskit.algorithms import NumPyMinimumEigensolver

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.algorithms import CplexOptimizer, MinimumEigenOptimizer

import c10
import c12
import convlib
import qpio
from qpio import q

KINDS = ["eigen", "eigen", "eigenbin", "cplexbin", "cplexint", "cplexmix"]
RULE = ("random constrained and unconstrained problems of both senses (feasible, tight and infeasible ones) solved by exact "
        "diagonalisation and by CPLEX, compared with exhaustive enumeration in the specification (a grid for mixed problems), and by dynamic programming for large problems with one constraint")
ASSUMPTIONS = ["converted problems of at most 8 (quick) or 10 (thorough) qubits", "CPLEX is correct within its tolerances on convex "
               "mixed problems; the comparison there is against grid points"]


def models(ctx):
    ctx.model("MCConverters", "MCConvertersWide.cfg" if ctx.thorough else None)
    ctx.model("MCOptimum")
    if ctx.thorough:
        ctx.model("MCOptimum", "MCOptimumWide.cfg")


def groups(ctx):
    return [("TraceOptimum", [{"seed": ctx.seed * 100003 + i, "kind": KINDS[i % len(KINDS)], "bits": ctx.pick(8, 10), "limit": 120}
                              for i in range(ctx.pick(1440, 9600))]
             + [{"seed": ctx.seed * 100003 + 50000 + i, "kind": "cplexlarge", "limit": 120} for i in range(ctx.pick(80, 800))])]


def large(rng, s):
    """one constraint, a separable objective, too many variables to enumerate."""
    n = rng.randint(16, 40)
    sense = rng.choice([1, -1])
    big = rng.choice([9, 60, 400])
    top = rng.choice([6, 15, 30])
    types = rng.choice(["B", "B", "BBI"])
    p = {"S": s, "name": "large", "sense": sense, "const": rng.randint(-9, 9) * s, "vars": [], "lin": [], "quad": [[0] * n for _ in range(n)],
         "lc": [], "qc": []}
    w = []
    for i in range(n):
        t = rng.choice(types)
        ub = 1 if t == "B" else rng.randint(1, 3)
        p["vars"].append({"name": "x%d" % i, "type": t, "lb": 0, "ub": ub * s})
        weight = rng.randint(1, top)
        # value and weight are strongly correlated, so that near-optimal selections abound
        p["lin"].append(-sense * (weight * big // top + rng.randint(1, max(2, big // 8))) * s)
        w.append(weight * s)
        if t == "I" and rng.random() < 0.5:
            p["quad"][i][i] = sense * rng.randint(0, 3) * s
    total = sum(a * v["ub"] // s for a, v in zip(w, p["vars"]))
    p["lc"].append({"name": "capacity", "lin": w, "sense": "LE", "rhs": total // s * rng.randint(2, 7) // 10 * s})
    if rng.random() < 0.4:  # the same as a cover
        p["sense"] *= -1
        p["quad"] = [[-a for a in row] for row in p["quad"]]
        p["lc"][0]["sense"] = "GE"
    elif rng.random() < 0.3:
        p["lc"][0]["sense"] = "EQ"
    p["lin"] = [-p["sense"] * abs(a) if p["lc"][0]["sense"] != "GE" else p["sense"] * abs(a) for a in p["lin"]]
    return p


def execute(spec):
    rng = random.Random(spec["seed"])
    qpio.seed_all(spec["seed"])
    s, kind = 2, spec["kind"]
    if kind == "eigen":
        p = c10.instance(rng, s, spec["bits"])
        opt = MinimumEigenOptimizer(NumPyMinimumEigensolver())
    elif kind == "eigenbin":
        p = qpio.rnd_program(rng, rng.randint(1, 7), "B", scale=s, full_quad=rng.random() < 0.3)
        opt = MinimumEigenOptimizer(NumPyMinimumEigensolver())
    elif kind == "cplexlarge":
        p = large(rng, s)
        opt = CplexOptimizer()
    else:
        opt = CplexOptimizer()
        while True:
            n = rng.randint(1, 5)
            types = {"cplexbin": "B", "cplexint": "BI", "cplexmix": "BICC"}[kind]
            p = qpio.rnd_program(rng, n, types, scale=s, nl=rng.randint(0, 3), coef=3, bound=2)
            c12.shrink(p, s)
            if kind != "cplexbin":
                c12.convexify(p)
            if kind == "cplexmix" or convlib.size(p) <= 300:
                break
    qpio.nonempty(p, rng)
    if rng.random() < 0.7 and kind != "cplexlarge" and kind.startswith("cplex"):
        x = [rng.choice(convlib.domain(p, i) or [0]) for i in range(len(p["vars"]))]
        for c in p["lc"]:
            c["rhs"] = sum(a * b for a, b in zip(c["lin"], x))
    qp = qpio.build(p, rng, plain=False, warm=opt.solve)
    try:
        res = opt.solve(qp)
        status, x, fval = res.status.name, res.x, res.fval
    except QiskitOptimizationError:
        status, x, fval = "NONE", None, None
    if kind != "cplexmix":
        ev = {"ev": "large" if kind == "cplexlarge" else "discrete", "p": p, "status": status, "x": [], "fval": 0}
        if x is not None:
            ev.update(x=[q(v, 1) for v in x], fval=q(fval, s))
        return {"kind": kind, "events": [ev]}
    unit = 16
    cands = []
    for _ in range(60):
        y = []
        for i, v in enumerate(p["vars"]):
            if v["type"] == "C":
                y.append(rng.randint(-(-v["lb"] * unit // s), v["ub"] * unit // s))
            else:
                y.append(rng.choice(convlib.domain(p, i)) * unit)
        cands.append(y)
        if x is not None:  # around the solution, too
            near = [int(round(v * unit)) for v in x]
            for i, v in enumerate(p["vars"]):
                if v["type"] == "C" and rng.random() < 0.6:
                    near[i] += rng.randint(-3, 3)
                elif v["type"] != "C" and rng.random() < 0.3:
                    near[i] = rng.choice(convlib.domain(p, i)) * unit
            cands.append(near)
    ev = {"ev": "mixed", "p": p, "status": "NONE" if x is None else status, "X": unit, "cands": cands, "x": [], "fval": 0, "tol": 4 * s}
    if x is not None:
        xs = [int(round(v * unit)) if w["type"] == "C" else q(v, 1, 1e-4) * unit for v, w in zip(x, p["vars"])]
        ev.update(x=xs, fval=int(round(fval * s * unit * unit)))
    return {"kind": kind, "events": [ev]}
