"""C08: inequality-to-equality conversion."""
import random

from qiskit_optimization.converters import InequalityToEquality

import convlib
import qpio
from qpio import INF, attempt, exc_name

RULE = ("random programs with linear and quadratic inequalities in the modes integer, continuous and auto; for discrete programs "
        "every point within the bounds, otherwise points of the half-integer grid including the corners; invalid modes and "
        "fractional coefficients in integer mode")
ASSUMPTIONS = ["the integer mode is requested only for programs of binary and integer variables",
               "no original variable is named like a slack variable", "coefficients are multiples of 1/2"]


def models(ctx):
    ctx.model("MCConverters", "MCConvertersWide.cfg" if ctx.thorough else None)


def groups(ctx):
    return [("TraceSlack", [{"seed": ctx.seed * 100003 + i, "which": i} for i in range(ctx.pick(1500, 10000))])]


def grid_points(p, rng, X, count):
    s = p["S"]
    pts = []
    for n in range(count):
        x = []
        for v in p["vars"]:
            lb = max(v["lb"], -6 * s)
            ub = min(v["ub"], max(lb, 0) + 8 * s)
            if v["type"] == "C":
                lo, hi = lb * X // s, ub * X // s
                if lo * s < lb * X:
                    lo += 1
                x.append(rng.choice([lo, hi]) if n % 3 == 0 else rng.randint(lo, hi))
            else:
                lo, hi = lb // s, ub // s
                x.append(X * (rng.choice([lo, hi]) if n % 3 == 0 else rng.randint(lo, hi)))
        if x not in pts:
            pts.append(x)
    return pts


def execute(spec):
    rng = random.Random(spec["seed"])
    s = 2
    if spec["which"] % 12 == 0:
        return rejected(rng)
    mode = rng.choice(["auto", "integer", "continuous", "auto"])
    types = rng.choice(["B", "I", "IB", "BI"]) if mode == "integer" else rng.choice(["B", "IB", "IBC", "C", "BC", "IBC"])
    whole = mode == "integer" or rng.random() < 0.5
    p = qpio.rnd_program(rng, qpio.count(rng, 1, 4, 0.03), types, scale=s, coef=3, nl=qpio.count(rng, 0, 3, 0.03), nq=rng.choice([0, 0, 1, 2]),
                         con_int=whole, cont_inf=rng.random() < 0.3, full_quad=rng.random() < 0.2,
                         senses=rng.choice([("LE", "GE", "EQ"), ("LE", "GE")]))
    if whole and rng.random() < 0.5:          # fractional right-hand sides over integral left-hand sides
        for c in p["lc"] + p["qc"]:
            if c["sense"] != "EQ":
                c["rhs"] += rng.choice([0, 1])
    if rng.random() < 0.4:                    # right-hand sides across the whole range of the left-hand side
        for c in p["lc"]:
            c["rhs"] = rng.randint(-20, 20) * (s if whole else 1)
    p = qpio.rescale(p, 4)
    s = p["S"]
    conv = InequalityToEquality(mode) if rng.random() < 0.7 else InequalityToEquality()
    conv.mode = mode
    qp = qpio.build(p, rng, plain=False, warm=conv.convert)
    dst = conv.convert(qp)
    names = [v["name"] for v in p["vars"]]
    d = qpio.project(dst, s, lambda name: name not in names)
    disc = all(v["type"] != "C" for v in p["vars"])
    pts = [] if disc and convlib.size(p) <= 150 else grid_points(p, rng, 2, 40)
    return {"kind": "slack", "events": [{
        "ev": "convert", "mode": mode, "p": p, "d": d, "X": 2, "pts": pts, "all": disc and not pts,
        "probes": convlib.identity_probes(conv, dst.get_num_vars(), rng), "after": qpio.project(qp, s)}]}


def rejected(rng):
    s = rng.choice([2, 2, 2 ** 10, 2 ** 20])
    p = qpio.rnd_program(rng, rng.randint(1, 3), "IB", scale=s, coef=3, nl=rng.randint(0, 2), nq=rng.randint(0, 1), con_int=True)
    which = rng.choice(["mode", "float_lin", "float_quad", "float_qlin"])
    lin = [rng.randint(-2, 2) * s for _ in p["vars"]]
    n = len(lin)
    i, j = rng.randrange(n), rng.randrange(n)
    mode = rng.choice(["", "int", "Integer", "slack", None]) if which == "mode" else "integer"
    if which in ("mode", "float_lin"):
        if which == "float_lin":
            lin[i] += 1
        p["lc"].insert(rng.randint(0, len(p["lc"])), {"name": "bad", "lin": lin, "sense": rng.choice(["LE", "GE"]), "rhs": 2 * s})
    else:
        m = [[0] * n for _ in range(n)]
        m[min(i, j)][max(i, j)] = s + (1 if which == "float_quad" else 0)
        if which == "float_qlin":
            lin[i] += 1
        p["qc"].append({"name": "bad", "lin": lin, "quad": m, "sense": rng.choice(["LE", "GE"]), "rhs": 2 * s})
    qp = qpio.build(p, rng, plain=False)
    ok, res = attempt(lambda: InequalityToEquality(mode).convert(qp))
    return {"kind": "reject", "events": [{"ev": "reject", "which": which, "exc": "" if ok else exc_name(res)}]}
