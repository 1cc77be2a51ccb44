"""C09: linear equality constraints as penalty terms."""
import random

from qiskit_optimization.converters import LinearEqualityToPenalty

import convlib
import qpio
from qpio import QuadraticProgram, attempt, exc_name, q, val

RULE = ("random programs with equality constraints, both senses, automatic and given penalty factors; the objective is compared on "
        "points that determine every polynomial of degree two, and for integral discrete programs the optima of the penalised "
        "objective over all assignments are compared with the constrained optima")
ASSUMPTIONS = ["domination is claimed for the automatic factor, integral constraints and bounded discrete variables only",
               "coefficients are multiples of 1/2"]


def models(ctx):
    ctx.model("MCConverters", "MCConvertersWide.cfg" if ctx.thorough else None)


def groups(ctx):
    return [("TracePenalty", [{"seed": ctx.seed * 100003 + i, "which": i} for i in range(ctx.pick(3000, 8000))])]


def execute(spec):
    rng = random.Random(spec["seed"])
    s = 2
    if spec["which"] % 12 == 0:
        return rejected(rng)
    discrete = rng.random() < 0.7
    types = rng.choice(["B", "I", "IB"]) if discrete else rng.choice(["IBC", "C", "BC"])
    whole = rng.random() < 0.75
    n = qpio.count(rng, 1, 4)
    discrete = discrete and n <= 4
    p = qpio.rnd_program(rng, n, types, scale=s, coef=3, nl=rng.choice([0, 1, 1, 2, 3]) if rng.random() < 0.97 else 11, senses=("EQ",), con_int=whole,
                         con_coef=3 if whole else 1, full_quad=rng.random() < 0.3, bound=2)
    for v in p["vars"]:
        v["lb"] = v["lb"] // s * s
        v["ub"] = v["ub"] // s * s
    while discrete and convlib.size(p) > 150:
        v = rng.choice(p["vars"])
        if v["type"] == "I":
            v["ub"] = v["lb"] + s * rng.randint(0, 2)
    if discrete and whole and rng.random() < 0.7:    # make a point feasible
        x = [rng.choice(convlib.domain(p, i)) for i in range(n)]
        for c in p["lc"]:
            c["rhs"] = sum(a * b for a, b in zip(c["lin"], x))
        if p["lc"] and rng.random() < 0.5:
            convlib.adverse(p, x, rng)
    if not discrete and rng.random() < 0.3:
        for v in rng.sample(p["vars"], rng.randint(1, n)):
            if v["type"] == "C":
                v["ub"] = qpio.INF
                v["lb"] = rng.choice([-qpio.INF, v["lb"]])
        if rng.random() < 0.4:
            p["lin"] = [rng.choice([0, 1, -1]) for _ in range(n)]
            p["quad"] = [[rng.choice([0, 0, 1]) if i == j else 0 for j in range(n)] for i in range(n)]
    user = 0 if rng.random() < 0.6 else rng.choice([1, 2, 3, 7, 20, 100, -1])
    if user:
        conv = LinearEqualityToPenalty(val(user, s))
    else:
        conv = LinearEqualityToPenalty()
    if rng.random() < 0.2:
        conv.penalty = 4.5
        conv.penalty = val(user, s) if user else None
    if rng.random() < 0.3:      # an earlier program of another kind: fractional data, unbounded variables, huge values
        other = QuadraticProgram()
        other.integer_var(0, rng.choice([1, 5, 10 ** 6]), "a")
        other.continuous_var(0, rng.choice([1, 2.5, qpio.INFINITY]), "b")
        other.linear_constraint({"a": rng.choice([1, 0.5]), "b": rng.choice([1, 3.25])}, "==", rng.choice([1, 1.5]))
        other.minimize(linear={"a": rng.choice([1, 7.5]), "b": 1})
        conv.convert(other)
    qp = qpio.build(p, rng, plain=False, warm=conv.convert)
    dst = conv.convert(qp)

    def coarse(b):
        return b if abs(b) == qpio.INF else b // s ** 2
    wrong = [0.0] * (n + rng.choice([-1, 1, 2]))
    ok, res = attempt(conv.interpret, wrong)
    return {"kind": "penalty", "events": [{
        "ev": "convert", "p": p, "d": {k: v for k, v in qpio.project(dst, s ** 3).items() if k in ("sense", "lc", "qc", "status")}
        | {"vars": [{**v, "lb": coarse(v["lb"]), "ub": coarse(v["ub"])} for v in qpio.project(dst, s ** 3)["vars"]]},
        "fine": qpio.project(dst, s ** 3), "penalty": q(conv.penalty, s), "user": user,
        "integral": bool(discrete and whole and not user),
        "probes": convlib.identity_probes(conv, n, rng), "wronglen": "" if ok else exc_name(res),
        "after": qpio.project(qp, s)}]}


def rejected(rng):
    s = 2
    n = rng.randint(1, 3)
    p = qpio.rnd_program(rng, n, "IB", scale=s, coef=3, nl=rng.randint(0, 2), senses=("EQ",))
    if rng.random() < 0.5:
        p["lc"].insert(rng.randint(0, len(p["lc"])), {"name": "bad", "lin": [s * rng.randint(-2, 2) for _ in range(n)],
                                                      "sense": rng.choice(["LE", "GE"]), "rhs": rng.randint(-3, 3)})
    else:
        m = [[0] * n for _ in range(n)]
        m[0][n - 1] = s
        p["qc"].append({"name": "bad", "lin": [0] * n, "quad": m, "sense": rng.choice(["LE", "GE", "EQ"]), "rhs": s})
    qp = qpio.build(p, rng, plain=False)
    conv = LinearEqualityToPenalty(rng.choice([None, 3.0]))
    ok, res = attempt(conv.convert, qp)
    return {"kind": "reject", "events": [{"ev": "reject", "exc": "" if ok else exc_name(res)}]}
