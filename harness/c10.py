"""C10: the QUBO pipeline."""
import random

from qiskit_optimization.converters import QuadraticProgramToQubo

import convlib
import qpio
from qpio import attempt, exc_name, q, val

RULE = ("random programs of binary and bounded integer variables with linear equalities and inequalities (fractional right-hand "
        "sides included), both senses, automatic and sufficiently large given penalties; all assignments of the QUBO and all "
        "assignments of the source are enumerated in the specification")
ASSUMPTIONS = ["QUBOs of at most 10 variables are enumerated", "objective coefficients are multiples of 1/2"]


def models(ctx):
    ctx.model("MCConverters", "MCConvertersWide.cfg" if ctx.thorough else None)


def groups(ctx):
    return [("TraceQubo", [{"seed": ctx.seed * 100003 + i, "which": i, "bits": ctx.pick(8, 10)} for i in range(ctx.pick(960, 6400))])]


def bits_of(r):
    return max(1, r.bit_length())


def qubo_size(p, s):
    total = 0
    for v in p["vars"]:
        total += 1 if v["type"] == "B" else bits_of((v["ub"] - v["lb"]) // s)
    for c in p["lc"]:
        lo = sum(min(a * v["lb"], a * v["ub"]) for a, v in zip(c["lin"], p["vars"])) // (s * s)
        hi = sum(max(a * v["lb"], a * v["ub"]) for a, v in zip(c["lin"], p["vars"])) // (s * s)
        if c["sense"] == "LE" and c["rhs"] // s > lo:
            total += bits_of(c["rhs"] // s - lo)
        if c["sense"] == "GE" and hi > -(-c["rhs"] // s):
            total += bits_of(hi + (-c["rhs"] // s))
    return total


def instance(rng, s, bits):
    while True:
        n = rng.randint(1, 5)
        p = qpio.rnd_program(rng, n, rng.choice(["B", "B", "IB", "I"]), scale=s, coef=3, nl=rng.choice([0, 1, 1, 2, 3]), con_int=True,
                             con_coef=rng.choice([1, 2, 3]), bound=2, full_quad=rng.random() < 0.3)
        for v in p["vars"]:
            if v["type"] == "I":
                v["ub"] = v["lb"] + s * rng.choice([0, 1, 2, 3, 4, 5, 6])
        x = [rng.choice(convlib.domain(p, i)) for i in range(n)]
        for c in p["lc"]:
            if rng.random() < 0.7:
                c["rhs"] = sum(a * b for a, b in zip(c["lin"], x))
                if c["sense"] == "LE":
                    c["rhs"] += rng.choice([0, 0, 1, s, 3])
                if c["sense"] == "GE":
                    c["rhs"] -= rng.choice([0, 0, 1, s, 3])
        if p["lc"] and rng.random() < 0.2:
            convlib.adverse(p, x, rng)
        if qubo_size(p, s) <= bits and convlib.size(p) <= 300:
            return p


def execute(spec):
    rng = random.Random(spec["seed"])
    s = 2
    if spec["which"] % 10 == 0:
        return rejected(rng)
    p = instance(rng, s, rng.choice([4, 6, 7, spec["bits"]]))
    user = 0
    dominant = True
    if rng.random() < 0.3:
        span = 0
        for i, v in enumerate(p["vars"]):
            span += abs(p["lin"][i]) * (v["ub"] - v["lb"]) // s
            for j, w in enumerate(p["vars"]):
                m = max(abs(v["lb"]), abs(v["ub"])) * max(abs(w["lb"]), abs(w["ub"])) // (s * s)
                span += abs(p["quad"][i][j]) * 2 * m
        user = span + s * rng.randint(1, 3)
        if rng.random() < 0.3:
            user, dominant = rng.choice([1, 2, 3]), False
    conv = QuadraticProgramToQubo(val(user, s) if user else None)
    if rng.random() < 0.2:
        conv = QuadraticProgramToQubo(7)
        conv.penalty = val(user, s) if user else None
    qp = qpio.build(p, rng, plain=False, warm=conv.convert)
    msg, comp = conv.get_compatibility_msg(qp), conv.is_compatible(qp)
    dst = conv.convert(qp)
    m = dst.get_num_vars()
    dec, probes, lens = convlib.decoding(conv, m, len(p["vars"]), rng)
    return {"kind": "qubo", "events": [{
        "ev": "convert", "p": p, "d": qpio.project(dst, s), "dec": dec, "probes": probes, "lens": lens, "msg": msg,
        "compatible": bool(comp), "user": user, "penalty": q(conv.penalty, s), "dominant": dominant, "small": m <= 10,
        "after": qpio.project(qp, s)}]}


def rejected(rng):
    s = 2
    n = rng.randint(1, 4)
    which = rng.choice(["cont", "quad", "float", "both"])
    p = qpio.rnd_program(rng, n, "IB", scale=s, coef=3, nl=rng.randint(0, 2), con_int=True)
    if which in ("cont", "both"):
        p["vars"][rng.randrange(n)].update(type="C")
    if which in ("quad", "both"):
        m = [[0] * n for _ in range(n)]
        m[0][n - 1] = s * rng.choice([1, 2])
        p["qc"].append({"name": "bad", "lin": [0] * n, "quad": m, "sense": rng.choice(["LE", "GE", "EQ"]), "rhs": s})
    if which == "float":
        lin = [s * rng.randint(-2, 2) for _ in range(n)]
        lin[rng.randrange(n)] += 1
        p["lc"].insert(rng.randint(0, len(p["lc"])), {"name": "bad", "lin": lin, "sense": rng.choice(["LE", "GE"]), "rhs": s})
    qp = qpio.build(p, rng, plain=False)
    conv = QuadraticProgramToQubo()
    msg, comp = conv.get_compatibility_msg(qp), conv.is_compatible(qp)
    ok, res = attempt(conv.convert, qp)
    return {"kind": "reject", "events": [{"ev": "reject", "which": which, "exc": "" if ok else exc_name(res), "msg": msg,
                                          "compatible": bool(comp)}]}
