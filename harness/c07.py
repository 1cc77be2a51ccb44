"""C07: integer-to-binary conversion."""
import random

from qiskit_optimization.converters import IntegerToBinary

import convlib
import qpio

RULE = ("random mixed programs (negative, zero-width and wide integer ranges, all three variable types, linear and quadratic "
        "objective and constraints, both senses); the decoding is measured on unit vectors and objective and constraints are "
        "compared on a set of points that determines every polynomial of degree two")
ASSUMPTIONS = ["integer variables have integral finite bounds", "binary variables keep their bounds 0 and 1",
               "coefficients are multiples of 1/2 or, in some cases, small multiples of 2^-20"]


def models(ctx):
    ctx.model("MCCover")
    ctx.model("MCConverters", "MCConvertersWide.cfg" if ctx.thorough else None)


def groups(ctx):
    specs = [{"seed": ctx.seed * 100003 + i, "wide": i % 5 == 0} for i in range(ctx.pick(1050, 7000))]
    # every range of a single variable up to a limit
    specs += [{"seed": ctx.seed + r, "range": r} for r in range(ctx.pick(210, 1400))]
    # ranges around powers of two and in between, up to 23 bits
    rng = random.Random(ctx.seed)
    big = [2 ** k + d for k in range(14, 23) for d in (-1, 0, 1)] + [rng.randint(2 ** 14, 2 ** 23) for _ in range(ctx.pick(6, 60))] + [2 ** k + d for k in range(8, 14) for d in (-2, -1, 0, 1)] + [rng.randint(1400, 16000) for _ in range(ctx.pick(20, 200))]
    specs += [{"seed": ctx.seed * 31 + r, "range": r} for r in big]
    return [("TraceInt2Bin", specs)]


def execute(spec):
    rng = random.Random(spec["seed"])
    s = 2
    if "range" in spec:
        p = qpio.rnd_program(rng, 2, "IB", scale=s, coef=2, nl=1)
        lb = rng.randint(-40, 5)
        p["vars"][0].update(type="I", lb=lb * s, ub=(lb + spec["range"]) * s)
        if spec["range"] > 1400:    # squares of such values leave the specification's arithmetic
            p["quad"][0][0] = 0
        if spec["range"] > 16000:
            p["lin"][0] = max(-4, min(4, p["lin"][0]))
    else:
        s, mag = qpio.magnitude(rng, 2, False)
        p = qpio.rnd_program(rng, qpio.count(rng, 1, 5, 0.03), rng.choice(["I", "IB", "IBC", "BC", "IIC"]), scale=s, lim=mag, coef=3,
                             nl=rng.randint(0, 2), nq=rng.choice([0, 0, 1, 2]), full_quad=rng.random() < 0.3)
        if spec["wide"]:
            for v in p["vars"]:
                if v["type"] == "I":
                    v["lb"] = rng.randint(-50, 50) * s
                    v["ub"] = v["lb"] + rng.choice([8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127]) * s
    conv = IntegerToBinary()
    qp = qpio.build(p, rng, plain=False, warm=conv.convert)
    dst = conv.convert(qp)
    d = qpio.project(dst, s)
    dec, probes, lens = convlib.decoding(conv, dst.get_num_vars(), len(p["vars"]), rng)
    return {"kind": "int2bin", "events": [{"p": p, "d": d, "dec": dec, "probes": probes, "lens": lens,
                                           "after": qpio.project(qp, s)}]}
