"""C04: substitution of variables."""
import random

import qpio
from qpio import attempt, exc_name, val

F = 2
RULE = "random programs and random substitution maps (constants, signed multiples, by name or position, as one or two calls); malformed maps"
ASSUMPTIONS = ["source programs are marked valid", "data are multiples of 1/4 (some cases: small multiples of 2^-20), factors multiples of 1/2 dividing the bounds exactly"]


def models(ctx):
    ctx.model("MCSubst")


def groups(ctx):
    return [("TraceSubst", [{"kind": "sub", "seed": ctx.seed * 100003 + i} for i in range(ctx.pick(1500, 12000))])]


def collapse(rng, p):
    """Shape a constraint so that a certain substitution makes its terms cancel; returns that substitution."""
    n, s = len(p["vars"]), p["S"]
    zero = lambda: [[0] * n for _ in range(n)]
    c = rng.choice([1, 2, -1, 4, -3]) * s
    sign = rng.choice([-1, 1])
    how = rng.choice(["lin", "const", "square"] + ["cross", "swap"] * (n >= 4))
    sub = {}
    if how == "lin":        # c x_i - c f x_j with x_i <- f x_j
        if not p["lc"]:
            return {}
        i, j = rng.sample(range(n), 2)
        con = rng.choice(p["lc"])
        con["lin"] = [0] * n
        con["lin"][i], con["lin"][j] = c, -c * sign
        sub[i] = ("var", j, sign * F)
    else:
        if not p["qc"]:
            return {}
        con = rng.choice(p["qc"])
        con["quad"] = zero()
        if rng.random() < 0.7:
            con["lin"] = [0] * n
        i, j = rng.sample(range(n), 2)
        if how == "const":      # c x_i x_j - c v x_i with x_j <- v
            v = rng.choice([1, 1, 2, -1, 0])
            con["quad"][i][j] = c
            con["lin"][i] = -c * v
            sub[j] = ("const", 0, v * F)
        elif how == "square":       # c x_i^2 - c x_j^2 with x_i <- +- x_j
            con["quad"][i][i], con["quad"][j][j] = c, -c
            sub[i] = ("var", j, sign * F)
        else:       # c x_a x_b - c x_k x_l with x_k <- +- x_a or x_b, x_l <- +- the other one
            a, b, k, l = rng.sample(range(n), 4)
            con["quad"][min(a, b)][max(a, b)] = c
            con["quad"][min(k, l)][max(k, l)] = -c
            first, second = (a, b) if how == "cross" else (b, a)
            sub[k], sub[l] = ("var", first, sign * F), ("var", second, sign * F)
    if rng.random() < 0.5:
        con["rhs"] = rng.choice([0, s, -s])
    return sub


def execute(spec):
    rng = random.Random(spec["seed"])
    n = qpio.count(rng, 1, 6)
    S, mag = qpio.magnitude(rng, 4, False)
    OUT = S * F * F
    p = qpio.rnd_program(rng, n, rng.choice(["B", "I", "C", "BIC", "BI"]), scale=S, lim=mag, nl=rng.randint(0, 3),
                         nq=rng.randint(0, 3), cont_inf=True, clash=True, coef=rng.choice([2, 5]), full_quad=rng.random() < 0.3)
    for c in p["lc"] + p["qc"]:     # sparse constraints, so that some collapse
        if rng.random() < 0.5:
            keep = rng.sample(range(n), min(n, rng.choice([1, 1, 2])))
            c["lin"] = [v if i in keep else 0 for i, v in enumerate(c["lin"])]
            if "quad" in c:
                c["quad"] = [[v if i in keep and j in keep else 0 for j, v in enumerate(r)] for i, r in enumerate(c["quad"])]
    planned = collapse(rng, p) if n >= 2 and rng.random() < 0.35 else {}
    qp = qpio.build(p, rng, plain=False, warm=lambda old: old.substitute_variables({0: val(p['vars'][0]['lb'], S)}))
    names = [v["name"] for v in p["vars"]]
    events = []

    def ref(i):
        return names[i] if rng.random() < 0.7 else i

    for turn in range(4):
        kept = sorted(rng.sample(range(n), rng.randint(1 if n > 1 else 0, n)))
        plan = planned if turn < 2 else {}
        if not kept and n:
            kept = [] if rng.random() < 0.5 else [0]
        kept = sorted((set(kept) | {j for kind, j, _ in plan.values() if kind == "var"}) - set(plan))
        sub, consts, variables = [], {}, {}
        for i in range(n):
            if i in plan:
                kind, j, f = plan[i]
                if kind == "const":
                    sub.append({"kind": "const", "j": 0, "f": 0, "v": f})
                    consts[ref(i)] = val(f, F)
                else:
                    sub.append({"kind": "var", "j": j + 1, "f": f, "v": 0})
                    variables[ref(i)] = (ref(j), val(f, F))
            elif i in kept:
                sub.append({"kind": "keep", "j": 0, "f": 0, "v": 0})
            elif not kept or rng.random() < 0.5:
                v = p["vars"][i]
                lo = max(v["lb"], -5 * S) // (S // F)
                hi = min(v["ub"], 5 * S) // (S // F)
                x = rng.randint(lo, max(lo, hi)) if rng.random() < 0.85 else hi + rng.randint(1, 3)
                if rng.random() < 0.3:
                    x = rng.choice([0, F, -F])
                sub.append({"kind": "const", "j": 0, "f": 0, "v": x})
                consts[ref(i)] = val(x, F)
            else:
                j = rng.choice(kept)
                f = rng.choice([-2, 2, -2, 2, 1, -1, 4, -4])
                sub.append({"kind": "var", "j": j + 1, "f": f, "v": 0})
                variables[ref(i)] = (ref(j), val(f, F))
        items = list(consts.items())
        rng.shuffle(items)
        consts = dict(items)
        items = list(variables.items())
        rng.shuffle(items)
        variables = dict(items)
        args = {}
        if consts or rng.random() < 0.3:
            args["constants"] = consts
        if variables or rng.random() < 0.3:
            args["variables"] = variables
        dst = qp.substitute_variables(**args)
        events.append({"ev": "sub", "sub": sub, "dst": qpio.project(dst, OUT), "after": qpio.project(qp, S)})
    if n >= 3:
        a, b, c = rng.sample(range(n), 3)
        nm = lambda i: names[i]
        bad = [
            ({nm(a): 1}, {nm(a): (nm(b), 1)}), ({a: 1, nm(a): 1}, None), (None, {nm(a): (nm(a), 1)}),
            (None, {nm(a): (a, -1)}), (None, {nm(a): (nm(b), 0)}), (None, {nm(a): (nm(b), 1), nm(b): (nm(c), 1)}),
            (None, {nm(b): (nm(c), 1), nm(a): (nm(b), 1)}), ({nm(b): 0}, {nm(a): (nm(b), 1)}),
            (None, {nm(a): (nm(b), 1), a: (nm(c), 1)}), (None, {nm(a): (nm(b), 1), nm(b): (nm(a), 1)}),
        ]
        for consts, variables in rng.sample(bad, 3):
            ok, res = attempt(qp.substitute_variables, consts, variables)
            events.append({"ev": "reject", "exc": "" if ok else exc_name(res), "after": qpio.project(qp, S)})
    return {"kind": "sub", "p": p, "events": events}
