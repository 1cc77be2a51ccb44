"""C01: edit histories of a quadratic program."""
import random

import numpy as np

import qpio
from qpio import QuadraticProgram, val, q, T2S, C2S, S2T, SENSE_WORDS, lin_form, quad_form, attempt, exc_name

S = 8
RULE = ("histories of public edit calls (including failing ones) generated by TLC from MCRegistry and by a "
        "random generator with wider arguments; after every call the whole observable program is compared")
ASSUMPTIONS = ["single-threaded use", "coefficients are multiples of 1/8"]


def models(ctx):
    ctx.model("MCRegistry", "MCRegistryBig.cfg" if ctx.thorough else "MCRegistry.cfg")


def groups(ctx):
    hist = ctx.behaviours("MCRegistry", "GenRegistry.cfg", ctx.pick(450, 3000), 18)
    specs = [{"kind": "hist", "ops": h, "seed": ctx.seed * 100003 + i} for i, h in enumerate(hist)]
    for i in range(ctx.pick(750, 6000)):
        specs.append({"kind": "random", "seed": ctx.seed * 7919 + i, "len": 30 if i % 10 == 0 else 14})
    for i in range(ctx.pick(24, 200)):  # programs that grow large and are cleared late
        specs.append({"kind": "random", "seed": ctx.seed * 7919 + 100000 + i, "len": 70, "grow": True})
    for i in range(ctx.pick(24, 200)):  # many variables
        specs.append({"kind": "random", "seed": ctx.seed * 7919 + 200000 + i, "len": 25, "many": True})
    return [("TraceRegistry", specs)]


def observe(qp):
    n = qp.get_num_vars()
    lookup = True
    for i, v in enumerate(qp.variables):
        lookup = lookup and qp.get_variable(i) is v and qp.get_variable(v.name) is v
    for i, c in enumerate(qp.linear_constraints):
        lookup = lookup and qp.get_linear_constraint(i) is c and qp.get_linear_constraint(c.name) is c
    for i, c in enumerate(qp.quadratic_constraints):
        lookup = lookup and qp.get_quadratic_constraint(i) is c and qp.get_quadratic_constraint(c.name) is c
    owner = all(e.quadratic_program is qp for e in
                list(qp.variables) + list(qp.linear_constraints) + list(qp.quadratic_constraints) + [qp.objective])
    p = qpio.project(qp, S)
    return {
        "name": p["name"], "status": p["status"], "vars": p["vars"],
        "vmap": [[k, int(v)] for k, v in qp.variables_index.items()],
        "counts": {"total": n, "B": qp.get_num_binary_vars(), "I": qp.get_num_integer_vars(),
                   "C": qp.get_num_continuous_vars()},
        "lc": p["lc"], "qc": p["qc"],
        "lmap": [[k, int(v)] for k, v in qp.linear_constraints_index.items()],
        "qmap": [[k, int(v)] for k, v in qp.quadratic_constraints_index.items()],
        "numl": qp.get_num_linear_constraints(), "numq": qp.get_num_quadratic_constraints(),
        "obj": {"sense": p["sense"], "const": p["const"], "lin": p["lin"], "quad": p["quad"]},
        "lookup": bool(lookup), "owner": bool(owner),
    }


def rnd_op(rng, qp, weights=None):
    """A random call, biased towards valid ones."""
    n = qp.get_num_vars()
    lns = [c.name for c in qp.linear_constraints]
    qns = [c.name for c in qp.quadratic_constraints]
    vns = [v.name for v in qp.variables]
    kind = rng.choices(["addvars", "addlin", "addquad", "rmlin", "rmquad", "setobj", "setbound", "settype",
                        "setcon", "setname", "clear"], weights or [30, 16, 14, 9, 8, 8, 6, 3, 4, 2, 2])[0]
    if kind == "addvars":
        bulk = rng.choice(["count", "keys", "count"])
        typ = rng.choice("BIC")
        lb, ub = (0, S) if typ == "B" else (rng.randint(-20, 20) * (S if typ == "I" else 1), 0)
        if typ != "B":
            ub = lb + rng.choice([0, 8, 16, 24, 400]) if rng.random() < 0.9 else lb - 8
            if typ == "C" and rng.random() < 0.2:
                lb, ub = rng.choice([(-qpio.INF, qpio.INF), (0, qpio.INF), (-qpio.INF, 8)])
        base = rng.choice(["x", "x", "y", "x1", "c0", "var", "", "x0", "ab"])
        if vns and rng.random() < 0.15:
            base = rng.choice(vns)
        elif rng.random() < 0.15:
            base = "x" + str(n + rng.randint(1, 3))
        fmt = rng.choice(["one", "one", "none", "none", "bad"] if rng.random() < 0.5 else ["one", "none"])
        return {"op": kind, "bulk": bulk, "count": rng.choice([0, 1, 1, 1, 2, 3, -1, 12]) if bulk == "count" else 0,
                "keys": rng.choice([["1", "2"], ["0"], ["a", "b", "c"], ["2", "1", "0"], ["1", "1"], [], ["a", "a"],
                                    ["(1, 2)", "(2, 1)"], ["10", "9", "11"], [str(k) for k in range(12)],
                                    ["k%d" % (7 * k % 13) for k in range(13)], [str(9 * k % 11) for k in range(11)]]) if bulk == "keys" else [],
                "base": base, "fmt": fmt, "pre": rng.choice(["", "", "_", "k"]),
                "post": rng.choice(["", "", "z", "_"]), "type": typ, "lb": lb, "ub": ub}
    if kind in ("addlin", "addquad"):
        pool = lns if kind == "addlin" else qns
        nonlin, nonquad = int(rng.random() < 0.85), int(rng.random() < 0.85)
        letter = "c" if kind == "addlin" else "q"
        name = rng.choice(["", "", letter + str(rng.randint(0, 4)), letter + str(len(pool) + rng.randint(1, 3)), "con",
                           rng.choice(pool) if pool else "z"])
        return {"op": kind, "name": name, "bad": rng.random() < 0.15,
                "lin": [rng.choice([0, rng.randint(-30, 30)]) * nonlin for _ in range(n)],
                "quad": [[rng.choice([0, 0, rng.randint(-30, 30)]) * nonquad for _ in range(n)] for _ in range(n)],
                "sense": rng.choice(["LE", "GE", "EQ"]), "rhs": rng.randint(-50, 50)}
    if kind in ("rmlin", "rmquad", "setbound", "settype", "setcon"):
        pool = {"rmlin": lns, "rmquad": qns, "setbound": vns, "settype": vns, "setcon": lns}[kind]
        by = rng.choice(["name", "index"])
        op = {"op": kind, "by": by, "name": (rng.choice(pool) if pool and rng.random() < 0.85 else "nope") if by == "name" else "",
              "index": rng.randint(-1, max(0, len(pool) - 1)) if rng.random() < 0.85 else len(pool)}
        if kind == "setbound":
            op.update(side=rng.choice(["lb", "ub"]), value=rng.randint(-20, 20) * S)
        if kind == "settype":
            op.update(type=rng.choice("BIC"))
        if kind == "setcon":
            op.update(rhs=rng.randint(-30, 30), sense=rng.choice(["LE", "GE", "EQ"]),
                      lin=[rng.randint(-30, 30) for _ in range(n)])
        return op
    if kind == "setobj":
        return {"op": kind, "bad": rng.random() < 0.1, "dir": rng.choice([1, -1]), "const": rng.randint(-40, 40),
                "lin": [rng.choice([0, rng.randint(-30, 30)]) for _ in range(n)],
                "quad": [[rng.choice([0, 0, rng.randint(-30, 30)]) for _ in range(n)] for _ in range(n)]}
    if kind == "setname":
        return {"op": kind, "name": rng.choice(["p", "", "q w"])}
    return {"op": kind}


def growing(qp, k):
    if k == 55:
        return [0] * 10 + [1]
    return [14 if qp.get_num_vars() < 13 else 1, 30, 30, 4, 4, 1, 1, 1, 1, 0, 0]


def call(rng, qp, op):
    """Performs op through one of the equivalent public calls; returns the names it reports."""
    names = [v.name for v in qp.variables]
    kind = op["op"]
    if kind == "addvars":
        long = {"B": "binary", "I": "integer", "C": "continuous"}[op["type"]]
        args = {} if op["type"] == "B" else {"lowerbound": val(op["lb"], S), "upperbound": val(op["ub"], S)}
        fmt = {"one": op["pre"] + "{}" + op["post"], "none": op["pre"],
               "bad": rng.choice(["{{}}", "{}{}", "a{}b{}"])}[op["fmt"]]
        single = op["bulk"] == "count" and op["count"] == 1
        if single and op["fmt"] == "none" and op["pre"] == "" and op["base"] and rng.random() < 0.7:
            return [getattr(qp, long + "_var")(name=op["base"], **args).name]
        if single and op["fmt"] == "one" and op["base"] == "x" and not op["pre"] and not op["post"] and rng.random() < 0.7:
            return [getattr(qp, long + "_var")(**args).name]
        if op["bulk"] == "count":
            keys = op["count"]
        else:
            keys = [int(k) if k.isdigit() and rng.random() < 0.5 else k for k in op["keys"]]
            if rng.random() < 0.3:
                keys = tuple(keys)
        kw = {"name": op["base"], "key_format": fmt}
        if op["base"] == "x" and rng.random() < 0.5:
            del kw["name"]
        if fmt == "{}" and rng.random() < 0.5:
            del kw["key_format"]
        if rng.random() < 0.5:
            return [v.name for v in getattr(qp, long + "_var_list")(keys, **args, **kw)]
        res = getattr(qp, long + "_var_dict")(keys, **args, **kw)
        if any(k != v.name for k, v in res.items()):
            raise AssertionError("dictionary key is not the variable name")
        return list(res)
    if kind in ("addlin", "addquad", "setobj"):
        if kind == "setobj":
            op["why"] = rng.choice(["variable", "format"]) if op["bad"] else ""
        else:
            op["why"] = rng.choice(["variable", "sense", "format"]) if op["bad"] else ""
        lin = lin_form(rng, op["lin"], names, S)
        if op["why"] == "variable":
            lin = {"no such variable": 1.0}
        elif op["why"] == "format":
            lin = "abc"
        if kind == "addlin":
            sense = "?" if op["why"] == "sense" else rng.choice(SENSE_WORDS[op["sense"]])
            if not op["bad"] and not any(op["lin"]) and rng.random() < 0.3:
                lin = None
            return [qp.linear_constraint(lin, sense, val(op["rhs"], S), op["name"] or rng.choice([None, ""])).name]
        quad = quad_form(rng, op["quad"], names, S)
        if op["bad"] and op["why"] in ("variable", "format") and rng.random() < 0.5:
            lin = lin_form(rng, op["lin"], names, S)
            quad = {("no such variable", "x"): 1.0} if op["why"] == "variable" else 3
        if not op["bad"] and not any(op["lin"]) and rng.random() < 0.3:
            lin = None
        if not op["bad"] and not any(map(any, op["quad"])) and rng.random() < 0.3:
            quad = None
        if kind == "addquad":
            sense = "?" if op["why"] == "sense" else rng.choice(SENSE_WORDS[op["sense"]])
            return [qp.quadratic_constraint(lin, quad, sense, val(op["rhs"], S), op["name"] or rng.choice([None, ""])).name]
        (qp.minimize if op["dir"] == 1 else qp.maximize)(val(op["const"], S), lin, quad)
        return []
    key = op.get("name") if op.get("by") == "name" else op.get("index")
    if kind == "rmlin":
        qp.remove_linear_constraint(key)
    elif kind == "rmquad":
        qp.remove_quadratic_constraint(key)
    elif kind == "setbound":
        setattr(qp.get_variable(key), {"lb": "lowerbound", "ub": "upperbound"}[op["side"]], val(op["value"], S))
    elif kind == "settype":
        qp.get_variable(key).vartype = S2T[op["type"]]
    elif kind == "setcon":
        con = qp.get_linear_constraint(key)
        con.rhs = val(op["rhs"], S)
        con.sense = {v: k for k, v in C2S.items()}[op["sense"]]
        con.linear = lin_form(rng, op["lin"], names, S)
    elif kind == "setname":
        qp.name = op["name"]
    elif kind == "clear":
        qp.clear()
    return []


def execute(spec):
    rng = random.Random(spec["seed"])
    qp = QuadraticProgram()
    events = []
    ops = spec.get("ops")
    for k in range(len(ops) if ops else spec["len"]):
        weights = growing(qp, k) if spec.get("grow") else None
        if spec.get("many"):
            weights = [1 if qp.get_num_vars() < 25 else 0, 0, 0, 0, 0, 0, 0.03, 0.03, 0, 0.01, 0]
        op = dict(ops[k]) if ops else rnd_op(rng, qp, weights)
        if spec.get("many") and op["op"] == "addvars" and rng.random() < 0.7:
            # automatic numbers meet names that were given before
            op.update(base="x", pre="", post="", fmt="one")
            if op["bulk"] == "keys":
                op["keys"] = [str(k) for k in rng.sample(range(30), rng.randint(1, 4))]
        ok, res = attempt(call, rng, qp, op)
        op.setdefault("why", "")
        events.append({"op": op, "ok": ok, "exc": "" if ok else exc_name(res), "ret": res if ok else [],
                       "post": observe(qp)})
    return {"kind": "history", "events": events}
