"""C05: exchange with DOcplex models and LP files."""
import contextlib
import io
import os
import random
import shutil
import tempfile

from docplex.mp.model import Model

import qpio
from qpio import QuadraticProgram, attempt, exc_name, val

S = 4
RULE = "random programs exported and re-imported through DOcplex and LP files; random DOcplex models with terms on both sides; unsupported models"
ASSUMPTIONS = ["binary variables have bounds 0 and 1", "quadratic constraints contain a quadratic term",
               "LP files list variables in order of appearance, so LP round trips are compared by variable name",
               "variables that occur in no expression are lost by LP files (known finding); every variable occurs somewhere otherwise"]


def models(ctx):
    ctx.model("MCExchange")


def groups(ctx):
    k = ctx.pick(1350, 9000)
    kinds = ["docplex", "docplex", "lp", "import", "import", "reject", "docplex", "lp", "import", "hollow"]
    specs = [{"kind": kinds[i % 10], "seed": ctx.seed * 100003 + i} for i in range(k)]
    return [("TraceExchange", specs + [{"kind": "lp", "seed": 0, "key": "lp-unused-variable"}])]


def program(rng, lp=False):
    S, mag = (globals()["S"], None) if lp else qpio.magnitude(rng, globals()["S"])
    n = rng.randint(1, 6) if rng.random() < 0.9 else 12
    pool = None
    if lp:
        pool = rng.choice([lambda n, r: ["x{}".format(i) for i in range(n)],
                           lambda n, r: ["v_{}".format(n - i) for i in range(n)],
                           lambda n, r: r.sample(["a", "b", "x", "y", "z1", "var", "s_1", "t", "u", "w", "k9", "x10", "x2"], n)])
    p = qpio.rnd_program(rng, n, rng.choice(["B", "I", "C", "BIC", "BI"]), scale=S, lim=mag, nl=rng.randint(0, 3),
                         nq=rng.randint(0, 2), cont_inf=True, clash=not lp, coef=rng.choice([2, 9]), full_quad=rng.random() < 0.3, pool=pool)
    for c in p["lc"]:
        if not any(c["lin"]):
            c["rhs"] = 0
        if lp and not any(c["lin"]):
            c["lin"][0] = S
    for c in p["qc"]:
        if not any(any(r) for r in c["quad"]):
            c["quad"][0][n - 1] = 3
    for v in p["vars"]:
        if v["type"] == "I" and rng.random() < 0.2:
            v["ub"] = v["lb"] + 100 * S
    return p


def used(p, i):
    rows = [p["lin"]] + [c["lin"] for c in p["lc"] + p["qc"]]
    mats = [p["quad"]] + [c["quad"] for c in p["qc"]]
    return any(r[i] for r in rows) or any(any(m[i]) or any(r[i] for r in m) for m in mats)


def execute(spec):
    rng = random.Random(spec["seed"])
    kind = spec["kind"]
    S = globals()["S"]
    if kind == "docplex":
        p = program(rng)
        S = p["S"]
        qp = qpio.build(p, rng, plain=False, warm=lambda old: old.to_docplex())
        model = qp.to_docplex()
        dst = QuadraticProgram("old")
        if rng.random() < 0.5:      # the importing program already holds something
            dst.binary_var("x0")
            dst.linear_constraint({"x0": 1}, "<=", 1, "c0")
            dst.minimize(linear={"x0": 5})
        dst.from_docplex(model)
        return {"kind": kind, "p": p, "events": [{"ev": "docplex", "dst": qpio.project(dst, S), "after": qpio.project(qp, S)}]}
    if kind == "lp":
        p = program(rng, lp=True)
        p["name"] = rng.choice(["prob", "p1", "my prob", "a-b c"])
        for i in range(len(p["vars"])):
            if not used(p, i):
                p["lin"][i] = S
        if "key" in spec:       # a variable that occurs nowhere
            p = {"S": S, "name": "prob", "status": "VALID", "sense": 1, "const": 0, "lin": [S, 0], "quad": [[0, 0], [0, 0]], "lc": [], "qc": [],
                 "vars": [{"name": "x", "type": "B", "lb": 0, "ub": S}, {"name": "y", "type": "B", "lb": 0, "ub": S}]}
        qp = qpio.build(p, rng, plain=False, warm=lambda old: old.export_as_lp_string())
        folder = tempfile.mkdtemp(prefix="verif_lp_")
        try:
            path = os.path.join(folder, "prog.lp")
            if rng.random() < 0.5:
                qp.write_to_lp_file(path)
            else:
                with open(path, "w") as out:
                    out.write(qp.export_as_lp_string())
            dst = QuadraticProgram()
            dst.read_from_lp_file(path)
        finally:
            shutil.rmtree(folder)
        return {"kind": kind, "p": p, "events": [{"ev": "lp", "dst": qpio.project(dst, S), "after": qpio.project(qp, S)}]}
    if kind == "hollow":      # constraints without terms: always true or never
        p = program(rng)
        S = p["S"]
        for c in p["lc"] + p["qc"]:
            if rng.random() < 0.5:
                c["lin"] = [0] * len(p["vars"])
                if "quad" in c:
                    c["quad"] = [[0] * len(p["vars"]) for _ in p["vars"]]
                c["rhs"] = rng.choice([0, S, -S])
        qp = qpio.build(p, rng)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):     # docplex prints what it refuses
            ok, model = attempt(qp.to_docplex)
        dst = QuadraticProgram()
        if ok:
            dst.from_docplex(model)
        return {"kind": kind, "p": p, "events": [{"ev": "hollow", "exc": "" if ok else exc_name(model), "dst": qpio.project(dst, S),
                                                  "after": qpio.project(qp, S)}]}
    if kind == "import":
        return imported(rng)
    return rejected(rng)


def mk_vars(rng, mdl, n):
    res, recs = [], []
    for i in range(n):
        t = rng.choice("BIC")
        name = "v{}".format(i)
        lb, ub = (0, S) if t == "B" else (rng.randint(-3, 3) * S, 4 * S)
        if t == "B":
            res.append(mdl.binary_var(name=name))
        elif t == "I":
            res.append(mdl.integer_var(val(lb, S), val(ub, S), name))
        else:
            ub = rng.choice([4 * S, qpio.INF])
            res.append(mdl.continuous_var(val(lb, S), val(ub, S), name))
        recs.append({"name": name, "type": t, "lb": lb, "ub": ub})
    return res, recs


def side(rng, xs, quad, allow_const=True):
    """A random expression and its record; written term by term, with repetitions."""
    n = len(xs)
    rec = {"const": 0, "lin": [0] * n, "quad": [[0] * n for _ in range(n)]}
    expr = 0
    terms = rng.randint(1, 4)
    for _ in range(terms):
        k = rng.random()
        c = rng.choice([-8, -4, -2, -1, 1, 2, 4, 8])
        i, j = rng.randrange(n), rng.randrange(n)
        if quad and k < 0.5:
            expr = expr + val(c, S) * xs[i] * xs[j]
            rec["quad"][i][j] += c
        elif k < 0.85 or not allow_const:
            expr = expr + val(c, S) * xs[i]
            rec["lin"][i] += c
        else:
            expr = expr + val(c, S)
            rec["const"] += c
    return expr, rec


def nonzero_lin(rec):
    return any(rec["lin"])


def imported(rng):
    mdl = Model("imp")
    n = rng.randint(1, 4)
    xs, recs = mk_vars(rng, mdl, n)
    style = rng.choice(["poly", "var", "linear", "const", "neg"])
    if style == "var":
        i = rng.randrange(n)
        obj, rec = xs[i], {"const": 0, "lin": [S if k == i else 0 for k in range(n)], "quad": [[0] * n for _ in range(n)]}
    elif style == "const":
        obj, rec = 3, {"const": 3 * S, "lin": [0] * n, "quad": [[0] * n for _ in range(n)]}
    elif style == "neg":
        i = rng.randrange(n)
        obj, rec = -2 * xs[i], {"const": 0, "lin": [-2 * S if k == i else 0 for k in range(n)], "quad": [[0] * n for _ in range(n)]}
    else:
        obj, rec = side(rng, xs, style == "poly")
    sense = rng.choice([1, -1])
    (mdl.minimize if sense == 1 else mdl.maximize)(obj)
    lins, quads = [], []
    tries = 0
    want_l, want_q = rng.randint(0, 3), rng.randint(0, 2)
    while (len(lins) < want_l or len(quads) < want_q) and tries < 60:
        tries += 1
        isq = len(lins) >= want_l
        left, lr = side(rng, xs, isq)
        if rng.random() < 0.2 and not isq:
            i = rng.randrange(n)
            left, lr = xs[i], {"const": 0, "lin": [S if k == i else 0 for k in range(n)], "quad": [[0] * n for _ in range(n)]}
        k = rng.random()
        if k < 0.3:
            c = rng.randint(-9, 9)
            right, rr = val(c, S), {"const": c, "lin": [0] * n, "quad": [[0] * n for _ in range(n)]}
        elif k < 0.5:
            i = rng.randrange(n)
            right, rr = xs[i], {"const": 0, "lin": [S if q == i else 0 for q in range(n)], "quad": [[0] * n for _ in range(n)]}
        else:
            right, rr = side(rng, xs, isq)
        diff = [a - b for a, b in zip(lr["lin"], rr["lin"])]
        tri = lambda m: [[m[i][j] + m[j][i] if i < j else m[i][j] if i == j else 0 for j in range(n)] for i in range(n)]
        qd = [[a - b for a, b in zip(r, s)] for r, s in zip(tri(lr["quad"]), tri(rr["quad"]))]
        if isq and not any(any(r) for r in qd):
            continue
        if not isq and not any(diff):
            continue
        s = rng.choice(["LE", "GE", "EQ"])
        con = {"LE": lambda: left <= right, "GE": lambda: left >= right, "EQ": lambda: left == right}[s]()
        name = None
        if rng.random() < 0.6:
            name = "k{}".format(tries)
        mdl.add_constraint(con, name)
        (quads if isq else lins).append({"name": name, "sense": s, "left": lr, "right": rr})
    taken = {c["name"] for c in lins if c["name"]}
    # automatic names are those of the registry: c<k>, q<k> counted from the number of constraints so far
    for lst, letter in ((lins, "c"), (quads, "q")):
        for k, c in enumerate(lst):
            if c["name"] is None:
                c["name"] = letter + str(k)
    dst = QuadraticProgram()
    dst.from_docplex(mdl)
    p = {"S": S, "name": "imp", "status": "VALID", "vars": recs, "sense": sense, "const": rec["const"], "lin": rec["lin"],
         "quad": rec["quad"], "lc": [], "qc": []}
    return {"kind": "import", "p": p, "events": [{"ev": "import", "dst": qpio.project(dst, S), "lin": lins, "quad": quads}]}


def rejected(rng):
    mdl = Model("bad")
    x = mdl.binary_var(name="x")
    y = mdl.integer_var(0, 5, "y")
    mdl.minimize(x + y)
    which = rng.choice(["semic", "semii", "ne", "range", "indicator", "ifthen", "equiv"])
    if which == "semic":
        mdl.semicontinuous_var(lb=1, ub=5, name="z")
    elif which == "semii":
        mdl.semiinteger_var(lb=1, ub=5, name="z")
    elif which == "ne":
        mdl.add(x != y)
    elif which == "range":
        mdl.add_range(0, x + y, 3)
    elif which == "indicator":
        mdl.add_indicator(x, y <= 2)
    elif which == "ifthen":
        mdl.add_if_then(y <= 1, y + x <= 2)
    else:
        mdl.add_equivalence(x, y >= 2)
    ok, res = attempt(QuadraticProgram().from_docplex, mdl)
    return {"kind": "reject", "p": {}, "events": [{"ev": "reject", "exc": "" if ok else exc_name(res), "which": which}]}
