"""C02: expressions denote the polynomial they were given."""
import random

import numpy as np

import qpio
from qpio import QuadraticProgram, q, val, lin_form, quad_form
from qiskit_optimization.problems import LinearExpression, QuadraticExpression

RULE = ("random coefficient data (asymmetric, sparse, zero, integer and fractional) in every accepted format and "
        "container, interleaved with added variables and entry updates; every read-out and value is compared")
ASSUMPTIONS = ["coefficients are multiples of 1/4 (some cases: of 2^-20, tiny or with up to 25 binary digits) and points multiples of 1/2"]


def models(ctx):
    ctx.model("MCExpr")


def groups(ctx):
    count = ctx.pick(1500, 12000)
    return [("TraceExpr", [{"kind": "expr", "seed": ctx.seed * 100003 + i, "n": 1 + i % 6 if i % 17 else 12}
                           for i in range(count)])]


def refusal(use):
    ok, ex = qpio.attempt(use)
    return "" if ok else qpio.exc_name(ex)


def point_form(rng, x, names, X):
    vals = [val(v, X) for v in x]
    form = rng.choice(["list", "array", "intarray", "dict_name", "dict_idx", "partial"])
    if form == "list":
        return vals
    if form == "array":
        return np.array(vals, dtype=float)
    if form == "intarray":
        return np.array(vals)
    items = [((names[i] if form == "dict_name" or rng.random() < 0.5 else i), v) for i, v in enumerate(vals)
             if v != 0 or form != "partial"]
    rng.shuffle(items)
    return dict(items)


def execute(spec):
    rng = random.Random(spec["seed"])
    qpio.seed_all(spec["seed"])
    n = spec["n"]
    S, mag = qpio.magnitude(rng, 4, n <= 4)
    X = 1 if mag else 2
    names = rng.choice(qpio.NAME_POOLS)(n + 4, rng)
    qp = QuadraticProgram()

    def add(name):
        rng.choice([lambda: qp.binary_var(name), lambda: qp.integer_var(-5, 5, name),
                    lambda: qp.continuous_var(-5, 5, name)])()

    for name in names[:n]:
        add(name)
    lim = mag or rng.choice([3, 20])
    unit = 1 if mag else rng.choice([1, 1, S])
    dens = rng.choice([0.3, 0.7, 1.0])

    def cf():
        return rng.randint(-lim, lim) * unit if rng.random() < dens else 0

    def draw():
        lin = [cf() for _ in range(n)]
        quad = [[cf() for _ in range(n)] for _ in range(n)]
        if rng.random() < 0.3:
            quad = [[quad[i][j] if i <= j else 0 for j in range(n)] for i in range(n)]
        elif rng.random() < 0.3:
            quad = [[quad[i][j] if i >= j else 0 for j in range(n)] for i in range(n)]
        return cf(), lin, quad

    events = []
    const, lin, quad = draw()
    container = rng.choice(["objective", "standalone", "setter", "coefficients"])

    def L():
        return lin_form(rng, lin, names, S)

    def Q():
        return quad_form(rng, quad, names, S)

    (qp.minimize if rng.random() < 0.5 else qp.maximize)(val(const, S), L(), Q())
    lcon = qp.linear_constraint(L(), "<=", 1)
    qcon = qp.quadratic_constraint(L(), Q(), "<=", 1)
    events.append({"ev": "create", "n": n, "const": const, "lin": lin, "quad": quad})
    lexpr, qexpr = qp.objective.linear, qp.objective.quadratic
    if container == "standalone":
        lexpr, qexpr = LinearExpression(qp, L()), QuadraticExpression(qp, Q())

    def all_lin():
        return [qp.objective.linear, lcon.linear, qcon.linear] + ([lexpr] if container == "standalone" else [])

    def all_quad():
        return [qp.objective.quadratic, qcon.quadratic] + ([qexpr] if container == "standalone" else [])

    def current():
        if container == "standalone":
            return lexpr, qexpr
        k = rng.random()
        if k < 0.5:
            return qp.objective.linear, qp.objective.quadratic
        if k < 0.7:
            return lcon.linear, qcon.quadratic
        return qcon.linear, qcon.quadratic

    def shuffled(queries):
        """Asks the queries in a random order: the answers must not depend on it."""
        order = list(queries)
        rng.shuffle(order)
        got = {k: (queries[k]() if callable(queries[k]) else queries[k]) for k in order}
        return {k: got[k] for k in queries}

    def values():
        x = [rng.choice([0, X, rng.randint(-6, 6) if not mag else rng.choice([-1, 1])]) for _ in range(n)]
        le, qe = current()

        def pt():
            return point_form(rng, x, names, X)

        events.append(shuffled({
            "ev": "values", "x": x, "X": X,
            "lin": lambda: q(le.evaluate(pt()), S * X), "quad": lambda: q(qe.evaluate(pt()), S * X * X),
            "obj": lambda: q(qp.objective.evaluate(pt()), S * X * X),
            "lcon": lambda: q(lcon.evaluate(pt()), S * X), "qcon": lambda: q(qcon.evaluate(pt()), S * X * X),
            "glin": lambda: [q(v, S) for v in np.asarray(le.evaluate_gradient(pt())).ravel()],
            "gquad": lambda: [q(v, S * X) for v in np.asarray(qe.evaluate_gradient(pt())).ravel()],
            "gobj": lambda: [q(v, S * X) for v in np.asarray(qp.objective.evaluate_gradient(pt())).ravel()],
        }))

    def read():
        le, qe = current()
        pos = {name: i for i, name in enumerate(names)}
        nm = [v.name for v in qp.variables]
        events.append(shuffled({
            "ev": "read", "const": lambda: q(qp.objective.constant, S),
            "larr": lambda: [q(v, S) for v in le.to_array()],
            "ldict": lambda: [[int(k), q(v, S)] for k, v in le.to_dict().items()],
            "lnamed": lambda: [[pos[k], q(v, S)] for k, v in le.to_dict(use_name=True).items()],
            "litem": lambda: [q(le[i], S) for i in range(n)],
            "lnameditem": lambda: [q(le[a], S) for a in nm],
            "qarr": lambda: [[q(v, S) for v in row] for row in qe.to_array()],
            "qsym": lambda: [[q(v, 2 * S) for v in row] for row in qe.to_array(symmetric=True)],
            "qdict": lambda: [[int(i), int(j), q(v, S)] for (i, j), v in qe.to_dict().items()],
            "qnamed": lambda: [[pos[i], pos[j], q(v, S)] for (i, j), v in qe.to_dict(use_name=True).items()],
            "qsymdict": lambda: [[int(i), int(j), q(v, 2 * S)] for (i, j), v in qe.to_dict(symmetric=True).items()],
            "qsymnamed": lambda: [[pos[i], pos[j], q(v, 2 * S)] for (i, j), v in qe.to_dict(symmetric=True, use_name=True).items()],
            "qitem": lambda: [[q(qe[i, j], S) for j in range(n)] for i in range(n)],
            "qnameditem": lambda: [[q(qe[a, b], S) for b in nm] for a in nm],
        }))

    for _ in range(rng.randint(4, 8)):
        act = rng.choice(["values", "values", "read", "grow", "setlin", "setquad", "recreate", "refuse"])
        if act == "values":
            values()
        elif act == "read":
            read()
        elif act == "grow" and n < len(names):
            k = rng.randint(1, min(2, len(names) - n))
            for name in names[n:n + k]:
                add(name)
            n += k
            events.append({"ev": "grow", "k": k})
            rng.choice([values, read])()
        elif act == "setlin":
            i, v = rng.randrange(n), cf()
            for e in all_lin():
                e[i if rng.random() < 0.5 else names[i]] = val(v, S)
            events.append({"ev": "setlin", "i": i, "v": v})
        elif act == "setquad":
            i, j, v = rng.randrange(n), rng.randrange(n), cf()
            for e in all_quad():
                e[(i if rng.random() < 0.5 else names[i]), (j if rng.random() < 0.5 else names[j])] = val(v, S)
            events.append({"ev": "setquad", "i": i, "j": j, "v": v})
        elif act == "refuse":
            bad = rng.choice(["text", 3.5, {1, 2}, ("a", 1)])
            le, qe = current()
            target = rng.choice(["lexpr", "qexpr", "lset", "qset", "lcoef", "qcoef"])

            def use():
                if target == "lexpr":
                    LinearExpression(qp, bad)
                elif target == "qexpr":
                    QuadraticExpression(qp, bad)
                elif target == "lset":
                    rng.choice([qp.objective, lcon, qcon]).linear = bad
                elif target == "qset":
                    rng.choice([qp.objective, qcon]).quadratic = bad
                elif target == "lcoef":
                    le.coefficients = bad if rng.random() < 0.7 else np.ones((n, n))
                else:
                    qe.coefficients = bad
            events.append({"ev": "refuse", "exc": refusal(use)})
        elif act == "recreate" and container in ("setter", "coefficients"):
            const, lin, quad = draw()
            qp.objective.constant = val(const, S)
            for holder in (qp.objective, lcon, qcon):
                if container == "setter":
                    holder.linear = L()
                else:
                    holder.linear.coefficients = L()
            for holder in (qp.objective, qcon):
                if container == "setter":
                    holder.quadratic = Q()
                else:
                    holder.quadratic.coefficients = Q()
            events.append({"ev": "create", "n": n, "const": const, "lin": lin, "quad": quad})
    values()
    read()
    return {"kind": "expr", "events": events}
