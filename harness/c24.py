"""C24: compatibility reports and refusals."""
import random
from unittest import mock

import numpy as np
import scipy.optimize

from qiskit_optimization import QuadraticProgram, QiskitOptimizationError
from qiskit_optimization.algorithms import (ADMMOptimizer, CobylaOptimizer, CplexOptimizer, GoemansWilliamsonOptimizer, GroverOptimizer,
                                            MinimumEigenOptimizer, RecursiveMinimumEigenOptimizer, SlsqpOptimizer, WarmStartQAOAOptimizer)
from qiskit_optimization.algorithms import goemans_williamson_optimizer
from qiskit_optimization.algorithms.admm_optimizer import ADMMParameters
from qiskit_optimization.algorithms.warm_start_qaoa_optimizer import WarmStartQAOAFactory
from qiskit_optimization.converters import (InequalityToEquality, IntegerToBinary, LinearEqualityToPenalty, QuadraticProgramToQubo)

import c12
import convlib
import qpio
from stubs import FixedEigensolver, NoStateSupport, StubOptimizer

S = 2
KINDS = ["eigen", "recursive", "grover", "warm", "toqubo", "slsqp", "cobyla", "cuts", "admm", "admm", "cplex", "penalty", "ising"]
RULE = ("random programs over every mixture of variable types, constraint kinds and fractional data, given to every optimizer and "
        "conversion (reports, refusals and the calls that reach the plugged-in solvers recorded); settings around their limits; "
        "feasible and infeasible problems for the exact back end")
ASSUMPTIONS = ["plugged-in solvers are stand-ins", "at most 5 variables"]


def models(ctx):
    ctx.model("MCCompat")


def groups(ctx):
    n = ctx.pick(2700, 18000)
    specs = [{"seed": ctx.seed * 100003 + i, "kind": KINDS[i % len(KINDS)]} for i in range(n)]
    specs += [{"seed": ctx.seed * 100003 + i, "kind": "setting"} for i in range(ctx.pick(450, 3000))]
    specs += [{"seed": ctx.seed * 100003 + i, "kind": "exact"} for i in range(ctx.pick(180, 1200))]
    return [("TraceCompat", specs)]


def program(rng):
    n = rng.randint(1, 4)
    types = rng.choice(["B", "B", "I", "C", "C", "BI", "BC", "IC", "BIC"])
    p = qpio.rnd_program(rng, n, types, scale=S, coef=2, bound=2, nl=rng.choice([0, 0, 1, 2]), nq=rng.choice([0, 0, 0, 1]),
                         con_int=rng.random() < 0.6, full_quad=rng.random() < 0.3, quad_density=0.4)
    for v in p["vars"]:
        if v["type"] == "I":
            v["lb"] = rng.choice([-1, 0]) * S
            v["ub"] = v["lb"] + rng.choice([1, 2]) * S
    qpio.nonempty(p, rng)
    if rng.random() < 0.4:
        for i, v in enumerate(p["vars"]):
            for j, w in enumerate(p["vars"]):
                if (v["type"] == "C") != (w["type"] == "C"):
                    p["quad"][i][j] = 0
    if rng.random() < 0.4:
        for c in p["lc"]:
            c["sense"] = "EQ"
    # satisfied somewhere, so that the conversions have no other reason to refuse
    x = [rng.choice(convlib.domain(p, i) or [0]) for i in range(n)]
    for c in p["lc"]:
        c["rhs"] = sum(a * b for a, b in zip(c["lin"], x))
    for c in p["qc"]:
        c["rhs"] = sum(a * b for a, b in zip(c["lin"], x)) + sum(c["quad"][i][j] * x[i] * x[j] for i in range(n) for j in range(n))
    return p


def execute(spec):
    rng = random.Random(spec["seed"])
    qpio.seed_all(spec["seed"])
    if spec["kind"] == "setting":
        return {"kind": "setting", "events": [setting(rng)]}
    if spec["kind"] == "exact":
        return exact(rng)
    kind = spec["kind"]
    p = program(rng)
    qp = qpio.build(p, rng, plain=False, warm=lambda old: [
        o.get_compatibility_msg(old) for o in (CplexOptimizer(), GroverOptimizer(2), ADMMOptimizer())])
    calls = []

    def answer(problem):
        calls.append(1)
        return [(np.array([min(max(0.0, v.lowerbound), v.upperbound) for v in problem.variables]), 1.0)]

    def state(op):
        calls.append(1)
        vec = np.zeros(2 ** op.num_qubits)
        vec[0] = 1
        return vec

    solver = FixedEigensolver(state)
    stub = StubOptimizer(answer)
    reports, run = True, True
    if kind == "eigen":
        opt = MinimumEigenOptimizer(solver)
    elif kind == "recursive":
        opt = RecursiveMinimumEigenOptimizer(stub, min_num_vars_optimizer=stub)
    elif kind == "warm":
        stub.status = __import__("qiskit_optimization").algorithms.OptimizationResultStatus.SUCCESS
        opt = WarmStartQAOAOptimizer(stub, rng.random() < 0.5, solver)
    elif kind == "grover":
        class Machine:
            is_statevector = False

            def execute(self, circuit):
                calls.append(1)
                raise KeyError("stop here")
        opt = GroverOptimizer(3, quantum_instance=Machine())
    elif kind == "slsqp":
        opt = SlsqpOptimizer(iter=3)
    elif kind == "cobyla":
        opt = CobylaOptimizer(maxfun=10)
    elif kind == "cuts":
        opt = GoemansWilliamsonOptimizer(2)
        run = False
    elif kind == "admm":
        opt = ADMMOptimizer(stub, stub, ADMMParameters(maxiter=1))
    elif kind == "cplex":
        opt = CplexOptimizer()
        run = False
    elif kind == "toqubo":
        opt = QuadraticProgramToQubo()
    else:
        opt = LinearEqualityToPenalty(3) if kind == "penalty" else None
        reports = False
    empty = compatible = True
    if reports:
        empty = not opt.get_compatibility_msg(qp)
        compatible = opt.is_compatible(qp)
        if not isinstance(compatible, (bool, np.bool_)):
            raise TypeError("is_compatible returned {!r}".format(compatible))
    outcome = "ok"
    try:
        if kind in ("toqubo", "penalty"):
            opt.convert(qp)
        elif kind == "ising":
            qp.to_ising()
        elif run or not empty:
            opt.solve(qp)
        else:
            outcome = "notrun"
    except QiskitOptimizationError:
        outcome = "QiskitOptimizationError"
    except KeyError as exc:
        if kind != "grover" or "stop here" not in str(exc):
            raise
    except Exception as exc:  # other errors: Grover refuses fractional objectives, a solver fails on degenerate data
        if empty and kind in ("grover", "slsqp", "cobyla"):
            outcome = "notrun"
        else:
            outcome = type(exc).__name__
    return {"kind": "compat", "events": [{"ev": "report", "kind": kind, "p": p, "reports": reports, "empty": empty,
                                          "compatible": bool(compatible), "outcome": outcome, "calls": len(calls),
                                          "after": qpio.project(qp, S)}]}


def raised(fun):
    try:
        fun()
    except Exception as exc:
        return qpio.exc_name(exc)
    return ""


def setting(rng):
    what = rng.choice(["epsilon", "epsilon", "min_num_vars", "converters", "converters", "bounds", "flag", "flag"])
    solver = FixedEigensolver(lambda op: None)
    stub = StubOptimizer(lambda problem: [])
    if what == "epsilon":
        v = rng.choice([-16, -1, 0, 1, 4, 7, 8, 9, 16, 20])
        fun = rng.choice([lambda: WarmStartQAOAFactory(v / 16), lambda: WarmStartQAOAOptimizer(stub, True, solver, epsilon=v / 16)])
        return {"ev": "setting", "what": what, "v": v, "raised": raised(fun), "error": "QiskitOptimizationError"}
    if what == "min_num_vars":
        k = rng.choice([-3, 0, 1, 2, 5])
        return {"ev": "setting", "what": what, "v": 16 * k, "error": "ValueError",
                "raised": raised(lambda: RecursiveMinimumEigenOptimizer(stub, min_num_vars=k))}
    if what == "converters":
        good = [QuadraticProgramToQubo(), IntegerToBinary(), InequalityToEquality(), LinearEqualityToPenalty()]
        bad = ["qubo", 3, object(), QuadraticProgramToQubo]
        if rng.random() < 0.3:
            ok = rng.random() < 0.5
            arg, v = (rng.choice(good), [True]) if ok else (rng.choice(bad), [False])
        else:
            v = [rng.random() < 0.75 for _ in range(rng.randint(0, 4))]
            arg = [rng.choice(good) if b else rng.choice(bad) for b in v]
        make = rng.choice([lambda: MinimumEigenOptimizer(solver, converters=arg), lambda: GroverOptimizer(2, converters=arg),
                           lambda: RecursiveMinimumEigenOptimizer(stub, converters=arg),
                           lambda: WarmStartQAOAOptimizer(stub, True, solver, converters=arg)])
        return {"ev": "setting", "what": what, "v": v, "raised": raised(make), "error": "TypeError"}
    if what == "bounds":
        a, b = rng.randint(-3, 3), rng.randint(-3, 3)
        qp = QuadraticProgram()
        how = rng.choice(["cont", "int", "lower", "upper"])
        if how == "cont":
            err = raised(lambda: qp.continuous_var(a, b, "x"))
        elif how == "int":
            err = raised(lambda: qp.integer_var(a, b, "x"))
        else:
            var = qp.continuous_var(-10, 10, "x")
            if how == "lower":
                var.upperbound = b
                err = raised(lambda: setattr(var, "lowerbound", a))
            else:
                var.lowerbound = a
                err = raised(lambda: setattr(var, "upperbound", b))
        return {"ev": "setting", "what": what, "v": [a, b], "raised": err, "error": "QiskitOptimizationError"}
    ok = rng.random() < 0.4
    pick = rng.choice(["eigensolver", "slack", "sense", "quantum"])
    if pick == "eigensolver":
        fun = lambda: MinimumEigenOptimizer(solver if ok else NoStateSupport(lambda op: None))
        err = "QiskitOptimizationError"
    elif pick == "slack":
        qp = QuadraticProgram()
        qp.binary_var("x")
        qp.linear_constraint({"x": 1}, rng.choice(["<=", ">="]), 1)
        fun = lambda: InequalityToEquality(rng.choice(["integer", "continuous", "auto"]) if ok else rng.choice(["int", "", "AUTO", "none"])).convert(qp)
        err = "QiskitOptimizationError"
    elif pick == "sense":
        qp = QuadraticProgram()
        qp.binary_var("x")
        word = rng.choice(["<=", "LE", "g", "=="]) if ok else rng.choice(["<<", "!=", "less", ""])
        fun = (lambda: qp.linear_constraint({"x": 1}, word, 1)) if rng.random() < 0.5 else \
            (lambda: qp.quadratic_constraint({"x": 1}, {("x", "x"): 1}, word, 1))
        err = "QiskitOptimizationError"
    else:
        qp = QuadraticProgram()
        qp.binary_var("x")
        qp.minimize(linear={"x": 1})
        if ok:
            fun = lambda: GroverOptimizer(2)
        else:
            fun = lambda: GroverOptimizer(2).solve(qp)
        err = "AttributeError"
    return {"ev": "setting", "what": "flag", "v": ok, "raised": raised(fun), "error": err}


def exact(rng):
    while True:
        n = rng.randint(1, 4)
        p = qpio.rnd_program(rng, n, rng.choice(["B", "BI"]), scale=S, nl=rng.randint(1, 3), coef=2, bound=2)
        c12.shrink(p, S)
        c12.convexify(p)
        if convlib.size(p) <= 200:
            break
    qpio.nonempty(p, rng)
    qp = qpio.build(p, rng, plain=False, warm=lambda old: [
        o.get_compatibility_msg(old) for o in (CplexOptimizer(), GroverOptimizer(2), ADMMOptimizer())])
    out = raised(lambda: CplexOptimizer().solve(qp)) or "ok"
    return {"kind": "exact", "events": [{"ev": "exact", "p": p, "outcome": out}]}
