"""C17: alternating directions."""
import random

import numpy as np

from qiskit_optimization.algorithms import ADMMOptimizer, OptimizationResult, OptimizationResultStatus
from qiskit_optimization.algorithms.admm_optimizer import ADMMParameters
from qiskit_optimization.converters import IntegerToBinary

import convlib
import qpio
from qpio import q
from stubs import StubOptimizer

S = 2
RULE = ("random mixed programs with arbitrary answers of the sub-solvers in every iteration (convergent and divergent histories), "
        "two and three blocks, both penalty rules, warm start, limits and tolerances; every sub-problem, iterate, statistic and "
        "the result recomputed by the specification")
ASSUMPTIONS = ["at most 5 variables after conversion and 4 iterations (9 and 2 in a few cases)", "answers of the sub-solvers are multiples of 1/2"]


def models(ctx):
    ctx.model("MCADMM")
    two = "SPECIFICATION Spec\nCONSTANTS Three = {}\n Vary = {}\n MaxIter = {}\n TwoBins = {}\nINVARIANTS {}\nCHECK_DEADLOCK FALSE\n"
    good = "Binary ConsensusFeasible RhoPositive MeritExact Loop"
    ctx.model("MCADMM", two.format("FALSE", 1, 3, "TRUE", good + " ConsensusAlways"))
    ctx.refute("MCADMM", two.format("TRUE", 1, 2, "FALSE", "ConsensusAlways"))
    if ctx.thorough:
        ctx.model("MCADMM", two.format("TRUE", 1, 4, "FALSE", good), timeout=900)
        ctx.model("MCADMM", two.format("TRUE", 1, 2, "TRUE", good), timeout=900)


def groups(ctx):
    return [("TraceADMM", [{"seed": ctx.seed * 100003 + i} for i in range(ctx.pick(1500, 10000))])]


def program(rng, wide):
    while True:
        n = rng.randint(6, 9) if wide else rng.randint(1, 4)
        p = qpio.rnd_program(rng, n, rng.choice(["B", "BBBC"] if wide else ["B", "BC", "BC", "BIC", "C", "BBC", "BI"]), scale=S, coef=2, nl=rng.randint(0, 3),
                             nq=rng.choice([0, 0, 0, 1]), full_quad=rng.random() < 0.3, bound=2, quad_density=0.4)
        for i, v in enumerate(p["vars"]):
            if v["type"] == "I":
                v["lb"] = rng.choice([-1, 0, 1]) * S
                v["ub"] = v["lb"] + rng.choice([0, 1, 2, 3]) * S
            for j, w in enumerate(p["vars"]):
                if (v["type"] == "C") != (w["type"] == "C"):
                    p["quad"][i][j] = 0
        if rng.random() < 0.5:  # equalities among the discrete variables
            disc = [i for i, v in enumerate(p["vars"]) if v["type"] != "C"]
            for c in p["lc"]:
                if disc and rng.random() < 0.6:
                    c["sense"] = "EQ"
                    c["lin"] = [a if i in disc else 0 for i, a in enumerate(c["lin"])]
        if rng.random() < 0.3:
            for i in range(n):
                if rng.random() < 0.5:
                    p["lin"][i] = 0
        qpio.nonempty(p, rng)
        return p


def execute(spec):
    rng = random.Random(spec["seed"])
    wide = rng.random() < 0.08
    while True:
        p = program(rng, wide)
        qp = qpio.build(p, rng, plain=False, warm=lambda old: IntegerToBinary().convert(old))
        conv = IntegerToBinary()
        op = conv.convert(qp)
        # a constraint without variables is refused by the LP export that the optimizer logs
        if op.get_num_vars() <= (9 if wide else 5) and all(any(v for v in c.linear.to_dict().values()) for c in op.linear_constraints) \
                and all(any(c.linear.to_dict().values()) or any(c.quadratic.to_dict().values()) for c in op.quadratic_constraints):
            break
    n = op.get_num_vars()
    o = qpio.project(op, S)
    dec, _, _ = convlib.decoding(conv, n, len(p["vars"]))
    bins = [i for i, v in enumerate(o["vars"]) if v["type"] == "B"]
    cons = [i for i in range(n) if i not in bins]
    warm = rng.random() < 0.25
    vary = 0 if warm else rng.choice([0, 1, 1, 1])
    R = 16 if vary else 10
    L = 2 * R
    rho0 = rng.choice([1, 2, 4]) if vary else rng.choice([10, 20])
    fc = rng.choice([2, 4, 10])
    beta = rng.choice([1, 2, 6])
    maxiter = rng.choice([1, 2, 3, 4, 4]) if vary else rng.choice([1, 2])
    tol = rng.choice([None, 1e-3, 0.5, 1.0, 1.5])
    once = rng.random() < 0.06
    three = rng.random() < 0.6
    mures = rng.choice([1, 2, 4, 8])
    mumerit = rng.choice([0, 1, 3, 10])
    tau_i, tau_d = rng.choice([2, 2, 4]), 2
    if wide:
        maxiter = min(maxiter, 2)
    if tau_i == 4:
        maxiter = min(maxiter, 3)
        rho0 = min(rho0, 2) if vary else rho0
    kw = {"rho_initial": rho0, "factor_c": fc, "beta": beta, "maxiter": maxiter, "three_block": three, "vary_rho": vary,
          "tau_incr": tau_i, "tau_decr": tau_d, "mu_res": mures, "mu_merit": mumerit, "warm_start": warm}
    if tol is not None:
        kw["tol"] = tol
    if once:
        kw["max_time"] = 1e-9
    par = {"R": R, "L": L, "rho": rho0 * R, "fc": fc, "beta": beta, "maxiter": maxiter, "three": three, "vary": vary, "mures": mures,
           "mumerit": mumerit, "tauI": tau_i, "tauD": tau_d, "warm": warm, "once": once, "tol2": int(4 * (tol or 0) ** 2 + 1e-9)}
    calls = []
    last = {}
    calm = rng.choice([0.0, 0.4, 0.9])

    def qubo(problem):
        x = [rng.randint(0, 1) for _ in range(problem.get_num_vars())]
        calls.append({"ev": "call", "who": "qubo", "p": qpio.project(problem, L), "ans": [2 * v for v in x]})
        last.clear()
        last.update({v.name: w for v, w in zip(problem.variables, x)})
        return [(np.array(x, dtype=rng.choice([int, float])), 1.0)]

    def cont(problem):
        x = []
        slack = problem.get_num_vars() and problem.variables[0].lowerbound < -1e15 and not problem.get_num_linear_constraints()
        for v in problem.variables:
            if rng.random() < calm:
                x.append(0 if slack else last.get(v.name, 0))
            elif v.name in last or v.lowerbound < -1e15:
                x.append(rng.choice([0, 0.5, 1]) if not slack else rng.choice([-1, -0.5, 0, 0.5, 1]))
            else:
                lo, hi = max(v.lowerbound, -2), min(v.upperbound, 2)
                x.append(rng.choice([k / 2 for k in range(-4, 5) if lo <= k / 2 <= hi] or [lo]))
        calls.append({"ev": "call", "who": "cont", "p": qpio.project(problem, L), "ans": [q(v, 2) for v in x]})
        return [(np.array(x, dtype=float), 1.0)]

    opt = ADMMOptimizer(StubOptimizer(qubo), StubOptimizer(cont))
    if rng.random() < 0.5:
        opt = ADMMOptimizer(qubo_optimizer=StubOptimizer(qubo), continuous_optimizer=StubOptimizer(cont), params=ADMMParameters(**kw))
    else:
        opt.parameters = ADMMParameters(**kw)
    res = opt.solve(qp)
    st = res.state

    def spread(vec, idx, unit=2):
        out = [0] * n
        if len(vec) != len(idx):
            raise qpio.Inexact("vector of length {}".format(len(vec)))
        for i, v in zip(idx, vec):
            out[i] = q(v, unit)
        return out

    def sq(values, unit):
        return [q(float(v) ** 2, unit, tol=1e-5) for v in values]

    events = calls + [{
        "ev": "end", "x0s": [spread(v, bins) for v in st.x0_saved], "us": [spread(v, cons) for v in st.u_saved],
        "zs": [spread(v, bins) for v in st.z_saved], "ys": [spread(v, bins) for v in st.y_saved],
        "costs": [q(v, 8) for v in st.cost_iterates], "crs": [q(v, 8) for v in st.cons_r], "merits": [q(v, 8) for v in st.merits],
        "p2s": sq(st.residuals, 4), "d2s": sq(st.dual_residuals, 4 * R * R), "lam2s": sq(st.lambdas, L * L),
        "lam": spread(st.lambda_mult, bins, L), "rho": q(st.rho, R),
        "fx0": spread(st.x0, bins), "fu": spread(st.u, cons), "fz": spread(st.z, bins), "fy": spread(st.y, bins),
        "dec": dec, "src": p, "x": [q(v, 2) for v in res.x], "fval": q(res.fval, 8), "ok": res.status == OptimizationResultStatus.SUCCESS}]
    return {"kind": "admm", "op": o, "par": par, "events": events}
