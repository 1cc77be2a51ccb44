"""C12: results are consistent with the problem they answer."""
import random

import numpy as np
from qiskit import BasicAer
from qiskit.algorithms import NumPyMinimumEigensolver
from qiskit.utils import QuantumInstance

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.algorithms import (ADMMOptimizer, ADMMParameters, CobylaOptimizer, CplexOptimizer, GoemansWilliamsonOptimizer,
                                            GroverOptimizer, MinimumEigenOptimizer, RecursiveMinimumEigenOptimizer, SlsqpOptimizer,
                                            WarmStartQAOAOptimizer)
from qiskit_optimization.algorithms.multistart_optimizer import MultiStartOptimizer

from qiskit_optimization.converters import QuadraticProgramConverter

import c10
import qpio
from qpio import q, val
from stubs import FixedEigensolver

KINDS = ["eigen", "fixed", "custom", "recursive", "cplex", "cplexmix", "slsqp", "cobyla", "admm", "gw", "warm", "multi", "multi", "grover"]
RULE = ("all optimizers on random problems of their class, both senses, shuffled names; all access paths of the result and every "
        "sample compared; exact comparison for integral solutions and for multi-start trials on a dyadic grid; encodings of the user's own whose answers may leave the bounds")
ASSUMPTIONS = ["continuous solutions are recorded in units of 1/64, the specification allows for that rounding"]


def models(ctx):
    ctx.model("MCResults")


def groups(ctx):
    return [("TraceResult", [{"seed": ctx.seed * 100003 + i, "kind": KINDS[i % len(KINDS)], "limit": 120}
                             for i in range(ctx.pick(1950, 13000))])]


class Encoding(QuadraticProgramConverter):
    """A user's own encoding: bits stand for arbitrary integer steps, whatever the bounds of the variables are."""

    def __init__(self, steps, dst):
        self.steps, self.dst = steps, dst

    def convert(self, problem):
        return self.dst

    def interpret(self, x):
        return np.array([base + sum(w for w, b in zip(row, x) if b > 0.5) for base, row in self.steps])


class Grid(MultiStartOptimizer):
    """A local search that answers with given points."""

    def __init__(self, points, trials):
        super().__init__(trials=trials)
        self.points = points

    def get_compatibility_msg(self, problem):
        return ""

    def solve(self, problem):
        it = iter(self.points)
        return self.multi_start_solve(lambda x0: (np.array(next(it)), None), problem)


def convexify(p):
    """Adds a dominating diagonal (in the sense of the program)."""
    n = len(p["vars"])
    for i in range(n):
        total = sum(abs(p["quad"][i][j]) + abs(p["quad"][j][i]) for j in range(n) if j != i)
        p["quad"][i][i] = p["sense"] * (total + abs(p["quad"][i][i]))
    return p


def random_state(rng, m):
    vec = np.zeros(2 ** m)
    for i in rng.sample(range(2 ** m), min(2 ** m, rng.randint(1, 6))):
        vec[i] = rng.randint(1, 5)
    return vec / np.linalg.norm(vec)


def maxcut(rng, n, s):
    p = qpio.rnd_program(rng, n, "B", scale=s)
    p.update(sense=-1, const=0, lc=[], qc=[])
    p["lin"] = [0] * n
    p["quad"] = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            w = rng.choice([0, 1, 1, 2, 3]) * s
            p["lin"][i] += w
            p["lin"][j] += w
            p["quad"][i][j] -= 2 * w
    if not any(any(r) for r in p["quad"]) and n > 1:
        p["lin"][0] += s
        p["lin"][1] += s
        p["quad"][0][1] -= 2 * s
    return p


def shrink(p, s):
    for v in p["vars"]:
        if v["type"] == "I":
            v["ub"] = min(v["ub"], v["lb"] + 3 * s)
    return p


def make(rng, kind, seed):
    """(program record, optimizer)"""
    s = 2
    if kind in ("eigen", "fixed", "recursive", "warm"):
        p = c10.instance(rng, s, 6) if rng.random() < 0.7 else qpio.rnd_program(rng, rng.randint(1, 5), "B", scale=s)
        solver = NumPyMinimumEigensolver()
        if kind == "fixed":
            solver = FixedEigensolver(lambda op: random_state(rng, op.num_qubits))
        eigen = MinimumEigenOptimizer(solver)
        if kind == "recursive":
            return p, RecursiveMinimumEigenOptimizer(eigen, min_num_vars=rng.randint(1, 3))
        if kind == "warm":
            qaoa = FixedEigensolver(lambda op: random_state(rng, op.num_qubits))
            return p, WarmStartQAOAOptimizer(pre_solver=CplexOptimizer() if rng.random() < 0.5 else eigen, relax_for_pre_solver=False,
                                             qaoa=qaoa, num_initial_solutions=rng.randint(1, 3))
        return p, eigen
    if kind == "custom":
        n, m = rng.randint(1, 4), rng.randint(1, 5)
        p = qpio.rnd_program(rng, n, "BBI", scale=s, nl=rng.randint(0, 2), nq=0, bound=2, int_coef=True)
        if rng.random() < 0.5:
            p.update(lc=[], qc=[])
        dst = qpio.build(qpio.rnd_program(rng, m, "B", scale=s), rng)
        steps = [(rng.choice([0, 0, 0, 1, -1]), [rng.choice([0, 0, 1, 1, -1, 2]) for _ in range(m)]) for _ in range(n)]
        return p, MinimumEigenOptimizer(FixedEigensolver(lambda op: random_state(rng, op.num_qubits)),
                                        converters=rng.choice([Encoding(steps, dst), [Encoding(steps, dst)]]))
    if kind == "grover":
        p = qpio.rnd_program(rng, rng.randint(1, 3), "B", scale=s, coef=2, int_coef=True)
        return p, GroverOptimizer(5, num_iterations=3, quantum_instance=QuantumInstance(
            BasicAer.get_backend(rng.choice(["statevector_simulator", "qasm_simulator"])), shots=256, seed_simulator=seed % 1000, seed_transpiler=1))
    if kind == "gw":
        return maxcut(rng, rng.randint(2, 6), s), GoemansWilliamsonOptimizer(num_cuts=rng.randint(1, 8), seed=seed % 1000)
    if kind in ("cplex", "cplexmix"):
        n = rng.randint(1, 5)
        p = qpio.rnd_program(rng, n, "BI" if kind == "cplex" else "BIC", scale=s, nl=rng.randint(0, 2), coef=3, bound=2)
        return convexify(shrink(p, s)), CplexOptimizer()
    if kind in ("slsqp", "cobyla"):
        n = rng.randint(1, 3)
        p = convexify(qpio.rnd_program(rng, n, "C", scale=s, nl=rng.randint(0, 2), nq=0, coef=2, bound=2, senses=("LE", "GE")))
        trials = rng.randint(1, 3)
        return p, (SlsqpOptimizer(trials=trials, full_output=rng.random() < 0.5) if kind == "slsqp" else CobylaOptimizer(trials=trials))
    if kind == "admm":
        n = rng.randint(2, 4)
        p = convexify(qpio.rnd_program(rng, n, "BBC", scale=s, nl=rng.randint(0, 2), coef=2, bound=2))
        for i, v in enumerate(p["vars"]):
            for j, w in enumerate(p["vars"]):
                if v["type"] != w["type"]:
                    p["quad"][i][j] = 0
        params = ADMMParameters(rho_initial=10, factor_c=10, beta=5, maxiter=rng.randint(1, 4), three_block=rng.random() < 0.5)
        cont = CplexOptimizer() if rng.random() < 0.3 else SlsqpOptimizer()
        return p, ADMMOptimizer(qubo_optimizer=rng.choice([None, CplexOptimizer()]), continuous_optimizer=cont, params=params)
    n = rng.randint(1, 4)
    p = qpio.rnd_program(rng, n, "BIC", scale=s, nl=rng.randint(0, 2), nq=rng.randint(0, 1), coef=2, bound=1, cont_inf=True)
    trials = rng.randint(1, 4)
    pts = []
    for _ in range(trials):
        pts.append([rng.choice([0, 0.25, 0.5, 1, -0.5, 2, 1.25]) for _ in range(n)])
    return p, Grid(pts, trials)


def record(p, res, x_unit, feas, s):
    names = [v.name for v in res.variables]

    def value(f):
        return q(f, s * x_unit * x_unit) if feas is None else int(round(float(f) * s * x_unit * x_unit))

    def vec(x):
        return [q(v, x_unit) if feas is None else int(round(float(v) * x_unit)) for v in x]

    r = {"x": vec(res.x), "fval": value(res.fval), "status": res.status.name, "names": names, "varnames": list(res.variable_names),
         "dict": [{"k": k, "v": w} for k, w in zip(res.variables_dict.keys(), vec(res.variables_dict.values()))],
         "byidx": vec([res[i] for i in range(len(names))]), "byname": vec([res[k] for k in names]),
         "samples": [{"x": vec(e.x), "fval": value(e.fval), "status": e.status.name} for e in res.samples]}
    if feas is not None:
        r["feas"] = feas(res.x)
        for e, o in zip(r["samples"], res.samples):
            e["feas"] = feas(o.x)
    return r


def execute(spec):
    rng = random.Random(spec["seed"])
    qpio.seed_all(spec["seed"])
    kind = spec["kind"]
    s = 2
    p, opt = make(rng, kind, spec["seed"])
    qpio.nonempty(p, rng)
    qp = qpio.build(p, rng, plain=False, warm=opt.solve)
    none = {"kind": kind, "events": [{"ev": "result", "none": True, "p": 0, "r": {"status": "NONE"}, "X": 1, "exact": True}]}
    try:
        res = opt.solve(qp)
    except QiskitOptimizationError:
        if kind in ("cplex", "cplexmix", "admm", "warm"):
            return none
        raise
    if res.x is None:
        none["events"][0]["r"]["status"] = res.status.name
        return none
    exact = kind not in ("slsqp", "cobyla", "admm", "cplexmix")
    x_unit = 4 if kind == "multi" else 1
    if kind == "cplex" and any(float(v) != round(float(v)) for v in res.x):
        exact = False
    if exact:
        r = record(p, res, x_unit, None, s)
    else:
        x_unit = 64
        fresh = qpio.build(p, random.Random(1))
        r = record(p, res, x_unit, lambda x: bool(fresh.is_feasible(list(x))), s)
    return {"kind": kind, "events": [{"ev": "result", "none": False, "p": p, "r": r, "X": x_unit, "exact": exact, "slack": s * 4,
                                      "after": qpio.project(qp, s)}]}
