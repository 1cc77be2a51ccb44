"""C11: conversion and solving never alter inputs and can be repeated."""
import hashlib
import json
import random

import numpy as np
from qiskit import BasicAer
from qiskit.utils import QuantumInstance

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.algorithms import (ADMMOptimizer, ADMMParameters, CobylaOptimizer, CplexOptimizer, GoemansWilliamsonOptimizer,
                                            GroverOptimizer, MinimumEigenOptimizer, RecursiveMinimumEigenOptimizer, SlsqpOptimizer,
                                            WarmStartQAOAOptimizer)
from qiskit_optimization.converters import (InequalityToEquality, IntegerToBinary, LinearEqualityToPenalty, QuadraticProgramToQubo)

import c10
import c12
import qpio
from qpio import val
from stubs import DiagonalSolver, FixedEigensolver

S = 2
CONV = ["int2bin", "slackint", "slackcont", "slackauto", "penalty", "penaltyset", "qubo", "chain"]
OPT = ["eigen", "eigenconv", "recursive", "recconv", "bareeigen", "barerec", "baregrover", "cplex", "slsqp", "cobyla", "admm", "grover", "gw", "warm"]
FUN = ["docplex", "lp", "ising", "subst"]
RULE = ("one converter or optimizer object used for several programs in random order with repetitions; every output compared with a "
        "fresh object's, all inputs and earlier outputs compared after every call; returned programs edited afterwards")
ASSUMPTIONS = ["random generators are reseeded before every call", "programs and results are compared through their full contents"]


def models(ctx):
    ctx.model("MCReuse")
    for leak in ("memo", "accumulate", "alias"):
        ctx.refute("MCReuse", 'SPECIFICATION Spec\nCONSTANTS Inputs = {1, 2}\n Leak = "%s"\n MaxCalls = 2\n'
                   'INVARIANTS Repeatable NothingChanges\nCHECK_DEADLOCK FALSE\n' % leak)


def groups(ctx):
    kinds = CONV * 3 + OPT + FUN * 2
    return [("TraceReuse", [{"seed": ctx.seed * 100003 + i, "kind": kinds[i % len(kinds)], "limit": 120}
                            for i in range(ctx.pick(1290, 8600))])]


def digest(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=int).encode()).hexdigest()[:16]


def num(v):
    return round(float(np.real(v)), 6) + 0.0


def contents(qp):
    """Everything observable of a program."""
    def expr(c):
        return {"lin": sorted((k, num(v)) for k, v in c.linear.to_dict().items()),
                "quad": sorted((list(k), num(v)) for k, v in c.quadratic.to_dict().items()) if hasattr(c, "quadratic") else []}
    return {"name": qp.name, "status": qp.status.name, "n": qp.get_num_vars(),
            "vars": [(v.name, v.vartype.name, num(v.lowerbound), num(v.upperbound)) for v in qp.variables],
            "index": sorted(qp.variables_index.items()),
            "obj": [qp.objective.sense.name, num(qp.objective.constant), expr(qp.objective)],
            "lc": [(c.name, c.sense.name, num(c.rhs), expr(c)) for c in qp.linear_constraints],
            "qc": [(c.name, c.sense.name, num(c.rhs), expr(c)) for c in qp.quadratic_constraints]}


def res_contents(r):
    out = {"x": None if r.x is None else [num(v) for v in r.x], "fval": None if r.fval is None else num(r.fval), "status": r.status.name,
           "names": list(r.variable_names),
           "samples": [([num(v) for v in e.x], num(e.fval), num(e.probability), e.status.name) for e in r.samples if e.x is not None]}
    if getattr(r, "raw_samples", None):
        out["raw"] = [([num(v) for v in e.x], num(e.fval), num(e.probability)) for e in r.raw_samples]
    if hasattr(r, "replacements"):
        out["repl"] = [(k, list(v)) for k, v in r.replacements.items()]
        out["hist"] = [len(r.history[0]), r.history[1] is None]
    if hasattr(r, "threshold"):
        out["thr"] = num(r.threshold)
    if hasattr(r, "state") and r.state is not None:
        out["admm"] = [[num(v) for v in r.state.merits], [num(v) for v in r.state.residuals], num(r.state.rho),
                       [[num(a) for a in v] for v in r.state.x0_saved]]
    return out


class Subject:
    """A converter chain or an optimizer or an exporting function, with the programs it applies to."""

    def __init__(self, kind, rng, seed):
        self.kind, self.seed = kind, seed
        self.pen = rng.choice([3.0, 10.0])
        self.trials = rng.randint(1, 3)
        self.subs = rng.random()

    def make(self):
        k = self.kind
        eigen = MinimumEigenOptimizer(DiagonalSolver())
        if k == "int2bin":
            return [IntegerToBinary()]
        if k.startswith("slack"):
            return [InequalityToEquality({"slackint": "integer", "slackcont": "continuous", "slackauto": "auto"}[k])]
        if k == "penalty":
            return [LinearEqualityToPenalty()]
        if k == "penaltyset":
            return [LinearEqualityToPenalty(self.pen)]
        if k == "qubo":
            return [QuadraticProgramToQubo()]
        if k == "chain":
            return [InequalityToEquality("integer"), IntegerToBinary(), LinearEqualityToPenalty()]
        if k == "eigen":
            return eigen
        if k == "eigenconv":
            return MinimumEigenOptimizer(DiagonalSolver(), converters=[InequalityToEquality("integer"), IntegerToBinary(),
                                                                               LinearEqualityToPenalty(self.pen)])
        if k == "recursive":
            return RecursiveMinimumEigenOptimizer(eigen, min_num_vars_optimizer=eigen, min_num_vars=self.trials)
        if k == "recconv":
            return RecursiveMinimumEigenOptimizer(eigen, min_num_vars_optimizer=eigen, min_num_vars=self.trials, converters=QuadraticProgramToQubo())
        if k == "bareeigen":    # no conversion at all: the optimizer works on a program that needs none
            return MinimumEigenOptimizer(DiagonalSolver(), converters=[])
        if k == "barerec":
            return RecursiveMinimumEigenOptimizer(MinimumEigenOptimizer(DiagonalSolver(), converters=[]) if self.trials < 3 else eigen,
                                                  min_num_vars_optimizer=eigen, min_num_vars=self.trials, converters=[])
        if k == "cplex":
            return CplexOptimizer()
        if k == "slsqp":
            return SlsqpOptimizer(trials=self.trials)
        if k == "cobyla":
            return CobylaOptimizer(trials=self.trials)
        if k == "admm":
            return ADMMOptimizer(qubo_optimizer=eigen, continuous_optimizer=SlsqpOptimizer(), params=ADMMParameters(
                rho_initial=10, factor_c=10, beta=5, maxiter=3, three_block=self.trials < 3, vary_rho=self.trials % 2))
        if k in ("grover", "baregrover"):
            kwargs = {} if k == "grover" else {"converters": []}
            return GroverOptimizer(5, num_iterations=2, **kwargs, quantum_instance=QuantumInstance(
                BasicAer.get_backend("statevector_simulator"), seed_simulator=1, seed_transpiler=1))
        if k == "gw":
            return GoemansWilliamsonOptimizer(num_cuts=5, seed=3)
        if k == "warm":
            def state(op):
                vec = np.arange(1.0, 2 ** op.num_qubits + 1)
                return vec / np.linalg.norm(vec)
            return WarmStartQAOAOptimizer(pre_solver=eigen, relax_for_pre_solver=False, qaoa=FixedEigensolver(state),
                                          num_initial_solutions=self.trials)
        return None

    def program(self, rng):
        k = self.kind
        if k == "slackcont":
            p = qpio.rnd_program(rng, rng.randint(1, 3), "BIC", scale=S, nl=rng.randint(0, 2), nq=rng.randint(0, 1), bound=2)
            return qpio.nonempty(p, rng)
        if k in ("penalty", "penaltyset"):
            return qpio.nonempty(qpio.rnd_program(rng, rng.randint(1, 4), "BI", scale=S, nl=rng.randint(0, 2), senses=("EQ",), int_coef=True), rng)
        if k == "int2bin":
            return qpio.rnd_program(rng, rng.randint(1, 4), "BIC", scale=S, nl=rng.randint(0, 2), nq=rng.randint(0, 1))
        if k in CONV or k in ("eigen", "eigenconv", "recursive", "recconv", "warm"):
            return qpio.nonempty(c10.instance(rng, S, 5), rng)
        if k in ("bareeigen", "barerec"):
            return qpio.nonempty(qpio.rnd_program(rng, rng.randint(1, 5), "B", scale=S), rng)
        if k == "baregrover":
            return qpio.nonempty(qpio.rnd_program(rng, rng.randint(1, 3), "B", scale=S, coef=2, int_coef=True), rng)
        if k == "gw":
            return c12.maxcut(rng, rng.randint(2, 5), S)
        if k == "ising":
            return qpio.rnd_program(rng, rng.randint(1, 5), "B", scale=S)
        if k in ("docplex", "lp", "subst"):
            p = qpio.rnd_program(rng, rng.randint(1, 4), "BIC", scale=S, nl=rng.randint(0, 2), nq=rng.randint(0, 1))
            return qpio.nonempty(p, rng)
        return qpio.nonempty(c12.make(rng, k, self.seed)[0], rng)

    def call(self, obj, qp, rng):
        """(returned thing, probe of the decoding or None)"""
        qpio.seed_all(self.seed)
        k = self.kind
        if k in CONV:
            out = qp
            for conv in obj:
                out = conv.convert(out)
            m = out.get_num_vars()
            probe = []
            for t in range(3):
                x = np.array([(i * 7 + t) % 2 for i in range(m)], dtype=float)
                for conv in obj[::-1]:
                    x = conv.interpret(x)
                probe.append([num(v) for v in x])
            return out, probe
        if k in OPT:
            return obj.solve(qp), None
        if k == "docplex":
            return qp.to_docplex(), None
        if k == "lp":
            return qp.export_as_lp_string(), None
        if k == "ising":
            return qp.to_ising(), None
        names = [v.name for v in qp.variables]
        if len(names) > 1 and self.subs < 0.5:
            return qp.substitute_variables(variables={names[-1]: (names[0], 2)}), None
        return qp.substitute_variables(constants={names[0]: 1}), None

    def dump(self, out):
        if isinstance(out, Exception):
            return digest(["error", type(out).__name__])
        out, probe = out
        if self.kind in OPT:
            return digest(res_contents(out))
        if self.kind in CONV or self.kind == "subst":
            return digest([contents(out), probe])
        if self.kind == "docplex":
            return digest(out.export_as_lp_string())
        if self.kind == "ising":
            op, off = out
            return digest([num(off), [num(v) for v in np.diag(op.to_matrix())]])
        return digest(out)


def edit(qp, rng):
    """Changes what a user could change in a program that was returned."""
    if qp.get_num_vars():
        v = qp.variables[rng.randrange(qp.get_num_vars())]
        v.upperbound = v.upperbound + 3
        qp.objective.linear[0] = 77
        qp.objective.quadratic[0, 0] = 55
    qp.objective.constant = 1234
    for c in qp.linear_constraints:
        c.rhs = 99
        if qp.get_num_vars():
            c.linear[0] = 66
    for c in qp.quadratic_constraints:
        c.rhs = 98
    qp.binary_var("added_later")
    if qp.linear_constraints:
        qp.remove_linear_constraint(0)


def execute(spec):
    rng = random.Random(spec["seed"])
    sub = Subject(spec["kind"], rng, spec["seed"])
    k = rng.randint(1, 3)
    recs = [sub.program(rng) for _ in range(k)]
    shared = sub.make()
    # the used object has seen the programs before they were edited into what they are
    qps = [qpio.build(p, rng, plain=False, warm=lambda old: sub.call(shared, old, rng)) for p in recs]
    given = [digest(contents(qp)) for qp in qps]

    def run(obj, i):
        try:
            return sub.call(obj, qps[i], rng)
        except QiskitOptimizationError as ex:
            return ex

    order = [rng.randrange(k) for _ in range(rng.randint(2, 4))]
    events, outs = [], []
    for i in order:
        out = run(shared, i)
        fresh = Subject.dump(sub, run(sub.make(), i))
        events.append({"ev": "call", "input": i, "out": sub.dump(out), "fresh": fresh, "given": given,
                       "now": [digest(contents(qp)) for qp in qps], "earlier": [sub.dump(o) for o in outs]})
        outs.append(out)
    if sub.kind in CONV + ["subst"] and not isinstance(outs[-1], Exception) and rng.random() < 0.6:
        first = sub.dump(outs[-1])
        edit(outs[-1][0], rng)
        again = sub.dump(run(shared, order[-1]))
        events.append({"ev": "edit", "given": given, "now": [digest(contents(qp)) for qp in qps], "first": first, "again": again})
    return {"kind": sub.kind, "events": events}
