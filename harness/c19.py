"""C19: warm-started QAOA."""
import itertools
import random

import numpy as np
from qiskit.quantum_info import Operator

from qiskit_optimization.algorithms import (OptimizationResultStatus, SolutionSample, WarmStartQAOAOptimizer)
from qiskit_optimization.algorithms.warm_start_qaoa_optimizer import BaseAggregator, MeanAggregator, WarmStartQAOAFactory

import c10
import convlib
import qpio
from qpio import q
from stubs import FixedEigensolver, StubOptimizer
from qiskit_optimization.converters import QuadraticProgramToQubo

W = 1000000
S = 2
RULE = ("random constrained and unconstrained programs, arbitrary pre-solutions on a grid of eighths, all regularisations on it, one "
        "to three runs with arbitrary sampled distributions, default and user-defined aggregation, failing pre-solver; prepared "
        "states and mixers read off as matrices")
ASSUMPTIONS = ["at most 5 qubits", "mixer compared at one angle"]


def models(ctx):
    ctx.model("MCWarmStart")
    if ctx.thorough:
        ctx.model("MCWarmStart", "SPECIFICATION Spec\nCONSTANTS Runs = 3\n W = 3\nINVARIANTS Total Order Best Clip\nCHECK_DEADLOCK FALSE\n",
                  timeout=900)


def groups(ctx):
    return [("TraceWarmStart", [{"seed": ctx.seed * 100003 + i} for i in range(ctx.pick(1050, 7000))])]


class Pick(BaseAggregator):
    """A user's aggregation: some of the samples, with probabilities of its own."""

    def __init__(self, rng):
        self.rng, self.out = rng, []

    def aggregate(self, results):
        seen = {}
        for r in results:
            for s in r.samples:
                seen[tuple(s.x)] = s
        keys = sorted(seen)
        self.rng.shuffle(keys)
        keys = keys[:self.rng.randint(1, len(keys))]
        self.out = [SolutionSample(seen[k].x, seen[k].fval, self.rng.randint(1, 8) / 8, seen[k].status) for k in keys]
        return list(self.out)


def execute(spec):
    rng = random.Random(spec["seed"])
    S = globals()["S"]
    if rng.random() < 0.5:
        S, mag = qpio.magnitude(rng, S, False)
        p = qpio.rnd_program(rng, rng.randint(1, 4), "B", scale=S, lim=mag, coef=2, full_quad=rng.random() < 0.3)
    else:
        p = c10.instance(rng, S, rng.choice([3, 4, 5]))
        if rng.random() < 0.3:
            p = qpio.finer(p, rng)
            S = p["S"]
    qp = qpio.build(p, rng, plain=False, warm=lambda old: QuadraticProgramToQubo().convert(old))
    kwargs, pen = {}, None
    how = rng.choice(["default", "penalty", "conv"])
    if how == "penalty":
        pen = kwargs["penalty"] = rng.choice([2, 7.5])
    elif how == "conv":
        pen = 5
        kwargs["converters"] = QuadraticProgramToQubo(pen)
    conv = QuadraticProgramToQubo(pen)
    dst = conv.convert(qp)
    n = dst.get_num_vars()
    d = qpio.project(dst, S)
    dec, _, _ = convlib.decoding(conv, n, len(p["vars"]))
    eps = rng.choice([0, 1, 2, 2, 3, 4])
    if eps != 2 or rng.random() < 0.5:
        kwargs["epsilon"] = eps / 8
    if rng.random() < 0.3:
        # a factory of one's own brings its own epsilon, whatever the optimizer's is
        eps = rng.choice([0, 1, 2, 3, 4])
        kwargs["warm_start_factory"] = WarmStartQAOAFactory(eps / 8)
    asked = rng.choice([1, 2, 2, 3])
    if asked != 1 or rng.random() < 0.5:
        kwargs["num_initial_solutions"] = asked
    relax = rng.random() < 0.5
    npre = rng.choice([1, 2, 3, 4])
    pre = [[rng.choice([0, 8, 0, 8, rng.randint(0, 8)]) if relax else rng.choice([0, 8]) for _ in range(n)] for _ in range(npre)]
    fails = rng.random() < 0.08
    pre_solver = StubOptimizer(lambda problem: [(np.array([v / 8 for v in x]), 1 / npre) for x in pre],
                               status=OptimizationResultStatus.FAILURE if fails else OptimizationResultStatus.SUCCESS)
    custom = rng.random() < 0.25
    agg = None
    if custom:
        agg = kwargs["aggregator"] = Pick(rng)
    elif rng.random() < 0.2:
        kwargs["aggregator"] = MeanAggregator()
    events, states = [], []

    def state(op):
        prep = Operator(qaoa.initial_state).data
        ones = [round(W * sum(abs(prep[k, 0]) ** 2 for k in range(2 ** n) if (k >> i) & 1)) for i in range(n)]
        mixer = qaoa.mixer
        par = list(mixer.parameters)
        mix = Operator(mixer.assign_parameters({par[0]: 0.25})).data
        diag = prep.conj().T @ mix @ prep
        off = float(np.max(np.abs(diag - np.diag(np.diag(diag))))) if n else 0.0
        turns = np.diag(diag) / diag[0, 0]
        energy = np.real(np.diag(op.to_matrix()))
        # which run this is decides the pre-solution it belongs to: the specification counts the runs
        events.append({"ev": "run", "d": d, "pre": pre, "asked": asked, "eps": eps, "ones": ones, "off": round(off * W),
                       "turns": [round(1000 * float(np.angle(t))) for t in turns], "energy": [q(v - energy[0], S) for v in energy]})
        k = rng.choice([1, 2, 3, 5])
        cuts = sorted(rng.sample(range(1, 64), k - 1))
        ws = [b - a for a, b in zip([0] + cuts, cuts + [64])]
        vec = np.zeros(2 ** n)
        for w in ws:
            vec[rng.randrange(2 ** n)] += w / 64
        states.append([{"x": [(i >> b) & 1 for b in range(n)], "prob": round(W * w)} for i, w in enumerate(vec) if w > 0])
        return np.sqrt(vec) * rng.choice([1, -1, 1j])

    qaoa = FixedEigensolver(state)
    qaoa.initial_state = None
    qaoa.mixer = None
    opt = WarmStartQAOAOptimizer(pre_solver, relax, qaoa, **kwargs)
    raised = False
    try:
        res = opt.solve(qp)
    except Exception as exc:
        if not fails or qpio.exc_name(exc) != "QiskitOptimizationError":
            raise
        raised = True
    head = [{"ev": "pre", "d": d, "given": qpio.project(pre_solver.problems[0], S), "relax": relax}]
    if fails:
        return {"kind": "warm", "events": head + events + [{"ev": "refused", "raised": raised}]}

    def smp(e):
        return {"x": [q(v, 1) for v in e.x], "fval": q(e.fval, S), "prob": round(e.probability * W),
                "ok": e.status == OptimizationResultStatus.SUCCESS}

    end = {"ev": "end", "p": p, "d": d, "dec": dec, "pre": pre, "asked": asked, "states": states, "custom": custom,
           "agg": [smp(e) for e in agg.out] if custom else [], "samples": [smp(e) for e in res.samples],
           "x": [q(v, 1) for v in res.x], "fval": q(res.fval, S), "ok": res.status == OptimizationResultStatus.SUCCESS}
    return {"kind": "warm", "events": head + events + [end]}
