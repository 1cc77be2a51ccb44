"""C13: eigenstates to raw samples to samples."""
import cmath
import math
import random

import numpy as np
from qiskit import QuantumCircuit
from qiskit.opflow import DictStateFn, VectorStateFn, CircuitStateFn, StateFn

from qiskit_optimization.algorithms import MinimumEigenOptimizer, OptimizationResultStatus
from qiskit_optimization.converters import (QuadraticProgramToQubo, IntegerToBinary, LinearEqualityToPenalty,
                                            InequalityToEquality)

import c10
import convlib
import qpio
from qpio import q, val
from stubs import FixedEigensolver

W = 1000000
RULE = ("random programs (constrained and unconstrained, both senses) and random states given as array, dictionary, and state "
        "functions of several classes, with phases, equal objective values and negligible amplitudes; all samples compared")
ASSUMPTIONS = ["converted programs of at most 12 qubits", "states below a probability of 1e-6 are negligible"]


def models(ctx):
    ctx.model("MCSamples")


def groups(ctx):
    return [("TraceSamples", [{"seed": ctx.seed * 100003 + i, "which": i} for i in range(ctx.pick(1500, 10000))])]


def converters(rng, p):
    """The default conversion or an equivalent list of converters; returns a factory."""
    has_con = bool(p["lc"])
    kind = rng.choice(["default", "qubo", "list", "penalty"])
    pen = rng.choice([3, 50, 7.5])
    if kind == "default":
        return {}, lambda: [QuadraticProgramToQubo()]
    if kind == "penalty":
        return {"penalty": pen}, lambda: [QuadraticProgramToQubo(pen)]
    if kind == "qubo":
        return {"converters": QuadraticProgramToQubo(pen)}, lambda: [QuadraticProgramToQubo(pen)]

    def chain():
        return [InequalityToEquality("integer"), IntegerToBinary(), LinearEqualityToPenalty(pen)]
    return {"converters": chain()}, chain


def weights(rng, count):
    """Probabilities in parts per W: mostly large, some tiny."""
    tiny = [rng.randint(2, 9) for _ in range(rng.choice([0, 0, 1, 2])) if count > 1][:count - 1]
    k = count - len(tiny)
    cuts = sorted(rng.sample(range(1, 200), k - 1))
    big = [(b - a) * (W // 200) for a, b in zip([0] + cuts, cuts + [200])]
    big[0] -= sum(tiny)
    return tiny + big


def digits(rng, s):
    """Two or three integer variables whose values have up to two digits."""
    p = qpio.rnd_program(rng, rng.choice([2, 2, 2, 3]), "I", scale=s, coef=2)
    top = 15 if len(p["vars"]) == 2 else 7
    for v in p["vars"]:
        v["lb"] = rng.choice([0, 0, 0, 1, -1, 5 if top == 15 else -4]) * s
        v["ub"] = v["lb"] + rng.choice([top, top, top - 3]) * s
    return p


FOLDS = [lambda x: "".join(map(str, x)), sum, lambda x: tuple(sorted(x)), max, lambda x: tuple(v % 10 for v in x),
         lambda x: tuple(map(abs, x)), lambda x: tuple(x[:-1]), lambda x: tuple(x[1:])]


def collisions(rng, dec, m, count):
    """States whose decoded assignments differ but agree under some simplification of the assignment."""
    fold = rng.choice(FOLDS)
    by = {}
    for i in range(2 ** m):
        x = [b + sum(c[k] for j, c in enumerate(dec["cols"]) if i >> j & 1) for k, b in enumerate(dec["base"])]
        by.setdefault(fold(x), {}).setdefault(tuple(x), []).append(i)
    many = [g for g in by.values() if len(g) > 1]
    rng.shuffle(many)
    res = []
    for g in many[:1 + count // 2]:
        for x in rng.sample(sorted(g), 2):
            res.append(rng.choice(g[x]))
    return res


def execute(spec):
    rng = random.Random(spec["seed"])
    s = 2
    wide = rng.random() < 0.12
    if wide:
        p = digits(rng, s)
    elif rng.random() < 0.4:
        n = qpio.count(rng, 1, 5, 0.03)
        s, mag = qpio.magnitude(rng, s, False)
        p = qpio.rnd_program(rng, n, "B", scale=s, lim=mag, coef=2, full_quad=rng.random() < 0.3)
    else:
        p = c10.instance(rng, s, rng.choice([4, 6, 7]))
        if rng.random() < 0.3:
            p = qpio.finer(p, rng, rng.choice([16, 16, 128]))
            s = p["S"]
    kwargs, fresh = converters(rng, p)
    qp = qpio.build(p, rng, plain=False, warm=lambda old: QuadraticProgramToQubo().convert(old))
    chain = fresh()
    dst = qp
    for conv in chain:
        dst = conv.convert(dst)
    m = dst.get_num_vars()

    class Chain:
        @staticmethod
        def interpret(x):
            for conv in chain[::-1]:
                x = conv.interpret(x)
            return x

    if spec["which"] % 25 == 0:
        res = MinimumEigenOptimizer(FixedEigensolver(lambda op: None), **kwargs).solve(qp)
        return {"kind": "nostate", "events": [{"ev": "nostate", "failed": res.status == OptimizationResultStatus.FAILURE,
                                               "nox": res.x is None and res.fval is None}]}
    dec, _, _ = convlib.decoding(Chain, m, len(p["vars"]))
    count = rng.randint(1, min(2 ** m, rng.choice([1, 3, 8, 20])))
    idx = rng.sample(range(2 ** m), count)
    if m and (wide or rng.random() < 0.2):
        idx = (collisions(rng, dec, m, count) + idx)[:max(count, 2)] if count > 1 or wide else idx
        idx = list(dict.fromkeys(idx))
        count = len(idx)
    probs = weights(rng, count)
    negligible = [i for i in range(2 ** m) if i not in idx]
    negligible = rng.sample(negligible, min(len(negligible), rng.choice([0, 0, 1, 3])))
    amp = {}
    form = rng.choice(["array", "realarray", "dict", "dictfn", "vectorfn", "statefn"] + ["circuitfn"] * (m <= 7))
    for i, w in zip(idx, probs):
        phase = 1 if form == "realarray" else cmath.exp(1j * rng.choice([0, math.pi, 1.0, 2.5]))
        amp[i] = math.sqrt(w / W) * phase
    for i in negligible:
        amp[i] = math.sqrt(rng.choice([1e-7, 1e-9, 1e-12]))
    items = list(amp.items())
    rng.shuffle(items)
    vec = np.zeros(2 ** m, dtype=float if form == "realarray" else complex)
    for i, a in items:
        vec[i] = a

    def key(i):
        return "{:b}".format(i).rjust(m, "0")

    dic = {key(i): a for i, a in items}

    def state(_op):
        if form in ("array", "realarray"):
            return vec
        if form == "dict":
            return dic
        if form == "dictfn":
            return DictStateFn(dic)
        if form == "vectorfn":
            return VectorStateFn(vec)
        if form == "statefn":
            return StateFn(vec)
        circ = QuantumCircuit(m)
        circ.initialize(vec / np.linalg.norm(vec), range(m))
        return CircuitStateFn(circ)

    res = MinimumEigenOptimizer(FixedEigensolver(state), **kwargs).solve(qp)
    scale = s

    def smp(e, sc):
        return {"x": [q(v, 1) for v in e.x], "fval": q(e.fval, sc), "prob": int(round(e.probability * W)),
                "ok": e.status == OptimizationResultStatus.SUCCESS}

    return {"kind": "samples", "form": form, "events": [{
        "ev": "samples", "p": p, "d": qpio.project(dst, scale), "dec": dec,
        "state": [{"x": [(i >> k) & 1 for k in range(m)], "prob": w} for i, w in zip(idx, probs)],
        "raw": [smp(e, scale) for e in res.raw_samples], "samples": [smp(e, s) for e in res.samples],
        "x": [q(v, 1) for v in res.x], "fval": q(res.fval, s), "ok": res.status == OptimizationResultStatus.SUCCESS}]}
