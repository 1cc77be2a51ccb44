"""C16: Grover adaptive search."""
import itertools
import random

import numpy as np
from qiskit.quantum_info import Statevector
from qiskit.utils import algorithm_globals

from qiskit_optimization.algorithms import GroverOptimizer, OptimizationResultStatus
from qiskit_optimization.converters import QuadraticProgramToQubo

import c10
import convlib
import qpio
from qpio import q

W = 1000000
RULE = ("random integral programs of both senses, with and without constraints; arbitrary measured outcomes, noise included, fed to "
        "the search as counts or statevector, and histories with the real circuits simulated exactly; every circuit's full support, "
        "every acceptance, the stopping point and the whole result judged")
ASSUMPTIONS = ["at most 4 binary variables after conversion", "simulated histories: every value fits the value register"]


def models(ctx):
    ctx.model("MCGrover")
    if ctx.thorough:
        ctx.model("MCGrover", "SPECIFICATION Spec\nCONSTANTS N = 3\n Vals = {0, 1, 2, 3, 4}\nINVARIANTS Honest BestSeen Bounded\n"
                              "PROPERTIES Monotone Terminates\nCHECK_DEADLOCK FALSE\n", timeout=900)


def groups(ctx):
    n = ctx.pick(600, 4000)
    return [("TraceGrover", [{"seed": ctx.seed * 100003 + i, "mode": "script" if i % 2 else "sim"} for i in range(n)])]


class Answer:
    def __init__(self, counts=None, state=None):
        self.counts, self.state = counts, state

    def get_counts(self, _=None):
        return dict(self.counts)

    def get_statevector(self, _=None):
        return self.state


class Machine:
    """A quantum instance whose outcomes come from the given function."""

    class run_config:
        shots = 1

    def __init__(self, run, vector, shots):
        self.run, self.is_statevector = run, vector
        self.run_config = type("C", (), {"shots": shots})

    def execute(self, circuit, **_):
        return self.run(circuit)


def program(rng):
    if rng.random() < 0.6:
        return qpio.rnd_program(rng, rng.randint(1, 4), "B", scale=1, coef=rng.choice([1, 2, 3]), full_quad=rng.random() < 0.3)
    return c10.instance(rng, 1, rng.choice([2, 3, 4]))


def number(bits):
    """Two's complement, most significant bit first."""
    return int("".join(map(str, bits)), 2) - (2 ** len(bits) if bits[0] else 0)


def execute(spec):
    rng = random.Random(spec["seed"])
    algorithm_globals.random_seed = spec["seed"]
    p = program(rng)
    qp = qpio.build(p, rng, plain=False, warm=lambda old: QuadraticProgramToQubo().convert(old))
    kwargs, pen = {}, None
    if rng.random() < 0.6:
        pen = rng.choice([1, 2, 4])
        if rng.random() < 0.5:
            kwargs["penalty"] = pen
        else:
            kwargs["converters"] = QuadraticProgramToQubo(pen)
    elif not p["lc"] and all(v["type"] == "B" for v in p["vars"]) and rng.random() < 0.5:
        kwargs["converters"] = []       # nothing to convert
    conv = QuadraticProgramToQubo(pen)
    dst = conv.convert(qp)
    n = dst.get_num_vars()
    dec, _, _ = convlib.decoding(conv, n, len(p["vars"]))
    d = qpio.project(dst, 1)
    sign = d["sense"]
    vals = [sign * q(dst.objective.evaluate(list(x)), 1) for x in itertools.product((0, 1), repeat=n)]
    hi = max(max(vals) - min(vals), max(vals), -min(vals))
    need = hi.bit_length() + 1
    m = need + rng.choice([0, 0, 1])
    sim = spec["mode"] == "sim" and m <= 6 + (rng.random() < 0.3)
    if not sim:
        m = rng.choice([2, 3, 4, 5])
    N = rng.choice([1, 2, 2, 3, 4])
    if N != 3 or rng.random() < 0.5:
        kwargs["num_iterations"] = N
    vector = rng.random() < 0.4
    events = []
    dists = []

    def scripted(_):
        x = [rng.randint(0, 1) for _ in range(n)]
        t = [rng.randint(0, 1) for _ in range(m)]
        bits = x + t + [0]
        events.append({"ev": "measure", "d": d, "x": x, "v": number(t), "dist": [{"x": x, "prob": W}], "N": N})
        text = "".join(map(str, bits))[::-1]
        if vector:
            state = np.zeros(2 ** len(bits), dtype=complex)
            state[int(text, 2)] = rng.choice([1, -1, 1j])
            return Answer(state=state)
        return Answer(counts={text: shots})

    def simulated(circuit):
        circuit = circuit.copy()
        circuit.remove_final_measurements()
        state = np.asarray(Statevector.from_instruction(circuit).data)
        prob = np.abs(state) ** 2
        cells, marg = {}, {}
        for k in np.nonzero(prob > 1e-9)[0]:
            bits = [(int(k) >> i) & 1 for i in range(n + m)]
            key = tuple(bits[:n]), number(bits[n:])
            cells[key] = cells.get(key, 0) + prob[k]
        support = [{"x": list(x), "v": v, "prob": round(w * W)} for (x, v), w in sorted(cells.items())]
        if vector:
            for k, w in enumerate(prob):
                x = tuple((k >> i) & 1 for i in range(n))
                marg[x] = marg.get(x, 0) + w
            answer = Answer(state=state)
        else:
            keep = np.nonzero(prob > 1e-9)[0]
            draw = np.random.RandomState(rng.randrange(2 ** 31)).multinomial(shots, prob[keep] / prob[keep].sum())
            counts = {}
            for k, c in zip(keep, draw):
                if c:
                    text = format(int(k), "0%db" % (n + m + 1))
                    counts[text] = int(c)
                    x = tuple(int(b) for b in text[::-1][:n])
                    marg[x] = marg.get(x, 0) + c / shots
            answer = Answer(counts=counts)
        events.append({"ev": "circuit", "d": d, "m": m, "support": support, "before": dists[-1] if dists else [], "first": not dists, "N": N,
                       "rmax": max(0, int(np.ceil(2 ** (n / 2))) - 1)})
        dists.append([{"x": list(x), "prob": round(w * W)} for x, w in marg.items() if w > 1e-9])
        return answer

    shots = rng.choice([1, 3, 16, 64]) if sim else rng.choice([1, 5])
    machine = Machine(simulated if sim else scripted, vector, shots)
    if rng.random() < 0.5:
        opt = GroverOptimizer(m, quantum_instance=machine, **kwargs)
    else:
        opt = GroverOptimizer(m, **kwargs)
        opt.quantum_instance = machine
    res = opt.solve(qp)
    runs = len(events)
    events.append({
        "ev": "simend" if sim else "end", "d": d, "p": p, "dec": dec, "x": [q(v, 1) for v in res.x], "fval": q(res.fval, 1),
        "ok": res.status == OptimizationResultStatus.SUCCESS, "ival": q(res.intermediate_fval, 1), "thr": q(res.threshold, 1),
        "ops": len(res.operation_counts), "runs": runs, "nin": res.n_input_qubits, "nout": res.n_output_qubits, "m": m, "N": N,
        "raw": [{"x": [q(v, 1) for v in r.x], "fval": q(r.fval, 1), "prob": round(r.probability * W),
                 "ok": r.status == OptimizationResultStatus.SUCCESS} for r in res.raw_samples],
        "samples": [{"x": [q(v, 1) for v in r.x], "fval": q(r.fval, 1), "prob": round(r.probability * W),
                     "ok": r.status == OptimizationResultStatus.SUCCESS} for r in res.samples]})
    return {"kind": "grover", "events": events}
