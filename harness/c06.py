"""C06: Ising Hamiltonians and binary programs."""
import random

import numpy as np
from qiskit.opflow import I, Z, X, PauliOp, PauliSumOp, SummedOp, ListOp
from qiskit.quantum_info import Pauli

import qpio
from qpio import QuadraticProgram, attempt, exc_name, q, val

S = 4
RULE = "random binary objectives (both senses, constant, linear, diagonal, cross and repeated terms) and random diagonal Pauli sums in several operator classes; every basis state is compared"
ASSUMPTIONS = ["at most 11 variables", "coefficients are multiples of 1/4 or, in some cases, small multiples of 2^-20"]


def models(ctx):
    ctx.model("MCIsing")


def groups(ctx):
    kinds = ["to", "to", "from", "from", "round", "reject"]
    return [("TraceIsing", [{"kind": kinds[i % 6], "seed": ctx.seed * 100003 + i} for i in range(ctx.pick(1200, 9000))])]


def objective(rng):
    n = rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 7]) if rng.random() < 0.98 else 11
    scale, mag = qpio.magnitude(rng, S, False)
    p = qpio.rnd_program(rng, n, "B", scale=scale, lim=mag, coef=rng.choice([1, 5]), full_quad=rng.random() < 0.4,
                         lin_density=rng.choice([0, 0.5, 1]))
    if rng.random() < 0.1:
        p["lin"] = [0] * n
    if rng.random() < 0.1:
        p["quad"] = [[0] * n for _ in range(n)]
    return n, p


def pauli(n, zs):
    z = np.zeros(n, dtype=bool)
    z[zs] = True
    return Pauli((z, np.zeros(n, dtype=bool)))


def execute(spec):
    rng = random.Random(spec["seed"])
    kind = spec["kind"]
    S = globals()["S"]
    if kind == "to":
        n, p = objective(rng)
        S = p["S"]
        qp = qpio.build(p, rng, plain=False, warm=lambda old: old.to_ising())
        op, offset = qp.to_ising()
        mat = op.to_matrix()
        diag = np.diag(mat)
        return {"kind": kind, "events": [{
            "ev": "to", "p": p, "qubits": op.num_qubits, "offset": q(offset, 4 * S),
            "diagonal": bool(np.array_equal(mat, np.diag(diag)) and not np.any(diag.imag)),
            "diag": [q(v.real, 4 * S) for v in diag], "after": qpio.project(qp, S)}]}
    if kind == "round":
        n, p = objective(rng)
        S = p["S"]
        qp = qpio.build(p, rng, plain=False, warm=lambda old: old.to_ising())
        op, offset = qp.to_ising()
        dst = QuadraticProgram() if rng.random() < 0.5 else qp
        dst.from_ising(op, offset, rng.random() < 0.5)
        return {"kind": kind, "events": [{"ev": "round", "p": p, "dst": qpio.project(dst, 4 * S)}]}
    if kind == "from":
        n = rng.choice([1, 2, 2, 3, 4, 5]) if rng.random() < 0.98 else 11
        S = qpio.magnitude(rng, S, False)[0]
        terms = []
        for _ in range(rng.randint(1, 7)):
            deg = rng.choice([0, 1, 1, 2, 2])
            zs = sorted(rng.sample(range(n), min(deg, n)))
            terms.append({"z": [i + 1 for i in zs], "c": rng.choice([-12, -8, -3, -1, 1, 2, 4, 5, 16])})
        off = rng.randint(-20, 20)
        ops = [PauliOp(pauli(n, [i - 1 for i in t["z"]]), val(t["c"], S)) for t in terms]
        form = rng.choice(["summed", "sum", "pausum", "single", "scaled", "one"])
        if form == "summed":
            op = SummedOp(ops)
        elif form == "sum":
            op = sum(ops[1:], ops[0])
        elif form == "pausum":
            op = PauliSumOp.from_list([(t_label(n, t), val(t["c"], S)) for t in terms])
        elif form == "scaled":
            op = SummedOp([PauliOp(o.primitive, o.coeff / 2) for o in ops], coeff=2.0)
        elif form == "one":
            terms, op = terms[:1], SummedOp(ops[:1])
        else:
            terms, op = terms[:1], ops[0]
        linear = rng.random() < 0.5
        dst = QuadraticProgram("old")
        if rng.random() < 0.5:
            dst.integer_var(0, 3, "x_0")
            dst.continuous_var(0, 3, "z")
            dst.linear_constraint({"z": 1}, ">=", 1)
            dst.quadratic_constraint({}, {("z", "z"): 1}, "<=", 1)
            dst.maximize(constant=7, linear={"z": 2})
        if linear or rng.random() < 0.5:
            dst.from_ising(op, val(off, S), linear=linear)
        elif rng.random() < 0.5:
            off = 0
            dst.from_ising(op)
        else:
            dst.from_ising(op, offset=val(off, S))
        return {"kind": kind, "form": form, "events": [{"ev": "from", "n": n, "terms": terms, "offset": off, "linear": linear,
                                          "dst": qpio.project(dst, S)}]}
    return rejected(rng)


def t_label(n, t):
    return "".join("Z" if i in t["z"] else "I" for i in range(n, 0, -1))


def rejected(rng):
    want = "QiskitOptimizationError"
    which = rng.choice(["int", "cont", "lin", "quad", "x", "y", "zzz", "listop"])
    qp = QuadraticProgram()
    if which in ("int", "cont", "lin", "quad"):
        for i in range(3):
            qp.binary_var()
        if which == "int":
            qp.integer_var(0, 1, "i")
        if which == "cont":
            qp.continuous_var(0, 1, "r")
        if which == "lin":
            qp.linear_constraint([1, 1, 0], "<=", 1)
        if which == "quad":
            qp.quadratic_constraint([1, 1, 0], {(0, 1): 1}, "<=", 1)
        qp.minimize(linear=[1, 2, 3] + [0] * (qp.get_num_vars() - 3))
        ok, res = attempt(qp.to_ising)
    else:
        op = {"x": lambda: (Z ^ Z) + (X ^ I), "y": lambda: PauliSumOp.from_list([("ZI", 1), ("YI", 2)]),
              "zzz": lambda: (Z ^ Z ^ Z) + (Z ^ I ^ I), "listop": lambda: ListOp([Z ^ Z, Z ^ I])}[which]()
        if which == "listop":
            want = "NotImplementedError"
        ok, res = attempt(qp.from_ising, op)
    return {"kind": "reject", "events": [{"ev": "reject", "exc": "" if ok else exc_name(res), "want": want}]}
