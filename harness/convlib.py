"""Recording converters: the converted program and the decoding of its assignments."""
import numpy as np

from qpio import q, val


def decoding(conv, m, n_src, rng=None, aslist=False):
    """interpret as an affine map: base and one column per converted variable."""
    lens = True

    def call(vec):
        nonlocal lens
        vec = [float(v) for v in vec]
        if rng is not None and rng.random() < 0.3:
            res = conv.interpret(list(vec))
        else:
            res = conv.interpret(np.array(vec))
        lens = lens and len(res) == n_src
        return [q(v, 1) for v in res]

    base = call([0] * m)
    cols = []
    for k in range(m):
        unit = [0] * m
        unit[k] = 1
        cols.append([a - b for a, b in zip(call(unit), base)])
    probes = []
    if rng is not None:
        for _ in range(4):
            b = [rng.randint(0, 1) for _ in range(m)]
            probes.append({"b": b, "x": call(b)})
    return {"base": base, "cols": cols}, probes, lens


def identity_probes(conv, m, rng, lo=-3, hi=4):
    res = []
    for _ in range(3):
        b = [rng.randint(lo, hi) for _ in range(m)]
        vec = [float(v) for v in b]
        out = conv.interpret(vec if rng.random() < 0.4 else np.array(vec))
        res.append({"b": b, "x": [q(v, 1) for v in out]})
    return res


def domain(p, i):
    v = p["vars"][i]
    s = p["S"]
    return list(range(-((-v["lb"]) // s), v["ub"] // s + 1))


def size(p):
    total = 1
    for i in range(len(p["vars"])):
        total *= len(domain(p, i))
    return total


def adverse(p, x, rng):
    """Makes the objective pull away from the point x, so that only a sufficient penalty keeps solutions feasible."""
    s = p["S"]
    few = rng.random() < 0.5
    for i, v in enumerate(p["vars"]):
        a = rng.randint(1, 9) * s if not few or rng.random() < 0.5 else 0
        up = x[i] * s >= v["ub"] if rng.random() < 0.9 else rng.random() < 0.5
        p["lin"][i] = p["sense"] * (a if up else -a)
    if few:
        p["quad"] = [[0] * len(x) for _ in x]
