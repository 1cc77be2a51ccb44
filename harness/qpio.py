"""Building quadratic programs through the public API and projecting them to the
integer records the specifications work on."""
import copy
import math
import random

import numpy as np
from scipy.sparse import csr_matrix, dok_matrix, coo_matrix

from qiskit_optimization import QuadraticProgram, QiskitOptimizationError, INFINITY
from qiskit_optimization.problems.constraint import ConstraintSense
from qiskit_optimization.problems.quadratic_objective import ObjSense
from qiskit_optimization.problems.variable import VarType

INF = 1000000000
T2S = {VarType.BINARY: "B", VarType.INTEGER: "I", VarType.CONTINUOUS: "C"}
S2T = {v: k for k, v in T2S.items()}
C2S = {ConstraintSense.LE: "LE", ConstraintSense.GE: "GE", ConstraintSense.EQ: "EQ"}
SENSE_WORDS = {"LE": ["<=", "<", "L", "LE", "le", "l", ConstraintSense.LE],
               "GE": [">=", ">", "G", "GE", "ge", "g", ConstraintSense.GE],
               "EQ": ["==", "=", "E", "EQ", "eq", "e", ConstraintSense.EQ]}


class Inexact(Exception):
    """A recorded number is not a multiple of the case's unit."""


def q(value, scale, tol=1e-6, huge=INFINITY):
    """value as an integer number of units 1/scale."""
    value = float(np.real(value))
    if math.isnan(value):
        raise Inexact("nan")
    if value >= huge:
        return INF
    if value <= -huge:
        return -INF
    r = round(value * scale)
    if abs(r - value * scale) > tol * max(1.0, min(abs(value), abs(value * scale))):
        raise Inexact("{!r} is not a multiple of 1/{}".format(value, scale))
    if abs(r) >= 2 ** 30:
        raise Inexact("{!r} out of range".format(value))
    return int(r)


def lin_of(expr, n, scale):
    arr = expr.to_array()
    if len(arr) != n:
        raise Inexact("linear expression of length {} for {} variables".format(len(arr), n))
    return [q(v, scale) for v in arr]


def quad_of(expr, n, scale):
    arr = expr.to_array()
    if arr.shape != (n, n):
        raise Inexact("quadratic expression of shape {}".format(arr.shape))
    return [[q(v, scale) for v in row] for row in arr]


class Incoherent(Exception):
    """Lookups, counts or owners of a program disagree with its own lists."""


def coherent(qp):
    """However a program was produced, its names, indices, counts and owners agree with its lists (the registry rules of C01)."""
    kinds = {VarType.BINARY: qp.get_num_binary_vars(), VarType.INTEGER: qp.get_num_integer_vars(),
             VarType.CONTINUOUS: qp.get_num_continuous_vars()}
    ok = qp.get_num_vars() == len(qp.variables) and all(
        kinds[t] == sum(v.vartype == t for v in qp.variables) for t in kinds)
    ok = ok and qp.get_num_linear_constraints() == len(qp.linear_constraints)
    ok = ok and qp.get_num_quadratic_constraints() == len(qp.quadratic_constraints)
    for items, index, get in ((qp.variables, qp.variables_index, qp.get_variable),
                              (qp.linear_constraints, qp.linear_constraints_index, qp.get_linear_constraint),
                              (qp.quadratic_constraints, qp.quadratic_constraints_index, qp.get_quadratic_constraint)):
        ok = ok and {e.name: i for i, e in enumerate(items)} == dict(index) and len(index) == len(items)
        ok = ok and all(get(i) is e and get(e.name) is e and e.quadratic_program is qp for i, e in enumerate(items))
    owned = [qp.objective, qp.objective.linear, qp.objective.quadratic] + [c.linear for c in qp.linear_constraints]
    for c in qp.quadratic_constraints:
        owned += [c.linear, c.quadratic]
    if not (ok and all(e.quadratic_program is qp for e in owned)):
        raise Incoherent("names, indices, counts or owners of {!r} disagree with its lists".format(qp.name))


def project(qp, scale, derived=lambda name: False):
    """The abstract program denoted by a QuadraticProgram.  Bounds of derived variables may come from infinite ones by arithmetic."""
    coherent(qp)
    n = qp.get_num_vars()
    return {
        "S": scale,
        "name": qp.name if isinstance(qp.name, str) else str(qp.name),
        "status": qp.status.name,
        "vars": [{"name": v.name, "type": T2S[v.vartype], "lb": q(v.lowerbound, scale, huge=1e15 if derived(v.name) else INFINITY),
                  "ub": q(v.upperbound, scale, huge=1e15 if derived(v.name) else INFINITY)} for v in qp.variables],
        "sense": qp.objective.sense.value,
        "const": q(qp.objective.constant, scale),
        "lin": lin_of(qp.objective.linear, n, scale),
        "quad": quad_of(qp.objective.quadratic, n, scale),
        "lc": [{"name": c.name, "lin": lin_of(c.linear, n, scale), "sense": C2S[c.sense],
                "rhs": q(c.rhs, scale)} for c in qp.linear_constraints],
        "qc": [{"name": c.name, "lin": lin_of(c.linear, n, scale),
                "quad": quad_of(c.quadratic, n, scale), "sense": C2S[c.sense],
                "rhs": q(c.rhs, scale)} for c in qp.quadratic_constraints],
    }


def val(i, scale):
    """The real number behind an integer of units 1/scale (an int when integral)."""
    if i >= INF:
        return INFINITY
    if i <= -INF:
        return -INFINITY
    f = i / scale
    return int(f) if f == int(f) else f


def lin_form(rng, vec, names, scale, forms=None):
    """One of the accepted formats for a linear coefficient vector."""
    vals = [val(v, scale) for v in vec]
    form = rng.choice(forms or ["dict_name", "dict_idx", "list", "array", "csr", "dok", "intarray", "dictmix", "coo"])
    if not vec and form not in ("dict_name", "dict_idx"):
        form = "dict_name"
    if form == "dict_name":
        items = [(names[i], v) for i, v in enumerate(vals) if v != 0 or rng.random() < 0.1]
    elif form == "dict_idx":
        items = [(i, v) for i, v in enumerate(vals) if v != 0 or rng.random() < 0.1]
    elif form == "dictmix":
        items = [(names[i] if rng.random() < 0.5 else i, v) for i, v in enumerate(vals) if v != 0]
    else:
        if form == "list":
            return vals
        if form == "array":
            return np.array(vals, dtype=float)
        if form == "intarray":
            return np.array(vals) if all(isinstance(v, int) for v in vals) else np.array(vals, dtype=float)
        if form == "csr":
            return csr_matrix([[float(v) for v in vals]])
        if form == "coo":
            return coo_matrix([[float(v) for v in vals]])
        return dok_matrix([[float(v) for v in vals]])
    rng.shuffle(items)
    return dict(items)


def quad_form(rng, mat, names, scale, forms=None):
    """One of the accepted formats for a quadratic form.  `mat` is a full matrix whose entries
    (i, j) and (j, i) may both be non-zero."""
    n = len(mat)
    vals = [[val(v, scale) for v in row] for row in mat]
    form = rng.choice(forms or ["dict_name", "dict_idx", "list", "array", "csr", "dok", "coo"])
    if n == 0 and form not in ("dict_name", "dict_idx"):
        form = "dict_name"
    if form in ("dict_name", "dict_idx"):
        items = [((names[i], names[j]) if form == "dict_name" else (i, j), vals[i][j])
                 for i in range(n) for j in range(n) if vals[i][j] != 0]
        rng.shuffle(items)
        return dict(items)
    if form == "list":
        return vals
    arr = np.array(vals, dtype=float)
    return {"array": lambda: arr, "csr": lambda: csr_matrix(arr), "dok": lambda: dok_matrix(arr),
            "coo": lambda: coo_matrix(arr)}[form]()


def build(p, rng=None, plain=True, warm=None):
    """A QuadraticProgram denoting the record p (same format as project's).  Unless plain, it may have a
    past: it was another program before, `warm` (a query or an operation) was applied to that, and
    the program was then edited in place until it denotes p."""
    rng = rng or random.Random(0)
    if plain or rng.random() < 0.5:
        qp = _create(p, rng, plain)
    else:
        old, extra = _past(p, rng)
        qp = _create(old, rng, plain, extra)
        if warm is not None and rng.random() < 0.8:
            attempt(warm, qp)
        _morph(qp, old, p, rng, extra)
    if not plain and rng.random() < 0.1:
        qp = copy.deepcopy(qp)
    return qp


def _create(p, rng, plain, extra=()):
    qp = QuadraticProgram(p.get("name", ""))
    s = p["S"]
    names = [v["name"] for v in p["vars"]]
    forms = ["dict_name"] if plain else None
    if "clear" in extra:
        for j in range(rng.randint(1, 2)):
            qp.integer_var(-3, 3, rng.choice(names + ["junk"]) if j == 0 else "junk1")
        qp.maximize(1, {0: 2}, {(0, 0): 3})
        qp.linear_constraint([1] * qp.get_num_vars(), "<=", 2, p["lc"][0]["name"] if p["lc"] else None)
        qp.quadratic_constraint([1] * qp.get_num_vars(), {(0, 0): 1}, "<=", 2, p["qc"][-1]["name"] if p["qc"] else None)
        qp.clear()
        qp.name = p.get("name", "")
    for v in p["vars"]:
        _variable(qp, v, s)

    def lin(vec):
        return lin_form(rng, vec, names, s, forms)

    def quad(mat):
        return quad_form(rng, mat, names, s, forms)

    if "objective" in extra:
        (qp.minimize if rng.random() < 0.5 else qp.maximize)(3, {0: 5}, {(0, 0): 7})
    (qp.minimize if p["sense"] == 1 else qp.maximize)(
        constant=val(p["const"], s), linear=lin(p["lin"]), quadratic=quad(p["quad"]))
    at = rng.randint(0, len(p["lc"])) if "lc" in extra else None
    for j, c in enumerate(p["lc"] + [None]):
        if j == at:
            qp.linear_constraint({0: 1}, ">=", 1, "junk_c")
        if c is not None:
            qp.linear_constraint(lin(c["lin"]), rng.choice(SENSE_WORDS[c["sense"]]), val(c["rhs"], s), c["name"])
    at = rng.randint(0, len(p["qc"])) if "qc" in extra else None
    for j, c in enumerate(p["qc"] + [None]):
        if j == at:
            qp.quadratic_constraint({0: 1}, {(0, 0): 1}, ">=", 1, "junk_q")
        if c is not None:
            qp.quadratic_constraint(lin(c["lin"]), quad(c["quad"]), rng.choice(SENSE_WORDS[c["sense"]]),
                                    val(c["rhs"], s), c["name"])
    return qp


def _variable(qp, v, s):
    if v["type"] == "B":
        qp.binary_var(v["name"])
        if v["lb"] != 0:
            qp.variables[-1].lowerbound = val(v["lb"], s)
        if v["ub"] != s:
            qp.variables[-1].upperbound = val(v["ub"], s)
    elif v["type"] == "I":
        qp.integer_var(val(v["lb"], s), val(v["ub"], s), v["name"])
    else:
        qp.continuous_var(val(v["lb"], s), val(v["ub"], s), v["name"])


def _past(p, rng):
    """A program that differs from p, and what else there was."""
    s, n = p["S"], len(p["vars"])
    old = copy.deepcopy(p)
    extra = [e for e in ("clear", "objective", "lc", "qc") if n and rng.random() < 0.25]
    if n > 1 and rng.random() < 0.3:    # variables that come last are not there yet
        k = rng.randint(1, n - 1)
        old["vars"] = old["vars"][:k]
        old["lin"] = old["lin"][:k]
        old["quad"] = [r[:k] for r in old["quad"][:k]]
        for c in old["lc"] + old["qc"]:
            c["lin"] = c["lin"][:k]
        for c in old["qc"]:
            c["quad"] = [r[:k] for r in c["quad"][:k]]
    k = len(old["vars"])
    if not k:
        return old, extra
    d = rng.choice([1, -1, 2]) * s
    if rng.random() < 0.2:     # no objective at all
        old.update(const=0, lin=[0] * k, quad=[[0] * k for _ in range(k)])
    for _ in range(rng.randint(1, 4)):
        i, j = sorted((rng.randrange(k), rng.randrange(k)))
        what = rng.choice(["lin", "lin", "quad", "const", "sense", "bounds", "type", "lc", "lc", "qc", "qc", "lcs", "lcl"])
        v = old["vars"][i]
        if what == "lin":
            old["lin"][i] += d
        elif what == "quad":
            old["quad"][i][j] += d
        elif what == "const":
            old["const"] += d
        elif what == "sense":
            old["sense"] = -old["sense"]
        elif what == "bounds" and v["type"] != "B" and abs(v["lb"]) < INF and abs(v["ub"]) < INF:
            v["lb"], v["ub"] = v["lb"] + d, v["ub"] + d
        elif what == "type" and rng.random() < 0.3:
            v["type"] = "C"
        elif what == "lc" and old["lc"]:
            c = rng.choice(old["lc"])
            c["rhs"] += d
            if rng.random() < 0.5:
                c["lin"][i] += d
        elif what == "qc" and old["qc"]:
            c = rng.choice(old["qc"])
            c["rhs"] += d * rng.randint(0, 1)
            c["lin"][i] += d * rng.randint(0, 1)
            c["quad"][i][j] += d * rng.randint(0, 1)
        elif what == "lcs" and old["lc"] + old["qc"]:
            rng.choice(old["lc"] + old["qc"])["sense"] = rng.choice(["LE", "GE", "EQ"])
        elif what == "lcl" and old["lc"] and rng.random() < 0.5:
            old["lc"].pop()
    return old, extra


def _upper(mat):
    n = len(mat)
    return {(i, j): mat[i][j] + (mat[j][i] if i != j else 0) for i in range(n) for j in range(i, n)}


def _morph(qp, old, p, rng, extra):
    """Edits qp, which denotes old, in place until it denotes p."""
    s, names = p["S"], [v["name"] for v in p["vars"]]

    def key(i):
        return names[i] if rng.random() < 0.5 else i

    def entries(expr, want, have):
        for i in range(len(names)):
            if want[i] != (have[i] if i < len(have) else 0):
                expr[key(i)] = val(want[i], s)

    def pairs(expr, want, have):
        want, have = _upper(want), _upper(have)
        for (i, j), w in want.items():
            if w != have.get((i, j), 0):
                if rng.random() < 0.5:
                    i, j = j, i
                expr[(names[i], names[j]) if rng.random() < 0.5 else (i, j)] = val(w, s)

    def lin(expr_of, want, have, owner):
        if want == have:
            return
        if rng.random() < 0.7:
            entries(expr_of.linear, want, have)
        elif owner:
            expr_of.linear = lin_form(rng, want, names, s)
        else:
            expr_of.linear.coefficients = lin_form(rng, want, names, s)

    def quad(expr_of, want, have):
        if _upper(want) == _upper(have):
            return
        if rng.random() < 0.7:
            pairs(expr_of.quadratic, want, have)
        elif rng.random() < 0.5:
            expr_of.quadratic = quad_form(rng, want, names, s)
        else:
            expr_of.quadratic.coefficients = quad_form(rng, want, names, s)

    def objective():
        if old["sense"] != p["sense"]:
            qp.objective.sense = ObjSense(p["sense"])
        if old["const"] != p["const"]:
            qp.objective.constant = val(p["const"], s)
        lin(qp.objective, p["lin"], old["lin"], rng.random() < 0.5)
        quad(qp.objective, p["quad"], old["quad"])

    def constraints():
        if "lc" in extra:
            qp.remove_linear_constraint(rng.choice(["junk_c", [c.name for c in qp.linear_constraints].index("junk_c")]))
        if "qc" in extra:
            qp.remove_quadratic_constraint(
                rng.choice(["junk_q", [c.name for c in qp.quadratic_constraints].index("junk_q")]))
        for kind, got in (("lc", qp.linear_constraints), ("qc", qp.quadratic_constraints)):
            for j, c in enumerate(p[kind]):
                if j >= len(old[kind]):
                    qp.linear_constraint(lin_form(rng, c["lin"], names, s), rng.choice(SENSE_WORDS[c["sense"]]),
                                         val(c["rhs"], s), c["name"])
                    continue
                con, was = got[j], old[kind][j]
                lin(con, c["lin"], was["lin"], rng.random() < 0.5)
                if kind == "qc":
                    quad(con, c["quad"], was["quad"])
                if c["rhs"] != was["rhs"]:
                    con.rhs = val(c["rhs"], s)
                if c["sense"] != was["sense"]:
                    con.sense = ConstraintSense.convert(c["sense"])

    def variables():
        for v, w, x in zip(p["vars"], old["vars"], qp.variables):
            if v["type"] != w["type"]:
                x.vartype = S2T[v["type"]]
            if (v["lb"], v["ub"]) != (w["lb"], w["ub"]):
                low, up = val(v["lb"], s), val(v["ub"], s)
                if low > x.upperbound:
                    x.upperbound, x.lowerbound = up, low
                else:
                    x.lowerbound, x.upperbound = low, up

    for v in p["vars"][len(old["vars"]):]:
        _variable(qp, v, s)
    steps = [objective, constraints, variables]
    rng.shuffle(steps)
    for step in steps:
        step()


NAME_POOLS = [
    lambda n, r: ["x{}".format(i) for i in range(n)],
    lambda n, r: ["x{}".format(n - 1 - i) for i in range(n)],
    lambda n, r: r.sample(["a", "b", "c", "x", "y", "z", "x1", "x10", "x2", "var", "_s", "long_name_1", "B", "Z9",
                           "y@x", "q0", "c0", "t", "u", "v", "w"], n) if n <= 21 else ["v{}".format(i) for i in range(n)],
    lambda n, r: ["x_{}".format(i) for i in range(n)],
    lambda n, r: r.sample(["x@{}".format(i) for i in range(n)], n),
    lambda n, r: r.sample([str(i) for i in range(n)], n),
    lambda n, r: r.sample(["x", "X", "y", "Y", "x y", " x", "-1", "1.0", "x+y", "[0]", "None", "x,y", "{}", "%s", "x'", "~", "x0", "X0",
                           "x00", "c0", "0"], n) if n <= 21 else [str(i) for i in range(n)],
]


def rnd_program(rng, n, types="B", coef=4, scale=4, nl=0, nq=0, quad_density=0.5, lin_density=0.8,
                bound=3, cont_inf=False, senses=("LE", "GE", "EQ"), int_coef=False, full_quad=False,
                pool=None, maximize=None, con_coef=None, con_int=False, clash=False, lim=None):
    """A random program record; coefficients are multiples of 1/scale (integers if int_coef), or up to lim units of any size."""
    unit = scale if int_coef else 1
    fine = lim is not None
    lim = lim or coef * scale // unit
    con_unit = scale if (con_int or int_coef) else 1
    con_lim = lim if fine else (con_coef or coef) * scale // con_unit

    def coefv(density, u=unit, m=lim):
        return rng.randint(-m, m) * u if rng.random() < density else 0

    names = (pool or rng.choice(NAME_POOLS))(n, rng)
    variables = []
    for i in range(n):
        t = rng.choice(types)
        if t == "B":
            lb, ub = 0, scale
        elif t == "I":
            lb = rng.randint(-bound, bound) * scale
            ub = lb + rng.choice([0, 1, 1, 2, 3, 4, 5, 7]) * scale
        else:
            lb = rng.randint(-bound * scale, bound * scale)
            ub = lb + rng.randint(0, 2 * bound * scale)
            if fine:    # bounds a tiny bit beside a round number
                lb, ub = ((b // scale) * scale + rng.choice([-1, 0, 1]) for b in (lb, ub + scale))
            if cont_inf and rng.random() < 0.3:
                lb = -INF if rng.random() < 0.5 else lb
                ub = INF
        variables.append({"name": names[i], "type": t, "lb": lb, "ub": ub})

    def quadm(density):
        m = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(n if full_quad else 0 if False else n):
                if j < i and not full_quad:
                    continue
                m[i][j] = coefv(density)
        return m

    def conquad(density):
        m = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                m[i][j] = coefv(density, con_unit, con_lim)
        return m

    dens = rng.choice([0.0, 0.3, quad_density, quad_density, 1.0])
    cname = rng.choice([lambda i: "c{}".format(i), lambda i: "con_{}".format(chr(97 + i)), lambda i: "x{}".format(i)])
    qname = rng.choice([lambda i: "q{}".format(i), lambda i: "quad_{}".format(i)])
    if clash and rng.random() < 0.5:    # linear and quadratic constraints have separate name spaces
        pool_c = ["c", "_c", "__c", "c0", "c1", "_c0", "q0"]
        some, others = rng.sample(pool_c, len(pool_c)), rng.sample(pool_c[:4], 4) + pool_c[4:]
        cname, qname = some.__getitem__, others.__getitem__
    return {
        "S": scale, "name": rng.choice(["", "prob", "p1"]), "status": "VALID", "vars": variables,
        "sense": (rng.choice([1, -1]) if maximize is None else (-1 if maximize else 1)),
        "const": coefv(0.7),
        "lin": [coefv(lin_density) for _ in range(n)],
        "quad": quadm(dens),
        "lc": [{"name": cname(i), "lin": [coefv(0.7, con_unit, con_lim) for _ in range(n)],
                "sense": rng.choice(senses), "rhs": coefv(0.9, con_unit, con_lim)} for i in range(nl)],
        "qc": [{"name": qname(i), "lin": [coefv(0.5, con_unit, con_lim) for _ in range(n)],
                "quad": conquad(0.4),
                "sense": rng.choice(senses), "rhs": coefv(0.9, con_unit, con_lim)} for i in range(nq)],
    }


def rescale(p, f):
    """The same program in units that are f times finer."""
    def up(v):
        return v if abs(v) >= INF else v * f
    res = dict(p, S=p["S"] * f, const=up(p["const"]), lin=[up(v) for v in p["lin"]], quad=[[up(v) for v in r] for r in p["quad"]])
    res["vars"] = [dict(v, lb=up(v["lb"]), ub=up(v["ub"])) for v in p["vars"]]
    res["lc"] = [dict(c, lin=[up(v) for v in c["lin"]], rhs=up(c["rhs"])) for c in p["lc"]]
    res["qc"] = [dict(c, lin=[up(v) for v in c["lin"]], quad=[[up(v) for v in r] for r in c["quad"]], rhs=up(c["rhs"]))
                 for c in p["qc"]]
    return res


def count(rng, lo, hi, p=0.04):
    """A small number of variables, rarely one with two digits."""
    return rng.randint(11, 12) if rng.random() < p else rng.randint(lo, hi)


def magnitude(rng, scale, wide=True):
    """(scale, lim): mostly ordinary numbers, sometimes tiny ones or ones with many digits."""
    r = rng.random()
    if r < 0.1:
        return 2 ** 20, rng.choice([1, 3, 20])
    if wide and r < 0.2:
        return 2 ** 20, 2 ** 25
    return scale, None


def finer(p, rng, f=16):
    """Objective coefficients with more digits."""
    p = rescale(p, f)
    p["lin"] = [v + rng.randint(-2, 2) for v in p["lin"]]
    p["const"] += rng.randint(-2, 2)
    p["quad"] = [[v + rng.randint(-1, 1) if v else 0 for v in r] for r in p["quad"]]
    return p


def seed_all(seed):
    random.seed(seed)
    np.random.seed(seed % (2 ** 31))
    try:
        from qiskit.utils import algorithm_globals
        algorithm_globals.random_seed = seed % (2 ** 31)
    except ImportError:
        pass


def attempt(fun, *args, **kwargs):
    """(True, value) or (False, exception)."""
    try:
        return True, fun(*args, **kwargs)
    except Exception as ex:  # pylint: disable=broad-except
        return False, ex


def exc_name(ex):
    return "QiskitOptimizationError" if isinstance(ex, QiskitOptimizationError) else type(ex).__name__


def nonempty(p, rng):
    """Gives every constraint at least one variable."""
    for c in p["lc"]:
        if not any(c["lin"]):
            c["lin"][rng.randrange(len(c["lin"]))] = p["S"]
    for c in p["qc"]:
        if not any(any(r) for r in c["quad"]):
            k = rng.randrange(len(c["lin"]))
            c["quad"][k][k] = p["S"]
    return p
