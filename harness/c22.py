"""C22: set and number applications."""
import itertools
import random

import apps

RULE = ("all set systems of up to three subsets of a three-element set, small knapsacks and number sets, plus random larger "
        "instances; all assignments judged; instances of 10 to 13 subsets, items or numbers at points around their objects")
ASSUMPTIONS = ["at most 8 subsets, items or numbers for all assignments, 13 otherwise", "elements of set systems are integers"]


def models(ctx):
    ctx.model("MCApps", "MCAppsSets.cfg")


def groups(ctx):
    specs = []
    for n in (1, 2, 3):
        for combo in itertools.product(range(8), repeat=n):
            if n == 3 and not ctx.thorough and sum(combo) % 3:
                continue
            subs = [[e for e in range(3) if m >> e & 1] for m in combo]
            for app in ("exact", "packing"):
                specs.append({"seed": 1, "app": app, "subs": subs})
    kinds = ["exact", "packing", "knapsack", "numbers"]
    for i in range(ctx.pick(1500, 10000)):
        specs.append({"seed": ctx.seed * 100003 + i, "app": kinds[i % 4], "subs": None})
    for i in range(ctx.pick(100, 1000)):
        specs.append({"seed": ctx.seed * 100003 + i, "app": kinds[i % 4], "subs": None, "large": 10 + i // 4 % 4})
    return [("TraceApps", specs)]


def execute(spec):
    rng = random.Random(spec["seed"])
    app = spec["app"]
    n = spec.get("large") or rng.choice([1, 2, 3, 4, 5, 6, 8])
    if "large" in spec and app != "knapsack":
        return large(rng, app, n)
    if app in ("exact", "packing"):
        subs = spec["subs"]
        if subs is None:
            elems = rng.sample([0, 1, 2, 3, 5, 8, -1, 10, 40], rng.randint(1, 6))
            subs = [rng.sample(elems, rng.randint(0 if rng.random() < 0.1 else 1, min(3, len(elems)))) for _ in range(n)]
            if rng.random() < 0.3:  # a guaranteed exact cover
                rng.shuffle(elems)
                cut = rng.randint(0, len(elems))
                subs += [s for s in (elems[:cut], elems[cut:]) if s]
                rng.shuffle(subs)
        return apps.set_case(rng, app, subs, 6)
    if app == "knapsack":
        frac = rng.random() < 0.3
        unit = 1 if frac else apps.S
        v = [rng.randint(0, 9) * unit for _ in range(n)]
        w = [rng.randint(0, 6) * unit for _ in range(n)]
        if not any(w):
            w[0] = unit
        cap = rng.choice([rng.randint(0, sum(w)), sum(w), 0, sum(w) + unit, sum(rng.sample(w, rng.randint(1, n)))])
        return apps.knapsack_case(rng, v, w, cap, 6)
    num = [rng.randint(1, 9) * apps.S for _ in range(n)]
    if rng.random() < 0.4 and n > 1:
        half = rng.randint(1, n - 1)
        num[-1] = abs(sum(num[:half]) - sum(num[half:-1])) or apps.S
    if rng.random() < 0.2:
        num[rng.randrange(n)] *= rng.choice([-1, 0]) if n > 1 else 1
    if rng.random() < 0.2:
        num = [v // 2 for v in num]
    if not any(num):
        num[0] = 1
    return apps.number_case(rng, num, 6)


def large(rng, app, n):
    """An instance with a known object."""
    x = [rng.randint(0, 1) for _ in range(n)]
    if app == "numbers":
        num = [rng.choice([1, 2, 5, 17, 400]) * rng.randint(1, 50) * apps.S for _ in range(n)]
        x[0], x[1] = 0, 1
        diff = sum(v if b else -v for v, b in zip(num, x))
        num[0 if diff > 0 else 1] += abs(diff)
        return apps.number_case(rng, num, 6, [x, [1 - b for b in x]])
    elems = rng.sample(range(-5, 100), 14)
    on = [i for i in range(n) if x[i]] or [0]
    x = [int(i in on) for i in range(n)]
    parts = {i: [] for i in on}
    for k, e in enumerate(elems):
        parts[on[k] if k < len(on) else rng.choice(on)].append(e)
    subs = [parts.get(i) or rng.sample(elems, rng.randint(1, 4)) for i in range(n)]
    return apps.set_case(rng, app, subs, 6, [x])
