"""C24: which of the candidates that dominance leaves undecided survive.  The k-th distinct candidate that is
evaluated receives the k-th objective vector of the scenario; values are exact for the arithmetic involved."""
import math, random
import hlib, hplug
from simulation import factory

hplug.toy()
RULE = {"NSGAII": "crowding", "JGBL": "crowding", "SMSEMOA": "volume", "SPEA2": "strength", "IBEA": "indicator", "NSGAIII": "lines"}


def geometry(v, low, high, lines):
    """distance from every reference line and position along it, in millionths, after scaling every objective to 0..1"""
    x = [(c - a) / (b - a) if b > a else 0.0 for c, a, b in zip(v, low, high)]
    rej, proj = [], []
    for l in lines:
        norm = math.sqrt(sum(c * c for c in l))
        p = sum(a * c for a, c in zip(x, l)) / norm
        rej.append(int(round(1e6 * math.sqrt(sum((a - p * c / norm) ** 2 for a, c in zip(x, l))))))
        proj.append(int(round(1e6 * p)))
    return rej, proj


def main(sc, tr):
    ev = tr["ev"]
    rng = random.Random(sc["id"])
    algo, n, table = sc["algo"], sc["n"], sc["table"]
    d, nd = len(table[0]), 2
    scale = [2.0 ** rng.randrange(-3, 4)] * d
    if algo in ("NSGAII", "JGBL", "SMSEMOA", "IBEA", "NSGAIII"):       # measures that scale every objective by itself
        scale = [2.0 ** rng.randrange(-3, 4) for _ in range(d)]
    off = [rng.choice([0.0, 0.0, -4.0, 16.0, -1024.0]) for _ in range(d)]
    ids, obj = {}, []

    def ident(x):
        k = tuple(float(c) for c in x)
        if k not in ids:
            ids[k] = len(obj) + 1
            i = len(obj)
            obj.append(table[i] if i < len(table) else list(rng.choice(sc["more"])))
        return ids[k]

    def fit(j):
        return lambda x: (obj[ident(x) - 1][j] + off[j]) * scale[j]

    fac, _ = factory.prepare(algo, "TOY")
    over = {"population": [[rng.uniform(0.2, 0.8) for _ in range(nd)] for _ in range(n)], "dims": [(0.0, 1.0)] * nd,
            "fitnesses": [fit(j) for j in range(d)], "mutation_rate": 1.0, "crossover_rate": rng.choice([0, 0.5, 1.0])}
    if algo in ("NSGAII", "JGBL", "IBEA"):
        over["mating_population_size"] = sc.get("mating", 1.0)
    if algo == "IBEA":
        over["kappa"] = 1.0 / (3 * sc["v"])
    if algo == "SMSEMOA":
        over["epoch_length_multiplier"] = 1.0 / n + 1e-9
        over["reference_point"] = tuple((sc["v"] + sc["ref"] + off[j]) * scale[j] for j in range(d))
    theta = 5
    if algo == "NSGAIII":
        theta = over["theta"] = rng.choice([5, 5, 1, 12])
    tr["cfg"] = {"theta": theta, "n": n, "rule": RULE[algo], "ref": [sc["v"] + sc.get("ref", 1)] * d}
    drv = fac(**over)

    def I(p):
        return [ident(v) for v in p]

    def cut(offered, kept, what, lines=None):
        if len(set(offered) | set(kept)) == 0:
            return
        used = sorted(set(offered) | set(kept))
        no = {u: q + 1 for q, u in enumerate(used)}
        ev.append({"k": "cut", "what": what, "offered": [no[x] for x in offered], "kept": [no[x] for x in kept], "obj": [obj[u - 1] for u in used]})
        if lines:
            O = [obj[u - 1] for u in used]
            low = [min(o[j] for o in obj) for j in range(d)]
            high = [max(obj[u - 1][j] for u in offered) for j in range(d)]
            g = [geometry(o, low, high, lines) for o in O]
            ev[-1].update(rej=[r for r, _ in g], proj=[p for _, p in g])

    for s in range(sc["steps"]):
        p0 = I(drv.population)
        f0 = I(drv.finalized_population()) if algo == "SPEA2" else []
        known = len(obj)
        drv.next_step()
        p1 = I(drv.population)
        new = [i for i in p1 if i > known]
        if algo == "SPEA2":
            f1 = I(drv.finalized_population())
            if not any(i > known for i in f1):
                cut(f0 + p0, f1, "archive")
        elif algo == "NSGAIII":
            fresh = list(range(known + 1, len(obj) + 1))
            if len(fresh) == 2 * (n // 2) and hasattr(drv, "reference_points"):
                cut(p0 + fresh, I(drv.finalized_population()), "generation", [[float(c) for c in p] for p in drv.reference_points])
        elif algo == "SMSEMOA":
            fresh = list(range(known + 1, len(obj) + 1))
            if len(fresh) == 1:
                cut(p0 + fresh, I(drv.finalized_population()), "steady-state")
        else:
            keep = [i for i in p1 if i <= known]
            if algo != "JGBL" and len(keep) == n and new:
                cut(p0, keep, "step-to-step")
            if sc["final"] or s == sc["steps"] - 1:
                cut(p1, I(drv.finalized_population()), "final")
    return tr


hlib.run_main(main, 120)
