"""C06: what the elitist algorithms keep of the candidates they hold.  The k-th distinct candidate that is
evaluated receives the k-th objective vector of the scenario, so that TLC's multisets become the pools."""
import random
import hlib, hplug
from simulation import factory

hplug.toy()
MODE = {"NSGAII": "layers", "JGBL": "layers", "SMSEMOA": "layers", "NSLS": "fronts", "SPEA2": "fronts", "IBEA": "indicator", "NSGAIII": "size"}
MAPS = [lambda v: float(v), lambda v: 1 + 0.5 * v, lambda v: v * v + 3, lambda v: -4.0 + v, lambda v: 1e-3 * (v + 1)]


def main(sc, tr):
    ev = tr["ev"]
    rng = random.Random(sc["id"])
    algo, n, table = sc["algo"], sc["n"], sc["table"]
    d = len(table[0])
    nd = sc.get("nd", 2)
    maps = [rng.choice(MAPS) for _ in range(d)]
    ids, obj, calls = {}, [], []

    def ident(x):
        k = tuple(float(c) for c in x)
        if k not in ids:
            ids[k] = len(obj) + 1
            i = len(obj)
            obj.append(table[i] if i < len(table) else [rng.randint(0, sc["v"]) for _ in range(d)])
        return ids[k]

    def fit(j):
        def f(x):
            i = ident(x)
            if j == 0:
                calls.append(i)
            return maps[j](obj[i - 1][j])
        return f

    fac, _ = factory.prepare(algo, "TOY")
    over = {"population": [[rng.uniform(0.2, 0.8) for _ in range(nd)] for _ in range(n)], "dims": [(0.0, 1.0)] * nd,
            "fitnesses": [fit(j) for j in range(d)], "mutation_rate": 1.0, "crossover_rate": sc.get("crate", 0.5)}
    if algo in ("NSGAII", "JGBL", "IBEA"):
        over["mating_population_size"] = sc.get("mating", 1.0)
    if algo == "SMSEMOA":
        over["epoch_length_multiplier"] = 1.0 / n + 1e-9
        over["reference_point"] = tuple(maps[j](sc["v"] + sc.get("ref", 1)) for j in range(d))
    tr["cfg"] = {"n": n, "mode": MODE[algo]}
    drv = fac(**over)

    def I(p):
        return [ident(v) for v in p]

    def cut(offered, kept, extra=(), full=True, what=""):
        used = sorted(set(offered) | set(kept) | set(extra))
        no = {u: q + 1 for q, u in enumerate(used)}
        ev.append({"k": "cut", "what": what, "offered": [no[x] for x in offered], "kept": [no[x] for x in kept],
                   "extra": [no[x] for x in extra], "obj": [obj[u - 1] for u in used], "full": full})

    for s in range(sc["steps"]):
        p0 = I(drv.population)
        f0 = I(drv.finalized_population()) if algo == "SPEA2" else []
        del calls[:]
        drv.next_step()
        new = list(calls)
        p1 = I(drv.population)
        if algo == "SPEA2":
            cut(f0 + p0, I(drv.finalized_population()), what="archive")
        elif algo == "SMSEMOA":
            one = len(new) == 1
            cut(p0 + (new if one else []), I(drv.finalized_population()), extra=[] if one else new, what="steady-state")
        elif algo in ("NSLS", "NSGAIII"):
            cut(p0, I(drv.finalized_population()), extra=new, what="next-generation")
        else:
            if algo != "JGBL":
                rest, keep = list(p1), []
                for x in p0:
                    if x in rest:
                        rest.remove(x)
                        keep.append(x)
                cut(p0, keep, full=False, what="step-to-step")
            if algo == "JGBL" or rng.random() < 0.6 or s == sc["steps"] - 1 or s == 0:
                cut(p1, I(drv.finalized_population()), what="final")
    return tr


hlib.run_main(main, 120)
