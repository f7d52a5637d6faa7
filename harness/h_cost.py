"""C04: counts what real algorithms submit for evaluation and what they charge."""
import random
import hlib, hplug
from hlib import Ids, vec_key
from simulation import factory, run_config

hplug.toy()
from algorithms.HGS.tools import ResultArchive


def objectives(kind, m, hook):
    base = {
        "conv": [lambda x: x[0] + 0.25 * sum(x[1:]), lambda x: (1 - x[0]) ** 2 + 0.5 * sum(x[1:]),
                 lambda x: 1.5 - 0.5 * x[-1] + 0.1 * x[0], lambda x: 2 + x[0] * x[-1]],
        "neg": [lambda x: -3 + x[0], lambda x: -x[0] * x[0] - 1 + sum(x[1:]), lambda x: -x[-1], lambda x: x[0] - x[-1]],
    }[kind][:m]

    def wrap(j, f):
        def g(x):
            hook(j, x)
            return float(f(x))
        return g
    return [wrap(j, f) for j, f in enumerate(base)]


def main(sc, tr):
    ev, ids = tr["ev"], Ids()
    rng = random.Random(sc["id"])
    n, m, nd = len(sc["cached"]), sc["m"], sc["nd"]
    dims = [(-1.0 - j, 2.0 + j) for j in range(nd)]
    dup = sc.get("dup")
    pop = [[rng.uniform(a, b) for a, b in dims] for _ in range(n)]
    if dup:
        pop[-1] = list(pop[0])
    cur = {"ev": [], "n": [0] * m, "last": None}
    archive = ResultArchive()
    clean = objectives(sc["obj"], m, lambda j, x: None)
    use_cache = sc["use_cache"]

    def hook(j, x):
        cur["n"][j] += 1
        if j == 0:
            cur["ev"].append([ids(vec_key(x)), 1 if use_cache and x in archive else 0])
    fits = objectives(sc["obj"], m, hook)
    for x, c in zip(pop, sc["cached"]):
        if c:
            archive[x] = [f(x) for f in clean]
    algo = sc["algo"]
    fac, _ = factory.prepare(algo, "TOY")
    over = {"population": [list(x) for x in pop], "dims": dims, "fitnesses": fits,
            "mutation_rate": sc["rate"], "crossover_rate": sc["rate"]}
    if use_cache:
        over["fitness_archive"] = archive
    if algo == "SMSEMOA":
        over["reference_point"] = tuple(50.0 for _ in range(m))
    tr["cfg"] = {"mode": sc["mode"]}

    def flush(k):
        ev.append({"k": k, "evals": cur["ev"], "counts": cur["n"], "cost": int(drv.cost)})
        cur["ev"], cur["n"] = [], [0] * m
    drv = fac(**over)
    flush("init")
    others = []
    if sc.get("twin"):                       # a second algorithm sharing the cache
        fac2, _ = factory.prepare(algo, "TOY")
        o2 = dict(over, fitnesses=clean, population=[list(x) for x in pop])
        others.append(fac2(**o2))
    steps = 0
    for op in sc["ops"][1:] + ["read"]:
        if op == "read":
            list(drv.population)
            fin = [list(x) for x in drv.finalized_population()]
            list(drv.population)
            flush("read")
            # after a step every member of the final population has been submitted for evaluation or was in the cache
            ev[-1]["fin"] = [ids(vec_key(x)) for x in fin if steps and not (use_cache and x in archive)]
        else:
            for o in others:
                o.next_step()
            drv.next_step()
            steps += 1
            flush("step")
    return tr


hlib.run_main(main, 200)
