"""C05: where the populations of real algorithms are, and how large."""
import random, math
import hlib, hplug
from hlib import Ids, vec_key
from simulation import factory, run_config

hplug.toy()


def code(x, b):
    try:
        if isinstance(x, bool) or x != x:
            return 5
        lo, hi = b
        return 0 if x < lo else 1 if x == lo else 4 if x > hi else 3 if x == hi else 2
    except TypeError:
        return 5


def codes(p, dims):
    r = []
    for v in p:
        v = list(v)
        r.append([code(x, dims[j]) if j < len(dims) else 5 for j, x in enumerate(v)])
    return r


BOXES = {
    "unit": lambda j: (0.0, 1.0),
    "asym": lambda j: [(-3.0, 0.1), (0.3, 7.7), (-0.7, -0.1), (2.5, 2.6)][j % 4],
    "neg": lambda j: (-5.3 - j, -1.1 - j),
    "tiny": lambda j: (1.0, 1.0 + 1e-9) if j % 2 else (-1e-12, 1e-12),
    "big": lambda j: (-1e9, 3e8),
    "mixed": lambda j: [(0.1, 0.30000000000000004), (-1e6, 1e-6), (0.0, 1.0)][j % 3],
    "odd": lambda j: (0.1 * (j + 1), 0.7 + 0.3 * j),
}


def fits(kind, dims):
    def u(x, j):
        lo, hi = dims[j]
        return (x[j] - lo) / (hi - lo)
    if kind == "conflict":
        return [lambda x: 1 + u(x, 0), lambda x: 2 - u(x, 0) + 0.3 * u(x, len(dims) - 1)]
    if kind == "corner":          # the optimum is at a corner: everything is driven into the bounds
        return [lambda x: 1 + sum(u(x, j) for j in range(len(dims))), lambda x: 1 + 2 * sum(u(x, j) ** 2 for j in range(len(dims)))]
    if kind == "ucorner":
        return [lambda x: 9 - sum(u(x, j) for j in range(len(dims))), lambda x: 9 - sum(u(x, j) ** 2 for j in range(len(dims)))]
    if kind == "flat":
        return [lambda x: 1.0, lambda x: 2.0]
    if kind == "front":           # everything is non-dominated
        return [lambda x: 1 + u(x, 0), lambda x: 2 - u(x, 0)]
    if kind == "basin":           # one common optimum inside: whole populations may fail to improve
        return [lambda x: 1 + sum((u(x, j) - 0.37) ** 2 for j in range(len(dims))),
                lambda x: 1 + sum(abs(u(x, j) - 0.37) for j in range(len(dims)))]
    raise ValueError(kind)


def main(sc, tr):
    ev, ids = tr["ev"], Ids()
    rng = random.Random(sc["id"])
    nd = len(sc["init"][0])
    dims = [BOXES[sc["box"]](j) for j in range(nd)]
    pop = []
    for row in sc["init"]:
        pop.append([dims[j][0] if c == 1 else dims[j][1] if c == 3 else rng.uniform(*dims[j]) for j, c in enumerate(row)])
    given = [[x for x in v] for v in pop]
    box0 = [tuple(d) for d in dims]
    algo = sc["algo"]
    fac, _ = factory.prepare(algo, "TOY")
    over = {"population": given, "dims": dims, "fitnesses": fits(sc["obj"], list(dims)),
            "mutation_rate": sc["mrate"], "crossover_rate": sc["crate"]}
    if algo == "SMSEMOA":
        over["reference_point"] = (50.0, 50.0)
    if algo == "JGBL":
        over["jumping_rate"], over["jumping_percentage"] = sc.get("jump", (0.6, 0.5))
    tr["cfg"] = {"n": len(pop), "nd": nd, "fin": "cur" if algo == "OMOPSO" else "size", "given": [ids(vec_key(v)) for v in pop]}

    def obs(k):
        cur = codes(drv.population, dims)
        fin = codes(drv.finalized_population(), dims)
        e = {"k": k, "given": [ids(vec_key(v)) for v in given], "cur": cur, "final": fin}
        if [tuple(d) for d in dims] != box0:
            e["given"] = ["box altered"]
        ev.append(e)
    if sc.get("extreme"):
        # the generator's rarest values, often
        real, pick = random.random, random.Random(sc["id"] + "x")

        def extreme():
            return pick.choice([0.0, 2.0 ** -53, 0.5, 1 - 2.0 ** -53, 0.5 + 2.0 ** -53]) if pick.random() < 0.4 else real()
        random.random = extreme
    drv = fac(**over)
    if sc.get("budget"):
        drv.max_budget = 50 * len(pop)
    obs("new")
    for i in range(sc["steps"]):
        drv.next_step()
        if sc.get("every", True) or i == sc["steps"] - 1:
            obs("step")
    return tr


hlib.run_main(main, 150)
