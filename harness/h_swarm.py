"""C08: the archives of the particle swarm, fed directly and observed in a running swarm."""
import random
import hlib, hplug
from algorithms.OMOPSO import OMOPSO as omo
from simulation import factory

hplug.toy()


def bag(it):
    return [list(m.objectives) for m in it]


def offers(sc, tr):
    ev = tr["ev"]
    rng = random.Random(sc["id"])
    lead = omo.LeaderArchive(sc["cap"])
    arch = omo.Archive(0.0075)
    tr["cfg"] = {"cap": sc["cap"], "num": 403, "den": 400}
    unit = 1 if sc.get("ints") else 2.0 ** sc.get("exp", 0)     # exact rescaling: the rules do not depend on the unit

    def ind(p):
        i = omo.Individual([rng.random()])
        i.objectives = [v for v in p] if sc.get("ints") else [float(v) * unit for v in p]
        return i

    def ab(vs):
        return [[int(round(x / unit)) for x in v] for v in vs]
    for p in sc["seq"]:
        if sc.get("both", True):
            acc = lead.add(ind(p))
            ev.append({"k": "offer", "who": "leaders", "p": p, "acc": bool(acc), "after": ab(bag(lead))})
            if sc.get("gate") and not acc:
                continue
        acc = arch.add(ind(p))
        ev.append({"k": "offer", "who": "archive", "p": p, "acc": bool(acc), "after": ab(bag(arch))})
        if sc.get("crowd") and rng.random() < 0.5:
            lead.crowding()
    return tr


def swarm(sc, tr):
    ev = tr["ev"]
    rng = random.Random(sc["id"])
    n, d, v = sc["n"], sc["d"], sc["v"]
    ids, calls = {}, []

    def vec(x):
        k = tuple(float(c) for c in x)
        if k not in ids:
            if sc["shape"] == "rand":
                ids[k] = [1 + rng.randint(0, v) for _ in range(d)]
            elif sc["shape"] == "better":       # improving with time: newcomers dominate many members
                q = len(ids) // max(1, n)
                ids[k] = [max(1, 1 + v - q + rng.randint(0, 2)) for _ in range(d)]
            else:                               # along a front, coarse
                a = min(v, max(0, int(k[0] * (v + 1))))
                ids[k] = [1 + a, 1 + v - a + (1 if k[-1] > 0.6 else 0)] + [1 + a] * (d - 2)
        return ids[k]

    def fit(j):
        def f(x):
            o = vec(x)
            if j == 0:
                calls.append(o)
            return float(o[j]) * 2.0 ** sc.get("exp", 0)
        return f
    fac, _ = factory.prepare("OMOPSO", "TOY")
    drv = fac(population=[[rng.random() for _ in range(2)] for _ in range(n)], dims=[(0.0, 1.0)] * 2, fitnesses=[fit(j) for j in range(d)])
    tr["cfg"] = {"cap": n, "num": 403, "den": 400}
    if sc.get("budget"):
        drv.max_budget = 30 * n
    chain = d == 2 and n >= v + 1 + (1 if sc["shape"] == "line" else 0)

    def obs():
        seen = list(calls)
        del calls[:]
        ev.append({"k": "swarm", "evals": seen, "lead": [vec(m.value) for m in drv.leader_archive], "arch": [vec(x) for x in drv.finalized_population()],
                   "chain": chain})
    obs()
    for _ in range(sc["steps"]):
        drv.next_step()
        obs()
    return tr


hlib.run_main(lambda sc, tr: (offers if sc["what"] == "offers" else swarm)(sc, tr), 120)
