"""C07: feeds TLC-enumerated multisets of objective vectors to every implementation of dominance, layering, filtering."""
import random
import hlib, hplug
from hlib import Ids
from evotools import ea_utils
from algorithms.base import drivertools
from metrics import metrics, metrics_utils
from algorithms.NSGAII import NSGAII as nsga
from algorithms.SMSEMOA import SMSEMOA as sms
from algorithms.SPEA2.SPEA2 import SPEA2
from algorithms.OMOPSO import OMOPSO as omo
from simulation import factory

hplug.toy()
MAPS = [[1.0, 2.0, 3.0, 4.0, 5.0, 6.0], [0, 1, 2, 3, 4, 5], [-2.5, -1e-300, 0.0, 1e-300, 7.0, 1e300],
        [0.1, 0.1 + 2e-17 + 1.5e-17, 0.30000000000000004, 0.5, 0.6, 0.7], [-3e9, -5.0, -4.999999999999999, -1, 0, 2]]
MAPS = [sorted(set(m)) for m in MAPS]


class Ind:
    def __init__(self, i, o):
        self.i, self.objectives, self.value, self.v = i, o, [float(i)], [float(i)]


def call(ev, e, f, what):
    r = f()
    e = dict(e)
    e["r"] = r
    ev.append(e)


def main(sc, tr):
    ev = tr["ev"]
    rng = random.Random(sc["id"])
    for q, S in enumerate(sc["sets"]):
        S = list(S)
        if q % 2:
            rng.shuffle(S)
        d = len(S[0])
        maps = [rng.choice(MAPS) for _ in range(d)]
        maps = [m if len(m) > max(v[j] for v in S) else MAPS[0] for j, m in enumerate(maps)]
        conc = [[maps[j][v[j]] for j in range(d)] for v in S]
        back = {}
        for v, c in zip(S, conc):
            back[tuple(float(x) for x in c)] = v

        def ab(c):
            return back[tuple(float(x) for x in c)]
        n = len(S)
        keys = ["k%d" % j for j in range(d)]
        if sc["what"] == "pairs":
            for i in range(n):
                for j in range(n):
                    a, b = conc[i], conc[j]
                    base = {"a": S[i], "b": S[j]}
                    A, B = Ind(i, a), Ind(j, b)
                    DA, DB = Ind(i, dict(zip(keys, a))), Ind(j, dict(zip(keys, b)))
                    ev.append(dict(base, k="dom", impl="ea_utils", r=bool(ea_utils.dominates(a, b))))
                    ev.append(dict(base, k="dom", impl="ea_utils-tuple", r=bool(ea_utils.dominates(tuple(a), b))))
                    ev.append(dict(base, k="cmp", impl="ea_utils", r=int(ea_utils.domination_cmp(a, b))))
                    ev.append(dict(base, k="dom", impl="nsgaii", r=bool(nsga.dominates(DA, DB))))
                    ev.append(dict(base, k="weak", impl="nsgaii", r=bool(nsga.dominates_weak(DA, DB))))
                    ev.append(dict(base, k="dom", impl="spea2", r=bool(SPEA2.dominates({"objectives": a}, {"objectives": b}))))
                    oa, ob = omo.Individual([0.0]), omo.Individual([1.0])
                    oa.objectives, ob.objectives = a, b
                    ev.append(dict(base, k="dom", impl="omopso", r=bool(oa.dominates(ob))))
            continue
        # layers of vectors, of indices, of repeated objects
        ev.append({"k": "layers", "impl": "ea_utils", "set": S, "r": [[ab(x) for x in l] for l in ea_utils.paretofront_layers(conc, lambda x: x)]})
        ev.append({"k": "layers", "impl": "ea_utils-index", "set": S,
                   "r": [[S[i] for i in l] for l in ea_utils.paretofront_layers(list(range(n)), lambda i: conc[i])]})
        ev.append({"k": "rank", "impl": "drivertools", "set": S, "r": [S[i] for i in drivertools.rank(list(range(n)), lambda i: conc[i])]})
        inds = [Ind(i, c) for i, c in enumerate(conc)]
        fr = sms.nd_sort(inds)
        ev.append({"k": "layers", "impl": "smsemoa", "set": S, "r": [[ab(x.objectives) for x in fr[k]] for k in sorted(fr) if fr[k]]})
        before = [list(c) for c in conc]
        ev.append({"k": "filter", "impl": "metrics", "set": S, "r": [ab(x) for x in metrics.filter_not_dominated(conc)]})
        ev.append({"k": "filter", "impl": "metrics-gen", "set": S, "r": [ab(x) for x in metrics.filter_not_dominated(tuple(x) for x in conc)]})
        ev.append({"k": "filterset", "impl": "metrics2", "set": S, "r": [ab(x) for x in metrics_utils.filter_not_dominated2(conc)]})
        one = {}
        shared = [one.setdefault(tuple(c), c) for c in conc]       # repetitions as one object
        ev.append({"k": "filter", "impl": "metrics-shared", "set": S, "r": [ab(x) for x in metrics.filter_not_dominated(shared)]})
        ev.append({"k": "filterset", "impl": "metrics2-shared", "set": S, "r": [ab(x) for x in metrics_utils.filter_not_dominated2(shared)]})
        ev.append({"k": "layers", "impl": "ea_utils-shared", "set": S, "r": [[ab(x) for x in l] for l in ea_utils.paretofront_layers(shared, lambda x: x)]})
        if before != conc:
            ev.append({"k": "input-modified"})
        if sc.get("drivers") and n >= 2:
            drivers(ev, S, conc, ab, rng)
    tr["cfg"] = {"x": 0}
    return tr


def drivers(ev, S, conc, ab, rng):
    """the sorts inside NSGA-II and NSLS, read from the fronts they expose to the other parts of the platform"""
    n, d = len(S), len(S[0])
    for algo in ("NSGAII", "NSLS", "JGBL"):
        table = {}

        def look(x, j):
            k = tuple(x)
            if k not in table:
                table[k] = conc[len(table)] if len(table) < n else rng.choice(conc)
            return table[k][j]
        fits = [lambda x, j=j: look(x, j) for j in range(d)]
        fac, _ = factory.prepare(algo, "TOY")
        pop = [[rng.random(), rng.random()] for _ in range(n)]
        drv = fac(population=pop, dims=[(0.0, 1.0)] * 2, fitnesses=fits, mutation_rate=1.0, crossover_rate=1.0,
                  message_adapter_factory=factory.prepare_message_adapter_class("HGS", ["HGS", algo], 0))
        if algo == "NSLS":
            drv.next_step()
            inds = [i for k in sorted(drv.front) for i in drv.front[k]]
        else:
            for f in fits:                              # evaluation order = population order
                pass
            drv.finalized_population()
            inds = [i for k in sorted(drv.front) for i in drv.front[k]]
            ev.append({"k": "filter", "impl": algo + "-all", "set": S, "r": [ab(table[tuple(i.v)]) for i in drv.front[1]]})
        mem = [ab(table[tuple(i.v)]) for i in inds]
        ev.append({"k": "layers", "impl": algo, "set": mem,
                   "r": [[ab(table[tuple(i.v)]) for i in drv.front[k]] for k in sorted(drv.front) if drv.front[k]]})
        ev.append({"k": "first", "impl": algo, "set": mem,
                   "r": [ab(table[tuple(v)]) for v in drv.message_adapter.nominate_delegates()]})


hlib.run_main(main, 200)
