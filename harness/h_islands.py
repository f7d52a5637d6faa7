"""C09: real island archipelagos over scripted and real algorithms and chosen neighbourhoods."""
import random, threading
import hlib, hplug
from hlib import Ids, vec_key
from algorithms.IMGA.IMGA import IMGA
from algorithms.IMGA.topology import TorusTopology
from algorithms.IMGA.message import DefaultIMGAMessageAdapter
from algorithms.base.driver import Driver
from simulation import factory

hplug.toy()


class Topo:
    def __init__(self, adj):
        self.adj = adj

    def create(self, size):
        return [set(j - 1 for j in a) for a in self.adj]


class Ind:
    def __init__(self, v):
        self.v = v


class Scripted(Driver):
    """holds individuals, optionally replaces one per step, charges a chosen cost per step"""

    def __init__(self, population, inc=1, fresh=0, rng=None, **kw):
        super().__init__(**{k: v for k, v in kw.items() if k == "message_adapter_factory"})
        self.individuals = [Ind(list(v)) for v in population]
        self.inc, self.fresh, self.rng = inc, fresh, rng
        self.cost = len(population)

    @property
    def population(self):
        return [i.v for i in self.individuals]

    def finalized_population(self):
        return self.population

    def step(self):
        for _ in range(self.fresh):
            self.individuals[self.rng.randrange(len(self.individuals))] = Ind([self.rng.random() for _ in range(3)])
        self.cost += self.inc


def main(sc, tr):
    ev, ids = tr["ev"], Ids()
    rng = random.Random(sc["id"])
    isl = []
    n = sc["islands"]
    topo = Topo(sc["adj"]) if sc.get("adj") else TorusTopology(sc.get("width", 4))
    given = [[rng.random() for _ in range(3)] for _ in range(sc["pop"])]
    if sc.get("dups"):
        base = given[: max(1, sc["pop"] // 4)]
        given = [list(rng.choice(base)) for _ in given]
    giv = [ids(vec_key(v)) for v in given]

    def snap(d):
        return [ids(vec_key(v)) for v in d.population]

    def mk(inner):
        def make(*a, **kw):
            first = [ids(vec_key(v)) for v in kw["population"]]
            d = inner(*a, **kw)
            rec = {"d": d, "steps": 0, "snap": None, "first": first}
            orig = d.step

            def step():
                r = orig()
                rec["steps"] += 1
                rec["snap"] = snap(d)
                return r
            d.step = step
            isl.append(rec)
            return d
        return make

    if sc["algo"] == "scripted":
        incs = iter([1 + (i * 7) % 5 for i in range(50)])
        inner = mk(lambda **kw: Scripted(inc=next(incs), fresh=sc.get("fresh", 0), rng=random.Random(rng.random()), **kw))
        alg = IMGA(population=given, dims=[(0.0, 1.0)] * 3, fitnesses=[hplug.toy_f1, hplug.toy_f2], islands_number=n, migrants_number=sc["migrants"],
                   epoch_length=sc["len"], driver=inner, mutation_eta=20, crossover_eta=30, mutation_rate=0.1, crossover_rate=0.9,
                   topology=topo, driver_message_adapter_factory=DefaultIMGAMessageAdapter)
    else:
        fac, _ = factory.prepare("IMGA+" + sc["algo"], "TOY")
        alg = fac(population=given, islands_number=n, migrants_number=sc["migrants"], epoch_length=sc["len"], topology=topo,
                  driver=mk(fac.keywords["driver"]), mutation_rate=sc.get("mrate", 1.0))
    adj = [sorted(x + 1 for x in a) for a in topo.create(n)]
    tr["cfg"] = {"islands": n, "migrants": sc["migrants"], "len": sc["len"], "adj": adj}
    ev.append({"k": "deal", "given": giv, "islands": [r["first"] for r in isl]})
    for _ in range(sc["epochs"]):
        for r in isl:
            r["steps"], r["snap"] = 0, snap(r["d"])
        msg = alg.next_step()
        before = [r["snap"] for r in isl]
        sets = [set(b) for b in before]
        uniq = sum(len(s) for s in sets) == len(set().union(*sets))
        ev.append({"k": "epoch", "uniq": uniq, "steps": [r["steps"] for r in isl], "before": before, "after": [snap(r["d"]) for r in isl],
                   "costs": [int(r["d"].cost) for r in isl], "cost": int(alg.cost), "reported": int(msg.cost)})
    return tr


hlib.run_main(main, 120)
