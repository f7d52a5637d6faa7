"""C13: the real distributed strategy under chosen message schedules, watched through its driver factory and its requests."""
import random
import hactors
import hlib, hplug
from hlib import Ids, vec_key
from algorithms.HGS.HGS import HGS
from algorithms.base.driver import Driver
from algorithms.HGS.distributed.message import HGSMessageAdapter
from simulation import factory

hplug.toy()
ETAS = [10.0, 12.0, 15.0]
DIMS = [(-1.0, 2.0)] * 2


def f1(x):
    return x[0] * x[0] + 1.0


def f2(x):
    return (x[0] - 1) * (x[0] - 1) + x[1] * x[1] + 1.0


class Adapter(HGSMessageAdapter):
    def get_population(self):
        return self.driver.population

    def nominate_delegates(self):
        return [list(p) for p in self.driver.population]


def scripted(rng):
    class Deme(Driver):
        def __init__(self, population, message_adapter_factory, **kw):
            super().__init__(message_adapter_factory=message_adapter_factory)
            self.population = [list(p) for p in population]
            self.cost = rng.choice([0, 0, 3, 40])

        def finalized_population(self):
            return [list(p) for p in self.population]

        def step(self):
            self.cost += rng.choice([1, 2, 5, 11])
            if rng.random() < 0.5:
                self.population = [[rng.uniform(a, b) for a, b in DIMS] for _ in self.population]
    return Deme


def main(sc, tr):
    ev, rng, ids = tr["ev"], random.Random(sc["id"]), Ids()
    if sc["algo"] == "scripted":
        base, adapter = scripted(rng), Adapter
    else:
        fac, _ = factory.prepare("DHGS+" + sc["algo"], "TOY")
        kw = getattr(fac, "keywords", {})
        base, adapter = kw["driver"], kw["driver_message_adapter_factory"]
    demes = []

    class Rec:
        pass

    def make(**kw):
        r = Rec()
        r.lvl, r.steps, r.last, r.before = ETAS.index(kw["mutation_eta"]), 0, [], 0
        r.drv = base(**kw)
        real, fin = r.drv.step, r.drv.finalized_population

        def step(*a, **k):
            r.steps += 1
            return real(*a, **k)

        def final(*a, **k):
            p = fin(*a, **k)
            r.last = [ids(vec_key(x)) for x in p]
            return p
        r.drv.step, r.drv.finalized_population = step, final
        demes.append(r)
        return r.drv

    sysm = hactors.System(hactors.picker(random.Random(sc["id"] + "s"), sc["mode"], sc.get("sched", ())))
    hactors.current[0] = sysm
    sizes = sc["sizes"]
    tr["cfg"] = {"mod8": sc["mod8"], "len": sc["len"]}
    given = [[rng.uniform(a, b) for a, b in DIMS] for _ in range(sizes[0] + 2)]

    def c8(x):
        return int(round(x * 8)) if abs(x * 8 - round(x * 8)) < 1e-6 else -999

    def actor_of(r):
        for n, a in sysm.actors.items():
            if getattr(a, "driver", None) is r.drv:
                return n
        return None

    def snap():
        out = {}
        for n, a in sysm.actors.items():
            if getattr(a, "driver", None) is not None:
                out[n] = (bool(a.alive), bool(a.ripe), [vec_key(p) for p in a.population], [r.steps for r in demes if r.drv is a.driver])
        return out

    try:
        alg = HGS(population=given, dims=DIMS, fitnesses=[f1, f2], fitness_errors=(0.0, 0.0, 0.0), cost_modifiers=tuple(m / 8.0 for m in sc["mod8"]),
                  driver=make, mutation_etas=tuple(ETAS), crossover_etas=(15.0, 20.0, 25.0), mutation_rates=[0.5] * 3, crossover_rates=[0.9] * 3,
                  reference_point=(60.0, 60.0), mantissa_bits=(4, 16, 64), min_progress_ratio=[sc["ratio"]] * 3, metaepoch_len=list(sc["len"]),
                  max_level=sc.get("maxlevel", 2), max_sprouts_no=6, sproutiveness=2, comparison_multipliers=tuple(sc["mult"]), population_sizes=tuple(sizes),
                  hgs_type="distributed", driver_message_adapter_factory=adapter)
        for s in range(sc["steps"]):
            del sysm.asks[:]
            pending = set(dst for (src, dst), q in sysm.chan.items() if q and dst in sysm.actors and dst != 0 and getattr(sysm.actors[dst], "driver", None) is None)
            due = {}
            for r in demes:
                r.before = r.steps
                due[id(r)] = bool(sysm.actors[actor_of(r)].alive)
            msg = alg.next_step()
            cost8, msg8 = c8(alg.cost), c8(msg.cost)
            settled = True
            if rng.random() < 0.5:
                a = snap()
                sysm.drain()
                b = snap()
                settled = all(a[n] == b[n] for n in a)
            d = [due.get(id(r), actor_of(r) in pending) for r in demes]
            ev.append({"k": "dstep", "answers": [x["answers"] for x in sysm.asks], "ops": [x["op"] for x in sysm.asks], "due": d,
                       "steps": [r.steps - r.before for r in demes], "lvl": [r.lvl for r in demes], "costs": [int(r.drv.cost) for r in demes],
                       "cost8": cost8, "msg8": msg8, "settled": settled})
            if rng.random() < 0.6:
                del sysm.asks[:]
                final = [ids(vec_key(p)) for p in alg.finalized_population()]
                ev.append({"k": "dpop", "final": final, "pops": [r.last for r in demes], "answers": [x["answers"] for x in sysm.asks]})
            if len(demes) > 40:
                break
    except hactors.Unanswered as e:
        ev.append({"k": "request-never-answered-" + str(e)})
    tr["delivered"] = sysm.delivered
    return tr


hlib.run_main(main, 120)
