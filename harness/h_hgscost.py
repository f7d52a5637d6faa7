"""C12: the real sequential hierarchical strategy over scripted and real algorithms, watched through its driver factory."""
import random, struct
import hactors
import hlib, hplug
from hlib import Ids, vec_key
from algorithms.HGS.HGS import HGS
from algorithms.base.driver import Driver
from algorithms.HGS.distributed.message import HGSMessageAdapter
from simulation import factory

hplug.toy()
ETAS = [10.0, 12.0, 15.0]        # one per level: tells the level of a deme
SHAPES = {
    "plain": ([(0.0, 1.0)] * 3, [lambda x: x[0] + 0.25 * x[1], lambda x: (1 - x[0]) ** 2 + 0.5 * x[2]]),
    "negative": ([(-2.0, 2.0)] * 3, [lambda x: x[0] - 3.0, lambda x: -x[0] - 0.5 * x[1] - 7.0]),
    "mixed": ([(-1.0, 1.0)] * 2, [lambda x: x[0] + 0.3 * x[1], lambda x: -x[0] + 0.2 * x[1]]),
    "tiny": ([(0.5, 0.5 + 1e-6)] * 2, [lambda x: (x[0] - 0.5) * 2 ** 20, lambda x: (0.5 - x[0]) * 2 ** 20 + (x[1] - 0.5) * 2 ** 18]),
    "three": ([(-1.0, 3.0)] * 2, [lambda x: x[0], lambda x: -x[1], lambda x: x[0] * x[0] + x[1] * x[1] - 1]),
}


def off_grid(v, bits):
    u = struct.unpack("<Q", struct.pack("<d", float(v)))[0] & ((1 << 52) - 1)
    return 0 if bits >= 52 else int(u & ((1 << (52 - bits)) - 1) != 0)


class Adapter(HGSMessageAdapter):
    def get_population(self):
        return self.driver.population

    def nominate_delegates(self):
        return [list(p) for p in self.driver.population]


def scripted(rng):
    class Deme(Driver):
        def __init__(self, population, message_adapter_factory, trim_function, fitnesses, dims, **kw):
            super().__init__(message_adapter_factory=message_adapter_factory)
            self.trim, self.dims, self.f = trim_function, dims, fitnesses
            self.population = [self.trim(p) for p in population]
            self.cost = rng.choice([0, 0, 3, 7])

        def finalized_population(self):
            return [list(p) for p in self.population]

        def step(self):
            self.cost += rng.choice([0, 1, 2, 5, 11])
            if rng.random() < 0.5:
                self.population = [self.trim([rng.uniform(a, b) for a, b in self.dims]) for _ in self.population]
    return Deme


def main(sc, tr):
    ev, rng, ids = tr["ev"], random.Random(sc["id"]), Ids()
    dims, fits = SHAPES[sc["shape"]]
    dist = sc.get("dist", False)
    if dist:
        hactors.current[0] = hactors.System(hactors.picker(random.Random(sc["id"] + "s"), "fifo"))
    if sc["algo"] == "scripted":
        base, adapter, extra = scripted(rng), Adapter, {}
    else:
        fac, _ = factory.prepare(("DHGS+" if dist else "HGS+") + sc["algo"], "TOY")
        kw = getattr(fac, "keywords", {})
        base, adapter, extra = kw["driver"], kw["driver_message_adapter_factory"], {}
    demes = []

    class Rec:
        pass

    def make(**kw):
        r = Rec()
        r.lvl = ETAS.index(kw["mutation_eta"])
        r.fit, r.steps, r.ranpop = kw["fitnesses"], 0, []
        r.drv = base(**kw)
        real = r.drv.step

        def step(*a, **k):
            r.steps += 1
            return real(*a, **k)
        r.drv.step = step
        r.root = [list(p) for p in kw["population"]]
        demes.append(r)
        return r.drv
    sizes = sc["sizes"]
    given = [[rng.uniform(a, b) for a, b in dims] for _ in range(sizes[0] + 2)]
    errors = [0.3 if n else 0.0 for n in sc["noise"]]
    bits = sc["bits"]
    tr["cfg"] = {"mod8": sc["mod8"], "quiet": [not n for n in sc["noise"]], "dist": dist}
    alg = HGS(population=given, dims=dims, fitnesses=fits, fitness_errors=tuple(errors), cost_modifiers=tuple(m / 8.0 for m in sc["mod8"]),
              driver=make, mutation_etas=tuple(ETAS), crossover_etas=(15.0, 20.0, 25.0), mutation_rates=[0.5] * 3, crossover_rates=[0.9] * 3,
              reference_point=tuple(60.0 for _ in fits), mantissa_bits=tuple(bits), min_progress_ratio=[sc["ratio"]] * 3, metaepoch_len=list(sc["len"]),
              max_level=2, max_sprouts_no=6, sproutiveness=2, comparison_multipliers=(0.5, 0.05, 0.005), population_sizes=tuple(sizes),
              hgs_type="distributed" if dist else "classic", driver_message_adapter_factory=adapter)

    def c8(x):
        return int(round(x * 8)) if abs(x * 8 - round(x * 8)) < 1e-6 else -999

    for s in range(sc["steps"]):
        for r in demes:
            r.before = r.steps
        n0 = len(demes)
        msg = alg.next_step()
        ran = [r.steps > r.before for r in demes[:n0]] + [False] * (len(demes) - n0)
        costs = [int(r.drv.cost) for r in demes]
        for r, ra in zip(demes, ran):
            if ra:
                r.ranpop = [ids(vec_key(p)) for p in r.drv.finalized_population()]
        if not dist:
            cost = alg.cost
            final = [ids(vec_key(p)) for p in alg.finalized_population()]
            ev.append({"k": "cstep", "costs": costs, "lvl": [r.lvl for r in demes], "ran": ran, "cost8": c8(cost), "msg8": c8(msg.cost),
                       "after8": c8(alg.cost), "final": final, "pops": [r.ranpop for r in demes]})
        offs = sum(off_grid(x, bits[r.lvl]) for r, ra in zip(demes, ran) if ra for p in list(r.drv.finalized_population()) + list(getattr(r.drv, "population", None) or []) for x in p)
        ev.append({"k": "grid", "off": offs})
        for r in demes:
            if r.steps == 0 or sc.get("probe", True):
                x = [rng.uniform(a, b) for a, b in dims]
                ev.append({"k": "fit", "lvl": r.lvl, "seen": [ids(float(f(x))) for f in r.fit], "true": [ids(float(f(x))) for f in fits]})
            inds = getattr(r.drv, "individuals", None) or []
            bad, good = [], []
            for i in inds:
                o = getattr(i, "objectives", None)
                v = getattr(i, "v", None)
                v = getattr(i, "value", None) if v is None else v
                if o is None or v is None:
                    continue
                o = list(o.values()) if isinstance(o, dict) else list(o)
                if len(o) != len(fits):
                    continue
                bad += [ids(float(z)) for z in o]
                good += [ids(float(f(v))) for f in fits]
            if good:
                ev.append({"k": "fit", "lvl": r.lvl, "seen": bad, "true": good})
        if len(demes) > 40:
            break
    return tr


hlib.run_main(main, 120)
