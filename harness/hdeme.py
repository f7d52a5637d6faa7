"""Scripted demes: positions, progress and delegates are chosen by the scenario."""
import random
from algorithms.base.driver import Driver
from algorithms.HGS.distributed.message import HGSMessageAdapter

U = 100.0                        # one unit of position


def f1(p):
    return 100.0 - p[1]


def f2(p):
    return 99.0


PARAMS = ("mutation_eta", "mutation_rate", "crossover_eta", "crossover_rate")


def params(c):
    """what demes of each level are to be given, in thousandths"""
    rates = c.get("rates", [500] * 3)
    return [[e, r, x, y] for e, r, x, y in zip((10000, 12000, 15000), rates, (15000, 20000, 25000), (900, 800, 700))]


class World:
    def __init__(self, sc):
        self.rng = random.Random(sc["id"])
        self.hist, self.sc, self.s, self.demes = sc.get("hist", []), sc, 0, []

    def pick(self, i, what):
        if self.s < len(self.hist):
            h = self.hist[self.s]
            if what == "d":
                return h["d"]
            if i < len(h[what]):
                return h[what][i]
        if what == "x":
            return self.rng.choice(self.sc.get("xs", [0, 1, 2, 4, 6]))
        if what == "g":
            return self.rng.choice(self.sc.get("gs", [0, 0, 1, 2, 4]))
        return [self.rng.choice(self.sc.get("xs", [0, 1, 2, 4, 6])) for _ in range(self.rng.choice([0, 1, 2, 3, 6]))]


class Adapter(HGSMessageAdapter):
    def get_population(self):
        return self.driver.population

    def nominate_delegates(self):
        d = self.driver
        d.nominated = list(d.w.pick(d.i, "d"))
        return [[x * U, float(d.h)] for x in d.nominated]


def scripted(w):
    class Deme(Driver):
        def __init__(self, population, message_adapter_factory, **kw):
            super().__init__(message_adapter_factory=message_adapter_factory)
            self.w, self.i = w, len(w.demes)
            w.demes.append(self)
            self.start = [list(p) for p in population]
            self.params = [int(round(kw.get(k, -1) * 1000)) for k in PARAMS]
            self.population = [list(p) for p in population]
            self.size, self.h, self.steps, self.last, self.nominated = len(population), 0, 0, -1, []
            self.h = w.rng.choice([0, 1, 3])
            self.cost = w.rng.choice([0, 5])

        def finalized_population(self):
            return [list(p) for p in self.population]

        def step(self):
            self.steps += 1
            self.cost += 3
            if self.last != w.s:          # once per metaepoch: move and grow
                self.last = w.s
                self.x = w.pick(self.i, "x")
                if self.w.sc.get("shrink") and w.rng.random() < 0.3:
                    self.h = max(0, self.h - 1)
                else:
                    self.h = min(45, self.h + w.pick(self.i, "g"))
            off = [0.0] if self.size % 2 else []
            for q in range(self.size // 2):
                off += [4.0 * (q + 1), -4.0 * (q + 1)]
            self.population = [[self.x * U + o, float(self.h)] for o in off]
    return Deme


def config(sc, w, rng, hgs_type):
    c = sc["cfg"]
    corner = (1000.0 ** 2 + 1000.0 ** 2) ** 0.5
    given = [[rng.uniform(0, 1000), rng.uniform(0, 50)] for _ in range(c["sizes"][0] + sc.get("spare", 3))]
    return given, dict(
        population=given, dims=[(0.0, 1000.0), (0.0, 1000.0)], fitnesses=[f1, f2], fitness_errors=(0.0, 0.0, 0.0),
        cost_modifiers=tuple(m / 8.0 for m in c.get("mod8", [8, 8, 8])), driver=scripted(w), mutation_etas=(10.0, 12.0, 15.0),
        crossover_etas=(15.0, 20.0, 25.0), mutation_rates=[r / 1000.0 for r in c.get("rates", [500] * 3)], crossover_rates=[0.9, 0.8, 0.7], reference_point=(100.0, 100.0),
        mantissa_bits=(4, 16, 64), min_progress_ratio=[r / 1000.0 for r in c["ratio"]], metaepoch_len=list(c["len"]), max_level=c["maxlevel"],
        max_sprouts_no=c["limit"], sproutiveness=c["sproutiveness"], comparison_multipliers=tuple(d * U / 2.0 / corner for d in c["dist2"]),
        population_sizes=tuple(c["sizes"]), hgs_type=hgs_type, driver_message_adapter_factory=Adapter)
