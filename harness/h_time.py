"""C02: timed runs under a virtual clock (job level and worker level, with stored files)."""
import time, os, sys, shutil, pickle, tempfile, random, re

CLOCK = {"t": 4096.0}


def _now():
    return CLOCK["t"]


_real = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter", "process_time")}
import hlib, hplug
from hlib import Ids, vec_key
from algorithms.base.driver import Driver, TimeRun
from simulation import factory, run_config

TOY = hplug.toy()
CUR = {}


_real_ns = {n + "_ns": getattr(time, n + "_ns") for n in list(_real) if hasattr(time, n + "_ns")}


def clock(on):
    for n, f in _real.items():
        setattr(time, n, _now if on else f)
    for n, f in _real_ns.items():
        setattr(time, n, (lambda: int(_now() * 10 ** 9)) if on else f)


UNIT = {"per": 4}      # units of time per second, a power of two


def q(x):
    """a time in units; -1 when it is not a whole number of them"""
    y = x * UNIT["per"]
    return int(y) if y == int(y) else -1


class SCRT(Driver):
    """a step takes a scripted time"""

    def __init__(self, population=None, dims=None, fitnesses=None, message_adapter_factory=None, **kw):
        super().__init__(**({"message_adapter_factory": message_adapter_factory} if message_adapter_factory else {}))
        self.n = 0
        self.held = hplug.Population(CUR.get("holds", "plain"))

    def step(self):
        if self.n > 400:
            raise RuntimeError("runaway timed run")
        d = CUR["durs"][self.n] if self.n < len(CUR["durs"]) else 3
        CLOCK["t"] += d / float(UNIT["per"])
        self.cost += 1 + (self.n * 7) % 5
        self.n += 1
        CUR["ev"].append({"k": "step", "d": d, "no": self.n - 1, "cost": int(self.cost)})

    def finalized_population(self):
        CLOCK["t"] += CUR.get("fin", 0) / float(UNIT["per"])
        p = self.held.at(self.n)
        CUR["ev"].append({"k": "final", "pop": [CUR["ids"](vec_key(x)) for x in p]})
        return p


hplug.algorithm("SCRT", SCRT)


def job(sc, tr):
    ev = tr["ev"]
    CUR.update(durs=sc["durs"], ev=ev, fin=0, ids=Ids(), holds=sc.get("holds", "plain"))
    tr["cfg"] = {"step": sc["step"], "timeout": sc["timeout"], "auto": False}
    drv = SCRT()
    lag = sc.get("lag", 0)

    def on_next(m):
        CLOCK["t"] += lag / float(UNIT["per"])          # time a listener takes is not the algorithm's
        ev.append({"k": "emit", "time": q(m.elapsed_time), "no": int(m.step_no), "cost": int(m.cost)})
    fin = {}

    def fmt(x):
        return int(x) if x == int(x) else x
    clock(True)
    try:
        TimeRun(fmt(sc["step"] / float(UNIT["per"])), fmt(sc["timeout"] / float(UNIT["per"]))).create_job(drv).subscribe(
            on_next, lambda e: fin.update(err=e), lambda: fin.update(done=True))
    finally:
        clock(False)
    if "err" in fin:
        raise fin["err"]
    ev.append({"k": "end", "ok": bool(fin.get("done"))})
    return tr


def record(cls, ev, ids, rng):
    """real algorithms: outermost step / finalized_population of the run's algorithm"""
    step0, fin0 = cls.step, cls.finalized_population
    ow = {"o": None, "in": 0, "n": 0}

    def step(self):
        if ow["o"] is None:
            ow["o"] = self
        if self is not ow["o"] or ow["in"]:
            return step0(self)
        ow["in"] = 1
        d = rng.choice([1, 2, 3, 4, 6, 11])
        CLOCK["t"] += d / float(UNIT["per"])
        try:
            r = step0(self)
        finally:
            ow["in"] = 0
        ow["n"] += 1
        ev.append({"k": "step", "d": d, "no": ow["n"] - 1, "cost": int(self.cost)})
        return r

    def fin(self):
        if ow["o"] not in (None, self) or ow["in"]:
            return fin0(self)
        ow["in"] = 1
        try:
            p = fin0(self)
        finally:
            ow["in"] = 0
        CLOCK["t"] += 1.75
        l = list(p)
        ev.append({"k": "final", "pop": [ids(vec_key(x)) for x in l]})
        return p if isinstance(p, list) else iter(l)
    had = [("step" in cls.__dict__, step0), ("finalized_population" in cls.__dict__, fin0)]
    cls.step, cls.finalized_population = step, fin

    def undo():
        for (h, f), nm in zip(had, ("step", "finalized_population")):
            if h:
                setattr(cls, nm, f)
            else:
                delattr(cls, nm)
    return undo


def work(sc, tr):
    d = tempfile.mkdtemp()
    ev, ids, fids = tr["ev"], Ids(), Ids()
    CUR.update(durs=sc.get("durs", []), ev=ev, fin=sc.get("fin", 0), ids=ids, holds=sc.get("holds", "plain"))
    tr["cfg"] = {"step": sc["step"], "timeout": sc["timeout"], "auto": True}
    algo = sc["algo"]
    saved = (list(run_config.algorithms), list(run_config.problems), run_config.DEFAULT_POPULATION_SIZE)
    run_config.algorithms[:] = list(dict.fromkeys(saved[0] + ["SCRT"]))
    run_config.problems[:] = list(dict.fromkeys(saved[1] + ["TOY"]))
    run_config.DEFAULT_POPULATION_SIZE = sc.get("popsize", 64)
    undo = lambda: None
    if algo != "SCRT":
        undo = record(factory.prepare_algorithm_class(algo.split("+")[0]), ev, ids, random.Random(sc["id"]))
    try:
        args = {"budget": False, "time": True, "<step>": str(sc["step"] // UNIT["per"]), "<timeout>": str(sc["timeout"] // UNIT["per"]),
                "--algo": algo, "--problem": "toy", "--renice": None, "-N": "1", "-j": "1", "--dir": d}
        wf, sims = factory.resolve_configuration(args)
        clock(True)
        try:
            res = wf(sims[0], 0).run()
        finally:
            clock(False)
        ev.append({"k": "end", "ok": res is not None})
        files = []
        for root, _, names in os.walk(d):
            for n in sorted(names):
                with open(os.path.join(root, n), "rb") as f:
                    try:
                        r = pickle.load(f)
                        pop, fit = [list(x) for x in r.population], [list(x) for x in r.fitnesses]
                        cost = int(r.additional_data.get("cost", -1))
                    except Exception:
                        pop, fit, cost = [], [], -2
                m = re.fullmatch(r"([0-9]+)\.pickle", n)
                files.append({"name": UNIT["per"] * int(m.group(1)) if m else -1, "cost": cost, "pop": [ids(vec_key(x)) for x in pop],
                              "fit": [fids(vec_key(x)) for x in fit],
                              "truefit": [fids(vec_key([g(x) for g in TOY.fitnesses])) for x in pop]})
        ev.append({"k": "files", "files": files})
    finally:
        undo()
        run_config.algorithms[:], run_config.problems[:] = saved[:2]
        run_config.DEFAULT_POPULATION_SIZE = saved[2]
        shutil.rmtree(d, ignore_errors=True)
    return tr


def main(sc, tr):
    UNIT["per"] = sc.get("per", 4)
    return job(sc, tr) if sc["mode"] == "job" else work(sc, tr)


hlib.run_main(main, 200)
