"""C01: drives the real budget worker (command-line arguments -> configuration -> worker -> files)."""
import os, sys, shutil, pickle, tempfile, importlib, re
import hlib, hplug
from hlib import Ids, vec_key
from algorithms.base.driver import Driver
from simulation import factory, run_config

hplug.toy()
hplug.problem("TOY3", [(0.0, 1.0)] * 3, [hplug.toy_f1, hplug.toy_f2, hplug.toy_f3], [[0.0, 1.0, 0.5], [0.5, 0.25, 0.25], [1.0, 0.0, 1.0]])
CUR = {}


class SCR(Driver):
    """charges scripted costs; its population after n steps is a known set of vectors"""

    def __init__(self, population, dims, fitnesses, **kw):
        kw = {k: v for k, v in kw.items() if k == "message_adapter_factory"}
        super().__init__(**kw)
        self.script = list(CUR["costs"])
        self.n = 0
        self.held = hplug.Population(CUR["holds"])

    def step(self):
        if self.n > 60:
            raise RuntimeError("runaway budget run")
        self.cost += self.script[self.n] if self.n < len(self.script) else 1
        self.n += 1

    def finalized_population(self):
        return self.held.at(self.n)


hplug.algorithm("SCR", SCR)


def record(cls, ev, ids):
    """class-level recording of the two calls a run makes on the algorithm"""
    step0, fin0 = cls.step, cls.finalized_population
    owner = {"o": None, "in": 0}

    def step(self):
        if owner["o"] is None:
            owner["o"] = self
        if self is not owner["o"] or owner["in"]:
            return step0(self)
        owner["in"] = 1
        c0 = self.cost
        try:
            r = step0(self)
        finally:
            owner["in"] = 0
        ev.append({"k": "step", "c0": int(c0), "c1": int(self.cost)})
        return r

    def fin(self):
        if owner["o"] not in (None, self) or owner["in"]:
            return fin0(self)
        owner["in"] = 1
        try:
            p = fin0(self)
        finally:
            owner["in"] = 0
        l = list(p)
        ev.append({"k": "final", "c1": int(self.cost), "pop": [ids(vec_key(x)) for x in l]})
        return p if isinstance(p, list) else iter(l)

    had = [("step" in cls.__dict__, step0), ("finalized_population" in cls.__dict__, fin0)]
    cls.step, cls.finalized_population = step, fin

    def undo():
        for (h, f), nm in zip(had, ("step", "finalized_population")):
            if h:
                setattr(cls, nm, f)
            else:
                delattr(cls, nm)
    return undo


def run(sc, tr):
    d = tempfile.mkdtemp()
    ids, fids = Ids(), Ids()
    ev = tr["ev"]
    algo = sc["algo"]
    CUR["costs"], CUR["holds"] = sc.get("costs", []), sc.get("holds", "plain")
    pname = sc.get("problem", "TOY")
    prob = sys.modules["problems.%s.problem" % pname]
    top = algo.split("+")[0]
    saved = (list(run_config.algorithms), list(run_config.problems))
    run_config.algorithms[:] = list(dict.fromkeys(saved[0] + ["SCR"]))
    run_config.problems[:] = list(dict.fromkeys(saved[1] + [pname]))
    cls = factory.prepare_algorithm_class(top)
    if sc.get("popsize"):
        run_config.DEFAULT_POPULATION_SIZE = sc["popsize"]
    cost0 = {"v": 0}
    undo = record(cls, ev, ids)
    try:
        args = {"budget": True, "time": False, "<budget>": ",".join(str(b) for b in sc["budgets"]),
                "--algo": algo, "--problem": pname.lower(), "--renice": None, "-N": "1", "-j": "1", "--dir": d}
        wf, sims = factory.resolve_configuration(args)
        sims = [s for s in sims if s.algorithm_name == algo and s.problem_name == pname]
        # the cost already charged when the algorithm comes into existence
        init0 = cls.__init__

        def init(self, *a, **k):
            init0(self, *a, **k)
            if "set" not in cost0:
                cost0["set"] = True
                cost0["v"] = self.cost
        cls.__init__ = init
        try:
            res = wf(sims[0], 0).run()
        finally:
            cls.__init__ = init0
        ev.append({"k": "end", "ok": res is not None})
        files = []
        for root, _, names in os.walk(d):
            for n in sorted(names):
                with open(os.path.join(root, n), "rb") as f:
                    try:
                        r = pickle.load(f)
                        pop = [list(x) for x in r.population]
                        cost, fit = r.additional_data.get("cost", -1), [list(x) for x in r.fitnesses]
                    except Exception as e:
                        pop, cost, fit = [], -2, []
                m = re.fullmatch(r"([0-9]+)\.pickle", n)
                files.append({"name": int(m.group(1)) if m else -1, "cost": int(cost),
                              "pop": [ids(vec_key(x)) for x in pop],
                              "fit": [fids(vec_key(x)) for x in fit],
                              "truefit": [fids(vec_key([g(x) for g in prob.fitnesses])) for x in pop]})
        ev.append({"k": "files", "files": files})
    finally:
        undo()
        run_config.algorithms[:], run_config.problems[:] = saved
        shutil.rmtree(d, ignore_errors=True)
    tr["cfg"] = {"budgets": sorted(set(sc["budgets"])), "cost0": int(cost0["v"])}
    return tr


def main(sc, tr):
    tr["cfg"] = {"budgets": sorted(set(sc["budgets"])), "cost0": 0}
    return run(sc, tr)


hlib.run_main(main, 120)
