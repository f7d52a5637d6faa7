"""C03: mixes direct stepping, n-step runs and budgeted runs on real algorithm objects."""
import importlib
import hlib, hplug
from hlib import Ids, vec_key
from algorithms.base.driver import Driver, StepsRun, BudgetRun
from algorithms.base import model
from simulation import factory, run_config

TOY = hplug.toy()
CUR = {"n": 0}


def mc(cost):
    """costs in thousandths: hierarchies charge fractions"""
    return int(round(1000 * cost))


class Boom(Exception):
    pass


class Plain(Driver):
    def __init__(self, ev, incs, **kw):
        super().__init__(**kw)
        self.ev, self.incs, self.k = ev, incs, 0
        self.unit = CUR.get("unit", 1)

    def step(self):
        if self.k > 4000:
            raise RuntimeError("runaway run")
        d = self.incs[self.k] if self.k < len(self.incs) else 1
        self.k += 1
        if d < 0:
            self.ev.append({"k": "fail"})
            raise Boom()
        self.cost += d * self.unit
        self.ev.append({"k": "step", "c1": mc(self.cost)})

    @property
    def population(self):
        return [[float(self.k), 1.0], [0.5, float(self.cost)]]


class Override(Plain):
    """replaces the stepping call itself"""

    def next_step(self):
        self.step()
        return self.message_adapter.emit_result()


class Sup(Plain):
    """extends the stepping call"""

    def next_step(self):
        return super().next_step()


class Sup2(Sup):
    def next_step(self):
        r = super().next_step()
        return r


class Inherit(Plain):
    def step(self):
        return super().step()


class PopAdapter(model.PopulationMessageAdapter):
    def get_population(self):
        return self.driver.population


KIND = {"plain": Plain, "override": Override, "super": Sup2, "population": Plain, "inherit": Inherit}


def play(sc, drv, ev, cur, live):
    ids = Ids()

    def msg(m):
        has = hasattr(m, "population")
        ev.append({"k": "msg", "no": int(m.step_no), "cost": mc(m.cost), "live": mc(live()), "haspop": has,
                   "pop": sorted(ids(vec_key(x)) for x in m.population) if has else [],
                   "cur": sorted(ids(vec_key(x)) for x in cur()) if has else []})
    for op, arg in sc["ops"]:
        ev.append({"k": "call", "op": op, "arg": mc(arg) if op == "budget" else arg})
        fin = {}
        if op == "next":
            try:
                msg(drv.next_step())
                fin["ok"] = True
            except Boom:
                fin["ok"] = False
        else:
            run = StepsRun(arg) if op == "steps" else BudgetRun(arg)

            def err(e):
                fin["err"] = e
            try:
                run.create_job(drv).subscribe(msg, err, lambda: fin.update(ok=True))
            except Boom as e:
                err(e)
            if "err" in fin:
                if not isinstance(fin["err"], Boom):
                    raise fin["err"]
                fin["ok"] = False
        ev.append({"k": "ret", "ok": fin.get("ok", None) is True})


def scripted(sc, tr):
    ev = tr["ev"]
    cls = KIND[sc["kind"]]
    CUR["unit"] = sc.get("unit", 1)
    kw = {"message_adapter_factory": PopAdapter} if sc["kind"] == "population" else {}
    drv = cls(ev, sc["incs"], **kw)
    tr["cfg"] = {"cost0": mc(drv.cost), "pops": sc["kind"] == "population"}
    if sc.get("twin"):                     # a second object of the same class steps in between
        other = cls([], sc["incs"][:1] * 3)
        base = cls.step

        def step(self=drv):
            try:
                if other.k < 3:
                    other.next_step()
            except Boom:
                pass
            base(drv)
        drv.step = step
    play(sc, drv, ev, lambda: drv.population, lambda: drv.cost)
    return tr


def real(sc, tr):
    ev = tr["ev"]
    algo, ad = sc["algo"], sc["adapter"]
    saved = run_config.DEFAULT_POPULATION_SIZE
    run_config.DEFAULT_POPULATION_SIZE = sc["popsize"]
    subs = []
    try:
        fac, _ = factory.prepare(algo, "TOY")
        kw = {}
        if ad:
            kw["message_adapter_factory"] = factory.prepare_message_adapter_class(ad, [ad, algo], 0)
        if algo.startswith("IMGA"):
            inner = fac.keywords["driver"]

            def make(*a, **k):
                d = inner(*a, **k)
                subs.append(d)
                return d
            kw["driver"] = make
        drv = fac(**kw)
        live = (lambda: sum(s.cost for s in subs)) if subs else (lambda: drv.cost)
        tr["cfg"] = {"cost0": mc(drv.cost), "pops": bool(ad)}
        step0 = drv.step

        def step():
            r = step0()
            ev.append({"k": "step", "c1": mc(drv.cost)})
            return r
        drv.step = step
        play(sc, drv, ev, lambda: drv.population, live)
        drv.shutdown()
    finally:
        run_config.DEFAULT_POPULATION_SIZE = saved
    return tr


hlib.run_main(lambda sc, tr: real(sc, tr) if sc["kind"] == "real" else scripted(sc, tr), 200)
