"""C18: selection strings and layered configuration, through the real factory and the algorithms it makes."""
import importlib, random
import hactors
import hlib, hplug
from hlib import Ids
from algorithms.base.driver import Driver
from algorithms.base.model import ProgressMessageAdapter
from simulation import factory, run_config
from simulation.run_config import NotViableConfiguration

SEEN = []
ZERO = [0]       # the configured value that is written as zero
BOUNDS = [(0.0, 1.0), (-5.0, -2.5), (3.0, 3.5)]


def recorder(name, real=None):
    class R(Driver):
        def __init__(self, **kw):
            SEEN.append((name, kw))
            super().__init__()

        def step(self):
            pass

        def finalized_population(self):
            return []
    R.__name__ = name
    return R


P = {n: hplug.problem(n, list(BOUNDS), [hplug.toy_f1, hplug.toy_f2], [[0.0, 1.0], [1.0, 0.0]]) for n in ("PA", "PB")}
CHAINS = {1: ["SA"], 2: ["MA", "SA"], 3: ["MB", "MA", "SA"]}


class SAMA(ProgressMessageAdapter):
    pass


class MAMB(ProgressMessageAdapter):
    pass


hplug.algorithm("SA", recorder("SA"), {"SAMAMessageAdapter": SAMA})
hplug.algorithm("MA", recorder("MA"), {"MAMBMessageAdapter": MAMB})
hplug.algorithm("MB", recorder("MB"))
hplug.algorithm("SNO", recorder("SNO"))                 # no message module at all
hplug.algorithm("SOTHER", recorder("SOTHER"), {"SOTHERMBMessageAdapter": SAMA, "MASOTHERMessageAdapter": SAMA})
ADAPTERS = {("SA", "MA"): SAMA, ("MA", "MB"): MAMB}


def key(l, algo, subs, prob):
    return {3: algo, 4: (algo, tuple(subs)), 5: (algo, prob), 6: (algo,) + tuple(subs) + (prob,),
            7: "init_alg___" + algo, 8: "init_alg___%s__%s" % (algo, "_".join(subs)),
            9: "init_alg___%s____%s" % (algo, prob), 10: "init_alg___%s__%s____%s" % (algo, "_".join(subs), prob)}[l]


class Layers:
    """writes layers into the project's configuration tables; undo() restores them"""

    def __init__(self):
        self.base, self.cust, self.names = dict(run_config.algo_base), dict(run_config.cust_base), []

    def put(self, l, k, ops):
        if l <= 6:
            t = run_config.algo_base if l in (3, 4) else run_config.cust_base
            t[k] = dict(t.get(k, {}), **{p: v for p, op, v in ops})
        else:
            def init(config, problem_mod):
                for p, op, v in ops:
                    if op == "set":
                        config.update({p: v})
                    elif op == "add":
                        config[p] = config.get(p, -ZERO[0]) + v
                    elif p in config:
                        del config[p]
            if not hasattr(run_config, k):
                self.names.append(k)
            setattr(run_config, k, init)

    def undo(self):
        run_config.algo_base.clear()
        run_config.algo_base.update(self.base)
        run_config.cust_base.clear()
        run_config.cust_base.update(self.cust)
        for n in self.names:
            delattr(run_config, n)


def prepared(algo, prob):
    """makes the algorithm of a chain and, through what it was given, those below it; what each received"""
    SEEN.clear()
    make, mod = factory.prepare(algo, prob)
    out, depth = [], 0
    while make is not None and depth < 6:
        SEEN.clear()
        make()
        name, kw = SEEN[0]
        out.append((name, kw))
        make = kw.get("driver")
        depth += 1
    return out, mod


def inside(pop, dims):
    return all(len(x) == len(dims) and all(lo <= v <= hi for v, (lo, hi) in zip(x, dims)) for x in pop)


def level(kw, names, pops, mod, adapter, values, own={}):
    pop = kw.get("population")
    pid = next((v for v, q in pops.items() if pop is q or pop == q), 0) if pop is not None else -2
    def val(n):
        if n not in kw:
            return -1
        if n in own:
            return -1 if kw[n] is getattr(mod, n) else next((v for v, q in own[n].items() if kw[n] == q), 777)
        return values(kw[n])
    return {"params": [{"p": n, "v": val(n)} for n in names], "pop": pid,
            "size": len(pop) if pop is not None else -1, "inside": pop is not None and inside(pop, mod.dims),
            "base": all(n in names and n in own or list(kw.get(n, [])) == list(getattr(mod, n)) for n in ("dims", "fitnesses")),
            "driver": kw.get("driver") is not None, "adapter": kw.get("driver_message_adapter_factory") is adapter}


def scripted(sc, tr):
    rng = random.Random(sc["id"])
    chain, prob, other = CHAINS[sc["length"]], sc["prob"], "PB" if sc["prob"] == "PA" else "PA"
    chain = chain[:-1] + [sc.get("inner", "SA")]
    zero = ZERO[0] = rng.randrange(3, 11)
    tabs, cfgchain, pops = Layers(), [], {v: [[0.5, -3.0 - v / 64.0, 3.25]] * (abs(v - zero) + 1) for v in range(1, 11)}
    # a number configured as zero is configured all the same
    own = {"fitnesses": {v: [hplug.toy_f1] * (v + 2) for v in range(1, 11)}, "dims": {v: [(0.0, float(v))] * 3 for v in range(1, 11)}}
    try:
        for j, algo in enumerate(chain):
            subs = chain[j + 1:]
            defs, per = [], {l: [] for l in range(3, 11)}
            for p, pat in sorted(sc["pats"][j].items()):
                for d in pat:
                    l, op, v = d["l"], d["op"], d["v"]
                    if not subs and l in (6, 8, 10):
                        continue                        # these layers are told apart by sub-algorithms only
                    if p in own and op != "set" or op == "add" and p == "population":
                        op = "set"
                    per[l].append((p, op, pops[v] if p == "population" else own[p][v] if p in own else v - zero if op == "set" else v))
                    defs.append({"l": l, "p": p, "op": op, "v": v})
            for l, ops in per.items():
                if ops or rng.random() < 0.3:
                    tabs.put(l, key(l, algo, subs, prob), ops)
            # entries meant for others
            ghost = [("ghost", "set", 999)] + [(p, "set", 999) for p in sc["pats"][j] if p not in ("population", "fitnesses", "dims")]
            for l, a2, s2, p2 in [(5, algo, subs, other), (6, algo, subs, other), (9, algo, subs, other), (10, algo, subs, other), (4, algo, subs + ["ZZ"], prob),
                                  (6, algo, ["ZZ"] + subs, prob), (8, algo, ["ZZ"] + subs, prob), (3, algo + "X", subs, prob), (7, algo.lower(), subs, prob),
                                  (10, algo, subs[::-1] + ["ZZ"], prob)]:
                if (l == 6 or l == 5) and key(l, a2, s2, p2) in [key(q, a, chain[i + 1:], prob) for i, a in enumerate(chain) for q in (5, 6)]:
                    continue
                tabs.put(l, key(l, a2, s2, p2), ghost)
            cfgchain.append({"defs": sorted(defs, key=lambda d: d["l"]), "adapter": j == len(chain) - 1 or (chain[j + 1], algo) in ADAPTERS})
        tr["cfg"] = {"defsize": run_config.DEFAULT_POPULATION_SIZE, "chain": cfgchain}
        try:
            got, mod = prepared("+".join(chain), prob)
        except NotViableConfiguration:
            tr["ev"].append({"k": "prep", "result": "nv", "levels": []})
            return tr
        if mod is not P[prob]:
            raise ValueError("prepared for another problem")
        if [n for n, _ in got] != chain:
            raise ValueError("another chain of algorithms: %s" % [n for n, _ in got])
        tr["ev"].append({"k": "prep", "result": "ok", "levels": [
            level(kw, sorted(set(sc["pats"][j]) - {"population"}) + ["ghost"], pops, mod, ADAPTERS.get((chain[j + 1], n)) if j + 1 < len(chain) else None, lambda v: v + zero, own)
            for j, (n, kw) in enumerate(got)]})
        return tr
    finally:
        tabs.undo()


def real(sc, tr):
    """the project's own algorithms and tables"""
    chain, prob = sc["algo"].split("+"), sc["prob"]
    mod = importlib.import_module("problems.%s.problem" % prob)
    values, undo = Ids(), []
    val = lambda v: values(repr(v))
    cfgchain = []
    adapters = []
    try:
        for j, algo in enumerate(chain):
            subs, defs = chain[j + 1:], []
            for l in range(3, 11):
                if not subs and l in (6, 8, 10):
                    continue
                k = key(l, algo, subs, prob)
                if l <= 6:
                    upd = (run_config.algo_base if l in (3, 4) else run_config.cust_base).get(k, {})
                else:
                    f, upd = getattr(run_config, k, None), {}
                    if f is not None:
                        f(upd, mod)
                defs += [{"l": l, "p": p, "op": "set", "v": val(v)} for p, v in sorted(upd.items())]
            ad = None
            if subs:
                try:
                    ad = getattr(importlib.import_module("algorithms.%s.message" % subs[0]), "%s%sMessageAdapter" % (subs[0], algo))
                except (ImportError, AttributeError):
                    pass
            adapters.append(ad)
            cfgchain.append({"defs": defs, "adapter": not subs or ad is not None})
            path, cls = run_config.custom_paths.get(algo, ("algorithms.%s.%s" % (algo, algo), algo))
            m = importlib.import_module(path)
            undo.append((m, cls, getattr(m, cls)))
            setattr(m, cls, recorder(algo))
        tr["cfg"] = {"defsize": run_config.DEFAULT_POPULATION_SIZE, "chain": cfgchain}
        try:
            got, m2 = prepared(sc["algo"], prob)
        except NotViableConfiguration:
            tr["ev"].append({"k": "prep", "result": "nv", "levels": []})
            return tr
        if m2 is not mod or [n for n, _ in got] != chain:
            raise ValueError("prepared something else")
        tr["ev"].append({"k": "prep", "result": "ok", "levels": [
            level(kw, sorted({d["p"] for d in cfgchain[j]["defs"]} | (set(kw) - {"dims", "fitnesses", "driver", "driver_message_adapter_factory", "population"})), {}, mod,
                  adapters[j], val) for j, (n, kw) in enumerate(got)]})
        return tr
    finally:
        for m, cls, old in reversed(undo):
            setattr(m, cls, old)


def select(sc, tr):
    code = lambda w: [ord(ch) for ch in w]
    tr["cfg"] = {"defsize": 0, "chain": []}
    what = sc["what"]
    names = list(getattr(run_config, what))
    args = {"--problem": None, "--algo": None, "-N": "1", "--renice": None, "--dir": "/nonexistent", "budget": True, "time": False, "<budget>": "10"}
    text = sc["text"]
    args["--problem" if what == "problems" else "--algo"] = text
    args["--algo" if what == "problems" else "--problem"] = "NSGAII" if what == "problems" else "ZDT1"
    before = list(names)
    cases = factory.resolve_configuration(args)[1]
    got = [c.problem_name if what == "problems" else c.algorithm_name for c in cases]
    tr["ev"].append({"k": "sel", "names": [code(n) for n in names], "omitted": text is None, "tokens": [code(t) for t in text.split(",")] if text is not None else [],
                     "got": [names.index(g) + 1 if g in names else 0 for g in got]})
    if list(getattr(run_config, what)) != before:
        raise ValueError("a selection changed what is available")
    return tr


def main(sc, tr):
    return {"scripted": scripted, "real": real, "select": select}[sc["kind"]](sc, tr)


hlib.run_main(main, 30)
