"""C15: histories of preparations, instances, steps, failures and whole runs in one process."""
import collections, copy, functools, gc, os, random, shutil, tempfile, types
import rx.scheduler


class OneThread(rx.scheduler.ImmediateScheduler):
    """runs what would go to a new thread on a new thread, but waits for it, so that random numbers are drawn in one order"""
    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __init__(self, *a, **k):
        super().__init__()

    def schedule(self, action, state=None):
        box = []
        hactors.apart(lambda: box.append(self.invoke_action(action, state=state)))
        return box[0]


rx.scheduler.NewThreadScheduler = OneThread
import hactors
import hlib, hplug
import numpy as np
from simulation import factory, run_config, worker
from simulation.model import SimulationCase
from importlib import import_module

OWN = ("algorithms.", "evotools.", "simulation.", "problems.", "metrics.")


class Boom(Exception):
    pass


calls = [0, 0]        # made, allowed


def bad(x):
    calls[0] += 1
    if calls[1] and calls[0] > calls[1]:
        raise Boom("objective failed")
    return hplug.toy_f2(x)


hplug.toy()
hplug.problem("TOYBAD", [(0.0, 1.0)] * 3, [hplug.toy_f1, bad], [[0.0, 1.0], [0.5, 0.25], [1.0, 0.0]])
hplug.problem("TOYNEG", [(-2.0, 1.0), (0.5, 3.0), (-1.0, -0.25)], [hplug.toy_f1, hplug.toy_f2], [[0.0, 1.0], [1.0, 0.0]])


def dig(x, seen=None):
    """structural digest of a value, the code's own objects included"""
    seen = {} if seen is None else seen
    if x is None or isinstance(x, (bool, int, float, str, bytes, complex)):
        return repr(x)
    if isinstance(x, np.generic):
        return repr(x.item())
    if isinstance(x, (types.FunctionType, types.BuiltinFunctionType, type, types.ModuleType)):
        return "%s.%s" % (getattr(x, "__module__", ""), getattr(x, "__qualname__", getattr(x, "__name__", "?")))
    if id(x) in seen:
        return "@%d" % seen[id(x)]
    seen[id(x)] = len(seen)
    if isinstance(x, types.MethodType):
        return "method:" + x.__name__ + dig(x.__self__, seen)
    if isinstance(x, functools.partial):
        return "partial(%s,%s,%s)" % (dig(x.func, seen), dig(list(x.args), seen), dig(dict(x.keywords), seen))
    if isinstance(x, np.ndarray):
        return "nd" + dig(x.tolist(), seen)
    if isinstance(x, dict):
        items = list(x.items())
        if all(isinstance(k, (str, int, float, tuple)) for k in x):
            items.sort(key=lambda kv: repr(kv[0]))
            return "{%s}" % ",".join("%s:%s" % (dig(k, seen), dig(v, seen)) for k, v in items)
        return "{%s}" % ",".join(sorted(dig(k, {}) + ":" + dig(v, {}) for k, v in items))
    if isinstance(x, (set, frozenset)):
        return "<%s>" % ",".join(sorted(dig(k, {}) for k in x))
    if isinstance(x, (list, tuple, collections.deque)):
        return "%s[%s]" % ("t" if isinstance(x, tuple) else "l", ",".join(dig(k, seen) for k in x))
    t = type(x)
    if str(t.__module__).startswith(OWN):
        parts = dict(getattr(x, "__dict__", {}))
        for k in t.__mro__:
            s = k.__dict__.get("__slots__", ())
            for n in ((s,) if isinstance(s, str) else s):
                if hasattr(x, n):
                    parts[n] = getattr(x, n)
        body = dig(parts, seen)
        if isinstance(x, (list, tuple, set, dict)):
            body += "~"
        return t.__name__ + body
    return t.__name__


def vectors(x, out, seen):
    """the decision vectors (lists of numbers, by identity) that a value holds"""
    if id(x) in seen or x is None or isinstance(x, (bool, int, float, str, bytes, type, types.FunctionType, types.ModuleType)):
        return out
    seen[id(x)] = x
    if isinstance(x, list) and len(x) > 1 and all(isinstance(v, float) for v in x):
        out[id(x)] = x
    elif isinstance(x, functools.partial):
        vectors(dict(x.keywords), out, seen)
    elif isinstance(x, dict):
        for k, v in x.items():
            vectors(k, out, seen)
            vectors(v, out, seen)
    elif isinstance(x, (list, tuple, set, frozenset, collections.deque)):
        for v in x:
            vectors(v, out, seen)
    elif str(type(x).__module__).startswith(OWN) and hasattr(x, "__dict__"):
        vectors(vars(x), out, seen)
    return out


def common_vectors(names):
    """vectors that belong to the configuration or to the problems"""
    seen, out = {}, {}
    for m in [run_config] + [import_module("problems.%s.problem" % p) for p in names]:
        for k, v in list(vars(m).items()):
            if not k.startswith("__") and not isinstance(v, (types.ModuleType, type)):
                vectors(v, out, seen)
    return out


def config_digest():
    return dig({k: v for k, v in vars(run_config).items() if not k.startswith("_") and not isinstance(v, (types.ModuleType, types.FunctionType, type))})


def problem_digest(names):
    out = []
    for p in names:
        m = import_module("problems.%s.problem" % p)
        pts = [[a + (b - a) * q for a, b in m.dims] for q in (0.25, 0.75)] if p != "TOYBAD" else []
        out.append(dig([p, [list(d) for d in m.dims], [[float(f(x)) for f in m.fitnesses] for x in pts], len(m.fitnesses), [list(map(float, r)) for r in m.pareto_front]]))
    return "|".join(out)


def main(sc, tr):
    ev = tr["ev"]
    sysm = hactors.System(hactors.picker(random.Random(1), "fifo"), threaded=True)
    hactors.current[0] = sysm
    table = {}

    def num(s):
        return table.setdefault(s, len(table) + 1)

    combos = sc["combos"]
    names = sorted(set(p for _, p in combos) | {"TOYBAD"})
    pristine = {k: v for k, v in vars(run_config).items() if not k.startswith("_")}
    saved = {k: copy.deepcopy(v) for k, v in pristine.items() if isinstance(v, (dict, list, tuple, int, float))}
    out = tempfile.mkdtemp(prefix="res")
    try:
        for k, v in sc["conf"].items():
            if k == "algo":
                for a, kv in v.items():
                    run_config.algo_base.setdefault(a, {}).update(copy.deepcopy(kv))
            elif k == "cust":
                for key, kv in v:
                    run_config.cust_base[tuple(key)] = copy.deepcopy(kv)
            else:
                setattr(run_config, k, v)

        def seeded(*key):
            hlib.seed_all(":".join(map(str, (sc["id"],) + key)))

        def prep(c):
            seeded("prep", c)
            return factory.prepare(*combos[c])[0]

        made = []       # what every preparation and its instances hold: [key, vectors]

        def sharing(key, x):
            mine = vectors(x, {}, {})
            free = common_vectors(names)
            n = sum(1 for i in mine if i not in free and any(k is not key and i in vs for k, vs in made))
            made.append((key, mine))
            return n

        def start(fac, c, kw):
            seeded("new", c)
            d = fac(**kw)
            sysm.drain()
            return d

        def step(d, c, n):
            seeded("step", c, n)
            d.step()
            sysm.drain()

        def surface(d, c):
            seeded("look", c)
            p = d.finalized_population() if hasattr(d, "islands") or hasattr(d, "hgs") else d.population
            return dig([[list(map(float, x)) for x in p], float(d.cost)])

        def deep(d):
            h = getattr(d, "hgs", None)
            if h is not None and hasattr(h, "node_supervisor"):       # its state lives in the actors
                seeded("look")
                c = d.cost
                r = dig([[list(map(float, x)) for x in d.finalized_population()], float(c)])
                sysm.drain()
                return r
            return dig(d)

        STEPS = 4

        def alone(c, junk):
            keep = [object() for _ in range(junk)]
            d = start(prep(c), c, {})
            r = [surface(d, c)]
            for n in range(STEPS):
                step(d, c, n)
                r.append(surface(d, c))
            del keep
            return r

        conf0, prob0 = num(config_digest()), num(problem_digest(names))
        prep0 = []
        for c in range(len(combos)):
            prep0.append(num(dig(prep(c))))
        solos, ok = [], []
        cold = copy.deepcopy
        for c in range(len(combos)):
            # each solo runs on a private copy of the configuration, so that a leak cannot hide in the baseline
            keepc = {k: cold(getattr(run_config, k)) for k in saved}
            a = alone(c, 3)
            for k, v in keepc.items():
                setattr(run_config, k, v)
            b = alone(c, 1007)
            for k, v in keepc.items():
                setattr(run_config, k, cold(v))
            ok.append(a == b)
            solos.append(a)
        tr["cfg"] = {"conf": conf0, "prob": prob0, "prep": prep0, "solo": [[num(x) for x in s] for s in solos]}
        tr["deterministic"] = sum(ok)
        insts = []      # dict(d, c, n, fac, given)
        shared = {}

        def common(e):
            e["conf"], e["prob"] = num(config_digest()), num(problem_digest(names))
            e["deep"] = [num(deep(x["d"])) if x["d"] is not None else 0 for x in insts]
            e["given"] = [num(dig(x["given"])) for x in insts]
            ev.append(e)

        for op, a, b in sc["ops"]:
            if op == "prep":
                c = (a - 1) % len(combos)
                p = prep(c)
                common({"k": "prep", "c": c + 1, "d": num(dig(p)), "shared": sharing(p, p)})
            elif op == "new":
                c = (a - 1) % len(combos)
                fac = shared.get(c) if b else None
                if fac is None:
                    fac = shared[c] = prep(c)
                kw = getattr(fac, "keywords", {})
                d = start(fac, c, {})
                insts.append({"d": d, "c": c, "n": 0, "given": kw.get("population")})
                s = surface(d, c)
                common({"k": "new", "i": len(insts), "c": c + 1, "d": num(s if ok[c] else solos[c][0]), "shared": sharing(fac, [fac, d])})
            elif op == "step":
                x = insts[a - 1]
                if x["n"] >= STEPS:
                    continue
                step(x["d"], x["c"], x["n"])
                x["n"] += 1
                s = surface(x["d"], x["c"])
                common({"k": "step", "i": a, "d": num(s if ok[x["c"]] else solos[x["c"]][x["n"]])})
            elif op == "fail":
                # a step during which an objective raises: the instance is abandoned
                x = insts[a - 1]
                calls[0], calls[1] = 0, b + 3
                try:
                    prob_alg = combos[x["c"]][0]
                    seeded("bad", a)
                    calls[1] = 0
                    y = factory.prepare(prob_alg, "TOYBAD")[0]
                    calls[0], calls[1] = 0, 40 + 13 * a
                    z = y()
                    for _ in range(3):
                        z.step()
                except Boom:
                    pass
                finally:
                    calls[1] = 0
                    sysm.chan.clear()
                common({"k": "fail", "i": a})
            elif op == "end":
                x = insts[a - 1]
                x["d"].shutdown()
                common({"k": "end", "i": a})
            elif op == "work":
                c = (a - 1) % len(combos)
                algo, prob = combos[c]
                if b == 1:
                    prob = "TOYBAD"
                if b == 2:
                    algo = "NSGAII+SPEA2"
                calls[0], calls[1] = 0, (60 if b == 1 else 0)
                case = SimulationCase(prob, algo, 1, None, out, budgets=[20, 70])
                seeded("work", c, len(ev))
                try:
                    r = worker.BudgetWorker(case, 0).run()
                finally:
                    calls[1] = 0
                    sysm.chan.clear()
                common({"k": "work", "ran": r is not None, "expected": b == 0})
        return tr
    finally:
        shutil.rmtree(out, ignore_errors=True)
        for k in list(vars(run_config)):
            if k in saved:
                setattr(run_config, k, saved[k])


hlib.run_main(main, 120)
