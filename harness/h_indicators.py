"""C19: indicators asked for while results come, go and change, through the real results folder."""
import os, pickle, random, shutil, sys, tempfile
from fractions import Fraction
import hlib, hplug
from simulation import serialization, metrics_processor
from simulation.model import SimulationCase
from simulation.serializer import Serializer, Result
from metrics import metrics

FRONTS = {2: [[0.0, 3.0], [1.0, 1.0], [3.0, 0.0]], 3: [[0.0, 3.0, 1.0], [1.0, 1.0, 1.0], [3.0, 0.0, 0.0]]}
# a front of many points: what is stored next to a value is long
LONG = {2: [[0.02 * i, 3.0 - 0.02 * i] for i in range(150)], 3: [[0.02 * i, 3.0 - 0.02 * i, 1.0] for i in range(150)]}
LMODS = {m: hplug.problem("TOYLONG%dOBJ" % m, [(0.0, 1.0)] * 3, [hplug.toy_f1] * m, LONG[m]) for m in (2, 3)}
MODS = {m: hplug.problem("TOY%dOBJ" % m, [(0.0, 1.0)] * 3, [hplug.toy_f1] * m, FRONTS[m]) for m in (2, 3)}
NAMES = {"gd": "generational_distance", "igd": "inverse_generational_distance", "ahd": "average_hausdorff_distance", "epsilon": "epsilon",
         "extent": "extent", "spacing": "spacing", "ndr": "non_domination_ratio", "hypervolume": "hypervolume"}


def main(sc, tr):
    rng = random.Random(sc["id"])
    ev, m = tr["ev"], sc["m"]
    prob, mod = ("TOYLONG%dOBJ" % m, LMODS[m]) if sc.get("long") else ("TOY%dOBJ" % m, MODS[m])
    root = tempfile.mkdtemp(prefix="ind")
    contents = sc["contents"]
    tr["cfg"] = {"contents": contents}
    algos = sc["algos"]
    nr = max([5] + [op[2] for op in sc["ops"]])
    try:
        # the names of the runs are in the order of r; they are created in another order
        stamps = sorted("20%02d-%02d-%02d.%06d.%06d" % (rng.randrange(10, 99), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(10 ** 6), rng.randrange(10 ** 6))
                        for _ in range(nr + 4))
        numbers = [rng.randrange(10 ** 7) for _ in range(nr + 4)]

        def case(a, r):
            return SimulationCase(prob, algos[a - 1], None, None, root, "%s__%07d" % (stamps[r - 1], numbers[r - 1]))
        budget = lambda b: sc["budgets"][b - 1]
        rev = {}
        for a in range(1, len(algos) + 1):
            for r in range(1, nr + 1):
                for b in range(1, 3):
                    rev[(algos[a - 1], case(a, r).id, budget(b))] = (a, r, b)

        def junk():
            for dirpath, dirs, files in list(os.walk(root)):
                depth = dirpath[len(root):].count("/")
                if depth == 3 and rng.random() < 0.4:
                    open(os.path.join(dirpath, rng.choice(["notes.txt", "12.pickle.bak", "x7.pickle", "10.pickle.77.tmp"])), "w").close()
                if depth == 2 and rng.random() < 0.4:
                    d = os.path.join(dirpath, rng.choice(["0old", "backup", "2001-01-01", "2001-01-01.101010.123456__12", "zzz"]))
                    os.makedirs(d, exist_ok=True)
                    if rng.random() < 0.5:
                        # a set-aside copy of a run
                        Serializer(SimulationCase(prob, os.path.basename(dirpath), None, None, root, os.path.basename(d))).store(
                            Result([[0.0]], [[0.0] * m], cost=1), str(budget(1)))
                if depth == 1 and rng.random() < 0.15:
                    # what was worked out for the whole problem is lost
                    for f in files:
                        if f.endswith("_nondominated"):
                            os.remove(os.path.join(dirpath, f))
                if depth == 1 and rng.random() < 0.4:
                    open(os.path.join(dirpath, "readme.txt"), "w").close()

        def query(order):
            parts = []
            for pname, pm, algs in serialization.each_result(serialization.BudgetResultsExtractor(), root):
                for aname, results in algs:
                    for item in results:
                        analysis = [(n, fs) for n, _, fs in item["analysis"]]
                        for i, r in enumerate(item["results"]):
                            parts.append((aname, r, item["budget"], {n: fs[i] for n, fs in analysis}))
            order.shuffle(parts)
            got = []
            for aname, r, b, fs in parts:
                with open(str(r.path), "rb") as fh:
                    disk = pickle.load(fh)
                key = rev.get((aname, r.path.parent.name, b), (0, 0, 0))
                same = True
                names = list(fs)
                order.shuffle(names)
                pdi = None
                for n in names:
                    v = fs[n]()
                    if n == "pdi":
                        pdi = v
                    elif n == "cost":
                        same = same and v == float(disk.additional_data["cost"])
                    elif n in NAMES:
                        sol = disk.fitnesses
                        nd = metrics.filter_not_dominated([list(f) for f in sol])
                        scratch = getattr(metrics, NAMES[n])([list(f) for f in sol], nd, pareto=[list(f) for f in mod.pareto_front])
                        if not (v == scratch):
                            same = False
                if pdi is None:
                    got.append({"a": key[0], "r": key[1], "b": key[2], "n": 0, "d": 0, "same": same})
                    continue
                fr = Fraction(pdi).limit_denominator(400)
                if float(fr) != float(pdi):
                    fr = Fraction(401, 400)
                got.append({"a": key[0], "r": key[1], "b": key[2], "n": fr.numerator, "d": fr.denominator, "same": same})
            return got, parts

        for op, a, r, b, d in sc["ops"]:
            if op == "put":
                fit = [list(map(float, p)) for p in contents[d - 1]]
                Serializer(case(a, r)).store(Result([[0.25 * i] for i in range(len(fit))], fit, cost=d), str(budget(b)))
                ev.append({"k": "put", "a": a, "r": r, "b": b, "d": d})
            elif op == "del":
                os.remove(str(Serializer(case(a, r)).get_result_path(str(budget(b)))))
                ev.append({"k": "del", "a": a, "r": r, "b": b})
            elif op == "delrun":
                shutil.rmtree(str(Serializer(case(a, r)).path))
                if rng.random() < 0.5 and not os.listdir(os.path.join(root, prob, algos[a - 1])):
                    os.rmdir(os.path.join(root, prob, algos[a - 1]))
                ev.append({"k": "delrun", "a": a, "r": r})
            else:
                if sc["junk"]:
                    junk()
                got, parts = query(rng)
                ev.append({"k": "query", "got": got})
                # a cached value asked for with other parameters
                for aname, res, bb, fs in parts[:2]:
                    n = rng.choice(sorted(NAMES.values()))
                    other = rng.choice([[list(p) for p in mod.pareto_front][:-1], [[x + 0.5 for x in p] for p in mod.pareto_front], [list(p) for p in mod.pareto_front] + [[9.0] * m]])
                    try:
                        v = metrics_processor.get_metric(res, n, metric_params={"pareto": other})
                        ev.append({"k": "ask", "answer": repr(v)})
                    except Exception:
                        ev.append({"k": "ask", "answer": "raised"})
        return tr
    finally:
        shutil.rmtree(root, ignore_errors=True)


hlib.run_main(main, 60)
