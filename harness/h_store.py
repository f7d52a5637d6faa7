"""C16: storing, dying while storing, loading - against a scratch results folder."""
import builtins, datetime, io, os, random, resource, shutil, signal, sys, tempfile

NOW = [(2024, 1, 1, 0, 0, 0, 0)]


class Clock(datetime.datetime):
    @classmethod
    def today(cls):
        return cls(*NOW[0])

    @classmethod
    def now(cls, tz=None):
        return cls(*NOW[0])


datetime.datetime = Clock
import pathlib
import hlib, hplug
from simulation import serialization, factory
from simulation.model import SimulationCase
from simulation.serializer import Serializer, Result

PROBS = ["TOY", "ZDT1", "UF1"]
hplug.toy()
OPS = ["rename", "replace", "unlink", "remove", "fsync", "link", "symlink", "mkdir", "makedirs", "ftruncate", "truncate", "close", "open", "write", "sendfile",
       "copy_file_range", "rmdir"]


def content(rng, size):
    pop = [[rng.choice([rng.uniform(-1, 1), 0.1, 1e-300, -0.0, 12345678901234.5]) for _ in range(rng.choice([1, 3]))] for _ in range(size)]
    fit = [[rng.uniform(-5, 5) for _ in range(2)] for _ in pop]
    return pop, fit, rng.choice([0, 7, 1234, 2.5, 10 ** 6])


def digest(pop, fit, cost):
    return repr(([[float(x) for x in p] for p in pop], [[float(x) for x in f] for f in fit], float(cost)))


def arm(point, total, calls):
    """in the child: die at the chosen point of the coming store"""
    kind, n = point
    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
    if kind == "bytes":
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (max(0, n), resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
    elif kind == "ops":
        left = [n]

        def hit():
            left[0] -= 1
            if left[0] < 0:
                os._exit(77)

        def wrap(f):
            def w(*a, **k):
                hit()
                try:
                    return f(*a, **k)
                finally:
                    hit()
            return w
        for o in OPS:
            if hasattr(os, o):
                setattr(os, o, wrap(getattr(os, o)))
            acc = getattr(pathlib, "_NormalAccessor", None)
            if acc is not None and hasattr(acc, o):
                setattr(acc, o, staticmethod(wrap(getattr(acc, o))))

        def opener(f):
            # death before a file is opened, and right after (an opened file may already be emptied)
            def w(file, *a, **k):
                mine = isinstance(file, int) or str(file).startswith(total)
                if mine:
                    hit()
                r = f(file, *a, **k)
                if mine:
                    hit()
                return r
            return w
        builtins.open = io.open = opener(io.open)


def main(sc, tr):
    ev, rng = tr["ev"], random.Random(sc["id"])
    tr["cfg"] = {"x": 0}
    root = tempfile.mkdtemp(prefix="res")
    table = {}

    def num(s):
        return table.setdefault(s, len(table) + 1)
    try:
        runs = []           # (p, a, SimulationCase)
        t = 0
        kind = sc["kind"]
        for spec in sc["runs"]:
            NOW[0] = (2024, spec.get("mon", 1), spec.get("day", 1), spec.get("hour", 0), spec.get("min", 0), spec["sec"], spec["us"])
            if spec["via"] == "factory":
                args = {"budget": kind == "budget", "time": kind == "time", "<budget>": "10", "<timeout>": "10", "<step>": "1", "--algo": spec["a"], "--problem": "ZDT1",
                        "-N": "2", "--renice": None, "--dir": root}
                case = factory.resolve_configuration(args)[1][spec["run"] % 2]
            else:
                case = SimulationCase(spec["p"], spec["a"], spec["run"], None, root, budgets=[1])
            runs.append(case)
        if sc.get("frozen"):
            # a whole queue created within one tick of the clock
            NOW[0] = (2024, 1, 1, 0, 0, 0, 0)
            args = {"budget": True, "time": False, "<budget>": "10", "--algo": "NSGAII,SPEA2", "--problem": "ZDT1,UF1", "-N": str(sc["frozen"]), "--renice": None, "--dir": root}
            q = factory.resolve_configuration(args)[1]
            ev.append({"k": "ids", "places": [str(Serializer(c).get_result_path(5)) for c in q]})
        # every simulation differs from the others in its problem, algorithm, number or instant
        ev.append({"k": "ids", "places": [str(Serializer(c).path) for c in runs]})
        places = {}
        for c in runs:
            places.setdefault((c.problem_name, c.algorithm_name), set()).add(str(Serializer(c).path))
        order = {}
        for g, s in places.items():
            for i, pth in enumerate(sorted(s)):
                order[pth] = i + 1
        budgets = sc["budgets"]
        pi, ai = (lambda p: num("p" + p)), (lambda a: num("a" + a))

        def rec(c, b, d):
            return {"p": pi(c.problem_name), "a": ai(c.algorithm_name), "b": b, "r": order[str(Serializer(c).path)], "d": d}

        def junk():
            if not sc["junk"]:
                return
            for dirpath, dirs, files in list(os.walk(root)):
                depth = dirpath[len(root):].count("/")
                if depth == 3 and rng.random() < 0.5:
                    for n in ("notes.txt", "12.pickle.bak", "x7.pickle", "9.extent.pickle", ".10.pickle"):
                        with open(os.path.join(dirpath, n), "w") as f:
                            f.write("junk")
                    os.makedirs(os.path.join(dirpath, "%d.pickle" % (777700 + rng.randrange(9))), exist_ok=True)
                if depth == 2 and rng.random() < 0.5:
                    os.makedirs(os.path.join(dirpath, rng.choice(["old", "2024-01-01", "2023-01-01.101010.123456__12", "backup 2023-01-01.101010.123456__0000012"])), exist_ok=True)
                    with open(os.path.join(dirpath, "2024.txt"), "w") as f:
                        f.write("junk")
                if depth == 1 and rng.random() < 0.5:
                    with open(os.path.join(dirpath, "summary_nondominated"), "w") as f:
                        f.write("junk")

        def load():
            extractor = serialization.BudgetResultsExtractor() if kind == "budget" else serialization.TimeResultsExtractor()
            groups = []
            for pname, mod, algos in serialization.each_result(extractor, root):
                for aname, results in algos:
                    lists = []
                    for item in results:
                        if item["problem"] != pname or item["algo"] != aname:
                            raise ValueError("listed under the wrong name")
                        rr = []
                        for r in item["results"]:
                            path = str(r.path.parent)
                            if r.simulation_case.problem_name != pname or r.simulation_case.algorithm_name != aname or int(r.name) != item[kind]:
                                raise ValueError("result of another problem, algorithm or budget")
                            rr.append({"no": int(r.run_no), "r": order.get(path, 0), "d": num(digest(r.population, r.fitnesses, r.additional_data["cost"]))})
                        lists.append({"b": int(item[kind]), "runs": rr})
                    groups.append({"p": pi(pname), "a": ai(aname), "lists": lists})
            return groups

        for op, b, r, at in sc["ops"]:
            if op == "load":
                junk()
                ev.append({"k": "load", "groups": load()})
                continue
            case, b = runs[(r - 1) % len(runs)], budgets[(b - 1) % len(budgets)]
            pop, fit, cost = content(rng, rng.choice([1, 4, 40, 400] if op == "crash" else [1, 4, 40]))
            d = num(digest(pop, fit, cost))
            if op == "store":
                NOW[0] = (2024, 1, 2, 0, 0, 0, 0)
                Serializer(case).store(Result(pop, fit, cost=cost), str(b))
                ev.append(dict(rec(case, b, d), k="store"))
                back = Serializer(case).load(str(b) if rng.random() < 0.5 else b)
                ev.append(dict(rec(case, b, num(digest(back.population, back.fitnesses, back.additional_data["cost"]))), k="back"))
            else:
                import pickle
                size = len(pickle.dumps(Result(pop, fit, cost=cost)))
                point = ("ops", rng.choice([rng.randrange(10), rng.randrange(24)])) if rng.random() < 0.5 else ("bytes", rng.choice([0, 1, size // 4, size // 2, (3 * size) // 4, size - 1]))
                pid = os.fork()
                if pid == 0:
                    try:
                        arm(point, root, rng)
                        Serializer(case).store(Result(pop, fit, cost=cost), str(b))
                        os._exit(0)
                    except BaseException:
                        os._exit(78)
                _, status = os.waitpid(pid, 0)
                done = os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0
                if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 78:
                    tr["failed"] = tr.get("failed", 0) + 1
                ev.append(dict(rec(case, b, d), k="store" if done else "crash", at=list(point)))
        ev.append({"k": "load", "groups": load()})
        return tr
    finally:
        shutil.rmtree(root, ignore_errors=True)


hlib.run_main(main, 60)
