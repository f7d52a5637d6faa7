"""C17: the real queue (command-line arguments -> queue -> workers -> files and error summary) over algorithms that fail."""
import logging, os, re, shutil, sys, tempfile, time, pickle
import hactors
import hlib, hplug
from algorithms.base.driver import Driver
from simulation import factory, run_config, run_parallel

CUR, CLOCK = {}, {"t": 5000.0}
PROBS, ALGOS = ["TOYA", "TOYB", "TOYC"], ["SCRA", "SCRB", "SCRC"]
for n in ("time", "monotonic", "perf_counter"):
    def _now():
        CLOCK["t"] += 1e-6
        return CLOCK["t"]
    setattr(time, n, _now)
    if hasattr(time, n + "_ns"):
        setattr(time, n + "_ns", lambda: int(_now() * 10 ** 9))


class Broken(Exception):
    pass


KINDS = [Broken, ValueError, KeyError, ZeroDivisionError, AttributeError, TypeError, RuntimeError, StopIteration, OSError, FileExistsError, AssertionError, IndexError]


class Poison(float):
    def __reduce__(self):
        CUR["fault"](self.who)
        raise CUR["exc"]("cannot be written")


def fitness(k):
    def f(x):
        o = CUR["fitness_fault"]
        if o is not None and x[2] == 0.5:
            CUR["fitness_fault"] = None
            CUR["fault"](o)
            raise CUR["exc"]("no value")
        return x[0] + k
    return f


class Scripted(Driver):
    name = "?"

    def __init__(self, population, dims, fitnesses, **kw):
        kw = {k: v for k, v in kw.items() if k == "message_adapter_factory"}
        p = CUR["pair"][(CUR["owner"][id(fitnesses[0])], self.name)]
        CUR["made"][p] = i = CUR["made"].get(p, 0) + 1
        self.p, self.i = p, i
        CUR["ev"].append({"k": "begin", "p": p, "i": i})
        fates = CUR["cfg"]["inf"][p - 1]
        self.fate = fates[i - 1] if i <= len(fates) else {"f": "ok", "at": 0}
        if self.fate["f"] == "construct":
            self.fault()
            raise CUR["exc"]("cannot be made")
        super().__init__(**kw)
        self.n = self.finals = 0
        CUR["ev"].append({"k": "made", "p": p, "i": i})

    def fault(self):
        CUR["ev"].append({"k": "fault", "p": self.p, "i": self.i})

    def step(self):
        CUR["ev"].append({"k": "step", "p": self.p, "i": self.i})
        if self.n > 60:
            raise RuntimeError("runaway run")
        if self.fate["f"] == "step" and self.fate["at"] == self.n + 1:
            self.fault()
            raise CUR["exc"]("step failed")
        self.n += 1
        self.cost += 1
        CLOCK["t"] += 1

    def finalized_population(self):
        self.finals += 1
        hit = self.fate["at"] == self.finals
        if hit and self.fate["f"] == "final":
            self.fault()
            raise CUR["exc"]("no population")
        if hit and self.fate["f"] == "fit":
            CUR["fitness_fault"] = self
        x = self.n / 128.0
        if hit and self.fate["f"] == "store":
            x = Poison(x)
            x.who = self
        return [[x, self.i / 64.0, 0.5], [self.n / 128.0, self.i / 64.0, 0.25]]

    def shutdown(self):
        CUR["ev"].append({"k": "shut", "p": self.p, "i": self.i})


CUR["owner"] = {}
for j, p in enumerate(PROBS):
    fs = [fitness(j), fitness(j + 1)]
    hplug.problem(p, [(0.0, 1.0)] * 3, fs, [[0.0, 1.0], [1.0, 0.0]])
    CUR["owner"][id(fs[0])] = p
    run_config.problems.append(p)
for a in ALGOS:
    hplug.algorithm(a, type(a, (Scripted,), {"name": a}))
    run_config.algorithms.append(a)


def report_lines(log, pairs):
    """error records that name a problem, an algorithm and a number"""
    out = []
    for msg in log:
        words = re.findall(r"[A-Za-z_]\w*", msg)
        nums = re.findall(r"(?<![\w.])\d+(?![\w.])", msg)
        ps, als = [w for w in words if w in PROBS], [w for w in words if w in ALGOS]
        if len(ps) == 1 and len(als) == 1 and len(nums) == 1 and (ps[0], als[0]) in pairs:
            out.append([pairs[(ps[0], als[0])], int(nums[0])])
    return out


def main(sc, tr):
    ev, c = tr["ev"], sc["cfg"]
    root = tempfile.mkdtemp(prefix="queue")
    cwd, err = os.getcwd(), sys.stderr
    os.makedirs(os.path.join(root, "cwd"))
    os.chdir(os.path.join(root, "cwd"))
    res = os.path.join(root, "results")
    probs, algos = PROBS[:sc["np"]], ALGOS[:sc["na"]]
    pairs = {(p, a): i + 1 for i, (p, a) in enumerate((p, a) for p in probs for a in algos)}
    tr["cfg"] = c
    CUR.update(ev=ev, cfg=c, pair=pairs, made={}, fitness_fault=None, exc=KINDS[sc["exc"] % len(KINDS)], fault=lambda o: o.fault())
    hactors.current[0] = hactors.System(hactors.picker(None, "fifo"))
    log, names = [], []
    old = logging.getLogRecordFactory()

    def factory_(*a, **k):
        r = old(*a, **k)
        if r.levelno >= logging.ERROR:
            try:
                log.append(r.getMessage())
            except Exception:
                log.append(str(r.msg))
        return r
    try:
        logging.disable(logging.NOTSET)
        logging.setLogRecordFactory(factory_)
        sys.stderr = hlib._Null()
        from simulation.run_config import NotViableConfiguration
        for (p, a), i in pairs.items():
            f = c["pf"][i - 1]
            if f in ("prep", "nv"):
                def init(config, problem_mod, f=f):
                    raise NotViableConfiguration() if f == "nv" else CUR["exc"]("cannot be prepared")
                names.append("init_alg___%s____%s" % (a, p))
                setattr(run_config, names[-1], init)
            if f == "dir":
                os.makedirs(os.path.join(res, p), exist_ok=True)
                open(os.path.join(res, p, a), "w").close()
        budget = c["mode"] == "budget"
        algo_opt = ",".join(reversed(algos)).lower() if sc["exc"] % 2 else ",".join(algos)
        # a selection of nothing but unknown names selects nothing
        args = {"budget": budget, "time": not budget, "-N": str(c["n"]), "-j": "2", "--renice": sc["renice"], "--dir": res,
                "--algo": algo_opt or "nosuch", "--problem": ",".join(probs) or "nosuch,other",
                "<budget>": ",".join(str(b) for b in reversed(c["cps"])), "<timeout>": str(c["cps"][-1]), "<step>": "1"}
        cases = factory.resolve_configuration(dict(args))[1]
        par = {"budgets": c["cps"]} if budget else {"timeout": c["cps"][-1], "sampling_interval": 1}
        ev.append({"k": "queue", "jobs": [[pairs.get((x.problem_name, x.algorithm_name), 0), x.run_id] for x in cases],
                   "params": all(x.params == par and str(x.results_dir) == res for x in cases)})
        run_parallel.run_parallel(dict(args))
        dirs = []
        for (p, a), i in pairs.items():
            top = os.path.join(res, p, a)
            for run in sorted(os.listdir(top)) if os.path.isdir(top) else []:
                no = int(run.rsplit("__", 1)[1])
                found = {}
                for f in os.listdir(os.path.join(top, run)):
                    m = re.fullmatch(r"(\d+)\.pickle", f)
                    if m:
                        with open(os.path.join(top, run, f), "rb") as fh:
                            r = pickle.load(fh)
                        found[int(m.group(1))] = (int(r.population[0][0] * 128), int(r.population[0][1] * 64), int(r.additional_data["cost"]))
                if found:
                    n = [found[b][0] if found[b][0] == found[b][2] else -1 for b in sorted(found)]
                    who = {x[1] for x in found.values()}
                    # run number 0 is stored under a random number of seven digits
                    dirs.append({"p": i, "run": no if no < 1000000 else 0, "i": who.pop() if len(who) == 1 else -1, "cps": sorted(found), "n": n})
        ev.append({"k": "end", "dirs": dirs, "reported": report_lines(log, pairs)})
    finally:
        logging.setLogRecordFactory(old)
        logging.disable(logging.CRITICAL)
        for h in list(logging.getLogger().handlers):
            logging.getLogger().removeHandler(h)
        sys.stderr = err
        for nm in names:
            delattr(run_config, nm)
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
    return tr


hlib.run_main(main, 40)
