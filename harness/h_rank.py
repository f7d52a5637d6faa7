"""C21: indicator values, statistics of runs, the checkpoint representing an algorithm, and the rankings the commands print."""
import contextlib, io, math, os, random, re, shutil, tempfile
from fractions import Fraction
import hlib, hplug
from metrics import metrics
from simulation import serialization
from simulation.model import SimulationCase
from simulation.serializer import Serializer, Result
from statistic import ranking, stats_bootstrap

BOOT = 12


def near(x):
    """the integer that x is up to rounding, or -1"""
    if not math.isfinite(x):
        return -1
    r = round(x)
    return int(r) if abs(x - r) <= 1e-6 * max(1.0, abs(x)) and abs(r) < 2 ** 31 - 1 else -1


def ind(it, rng):
    scale, off = 2.0 ** rng.randrange(-4, 5), rng.choice([0.0, -3.0, 7.0, 512.0])
    back = {}

    def real(p):
        q = [(c + off) * scale for c in p]
        back[tuple(q)] = list(p)
        return tuple(q) if it["tuples"] else q
    pop, front = [real(p) for p in it["pop"]], [real(p) for p in it["front"]]
    joint = {tuple(real(p)) for p in it["all"]}
    nd = metrics.filter_not_dominated(pop)
    n, m, f = len(nd), len(pop), len(front)
    call = lambda name: getattr(metrics, name)(pop, nd, front) / scale
    e = {"k": "ind", "pop": it["pop"], "front": it["front"], "all": it["all"], "nd": [back[tuple(p)] for p in nd]}
    e["gd"] = near(call("generational_distance") ** 2 * n)
    e["igd"] = near(call("inverse_generational_distance") ** 2 * f)
    e["ahd"] = near(call("average_hausdorff_distance") ** 2 * n * f)
    x = call("epsilon")
    e["eps"] = near(x) if near(x) != -1 or abs(x + 1) < 1e-6 else -9999
    e["ext"] = near((call("extent") * scale) ** 2 / scale)
    e["spc"] = near(call("spacing") ** 2 * (n * (n - 1) if n > 1 else 1))
    e["ndr"] = near(metrics.non_domination_ratio(pop, nd, front) * m)
    e["pdi"] = near(metrics.pareto_dominance_indicator(pop, nd, joint) * len(joint))
    return e


def stat(it, rng):
    data = list(it["data"])
    n = len(data)
    a = stats_bootstrap.yield_analysis([float(x) for x in data], BOOT)
    b = a["btstrpd"]
    cnt = lambda s: 0 if s == "--" else round(float(s.strip().rstrip("%")) * n / 100)
    fr = Fraction(a["metrics_nooutliers"]).limit_denominator(n)
    return {"k": "stat", "sorted": sorted(data), "mean": near(a["mean"] * n), "score": near(b["metrics"] * n),
            "lo": int(math.floor(b["from"] * 1000 + 1e-6)) if math.isfinite(b["from"]) else -1000000,
            "hi": int(math.ceil(b["to"] * 1000 - 1e-6)) if math.isfinite(b["to"]) else 2000000000,
            "fences": [near(8 * a[k]) for k in ("low_inn_fence", "upp_inn_fence", "low_out_fence", "upp_out_fence")],
            "mild": cnt(a["mild_outliers"]), "extr": cnt(a["extr_outliers"]), "inner": [fr.numerator, fr.denominator],
            "var": near(a["stdev"] ** 2 * n * n), "good": a["goodbench"] == "✓"}


def accept(it, rng):
    rs = []
    for cp in it["cps"]:
        an = [("gd", "generational distance", [lambda: 1.0])]
        if cp["c"]:
            an.insert(rng.randrange(2), ("cost", "cost", [lambda v=v: float(v) for v in cp["c"]]))
        rs.append({"budget": cp["b"], "results": [], "analysis": an})
    got = stats_bootstrap.find_acceptable_result_for_budget(rs, BOOT)
    pos = [i + 1 for i, r in enumerate(rs) if r is got]
    return {"k": "accept", "cps": it["cps"], "got": pos[0] if pos else 0 if got is None else -1,
            "valid": [bool(stats_bootstrap.validate_cost(r, BOOT)) for r in rs]}


def ties(it, rng):
    s = 2.0 ** rng.randrange(-8, 9)
    sc = [("A%d" % (i + 1), x * s) for i, x in enumerate(it["scores"])]
    w = sc[it["win"] - 1]
    rng.shuffle(sc)
    got = ranking.get_weak_winners(sc, w, it["rate"] / 1000.0)
    return {"k": "ties", "scores": [[x, 1] for x in it["scores"]], "win": it["win"], "rate": it["rate"], "got": sorted(int(a[1:]) for a, _ in got)}


METRICS = ("ahd", "gd", "igd", "hypervolume", "pdi", "spacing")


def tree(sc, tr):
    rng = random.Random(sc["id"])
    ev = tr["ev"]
    tr["cfg"] = {"probs": [{"front": p["front"], "sq": p["sq"], "algos": p["algos"]} for p in sc["probs"]]}
    base = tempfile.mkdtemp(prefix="rank")
    cwd = os.getcwd()
    try:
        os.makedirs(os.path.join(base, "a", "b"))
        os.chdir(os.path.join(base, "a", "b"))
        root = os.path.join(os.getcwd(), serialization.RESULTS_DIR)
        pname = {}
        for i, p in enumerate(sc["probs"]):
            name = "RANK%dX%d" % (i + 1, rng.randrange(1000))
            pname[name] = i + 1
            hplug.problem(name, [(0.0, 1.0)], [hplug.toy_f1] * 2, [[float(c) for c in q] for q in p["front"]])
            for a, cps in enumerate(p["algos"]):
                runs = max([len(c["pops"]) for c in cps] or [1])
                stamps = sorted("20%02d-%02d-%02d.%06d.%06d" % (rng.randrange(10, 99), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(10 ** 6), rng.randrange(10 ** 6)) for _ in range(runs))
                order = list(range(runs))
                rng.shuffle(order)
                for r in order:
                    case = SimulationCase(name, sc["names"][a], None, None, root, "%s__%07d" % (stamps[r], rng.randrange(10 ** 7)))
                    os.makedirs(str(Serializer(case).path))
                    cs = list(cps)
                    rng.shuffle(cs)
                    for c in cs:
                        if r < len(c["pops"]):
                            pop = [[float(x) for x in q] for q in c["pops"][r]]
                            Serializer(case).store(Result([[0.5]] * len(pop), pop, cost=c["c"][r]), str(c["b"]))
        anum = {n: i + 1 for i, n in enumerate(sc["names"])}

        def run(f):
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                f({"--bootstrap": str(BOOT)})
            return out.getvalue().splitlines()
        pts = lambda s: [[anum[m.group(1)], int(m.group(2))] for m in re.finditer(r"(\S+) \((\d+)\)", s)]
        for what in sc["what"]:
            if what == "rank":
                won, total = [], []
                for l in run(ranking.rank):
                    m = re.fullmatch(r"(\S+), (\w+) : (\S+)", l)
                    if m and m.group(1) in pname:
                        won.append({"p": pname[m.group(1)], "m": m.group(2), "w": anum[m.group(3)]})
                        continue
                    m = re.fullmatch(r"(\w+) : (.*)", l)
                    if m and m.group(1) in METRICS:
                        total.append({"m": m.group(1), "pts": pts(m.group(2))})
                ev.append({"k": "rank", "won": won, "total": total})
            elif what == "detailed":
                if hasattr(ranking, "result_dirs"):
                    where(root, ranking.result_dirs)
                rows = []
                for l in run(ranking.detailed_rank):
                    m = re.fullmatch(r"(\d+) (\w+) : (.*)", l)
                    if m:
                        rows.append({"b": int(m.group(1)), "m": m.group(2), "pts": pts(m.group(3))})
                ev.append({"k": "detailed", "rows": rows})
            else:
                where(root, ranking.result_dirs)
                won, cur, blk = [], None, []
                for l in run(ranking.table_rank):
                    m = re.fullmatch(r"\*{4}([^*]\S*)\*{4}", l)
                    if m and m.group(1) in pname:
                        cur = pname[m.group(1)]
                    m = re.fullmatch(r"\*{5}40 (\w+)", l)
                    if m:
                        won.append({"p": cur, "m": m.group(1), "w": 0, "ties": []})
                    m = re.match(r"\*{5}(?:Strong winner|Winner): (\S+) :", l)
                    if m:
                        won[-1]["w"] = anum[m.group(1)]
                    m = re.match(r"\*{5}Weak winners: (.*)", l)
                    if m:
                        won[-1]["ties"] = [anum[x] for x in re.findall(r"\('([^']+)',", m.group(1))]
                ev.append({"k": "table", "budget": 40, "won": won})
        return tr
    finally:
        os.chdir(cwd)
        shutil.rmtree(base, ignore_errors=True)


def where(root, dirs):
    """the folder the comparing commands look into first is the one with the results"""
    d = os.path.join(os.getcwd(), dirs[0])
    if not os.path.exists(d):
        shutil.copytree(root, d)


def main(sc, tr):
    if sc["kind"] == "tree":
        return tree(sc, tr)
    rng = random.Random(sc["id"])
    tr["cfg"] = {"probs": []}
    for it in sc["items"]:
        tr["ev"].append({"ind": ind, "stat": stat, "accept": accept, "ties": ties}[it["k"]](it, rng))
    return tr


hlib.run_main(main, 60)
