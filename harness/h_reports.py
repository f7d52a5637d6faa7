"""C22: the reporting commands, through the command line, over a results folder that comes and goes.
Figures are read off when they are about to be saved (nothing is drawn or written)."""
import contextlib, io, math, os, random, re, shutil, sys, tempfile
import hlib, hplug

hlib.stub_scipy()
os.environ.setdefault("MPLBACKEND", "Agg")
import warnings
warnings.simplefilter("ignore")
import matplotlib
matplotlib.use("Agg")
import matplotlib.figure, matplotlib.axes
import evogil
from simulation import run_config, serialization
from simulation.model import SimulationCase
from simulation.serializer import Serializer, Result

COMPARED = ("gd", "igd", "ahd", "spacing", "hypervolume", "pdi")
saved = {}


def snap(fig, path, *a, **kw):
    """what a figure shows"""
    axes = []
    for ax in fig.axes:
        lines = [(str(l.get_label()), [tuple(map(float, q)) for q in zip(l.get_xdata(), l.get_ydata())]) for l in ax.lines]
        dots = []
        for c in ax.collections:
            if hasattr(c, "_offsets3d"):
                pts = [tuple(map(float, q)) for q in zip(*c._offsets3d)]
            elif type(c).__name__ == "PathCollection":
                pts = [tuple(map(float, q)) for q in c.get_offsets()]
            else:
                continue
            dots.append((str(c.get_label()), pts))
        three = [[tuple(map(float, q)) for q in zip(*l._verts3d)] for l in ax.lines if hasattr(l, "_verts3d")]
        axes.append({"lines": lines, "dots": dots, "three": three, "xlim": tuple(ax.get_xlim()), "violin": getattr(ax, "_violin", None),
                     "ticks": [(float(x), str(t.get_text())) for x, t in zip(ax.get_xticks(), ax.get_xticklabels())]})
    stem = os.path.splitext(os.path.basename(str(path)))[0]
    got = {"axes": axes, "dir": os.path.realpath(os.path.dirname(str(path)))}
    saved.setdefault(stem, []).append(got)


real_violin = matplotlib.axes.Axes.violinplot


def violinplot(self, dataset, positions=None, *a, **kw):
    data = [[float(x) for x in d] for d in dataset]
    pos = list(positions) if positions is not None else list(range(1, len(data) + 1))
    self._violin = (getattr(self, "_violin", None) or []) + list(zip(map(float, pos), data))
    return real_violin(self, dataset, positions, *a, **kw)


matplotlib.figure.Figure.savefig = snap
matplotlib.figure.Figure.tight_layout = lambda *a, **kw: None
matplotlib.axes.Axes.violinplot = violinplot
import matplotlib._pylab_helpers, matplotlib.backends.backend_agg, types
matplotlib.backends.backend_agg.FigureCanvasAgg.draw = lambda *a, **kw: None        # nothing to look at
matplotlib._pylab_helpers.gc = types.SimpleNamespace(collect=lambda *a: 0)           # a second per ten closed figures


def fix(x, k):
    x = float(x)
    return int(round(x * k)) if math.isfinite(x) and abs(x * k) < 2 ** 31 - 1 else -1


def exact(x):
    """an integer, or a value nobody stored"""
    return int(round(x)) if math.isfinite(x) and abs(x) < 2 ** 30 and abs(x - round(x)) < 1e-6 else -777


def main(sc, tr):
    rng = random.Random(sc["id"])
    ev = tr["ev"]
    probs, algos, budgets, contents, dims = sc["probs"], sc["algos"], sc["budgets"], sc["contents"], sc["dims"]
    pnum, anum = {n: i + 1 for i, n in enumerate(probs)}, {n: i + 1 for i, n in enumerate(algos)}
    tr["cfg"] = {"contents": contents, "dims": dims, "styled": [anum[a] for a in algos if a in sc["styled"]],
                 "selected": [anum[a] for a in algos if a in sc["selected"] and a in sc["styled"]], "budgets": budgets}
    base = os.path.realpath(tempfile.mkdtemp(prefix="rep"))
    cwd = os.getcwd()
    argv = sys.argv
    for n, m in zip(probs, dims):
        hplug.problem(n, [(0.0, 1.0)], [hplug.toy_f1] * m, [[0.0] * m])
    try:
        os.makedirs(os.path.join(base, "a", "b"))
        os.chdir(os.path.join(base, "a", "b"))
        usual = os.path.join(os.getcwd(), serialization.RESULTS_DIR)
        root = os.path.join(base, "elsewhere") if sc["elsewhere"] else usual
        os.makedirs(root)
        out = os.path.join(base, "drawn")
        stamps = sorted("20%02d-%02d-%02d.%06d.%06d" % (rng.randrange(10, 99), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(10 ** 6), rng.randrange(10 ** 6)) for _ in range(9))
        numbers = [rng.randrange(10 ** 7) for _ in range(9)]

        def case(p, a, r, where=None):
            return SimulationCase(probs[p - 1], algos[a - 1], None, None, where or root, "%s__%07d" % (stamps[r - 1], numbers[r - 1]))

        def forget(p, a, r, b, where=None):      # what was computed for a checkpoint
            d = str(Serializer(case(p, a, r, where)).path)
            for f in os.listdir(d) if os.path.isdir(d) else []:
                if re.match(r"%d\.[a-z_]+\.pickle$" % budgets[b - 1], f):
                    os.remove(os.path.join(d, f))

        def put(p, a, r, b, d, where=None):
            c, m = contents[d - 1], dims[p - 1]
            x, y = float(c["x"]), float(c["y"])
            pop = [[x, y] + [0.0] * (m - 2)] + ([[x + 8, y + 8] + [0.0] * (m - 2)] if c["dom"] else [])
            if rng.random() < 0.5:
                pop.reverse()
            forget(p, a, r, b, where)
            Serializer(case(p, a, r, where)).store(Result([[0.5]] * len(pop), pop, cost=c["cost"]), str(budgets[b - 1]))
        if sc["elsewhere"]:         # other results, where nobody asked to look
            put(1, 1, 1, 1, 1, usual)
            put(1, 1, 8, 1, 2, usual)

        def cli(what):
            saved.clear()
            args = [what]
            if what != "summary":
                args += ["-b", "12", "-j", rng.choice(["1", "2"])]
                if what != "stats":
                    args += ["-o", out]
                if sc["elsewhere"] or rng.random() < 0.3:
                    args += [rng.choice(["-d", "--dir"]), root]
                if what == "pictures_summary":
                    args += ["--selected", ",".join(s.lower() if sc["lower"] else s for s in sc["selected"])]
            sys.argv = ["evogil.py"] + ([rng.choice(["stats", "statistics"])] + args[1:] if what == "stats" else args)
            buf = io.StringIO()
            try:
                with contextlib.redirect_stdout(buf):
                    evogil.main_worker()
            finally:
                sys.argv = argv
            return buf.getvalue().splitlines()
        inside = lambda g: g["dir"] == out or g["dir"].startswith(out + os.sep)

        def once(res):          # the same figure in several formats
            return [g for i, g in enumerate(res) if g not in res[:i]]

        def figs(pattern):
            for stem in sorted(saved):
                m = re.fullmatch(pattern, stem)
                if m:
                    for g in saved[stem]:
                        yield m, g

        def report(what):
            lines = cli(what)
            if what == "summary":
                rows = []
                for l in lines:
                    w = l.split()
                    if len(w) == 4 and w[0] in pnum:
                        rows.append([pnum[w[0]], anum.get(w[1], 0), bnum(w[2]), int(w[3])])
                return {"rows": rows}
            if what == "stats":
                rows = []
                for l in lines:
                    w = [x.strip() for x in l.split(" :: ")]
                    if len(w) > 6 and w[0] in pnum and w[1] in anum:
                        lo, mean, hi = [fix(x, 1000) for x in w[6].split("≤")]
                        rows.append({"p": pnum[w[0]], "a": anum[w[1]], "n": int(w[2]), "b": bnum(w[3]), "m": w[4], "lo": lo, "mean": mean, "hi": hi})
                return {"rows": rows}
            if what == "pictures":
                res = []
                for m, g in figs(r"figures_metrics_(%s)_(%s)" % ("|".join(map(re.escape, probs)), "|".join(COMPARED))):
                    ls, clipped = [], 0
                    for ax in g["axes"]:
                        for label, pts in ax["lines"]:
                            if label in anum:
                                ls.append({"a": anum[label], "pts": [[exact(x), fix(y, 100)] for x, y in pts]})
                                clipped += sum(not (ax["xlim"][0] - 1e-6 <= x <= ax["xlim"][1] + 1e-6) for x, y in pts)
                    res.append({"p": pnum[m.group(1)], "m": m.group(2), "clipped": clipped, "out": inside(g), "lines": ls})
                return {"figs": once(res)}
            if what == "pictures_summary":
                res = []
                for m, g in figs(r"figures_summary_(%s)" % "|".join(COMPARED)):
                    ax = g["axes"][0]
                    at = {x: t for x, t in ax["ticks"]}
                    k = 4096 / math.log(2) if m.group(1) == "pdi" else 4096
                    spot = lambda pts: [[pnum.get(at.get(x, ""), 0), fix(y, k)] for x, y in pts]
                    res.append({"m": m.group(1), "labels": [pnum.get(t, 0) for x, t in ax["ticks"]], "out": inside(g),
                                "dots": [{"a": anum[l], "pts": spot(pts)} for l, pts in ax["dots"] if l in anum and pts],
                                "lines": [{"a": anum[l], "pts": spot(pts)} for l, pts in ax["lines"] if l in anum and pts]})
                return {"figs": once(res)}
            if what == "best_fronts":
                res = []
                for m, g in figs(r"figures_metrics_(%s)" % "|".join(map(re.escape, probs))):
                    p = pnum[m.group(1)]
                    ax, d = g["axes"][0], dims[p - 1]
                    front = {q for l, pts in ax["lines"] if l.startswith("_line") and len(pts) == 1 for q in pts}
                    if d > 2:
                        front = {tuple(q) for l, pts in ax["dots"] if l not in anum for q in pts}
                    res.append({"p": p, "out": inside(g), "front": [[exact(x) for x in q] for q in sorted(front)],
                                "dots": [{"a": anum[l], "pts": [[exact(x) for x in q] for q in pts]} for l, pts in ax["dots"] if l in anum and pts]})
                return {"figs": once(res)}
            if what == "violin":
                res = []
                for m, g in figs(r"figures_violin_(%s)_(%s)" % ("|".join(map(re.escape, probs)), "|".join(COMPARED))):
                    for ax in g["axes"]:
                        at = {x: t for x, t in ax["ticks"]}
                        v = ax["violin"] or []
                        res.append({"p": pnum[m.group(1)], "m": m.group(2), "out": inside(g), "algos": [anum.get(at.get(x, ""), 0) for x, d in v],
                                    "data": [[exact(2 * y) for y in d] for x, d in v]})
                return {"figs": once(res)}

        bnum = lambda s: budgets.index(int(s)) + 1 if int(s) in budgets else 0
        for op, p, a, r, b, d in sc["ops"]:
            if op == "put":
                put(p, a, r, b, d)
                ev.append({"k": "put", "p": p, "a": a, "r": r, "b": b, "d": d})
            elif op == "del":
                os.remove(str(Serializer(case(p, a, r)).get_result_path(str(budgets[b - 1]))))
                forget(p, a, r, b)
                ev.append({"k": "del", "p": p, "a": a, "r": r, "b": b})
            elif op == "delrun":
                shutil.rmtree(str(Serializer(case(p, a, r)).path))
                ev.append({"k": "delrun", "p": p, "a": a, "r": r})
            else:
                for what in sc["reports"].pop(0):
                    if what == "summary" and sc["elsewhere"]:
                        continue
                    ev.append(dict({"k": what}, **report(what)))
        return tr
    finally:
        sys.argv = argv
        os.chdir(cwd)
        shutil.rmtree(base, ignore_errors=True)


hlib.run_main(main, 100)
