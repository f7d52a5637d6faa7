"""C22 reports and figures show the stored results."""
LEVEL = "model_checking"
STYLED = [m + a for m in ("", "IMGA+", "HGS+", "DHGS+") for a in ("NSGAII", "IBEA", "OMOPSO", "NSGAIII", "JGBL", "NSLS")]
OTHERS = ["SPEA2", "SMSEMOA", "HGS+SPEA2", "IMGA+SMSEMOA", "DHGS+SPEA2", "MINE"]
PROBLEMS = ["EWA1", "EWA2", "ZDT1", "ZDT2", "ZDT4", "ZDT6", "UF1", "UF2", "UF3", "UF5", "UF8", "UF10", "UF11", "UF12"]
REPORTS = ["summary", "stats", "pictures", "pictures_summary", "best_fronts", "violin"]


def run(ctx):
    import vlib
    ctx.design("ReportsMC", "ReportsMC2.cfg")
    ctx.design("ReportsMC")
    r = ctx.tlc("ReportsMC", "ReportsMCAll.cfg", expect_ok=False, label="negative control: dividing the scores of earlier problems again")
    if not r.error or "violated" not in r.error:
        raise vlib.MachineryError("negative control did not fail")
    rng = ctx.rng
    n = 1500 if ctx.thorough else 160
    gen = ctx.generate("ReportsMC", "ReportsGen.cfg", args=("-simulate", "num=%d" % n, "-depth", "60", "-seed", str(ctx.seed)), workers=4)
    gen.sort(key=str)
    rng.shuffle(gen)
    scs = []
    for i, g in enumerate(gen[:n]):
        probs = rng.sample(PROBLEMS, 2)
        if rng.random() < 0.15:
            probs[rng.randrange(2)] = rng.choice(["MINE", "A0", "zz"])
        algos = rng.sample(STYLED, rng.choice([2, 3, 3, 4]))
        algos += rng.sample(OTHERS, 4 - len(algos))
        rng.shuffle(algos)
        budgets = rng.choice([[40, 500, 1500], [9, 10, 100], [500, 1000, 2500], [100, 700, 800]])
        top = budgets[-1]
        ks = [rng.randrange(13) for _ in range(6)]
        if rng.random() < 0.3:
            ks = [rng.choice([0, ks[0]]) for _ in range(6)]
        if rng.random() < 0.3:          # results close to the front
            ks = [rng.choice([0, -1, -1, ks[0]]) for _ in range(6)]
        contents = [{"x": 3 * k if k >= 0 else 1, "y": 4 * k if k >= 0 else 0, "g": 5 * k if k >= 0 else 1, "dom": rng.random() < 0.4, "cost": rng.choice([rng.choice(budgets), budgets[0] + 400, top + 400, top + 500, top + 501, top + rng.randrange(450, 560), top + 900])} for k in ks]
        ops = g["ops"] + ([["report", 0, 0, 0, 0, 0]] if g["ops"][-1][0] != "report" else [])
        if rng.random() < 0.5:          # many runs, one of them unlike the others
            p, a, b, d, n = rng.choice([1, 2]), rng.randrange(1, 5), rng.randrange(1, 4), rng.randrange(1, 7), rng.choice([4, 5, 7])
            odd = rng.randrange(1, 7)
            ops = ops[:-1] + [["put", p, a, r, b, odd if r == n else d] for r in range(1, n + 1)] + ops[-1:]
        reports = [rng.sample(REPORTS, rng.choice([1, 2])) for o in ops if o[0] == "report"]
        reports[-1] = [REPORTS[i % 6]] + [x for x in reports[-1] if x != REPORTS[i % 6]]
        if i % 12 == 0:             # nothing there yet
            ops = [["report", 0, 0, 0, 0, 0]] + ops
            reports = [list(REPORTS)] + reports
        scs.append({"id": "rep%d" % i, "probs": probs, "algos": algos, "budgets": budgets, "contents": contents, "dims": [rng.choice([2, 2, 3]), rng.choice([2, 2, 3])],
                    "styled": STYLED, "selected": rng.sample(algos, 2) + rng.sample(STYLED, 1), "lower": rng.random() < 0.2, "elsewhere": rng.random() < 0.4,
                    "ops": ops, "reports": reports})
    traces = ctx.harness("h_reports", scs, timeout=800)
    es = [e for t in traces for e in t["ev"]]
    by = lambda k: [e for e in es if e["k"] == k]
    ctx.need("histories", len(traces), 120)
    ctx.need("changes_of_the_results", len(by("put")) + len(by("del")) + len(by("delrun")), 1500)
    for k in REPORTS:
        ctx.need("reports_" + k, len(by(k)), 40)
    ctx.need("summary_rows", sum(len(e["rows"]) for e in by("summary")), 200)
    ctx.need("statistics_rows", sum(len(e["rows"]) for e in by("stats")), 2000)
    ctx.need("curves", sum(len(f["lines"]) for e in by("pictures") for f in e["figs"]), 500)
    ctx.need("scores", sum(len(d["pts"]) for e in by("pictures_summary") for f in e["figs"] for d in f["dots"]), 500)
    ctx.need("fronts", sum(len(f["dots"]) for e in by("best_fronts") for f in e["figs"]), 100)
    ctx.need("violins", sum(len(f["algos"]) for e in by("violin") for f in e["figs"]), 300)
    ctx.sample({"id": traces[0]["id"], "ev": traces[0]["ev"][:5]})
    ctx.report(ctx.validate("ReportsTrace", traces))
    ctx.assumptions = ["figures are read off matplotlib's objects when they are saved; what matplotlib then draws is trusted",
                       "populations of one or two points whose indicators are whole numbers (the definitions of the indicators are C21, C20)",
                       "scores are compared to about one per cent, the means printed by stats to their last digit"]
