"""C01 budgeted runs."""
LEVEL = "model_checking"


def run(ctx):
    ctx.design("BudgetRunMC")
    gen = ctx.generate("BudgetRunMC", "BudgetRunGen.cfg")
    rng = ctx.rng
    scs = []
    for i, g in enumerate(gen):
        b = list(g["budgets"])
        rng.shuffle(b)                       # the command line may list budgets in any order,
        if i % 7 == 0:
            b.append(rng.choice(b))          # and repeat one
        scs.append({"id": "gen%d" % i, "algo": "SCR", "budgets": b, "costs": g["costs"],
                    "holds": ["plain", "live", "close", "large"][i % 5 % 4], "problem": ["TOY", "TOY3"][i % 2]})
    n = len(scs)
    for i in range(400 if ctx.thorough else 120):
        b = [rng.randint(1, 120) for _ in range(rng.randint(1, 7))]
        scs.append({"id": "rnd%d" % i, "algo": "SCR", "budgets": b,
                    "holds": rng.choice(["plain", "live", "close", "large"]), "problem": rng.choice(["TOY", "TOY3"]),
                    "costs": [rng.choice([0, 0, 1, 3, 7, 20, 55]) for _ in range(40)]})
    real = []
    algos = ["NSGAII", "NSGAIII", "SPEA2", "IBEA", "SMSEMOA", "OMOPSO", "JGBL", "NSLS"]
    chains = algos + ["IMGA+NSGAII", "IMGA+SPEA2", "HGS+NSGAII", "IMGA+SMSEMOA", "HGS+SPEA2"]
    if ctx.thorough:
        chains += ["IMGA+" + a for a in algos] + ["HGS+" + a for a in algos]
    for a in dict.fromkeys(chains):
        for j in range(2 if ctx.thorough else 1):
            if "HGS" in a:
                b = [200, 700, 1200]
            elif "IMGA" in a:
                b = [70, 500, 510, 900]
            else:
                b = [1, 30, 40, 41, 90, 260]
            rng.shuffle(b)
            real.append({"id": "real-%s-%d" % (a, j), "algo": a, "budgets": b, "popsize": 64 if "+" in a else 16, "problem": "TOY3" if a in ("NSGAII", "NSGAIII", "SPEA2", "IMGA+SPEA2") else "TOY",
                         "limit": 300})
    # long scenarios first so that shards balance
    traces = ctx.harness("h_budget", real, timeout=800) + ctx.harness("h_budget", scs, timeout=800)
    ctx.need("tlc_generated_scenarios", n, 200)
    ctx.need("real_algorithm_runs", len(real), 13)
    ctx.need("checkpoints_checked", sum(len(e["files"]) for t in traces for e in t["ev"] if e["k"] == "files"), 500)
    ctx.sample({"id": traces[-1]["id"], "cfg": traces[-1]["cfg"], "ev": traces[-1]["ev"][:12]})
    ctx.report(ctx.validate("BudgetRunTrace", traces))
    ctx.assumptions = ["cost is read from the algorithm's public cost attribute",
                       "a step and a final-population request are observed at the algorithm's documented methods"]
