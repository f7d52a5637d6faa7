"""C03 stepping and progress reports."""
LEVEL = "model_checking"
ALGOS = ["NSGAII", "NSGAIII", "SPEA2", "IBEA", "SMSEMOA", "OMOPSO", "JGBL", "NSLS"]


def run(ctx):
    ctx.design("StepRunMC")
    gen = ctx.generate("StepRunMC", "StepRunGen.cfg")
    rng = ctx.rng
    pick = gen if ctx.thorough else rng.sample(gen, min(len(gen), 2000))
    kinds = ["plain", "override", "super", "population", "inherit"]
    scs = [dict(g, id="gen%d-%s" % (i, kinds[i % 5]), algo="SCR", kind=kinds[i % 5], unit=[1, 1, 0.25][i % 3]) for i, g in enumerate(pick)]
    # several algorithm objects stepped in turn: numbering belongs to the object
    for i in range(200 if ctx.thorough else 60):
        scs.append({"id": "rnd%d" % i, "algo": "SCR", "kind": kinds[i % 5], "twin": True,
                    "ops": [rng.choice([["next", 0], ["steps", rng.randint(0, 6)], ["budget", rng.randint(0, 60)]]) for _ in range(8)],
                    "incs": [rng.choice([0, 1, 2, 9, -1]) if j % 11 == 10 else rng.choice([0, 1, 2, 9]) for j in range(80)]})
    for i in range(10):
        scs.append({"id": "long%d" % i, "algo": "SCR", "kind": kinds[i % 5], "unit": [1, 0.375][i % 2],
                    "ops": [["steps", rng.choice([60, 130])], ["next", 0], ["steps", rng.choice([51, 101, 150])], ["budget", rng.randint(300, 900)]],
                    "incs": [rng.choice([0, 1, 2, 9]) for j in range(80)]})
    real = []
    for a in ALGOS:
        for mode in (["", "HGS", "IMGA", "DHGS"] if ctx.thorough else ["", "HGS", "IMGA"]):
            real.append({"id": "%s-%s" % (a, mode or "bare"), "algo": a, "kind": "real", "adapter": mode, "popsize": 16,
                         "ops": [["next", 0], ["steps", 2], ["budget", 90], ["next", 0], ["steps", 1], ["budget", 10], ["steps", 0], ["next", 0]]})
    for a in (["IMGA+" + x for x in ALGOS] + ["HGS+" + x for x in ALGOS] if ctx.thorough else
              ["IMGA+NSGAII", "IMGA+SPEA2", "IMGA+OMOPSO", "HGS+NSGAII", "HGS+SMSEMOA"]):
        real.append({"id": a, "algo": a, "kind": "real", "adapter": "", "popsize": 64, "limit": 400,
                     "ops": [["next", 0], ["steps", 1], ["budget", 700], ["next", 0]]})
    traces = ctx.harness("h_steps", real, timeout=850) + ctx.harness("h_steps", scs, timeout=600)
    ctx.need("tlc_generated_scenarios", len(pick), 500)
    ctx.need("real_algorithm_runs", len(real), 29)
    ctx.need("reports_checked", sum(1 for t in traces for e in t["ev"] if e["k"] == "msg"), 3000)
    ctx.need("population_reports_checked", sum(1 for t in traces for e in t["ev"] if e["k"] == "msg" and e["haspop"]), 100)
    ctx.sample({"id": traces[-1]["id"], "cfg": traces[-1]["cfg"], "ev": traces[-1]["ev"][:12]})
    ctx.report(ctx.validate("StepRunTrace", traces))
    ctx.assumptions = ["the cost and population 'currently held' are read from the algorithm's public cost and population attributes; "
                       "for the island model the sum of the islands' costs is used as the cost held"]
