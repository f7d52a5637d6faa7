"""C23 benchmark problems and their declared fronts."""
LEVEL = "model_checking"

# the largest distance between neighbours of the declared fronts, in millionths
MESH = {"ZDT1": 9000, "ZDT2": 9000, "ZDT3": 9000, "ZDT4": 9000, "ZDT6": 60000, "UF1": 9000, "UF2": 9000, "UF3": 9000, "UF4": 9000,
        "UF5": 50000, "UF6": 9000, "UF7": 9000, "UF8": 190000, "UF9": 120000, "UF10": 190000}


def run(ctx):
    import vlib
    ctx.design("ProblemsMC")
    r = ctx.tlc("ProblemsMC", "ProblemsMCLast.cfg", expect_ok=False, label="negative control: only the last evaluation counts")
    if not r.error or "violated" not in r.error:
        raise vlib.MachineryError("negative control did not fail")
    rng = ctx.rng
    scs = []
    for rep in range(6 if ctx.thorough else 2):
        for p in MESH:
            scs.append({"id": "%s-%d" % (p, rep), "problem": p, "full": True, "eps": 1000 if p == "ZDT3" else 300, "tol": 20, "ext": 1000, "mesh": MESH[p], "deep": ctx.thorough,
                        "bases": 40 if ctx.thorough else 8, "sweep": rng.choice([20, 32, 37]), "joint": 200, "uniform": 1500, "descents": 20, "length": 200})
    traces = ctx.harness("h_problems", scs, timeout=800)
    ctx.need("problems", len({t["id"].split("-")[0] for t in traces}), 15)
    ctx.need("evaluations", sum(t.get("stats", {}).get("evaluated", 0) for t in traces), 200000)
    ctx.need("declared_points", sum(t.get("stats", {}).get("front", 0) for t in traces), 2000)
    ctx.need("evaluations_judged", sum(len(t["ev"]) for t in traces), 4000)
    ctx.sample({"id": traces[0]["id"], "ev": traces[0]["ev"][1:4]})
    ctx.report(ctx.validate("ProblemsTrace", traces))
    ctx.assumptions = ["the points at which objectives are evaluated are proposed by the harness (published Pareto sets, variations, descents)"]
