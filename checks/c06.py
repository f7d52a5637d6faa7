"""C06 elitist environmental selection."""
LEVEL = "model_checking"
ALGOS = ["NSGAII", "JGBL", "SPEA2", "IBEA", "SMSEMOA", "NSLS", "NSGAIII"]


def run(ctx):
    ctx.design("ElitistMC")
    rng = ctx.rng
    g2 = [g["set"] for g in ctx.generate("ParetoMC", "ParetoGen6.cfg")]
    g3 = [g["set"] for g in ctx.generate("ParetoMC", "ParetoGen63.cfg")]
    scs = []
    per = 1200 if ctx.thorough else 160
    for a in ALGOS:
        for i in range(per):
            t = list(rng.choice(g2 if i % 3 else g3))
            rng.shuffle(t)
            scs.append({"id": "%s-gen%d" % (a, i), "algo": a, "n": {"SMSEMOA": 5, "NSGAIII": 4}.get(a, 3), "table": t, "v": 2 if i % 3 else 1,
                        "steps": 4, "nd": 1 if a == "NSLS" else 2})
        for i in range(240 if ctx.thorough else 24):
            d = rng.choice([2, 2, 3, 4])
            v = rng.choice([1, 2, 4, 9])
            n = rng.choice([2, 4, 6, 9, 16])
            kind = ["rand", "chain", "dup", "front"][i % 4]
            if kind == "chain":
                t = [[x] * d for x in range(v, -1, -1)] * 2
            elif kind == "dup":
                b = [[rng.randint(0, v) for _ in range(d)] for _ in range(3)]
                t = [rng.choice(b) for _ in range(3 * n)]
            elif kind == "front":
                t = [[x, v - x] + [rng.randint(0, v)] * (d - 2) for x in (rng.randint(0, v) for _ in range(2 * n))]
            else:
                t = [[rng.randint(0, v) for _ in range(d)] for _ in range(2 * n)]
            if kind != "chain":
                rng.shuffle(t)
            scs.append({"id": "%s-%s%d" % (a, kind, i), "algo": a, "n": n, "table": t, "v": v, "steps": 10, "nd": rng.choice([2, 3, 6]),
                        "crate": rng.choice([0, 1.0]), "mating": rng.choice([0.5, 1.0]), "ref": rng.choice([1, 1, 0])})
    traces = ctx.harness("h_elite", scs, timeout=850)
    cuts = [e for t in traces for e in t["ev"] if e["k"] == "cut"]
    ctx.need("selections_checked", len(cuts), 5000)
    ctx.need("selections_that_discard", sum(1 for e in cuts if len(e["kept"]) < len(e["offered"])), 3000)
    for a in ALGOS:
        ctx.need("selections_" + a, sum(len(t["ev"]) for t in traces if t["id"].startswith(a + "-")), 500)
    ctx.sample({"id": traces[0]["id"], "cfg": traces[0]["cfg"], "ev": traces[0]["ev"][:2]})
    ctx.report(ctx.validate("ElitistTrace", traces))
    ctx.assumptions = ["objective vectors on small grids (ties and duplicates), so that floating-point rounding in the indicator fitness cannot reorder candidates",
                       "candidates offered to NSLS's selection are known up to the local-search moves it evaluated"]
