"""C19 cached indicators describe the results they are attached to."""
LEVEL = "model_checking"


def content(rng, m):
    n = rng.choice([1, 2, 3, 5, 8])
    pts = [[rng.randrange(4) for _ in range(m)] for _ in range(n)]
    if n > 1 and rng.random() < 0.4:
        pts.append(list(rng.choice(pts)))
    return pts


def big(rng, n):
    """histories with more algorithms, runs and points than the model's"""
    out = []
    for i in range(n):
        m = rng.choice([2, 3])
        cont = [[[rng.randrange(12) for _ in range(m)] for _ in range(rng.choice([60, 90]))] for _ in range(4)]
        if i % 2:
            # the points of the front come last
            cont = [sorted(c, key=lambda p: -sum(p)) for c in cont]
        algos = ["NSGAII", "SPEA2", "IBEA", "HGS+SPEA2", "b"][:rng.choice([2, 4, 5])]
        na, nr = len(algos), 12 if len(algos) == 2 else 3
        ops, there = [], set()
        put = lambda a, r, b: (there.add((a, r, b)), ops.append(["put", a, r, b, rng.randint(1, 4)]))
        for a in range(1, na + 1):
            for r in range(1, nr + 1):
                put(a, r, 1)
                if rng.random() < 0.3:
                    put(a, r, 2)
        ops.append(["query", 0, 0, 0, 0])
        for _ in range(3):
            for _ in range(rng.randint(1, 4)):
                a, r, b = rng.choice(sorted(there))
                k = rng.random()
                if k < 0.5:
                    put(a, r, rng.randint(1, 2))
                elif k < 0.8:
                    ops.append(["del", a, r, b, 0])
                    there.discard((a, r, b))
                else:
                    ops.append(["delrun", a, r, 0, 0])
                    there -= {x for x in there if x[:2] == (a, r)}
            ops.append(["query", 0, 0, 0, 0])
        out.append({"id": "big%d" % i, "m": m, "contents": cont, "ops": ops, "junk": i % 3 == 1, "long": i % 4 < 2, "algos": algos,
                    "budgets": rng.choice([[10, 20], [9, 10], [1000000, 1000001]])})
    return out


def run(ctx):
    import vlib
    ctx.design("IndicatorsMC")
    r = ctx.tlc("IndicatorsMC", "IndicatorsMCValues.cfg", expect_ok=False, label="negative control: comparing solutions without their names")
    if not r.error or "violated" not in r.error:
        raise vlib.MachineryError("negative control did not fail")
    rng = ctx.rng
    n = 3000 if ctx.thorough else 450
    gen = ctx.generate("IndicatorsMC", "IndicatorsGen.cfg", args=("-simulate", "num=%d" % n, "-depth", "40", "-seed", str(ctx.seed)), workers=4)
    gen.sort(key=str)
    rng.shuffle(gen)
    scs = []
    for i, g in enumerate(gen[:n]):
        m = rng.choice([2, 2, 3])
        c = [content(rng, m) for _ in range(5)]
        if i % 3 == 0:
            c = [c[0], c[0], c[1], c[1], c[0]]      # different results with the same values
        scs.append({"id": "ind%d" % i, "m": m, "contents": c, "ops": g["ops"] + [["query", 0, 0, 0, 0]], "junk": i % 2 == 1,
                    "algos": rng.choice([["NSGAII", "SPEA2", "IBEA"], ["HGS+SPEA2", "HGS", "A"], ["b", "a", "c"]]),
                    "budgets": rng.choice([[10, 20], [9, 10], [100, 20], [500, 1500], [1000000, 1000001]])})
    scs += big(rng, 60 if ctx.thorough else 12)
    traces = ctx.harness("h_indicators", scs, timeout=800)
    es = [e for t in traces for e in t["ev"]]
    ctx.need("histories", len(traces), 300)
    ctx.need("queries", sum(e["k"] == "query" for e in es), 800)
    ctx.need("dominance_indicators_compared", sum(len(e["got"]) for e in es if e["k"] == "query"), 2500)
    ctx.need("changes_of_the_results", sum(e["k"] in ("put", "del", "delrun") for e in es), 3000)
    ctx.need("questions_with_other_parameters", sum(e["k"] == "ask" for e in es), 800)
    ctx.sample({"id": traces[0]["id"], "ev": traces[0]["ev"][:5]})
    ctx.report(ctx.validate("IndicatorsTrace", traces))
    ctx.assumptions = ["values other than the dominance indicator are compared with the project's own indicator functions on freshly loaded results (their definitions are C21)",
                       "a checkpoint rewritten in place by hand keeps its cached values other than the dominance indicator; only the latter is required to be recomputed"]
