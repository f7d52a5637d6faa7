"""C07 dominance, layering, filtering."""
LEVEL = "model_checking"


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def run(ctx):
    ctx.design("ParetoMC")
    ctx.design("ParetoMC", "ParetoMC3.cfg")
    rng = ctx.rng
    s2 = [g["set"] for g in ctx.generate("ParetoMC", "ParetoGen2.cfg")]
    s3 = [g["set"] for g in ctx.generate("ParetoMC", "ParetoGen3.cfg")]
    pairs = [g["set"] for g in ctx.generate("ParetoMC", "ParetoGenPairs.cfg")]
    pairs += [s for s in s2 if len(s) == 2]
    for d in (4, 5):
        pairs += [[[rng.randint(0, 2) for _ in range(d)] for _ in range(2)] for _ in range(300)]
    # many objectives, where one pair in a few is comparable, the deciding objective anywhere
    for _ in range(600):
        d = rng.choice([6, 7, 8, 10])
        a = [rng.randint(0, 2) for _ in range(d)]
        b = list(a)
        for j in rng.sample(range(d), rng.choice([1, 1, 2, 3])):
            b[j] = rng.randint(0, 2)
        pairs.append([a, b])
    sets = s2 + s3
    for _ in range(2000 if ctx.thorough else 400):
        d = rng.choice([2, 3, 4, 7])
        v = rng.choice([1, 2, 5])
        sets.append([[rng.randint(0, v) for _ in range(d)] for _ in range(rng.randint(5, 12))])
    rng.shuffle(sets)
    drv = rng.sample(sets, 900 if ctx.thorough else 250)
    scs = [{"id": "pairs%d" % i, "what": "pairs", "sets": c} for i, c in enumerate(chunks(pairs, 40))]
    scs += [{"id": "sets%d" % i, "what": "sets", "sets": c} for i, c in enumerate(chunks(sets, 25))]
    scs += [{"id": "drv%d" % i, "what": "sets", "drivers": True, "sets": c} for i, c in enumerate(chunks(drv, 20))]
    traces = ctx.harness("h_pareto", scs, timeout=850)
    ctx.need("tlc_generated_multisets", len(s2) + len(s3), 3000)
    ctx.need("calls_checked", sum(len(t["ev"]) for t in traces), 25000)
    ctx.sample(traces[0]["ev"][:2])
    ctx.sample(traces[-1]["ev"][:2])
    ctx.report(ctx.validate("ParetoCallsTrace", traces))
    ctx.assumptions = ["objective values are finite numbers; strictly monotone maps turn model values into floats (including tiny, huge and negative ones)"]
